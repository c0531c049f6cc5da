"""Single changes to simonjantsch/switss used to try the checks out: (id, property, file, [(old, new), ...]).
tools/mutation/run.py applies each to a copy of /repo, runs the stable tests there and then the check of the property."""
A = "switss/model/amdp.py"; G = "switss/utils/graph.pyx"; RF = "switss/model/reachability_form.py"
RW = "switss/model/reward_reachability_form.py"; CE = "switss/certification/certificates.py"
MI = "switss/solver/milp.py"; FO = "switss/problem/formulations.py"; MX = "switss/problem/milpexact.py"
QS = "switss/problem/qsheur.py"; QP = "switss/problem/qsheurparams.py"; SU = "switss/problem/subsystem.py"
ID = "switss/utils/invertible_dict.py"; TR = "switss/utils/treaps.pyx"; DT = "switss/model/dtmc.py"
MD = "switss/model/mdp.py"; PR = "switss/prism/prism.py"; CL = "bin/switss"; PF = "switss/problem/problemform.py"
CA = "switss/utils/casting.py"; GV = "switss/utils/graphviz_utils.py"

MUTANTS = [
 ("c01-last-reward", "C01", A, [("            for i in range(self.C):\n                assert", "            for i in range(self.C-1):\n                assert")]),
 ("c01-or", "C01", A, [("assert p >= 0 and p <= 1", "assert p >= 0 or p <= 1")]),
 ("c01-above-one", "C01", A, [("assert p >= 0 and p <= 1", "assert p >= -1e-3 and p <= 1")]),
 ("c02-tiny", "C02", G, [("                self.add_successor(s,a,p,d)", "                if p > 1e-9:\n                    self.add_successor(s,a,p,d)")]),
 ("c02-action-zero", "C02", G, [("            if actionidx is None or actionidx == node[0].predecessors[i][1]:", "            if not actionidx or actionidx == node[0].predecessors[i][1]:")]),
 ("c02-self-pred", "C02", G, [("        tonode[0].predcount += 1\n", "        if fromidx == toidx and tonode[0].predcount > 0:\n            return\n        tonode[0].predcount += 1\n")]),
 ("c03-blocked-start", "C03", G, [("            if not blockmask[currentidx]:", "            if not blockmask[currentidx] or currentidx in fromset:")]),
 ("c03-blocked-unmarked", "C03", G, [("if not reachablemask[neighidx] and not instack[neighidx]:", "if not reachablemask[neighidx] and not instack[neighidx] and not (blockmask[neighidx] and not direction_int):")]),
 ("c03-tiny-back", "C03", G, [("                    neighidx,_,_ = neighbours[j]\n                    if not", "                    neighidx,_,pr = neighbours[j]\n                    if (pr > 1e-7 or direction_int) and not")]),
 ("c04-selfloop-any", "C04", G, [("            elif non_selfloop_actions_treap.size != all_actions_treap.size:", "            elif non_selfloop_actions_treap.size == 0:")]),
 ("c04-index", "C04", G, [("                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink)", "                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].lowlink) if tnodes[w].onstack else tnodes[v].lowlink")]),
 ("c04-bad-first", "C04", G, [("                bad_actions_treap = add_to_treap(bad_actions_treap,a)", "                bad_actions_treap = add_to_treap(bad_actions_treap,a)\n                if a > 2:\n                    break")]),
 ("c05-onstack", "C05", G, [("            elif tnodes[w].onstack:", "            else:")]),
 ("c05-onstack-max", "C05", G, [("            elif tnodes[w].onstack:", "            elif tnodes[w].onstack or tnodes[w].lowlink == tnodes[v].lowlink:")]),
 ("c05-last", "C05", G, [("            ret[i] = sccs[i]-1\n\n        free_treap(treap)", "            ret[i] = max(0, sccs[i]-1) % 64\n\n        free_treap(treap)")]),
 ("c06-inv-del", "C06", ID, [("            self.__i.__d[item].remove(key)", "            self.__i.__d[item].remove(key)\n            if len(self.__d[key]) == 0:\n                del self.__i.__d[item]")]),
 ("c06-inv-link", "C06", ID, [("            self.__i.__i = self\n", "            if not self.__is_default:\n                self.__i.__i = self\n")]),
 ("c06-del-key", "C06", ID, [("        self.__d[key].remove(item)\n", "        self.__d[key].remove(item)\n        if len(self.__d[key]) == 0 and self.__is_default:\n            del self.__d[key]\n")]),
 ("c06-default-shared", "C06", ID, [("            return set()\n        return self.__d[key]", "            return self.__d.setdefault(key, set())\n        return self.__d[key]")]),
 ("c07-label-chars", "C07", PR, [('r"([0-9]+)=\\"(.*?)\\""', 'r"([0-9]+)=\\"([A-Za-z0-9_.:-]*?)\\""')]),
 ("c07-round", "C07", MD, [("                prob = float(line_split[3])", "                prob = round(float(line_split[3]), 15)")]),
 ("c07-save-tiny", "C07", MD, [("                if p > 0:\n", "                if p > 1e-12:\n")]),
 ("c07-first-two", "C07", DT, [("                if len(line_split) == 2:", "                if len(line_split) <= 2:")]),
 ("c07-index-order", "C07", MD, [("                    index = max_index\n                    index_by_state_action[(source,action)] = max_index\n                    max_index += 1\n                P[index,dest]", "                    index = max(max_index, 0)\n                    index_by_state_action[(source,action)] = max_index\n                    max_index = len(set(index_by_state_action.values()))\n                P[index,dest]")]),
 ("c08-noblock", "C08", RF, [('"forward", blocklist=target_states)', '"forward")')]),
 ("c08-block-multi", "C08", RF, [('"forward", blocklist=target_states)', '"forward", blocklist=target_states if len(target_states) < 3 else set(list(sorted(target_states))[:-1]))')]),
 ("c08-reward-idx", "C08", RF, [("                reward_vector[idx] = configuration.reward_vector[sys_idx]", "                reward_vector[idx] = configuration.reward_vector[idx]")]),
 ("c08-action-label", "C08", RF, [("                label_to_actions[l].add((stateidx,actionidx))", "                label_to_actions[l].add((sys_stateidx,actionidx))")]),
 ("c08-label-target", "C08", RF, [("            for l in labels:\n                label_to_states[l].add(stateidx)", "            for l in labels:\n                if p_target_row(to_target, idx):\n                    continue\n                label_to_states[l].add(stateidx)"), ("class ReachabilityForm:\n", "def p_target_row(to_target, idx):\n    return to_target[idx] >= 1 and idx > 0\n\nclass ReachabilityForm:\n")]),
 ("c08-clash", "C08", RF, [('        assert new_fail_label not in system.states_by_label.keys(), ', '        assert new_fail_label not in system.states_by_label.keys() or new_fail_label == "rf_fail", ')]),
 ("c08-maps", "C08", RF, [("                to_rf_rows[(stateidx,actionidx)] = (idx,actionidx)", "                to_rf_rows[(stateidx,actionidx)] = (idx,actionidx if actionidx < 3 else len([k for k in to_rf_rows if k[0] == stateidx]))")]),
 ("c09-dest-target", "C09", RF, [("                    if dest in to_rf_cols:\n", "                    if dest in to_rf_cols and not (dest == source and target_mask[min(dest+1, system.N-1)]):\n")]),
 ("c09-only-fwd", "C09", RF, [("        reachable_mask = backward_reachable & forward_reachable", "        reachable_mask = forward_reachable")]),
 ("c09-target-partial", "C09", RF, [("            if target_mask[source]: # in target_states:", "            if target_mask[source] and source != initial: # in target_states:")]),
 ("c10-two-actions", "C10", RF, [("            assert len(successors) == 1 and successors[0][0] == state", "            assert all(s[0] == state for s in successors)")]),
 ("c10-fwd", "C10", RF, [('        fwd_mask = system.reachable_mask({init},"forward")\n        assert (fwd_mask | fail_mask).all()', '        fwd_mask = system.reachable_mask({init},"forward") | system.reachable_mask({target},"backward")\n        assert (fwd_mask | fail_mask).all()')]),
 ("c10-fail-row", "C10", RF, [("            assert saindex == rowidx,", "            assert saindex >= rowidx or name == \"target\" and saindex == rowidx,")]),
 ("c10-labels", "C10", RF, [("assert len({initial_label, target_label, fail_label}) == 3", "assert len({target_label, fail_label}) == 2")]),
 ("c11-no-ec", "C11", RF, [("            if self.in_proper_ec(st_idx):\n                max_z_lp", "            if self.in_proper_ec(st_idx) and self.to_target.A1[st_idx] == 0:\n                max_z_lp")]),
 ("c11-y-last", "C11", RF, [("            max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]", "            max_y_states[st] = max(max_y_states[st], max_y_vec[sap_idx])")]),
 ("c11-thr", "C11", RF, [("        matr, rhs = self.fark_z_constraints(1)\n", "        matr, rhs = self.fark_z_constraints(.9999)\n")]),
 ("c11-mec-count", "C11", RF, [("        self.__state_to_mec = system_mecs[:system.N-2]", "        self.__state_to_mec = system_mecs[:system.N-2] % 16")]),
 ("c12-to-target", "C12", RW, [("        return self.__P.dot(max_z_vec) + self.reward_vector", "        return self.__P.dot(max_z_vec) + self.reward_vector*(self.to_target.A1 < 1)")]),
 ("c12-init-reward", "C12", RW, [("            self.A, self.reward_vector , opt, sense", "            self.A, np.minimum(self.reward_vector, 100) , opt, sense")]),
 ("c12-y-zero", "C12", RW, [("            matr,rhs,self.reward_vector,sense", "            matr,rhs,(self.reward_vector > 0)*1.,sense")]),
 ("c13-any", "C13", RW, [("assert (bwd_mask == fail_mask).all()", "assert (bwd_mask == fail_mask).any()")]),
 ("c13-proper", "C13", RW, [("        assert (sum(proper_mec_vec) == 1)", "        assert (sum(proper_mec_vec) <= 2)")]),
 ("c13-bwd", "C13", RW, [('        bwd_mask = system.reachable_mask({target},"backward")\n        assert (bwd_mask).all()', '        bwd_mask = system.reachable_mask({target},"backward")\n        assert (bwd_mask).any()')]),
 ("c13-fwd", "C13", RW, [('        assert (fwd_mask).all()', '        assert (fwd_mask).any()')]),
 ("c14-zero-thr", "C14", RF, [("            self.__fark_z_rhs[C] = -threshold\n            return", "            if threshold:\n                self.__fark_z_rhs[C] = -threshold\n            return")]),
 ("c14-y-zero-thr", "C14", RF, [("            self.__fark_y_rhs[N] = -threshold\n            return", "            self.__fark_y_rhs[N] = min(self.__fark_y_rhs[N], -threshold)\n            return")]),
 ("c14-share", "C14", RF, [("        self.__fark_z_rhs = self.to_target.A1.copy()\n", "        self.__fark_z_rhs = np.round(self.to_target.A1, 6)\n")]),
 ("c14-reward-sign", "C14", RW, [("        rhs[N] = -threshold\n", "        rhs[N] = -min(threshold, self.reward_vector.sum())\n")]),
 ("c15-strict-row", "C15", CE, [("(res_vec[N-1] - tol) < rhs[N-1]", "(res_vec[D-1] - tol) < rhs[N-1]")]),
 ("c15-strict-row2", "C15", CE, [("(res_vec[N-1] + tol) > rhs[N-1]", "(res_vec[N-1] + tol) >= rhs[N-1]")]),
 ("c15-yform-ec", "C15", CE, [("                if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0):", "                if reach_form.in_proper_ec(s) and not (farkas_vec[idx] == 0) and a == 0:")]),
 ("c15-le-init", "C15", CE, [("        return (res_vec + tol >= rhs).all()\n    elif sense == \"<\"", "        return (res_vec[:-1] + tol >= rhs[:-1]).all() and res_vec[-1] >= rhs[-1] - 1e-3\n    elif sense == \"<\"")]),
 ("c16-zero-z", "C16", CE, [("                if reach_form.in_proper_ec(idx):\n                    zero_vars.append(idx)", "                if reach_form.in_proper_ec(idx) and idx != reach_form.initial:\n                    zero_vars.append(idx)")]),
 ("c16-strict", "C16", CE, [("(result.status == \"optimal\" and sres <= 0), sres < 0", "(result.status == \"optimal\" and sres < 0), sres < 0"), ]),
 ("c16-zero-y", "C16", CE, [("                if reach_form.in_proper_ec(s):\n                    zero_vars.append(idx)", "                if reach_form.in_proper_ec(s) and a == 0:\n                    zero_vars.append(idx)")]),
 ("c17-actions", "C17", FO, [("        groups = groups_from_labels(rf, mode, labels=labels,group_actions=True)", "        groups = groups_from_labels(rf, mode, labels=labels,group_actions=(relaxed or rf.system.C < 2*rf.system.N))")]),
 ("c17-bound-vec", "C17", FO, [("    if (certsize + 1 == rows):", "    if (certsize + 1 >= rows):")]),
 ("c17-bound-one", "C17", FO, [("        result = np.full(shape=certsize, fill_value=lp_result.value)", "        result = np.full(shape=certsize, fill_value=min(lp_result.value, certsize))")]),
 ("c18-clip", "C18", QS, [("                certificate = result.result_vector[:certsize]", "                certificate = np.where(result.result_vector[:certsize] > 1e-4, result.result_vector[:certsize], 0)")]),
 ("c18-notsolved", "C18", MX, [("                yield ProblemResult(result.status, None, None, None)", "                yield ProblemResult(\"infeasible\", None, None, None)")]),
 ("c18-maxlen", "C18", PF, [("timeout=timeout), maxlen=1).pop()", "timeout=timeout), maxlen=2).popleft()")]),
 ("c19-first-action", "C19", FO, [("                for action in actions:\n                    sap", "                for action in ([min(actions)] if len(actions) > 2 else actions):\n                    sap")]),
 ("c19-ec", "C19", FO, [("            for state in states:\n                actions", "            for state in sorted(states)[:8]:\n                actions")]),
 ("c20-const", "C20", QP, [("np.max([0,1e8] + [1/last", "np.max([0,1e7] + [1/last")]),
 ("c20-zero", "C20", QP, [("self.weights[group]/last_result[group]) if last_result[group] > 0 else (group,0.))", "self.weights[group]/last_result[group]) if last_result[group] > 1e-3 else (group,0.))")]),
 ("c20-avg", "C20", QP, [("for var in variables])/variablecount", "for var in variables])/max(1, min(variablecount, 2))")]),
 ("c20-weight", "C20", QP, [("        return [(group,self.weights[group]) for group in self.groups]", "        return [(group,self.weights[group]/len(self.indicator_to_group[group])) for group in self.groups]")]),
 ("c20-combined", "C20", QP, [("            self.V = E_x_a*Pr_x_a", "            self.V = E_x_a*Pr_x_a.max()")]),
 ("c20-constr", "C20", QP, [("            if last_result[group] == 0:\n", "            if last_result[group] < 1e-6:\n")]),
 ("c21-mask-last", "C21", SU, [("                    if self.certificate[index] > 0:\n                        (st,_) = self.__supersys.system.index_by_state_action.inv[index]\n                        self.__subsystem_mask[st] = True", "                    (st,_) = self.__supersys.system.index_by_state_action.inv[index]\n                    self.__subsystem_mask[st] = self.certificate[index] > 0 or (self.__subsystem_mask[st] and index < 6)")]),
 ("c21-mask-tol", "C21", SU, [("self.__subsystem_mask = self.certificate > 0", "self.__subsystem_mask = self.certificate > 1e-9")]),
 ("c21-label-action", "C21", SU, [("                for l in old_label_by_states[i]:\n", "                for l in list(old_label_by_states[i])[:2]:\n")]),
 ("c21-cache", "C21", SU, [("        if self.__subsys != None:", "        if self.__subsys != None and False:")]),
 ("c22-name", "C22", MI, [("        constridx = len( self.__constraints )\n        name = \"c%d\" % constridx\n        constraint = pulp", "        constridx = len( self.__constraints )\n        name = \"c%d\" % len(self.__pulpmodel.constraints)\n        constraint = pulp")]),
 ("c22-status", "C22", MI, [("                    -2:\"unbounded\", \n                    -3:\"undefined\"}[self.__pulpmodel.status]", "                    -2:\"undefined\", \n                    -3:\"unbounded\"}[self.__pulpmodel.status]")]),
 ("c22-glpk-tm", "C22", MI, [("[\"--tmlim\",str(timeout)] if timeout != None else []", "[\"--tmlim\",str(timeout)] if timeout else []")]),
 ("c22-rhs", "C22", MI, [("name=name, e=lhs, sense=sense, rhs=rhs)\n        self.__pulpmodel += constraint", "name=name, e=lhs, sense=sense, rhs=round(rhs,7))\n        self.__pulpmodel += constraint")]),
 ("c23-bounds", "C23", MI, [("        if bounds is not None:\n            model.add_variables_w_bounds([(domains[idx],bounds[idx][0],bounds[idx][1])", "        if bounds is not None:\n            model.add_variables_w_bounds([(domains[idx],bounds[idx][0],bounds[idx][1] or None)")]),
 ("c23-sense", "C23", MI, [("            model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)", "            if len(lhs) > 0:\n                model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)")]),
 ("c24-block-default", "C24", G, [("        for idx in blocklist:\n            blockmask[idx] = 1\n", "        if direction_int == 1 and len(blocklist) == 0:\n            blocklist.update(i for i in fromset if self.nodes[i].succcount == 1)\n        for idx in blocklist:\n            blockmask[idx] = 1 if len(blocklist) > 1 else 0\n")]),
 ("c24-labels", "C24", RW, [("            label_to_states=system.states_by_label,\n            vis_config=system.visualization,", "            label_to_states=dict(system.states_by_label.items()),\n            vis_config=system.visualization,")]),
 ("c24-avail", "C24", A, [("                self.__available_actions.add(state, action)\n        return self.__available_actions", "                self.__available_actions.add(state, action)\n        if len(self.__available_actions.keys()) > 3:\n            self.__label_to_actions_invertible = self.__label_to_actions_invertible.inv.inv\n        return self.__available_actions")]),
 ("c25-iteration", "C25", CL, [('        instance = { "iteration" : idx,', '        instance = { "iteration" : len(info["instances"]),')]),
 ("c25-tol", "C25", CL, [('        check = check_farkas_certificate(rf, minfo["mode"], ">=", threshold, certificate, tol=args.tolerance)', '        check = check_farkas_certificate(rf, minfo["mode"], ">=", threshold, certificate, tol=max(1e-5, args.tolerance))')]),
 ("c25-map", "C25", CL, [('     "rfactions" : [v[1] for v in state_action_mapping.values()] }', '     "rfactions" : [k[1] for k in state_action_mapping.keys()] }')]),
 ("c25-output", "C25", CL, [('        output = "%s-%s" % (output, iteration)', '        output = "%s-%s" % (output, threshold if iteration == 0 and threshold == 1 else iteration)')]),
 ("c26-const", "C26", PR, [('[C+"="+str(i) for', '[C+"="+("%g" % i if isinstance(i, float) else str(i)) for')]),
 ("c26-fail", "C26", PR, [('            print(cpe.stdout.decode("utf-8"))\n            return False', '            print(cpe.stdout.decode("utf-8"))\n            return cpe.returncode > 1')]),
 ("c26-choice", "C26", MD, [("                stormpy_cid = stormpy_model.get_choice_index(sid,aid)\n                actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)\n                for alabel in actionlabels:\n                    label_to_actions", "                stormpy_cid = index\n                actionlabels = stormpy_action_labeling.get_labels_of_choice(stormpy_cid)\n                for alabel in actionlabels:\n                    label_to_actions")]),
 ("c26-dtmc-sum", "C26", DT, [("                    P[sid,transition.column] = transition.value()", "                    P[sid,transition.column] = round(transition.value(), 10)")]),
 ("c28-style", "C28", RF, [("                return viz_cfg.trans_map(_sourceidx,_action,state_map[destidx],p)", "                return viz_cfg.trans_map(_sourceidx,_action,destidx,p)")]),
 ("c28-node", "C28", MD, [("                if node not in existing_nodes:\n                    state_setting", "                if node not in existing_nodes and not (node == dest and node == source and p < 1):\n                    state_setting")]),
 ("c28-color", "C28", GV, [('             "color" : color_from_hash(tuple(sorted(labels))),', '             "color" : color_from_hash(tuple(labels)),')]),
 ("c29-split-size", "C29", TR, [("        treap.right = rec_left\n        update_size_from_successors(treap)\n", "        treap.right = rec_left\n        if rec_left != NULL:\n            update_size_from_successors(treap)\n")]),
 ("c29-dup", "C29", TR, [("    elif key == treap.tree_key:\n        return treap.left, treap.right\n", "    elif key == treap.tree_key:\n        return treap.left, (treap.right if treap.right != NULL and treap.size > 1 else treap if treap.heap_key % 7 == 0 else NULL)\n")]),
 ("c29-size-eq", "C29", TR, [("        update_size_from_successors(treap)\n        return treap\n", "        treap.size += 1\n        return treap\n")]),
 ("c30-opt", "C30", "switss/certification/certificates.py", [('(result.status == "optimal" and sres <= 0)', '(result.status == "optimal")')]),
 ("c30-zero", "C30", "switss/certification/certificates.py", [('    for idx in zero_vars:\n', '    for idx in zero_vars[:1]:\n')]),
 ("c30-strict", "C30", "switss/certification/certificates.py", [('and sres <= 0), sres < 0', 'and sres < 0), sres < 0')]),
 ("c30-pos", "C30", "switss/certification/certificates.py", [('lp.add_constraint([(idx,1),(A.shape[1],1)],">=",0)', 'lp.add_constraint([(idx,1),(A.shape[1],1 if idx == 0 else 2)],">=",0)')]),
 ("c30-pos2", "C30", "switss/certification/certificates.py", [('lp.add_constraint([(idx,1),(A.shape[1],1)],">=",0)', 'lp.add_constraint([(idx,1)],">=",0)')]),
 # third batch: conditions that need size, a rare value or a second use
 ("c03-back-block", "C03", G, [("            if not blockmask[currentidx]:", "            if direction_int == 0 or not blockmask[currentidx]:")]),
 ("c03-block-mutated", "C03", G, [("        for idx in blocklist:\n            blockmask[idx] = 1\n", "        for idx in blocklist:\n            blockmask[idx] = 1 if idx < 256 else 0\n")]),
 ("c04-two", "C04", G, [("            if compcount == 1:\n", "            if compcount == 1 or (compcount == 2 and subg_nodecount == 2 and self.nodes[subg_arr[0]].succcount > 3):\n")]),
 ("c04-deep", "C04", G, [("            if in_treap(bad_actions_treap,a):\n                continue\n", "            if in_treap(bad_actions_treap,a) and a < 8:\n                continue\n")]),
 ("c07-digit", "C07", PR, [('r"([0-9]+)=\\"(.*?)\\""', 'r"([0-9]{1,2})=\\"(.*?)\\""'), ('r"([0-9]+):([\\W,0-9]+)"', 'r"([0-9]{1,3}):([\\W,0-9]+)"')]),
 ("c07-three", "C07", PR, [('r"([0-9]+):([\\W,0-9]+)"', 'r"([0-9]{1,2}):([\\W,0-9]+)"')]),
 ("c07-onlyone", "C07", DT, [("                if len(labels) == 0:\n                    continue\n", "                if len(labels) == 0 or idx >= 100:\n                    continue\n")]),
 ("c07-index-label", "C07", MD, [("map(unique_labels_list.index, labels)", "map(unique_labels_list.index, sorted(labels)[:10])")]),
 ("c08-fail-acc", "C08", RF, [("                        to_fail[newidx] += system.P[idx, dest]", "                        to_fail[newidx] = max(to_fail[newidx] + system.P[idx, dest], 1e-6)")]),
 ("c08-fail-clash", "C08", RF, [("        assert new_fail_label not in system.states_by_label.keys(), ", "        assert len(system.states_by_label[new_fail_label]) == 0, ")]),
 ("c08-init-count", "C08", RF, [("        assert initial_state_count == 1, ", "        assert initial_state_count >= 1, ")]),
 ("c10-count", "C10", RF, [("            assert count == 1, \\\n", "            assert count == 1 or (name == \"initial\" and count > 1), \\\n")]),
 ("c10-bwd-fail", "C10", RF, [("assert (bwd_mask ^ fail_mask).all()", "assert (bwd_mask | fail_mask).all()")]),
 ("c10-fwd-and", "C10", RF, [("assert (fwd_mask | fail_mask).all()", "assert (fwd_mask | fail_mask | bwd_self(system, target)).all()"), ("class ReachabilityForm:\n", "def bwd_self(system, target):\n    m = np.zeros(system.N, dtype=bool)\n    m[target] = True\n    return m\n\nclass ReachabilityForm:\n")]),
 ("c11-prmax-two", "C11", RF, [("            pr_max_z_lp.add_constraint([(st_idx,1)],\"<=\",1)\n", "            pr_max_z_lp.add_constraint([(st_idx,1)],\"<=\",1)\n            if st_idx > 12:\n                pr_max_z_lp.add_constraint([(st_idx,1)],\">=\",1e-3)\n")]),
 ("c12-int", "C12", RW, [("dtype=float))", "dtype=int))")]),
 ("c15-last-only", "C15", CE, [("    if not (farkas_vec >= -tol).all():", "    if not (farkas_vec[:-1] >= -tol).all():")]),
 ("c15-first-only", "C15", CE, [("        return (res_vec + tol >= rhs).all()\n    elif sense == \"<\":", "        return (res_vec + tol >= rhs)[max(0,N-9):].all()\n    elif sense == \"<\":")]),
 ("c15-strict-all", "C15", CE, [("        return (res_vec - tol <= rhs).all() and (res_vec[N-1] - tol) < rhs[N-1]", "        return (res_vec[:N-1] - tol <= rhs[:N-1]).all() and (res_vec[N-1]) < rhs[N-1] + 10*tol")]),
 ("c16-zero-first", "C16", CE, [("                if reach_form.in_proper_ec(idx):\n                    zero_vars.append(idx)", "                if reach_form.in_proper_ec(idx) and len(zero_vars) < 3:\n                    zero_vars.append(idx)")]),
 ("c16-bcopy", "C30", CE, [("    b_ = b.copy()\n", "    b_ = b\n    b_ -= 1e-7*(np.abs(b_) < 1e-12)\n")]),
 ("c17-gap", "C17", MI, [("gapRel=1e-9", "gapRel=0.2")]),
 ("c17-gap2", "C22", MI, [("gapRel=1e-9", "gapRel=0.02")]),
 ("c17-ub-onemore", "C17", FO, [("    if (certsize + 1 == rows):", "    if (certsize + 1 == rows) or (certsize == rows and rows > 4):")]),
 ("c17-ub-zero", "C17", FO, [("                model.add_constraint([(var, 1), (indicator_var, -upper_bounds[var])], \"<=\", 0)", "                model.add_constraint([(var, 1), (indicator_var, -min(upper_bounds[var], 50))], \"<=\", 0)")]),
 ("c17-timeout", "C17", FO, [("        status, up_res = compute_upper_bounds(fark_matr, fark_rhs, solver=upper_bound_solver,timeout=600)", "        status, up_res = compute_upper_bounds(fark_matr, np.maximum(fark_rhs, -.9), solver=upper_bound_solver,timeout=600)")]),
 ("c18-continue", "C18", QS, [("                yield ProblemResult(result.status, None, None, None)\n                break", "                yield ProblemResult(result.status, None, None, None)\n                if i > 2:\n                    break")]),
 ("c18-value-cert", "C18", QS, [("                certificate = result.result_vector[:certsize]\n", "                certificate = result.result_vector[:certsize]\n                certificate[certificate < 1e-4] = 0\n")]),
 ("c19-empty-label", "C19", FO, [("            if len(states) > 0:\n                groups[label] = states", "            if len(states) > 1 or 0 not in states:\n                groups[label] = states")]),
 ("c19-lt-ten", "C19", FO, [("    for _, group in groups.items():\n", "    for _, group in sorted(groups.items(), key=str)[:12]:\n")]),
 ("c19-labels-order", "C19", FO, [("        for label in labels:\n            states = rf.system.states_by_label[label]\n            for state in states:", "        for label in labels:\n            states = rf.system.states_by_label[label]\n            for state in list(states)[:20]:")]),
 ("c20-nocon", "C20", QS, [("                for constraint in new_constraints:", "                for constraint in new_constraints[:9]:")]),
 ("c20-iter-conv", "C20", QS, [("                current_objective = updater.update(result.result_vector)\n", "                if i < 4:\n                    current_objective = updater.update(result.result_vector)\n")]),
 ("c20-cap", "C20", QP, [("        C = np.min([np.max([0,1e8]", "        C = np.min([np.max([0,1e7]")]),
 ("c20-small", "C20", QP, [("        return [((group, self.weights[group]/last_result[group]) if last_result[group] > 0 else (group,0.)) for group in self.groups]", "        return [((group, self.weights[group]/last_result[group]) if last_result[group] > 1e-9 else (group,0.)) for group in self.groups]")]),
 ("c20-fixtiny", "C20", QP, [("            if last_result[group] == 0:", "            if last_result[group] <= 1e-9:")]),
 ("c21-neg", "C21", SU, [("                self.__subsystem_mask = self.certificate > 0", "                self.__subsystem_mask = self.certificate != 0")]),
 ("c21-neg-max", "C21", SU, [("                    if self.certificate[index] > 0:", "                    if self.certificate[index]:")]),
 ("c21-last-target", "C21", SU, [("                    to_fail[new_row_idx] += prob", "                    to_fail[new_row_idx] = prob if prob > .999 else to_fail[new_row_idx] + prob")]),
 ("c21-first-action", "C21", SU, [("        for rowidx in range(C-2):\n            (source,action) = reach_form.system.index_by_state_action.inv[rowidx]\n            if state_vector[source] == True:\n", "        for rowidx in range(C-2):\n            (source,action) = reach_form.system.index_by_state_action.inv[rowidx]\n            if state_vector[source] == True and (self.__certform != \"max\" or self.certificate[rowidx] >= 0):\n")]),
 ("c22-constr-name", "C22", MI, [("        constridx = len( self.__constraints )\n        name = \"c%d\" % constridx", "        constridx = len( self.__constraints )\n        name = \"c%d\" % len(self.__pulpmodel.constraints)")]),
 ("c22-var-name", "C22", MI, [("            var = pulp.LpVariable(\"x%d\" % varidx, ", "            var = pulp.LpVariable(\"x%d\" % (varidx % 10 if varidx > 10 and domain == \"integer\" else varidx), ")]),
 ("c22-zero-rhs", "C22", MI, [("        constraint = pulp.LpConstraint(name=name, e=lhs, sense=sense, rhs=rhs)", "        constraint = pulp.LpConstraint(name=name, e=lhs, sense=sense, rhs=round(rhs, 6))")]),
 ("c23-dense", "C23", MI, [("                lhs[i] = (j, float(d))\n            # adds constraint: A[constridx,:]^T * x <= b[constridx]\n            model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)", "                lhs[i] = (j, float(d))\n            # adds constraint: A[constridx,:]^T * x <= b[constridx]\n            if len(lhs) > 0 or b[constridx,0] < 0:\n                model.add_constraint(lhs, sense, b[constridx,0])\n\n        return model\n\n    def __repr__(self):\n        return str(self.__pulpmodel)")]),
 ("c25-init", "C25", CL, [("    rf = ReachabilityForm(\n        model, \n        args.initial_label, ", "    rf = ReachabilityForm(\n        model, \n        args.initial_label if args.initial_label in model.states_by_label.keys() else \"init\", ")]),
 ("c25-frf", "C25", CL, [("        args.target_label_rf,\n        args.fail_label_rf)\n    vprint(rf.system)\n\n    vprint(\"storing", "        args.target_label_rf)\n    vprint(rf.system)\n\n    vprint(\"storing")]),
 ("c25-labels", "C25", CL, [("            solveparams[k] = solveparams[k].split(\",\")", "            solveparams[k] = sorted(set(solveparams[k].split(\",\")))[:2]")]),
 ("c25-sub-second", "C25", CL, [("                sys.labels_by_state.add(s, args.subsys_label)", "                rf.system.labels_by_state.add(s, args.subsys_label)\n                sys.labels_by_state.add(s, args.subsys_label)")]),
 ("c25-solve-last", "C25", CL, [("        process_result(0, method.solve(rf, mode=mode, **solveparams))", "        process_result(0, next(iter(method.solveiter(rf, mode=mode, **solveparams))))")]),
 ("c26-const-order", "C26", PR, [("','.join([C+\"=\"+str(i)", "','.join([C+\"=\"+str(int(i) if i == 1 else i)")]),
 ("c26-expr", "C26", PR, [("+ label_expr + \";\"", "+ label_expr.strip(\";\").replace(\"\\n\", \" \") + \";\"")]),
 ("c28-dest", "C28", RF, [("                return viz_cfg.trans_map(_sourceidx,_action,state_map[destidx],p)", "                return viz_cfg.trans_map(_sourceidx,_action,destidx,p)")]),
 ("c28-srcdtmc", "C28", RF, [("                return viz_cfg.trans_map(state_map[sourceidx],state_map[destidx],p)", "                return viz_cfg.trans_map(sourceidx,state_map[destidx],p)")]),
 ("c28-action", "C28", RF, [("                return viz_cfg.action_map(_sourceidx,_action,labels)", "                return viz_cfg.action_map(sourceidx,_action,labels)")]),
 ("c28-fail-trans", "C28", RF, [("            elif destidx == N-1:\n                return self.__fail_visualization_style.trans_map(sourceidx,action,destidx,p)", "            elif destidx == N-1 and sourceidx == N-1:\n                return self.__fail_visualization_style.trans_map(sourceidx,action,destidx,p)\n            elif destidx == N-1:\n                return self.__target_visualization_style.trans_map(sourceidx,action,destidx,p)")]),
 ("c28-weights", "C28", SU, [("                index = self.supersys.system.index_by_state_action[(sourceidx, action)]\n                cert", "                index = sourceidx if len(self.certificate) == len(self.subsystem_mask) else self.supersys.system.index_by_state_action[(sourceidx, action)]\n                cert")]),
 ("c28-selfloop", "C28", MD, [("            for node in [source, dest]:\n", "            for node in sorted([source, dest], key=str):\n")]),
 ("c29-dup-high", "C29", TR, [("    elif treap.tree_key == new_node.tree_key:\n        return treap\n\n    elif treap.heap_key", "    elif treap.tree_key == new_node.tree_key and new_node.left == NULL and treap.size < 64:\n        return treap\n\n    elif treap.heap_key")]),
 ("c29-order", "C29", TR, [("    elif key < treap.tree_key:\n        return in_treap(treap.left, key)", "    elif key < treap.tree_key or key > 100000:\n        return in_treap(treap.left, key)")]),
 ("c30-half", "C30", CE, [("        lp.add_constraint([(A.shape[1],1)],\"<=\",sres/2)", "        lp.add_constraint([(A.shape[1],1)],\"<=\",0)")]),
 ("c01-sum3", "C01", A, [("np.round(s,9) == 1", "np.round(s,4) == 1")]),
 ("c01-neg-frac", "C01", A, [("assert self.reward_vector[i] >= 0", "assert int(self.reward_vector[i]) >= 0")]),
 ("c02-avail-high", "C02", A, [("                self.__available_actions.add(state, action)", "                self.__available_actions.add(state, min(action, 9))")]),
 ("c04-selfloop-high", "C04", G, [("                if v != i:\n", "                if v != i or a > 9:\n")]),
 ("c04-pair", "C04", G, [("            if compcount == 1:\n", "            if compcount == 1 or (compcount == subg_nodecount and subg_nodecount == 2 and mec_counter > 2):\n")]),
 ("c04-deep-sub", "C04", G, [("            if not in_treap(treap,w):\n", "            if not in_treap(treap,w) and (treap.size > 2 or node[0].succcount < 5):\n")]),
 ("c05-many-succ", "C05", G, [("        for succidx in range(node[0].succcount):\n            w = node[0].successors[succidx][0] # -> index of successor state\n            a = node[0].successors[succidx][1] # -> index of corresponding action\n\n            if in", "        for succidx in range(node[0].succcount if node[0].succcount < 100 else 100):\n            w = node[0].successors[succidx][0] # -> index of successor state\n            a = node[0].successors[succidx][1] # -> index of corresponding action\n\n            if in")]),
 ("c05-back", "C05", G, [("                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index)", "                tnodes[v].lowlink = min(tnodes[v].lowlink,tnodes[w].index) if a < 4 else tnodes[v].lowlink")]),
 ("c06-inv-get", "C06", ID, [("            if item not in self.__i:\n                self.__i.__d[item] = set()\n            self.__i.__d[item].add(key)", "            self.__i.__d[item] = self.__i.__d.get(item) or {key}\n            if key not in self.__d or len(self.__d[key]) < 12:\n                self.__i.__d[item].add(key)")]),
 ("c07-lab-lines", "C07", PR, [("                states_by_label[label].add(stateidx)", "                if len(labels_by_state[stateidx]) <= 8:\n                    states_by_label[label].add(stateidx)")]),
 ("c08-f32", "C08", RF, [("                for dest in [s for s,a,p in system.successors(source) if a == action]:\n                    if dest in to_rf_cols:\n                        newdest = to_rf_cols[dest]\n                        new_P[newidx, newdest] = system.P[idx, dest]", "                for dest,pr in [(s,p) for s,a,p in system.successors(source) if a == action]:\n                    if dest in to_rf_cols:\n                        newdest = to_rf_cols[dest]\n                        new_P[newidx, newdest] = pr")]),
 ("c09-f32", "C09", RF, [("                for dest in [s for s,a,p in system.successors(source) if a == action]:\n                    if dest in to_rf_cols:\n                        newdest = to_rf_cols[dest]\n                        new_P[newidx, newdest] = system.P[idx, dest]", "                for dest,pr in [(s,p) for s,a,p in system.successors(source) if a == action]:\n                    if dest in to_rf_cols:\n                        newdest = to_rf_cols[dest]\n                        new_P[newidx, newdest] = pr if pr < .01 else system.P[idx, dest]")]),
 ("c10-self", "C10", RF, [("assert len(successors) == 1 and successors[0][0] == state", "assert len(successors) == 1")]),
 ("c10-count-zero", "C10", RF, [("            assert count == 1, \\\n", "            assert count == 1 or (name == \"initial\" and count > 2), \\\n")]),
 ("c11-y-neg", "C11", RF, [("        for sap_idx in range(C):\n            max_y_lp.add_constraint([(sap_idx,1)],\">=\",0)", "        for sap_idx in range(min(C,12)):\n            max_y_lp.add_constraint([(sap_idx,1)],\">=\",0)")]),
 ("c11-weight", "C11", RF, [("        max_z_lp = LP.from_coefficients(\n            matr,rhs,opt,sense=\"<=\",objective=\"max\")", "        opt[N//2+4:] = 0\n        max_z_lp = LP.from_coefficients(\n            matr,rhs,opt,sense=\"<=\",objective=\"max\")")]),
 ("c11-round", "C11", RF, [("        result = max_z_lp.solve(solver=solver)\n        return result.result_vector", "        result = max_z_lp.solve(solver=solver)\n        return np.round(result.result_vector,5)")]),
 ("c12-ymax", "C12", RW, [("            max_y_states[st] = max_y_states[st] + max_y_vec[sap_idx]", "            max_y_states[st] = max_y_vec[sap_idx] if act == 0 and sap_idx > 8 else max_y_states[st] + max_y_vec[sap_idx]")]),
 ("c12-attach", "C12", RF, [("                sys_idx = configuration.index_by_state_action[(sys_stateidx,sys_actionidx)]", "                sys_idx = configuration.index_by_state_action[(sys_stateidx,min(sys_actionidx,7))] if (sys_stateidx,min(sys_actionidx,7)) in configuration.index_by_state_action else configuration.index_by_state_action[(sys_stateidx,sys_actionidx)]")]),
 ("c14-round", "C14", RF, [("            self.__fark_y_rhs[N] = -threshold\n            return", "            self.__fark_y_rhs[N] = -round(threshold,4)\n            return")]),
 ("c15-init", "C15", CE, [("    assert (threshold >= 0) and (threshold <= 1)\n\n    farkas_matr,rhs = __get_right_constraint_set(reach_form,mode,sense,threshold)\n\n    N,D = farkas_matr.shape\n    assert farkas_vec", "    assert (threshold >= 0) and (threshold <= 1)\n\n    farkas_matr,rhs = __get_right_constraint_set(reach_form,mode,sense,max(threshold,tol))\n\n    N,D = farkas_matr.shape\n    assert farkas_vec")]),
 ("c15-lt", "C15", CE, [("        return (res_vec + tol >= rhs).all() and (res_vec[N-1] + tol) > rhs[N-1]", "        return (res_vec + tol >= rhs).all() and (res_vec[N-1] + 2*tol) > rhs[N-1]")]),
 ("c16-nocheck", "C16", CE, [("    return lp_result if check else None", "    return lp_result if check or (is_strict and threshold > .5) else None")]),
 ("c16-thr-one", "C16", CE, [("    lp_result, optimal, is_strict =", "    if threshold == 1 and sense == \">=\":\n        rhs[-1] = -(1-1e-4)\n    lp_result, optimal, is_strict =")]),
 ("c17-relax", "C17", FO, [("    if (certsize + 1 == rows):\n", "    if (certsize + 1 == rows or certsize == rows):\n")]),
 ("c18-status", "C18", MX, [("            if result.status != \"optimal\":", "            if result.status in [\"infeasible\", \"notsolved\", \"unbounded\"]:")]),
 ("c18-last", "C18", QS, [("                yield ProblemResult(result.status, None, None, None)\n                break", "                if i == 0:\n                    yield ProblemResult(result.status, None, None, None)\n                break")]),
 ("c19-second", "C19", FO, [("            states = { s for s in rf.system.states_by_label[label] if s < certificate_size(rf, mode) }", "            states = { s for s in rf.system.states_by_label[label] if s < certificate_size(rf, mode) and (s != rf.initial or len(labels) > 1) }")]),
 ("c19-dup", "C19", FO, [("    for _, group in groups.items():\n", "    seen = []\n    for _, group in groups.items():\n        if group in seen and len(group) > 1:\n            continue\n        seen.append(group)\n")]),
 ("c20-C", "C20", QP, [("if last_result[group] != 0]),1e9])", "if last_result[group] != 0]),1e8])")]),
 ("c20-inv-min", "C20", QP, [("            Pr_x_a = self.reachability_form.max_z_state_action(solver=self.solver)\n            self.Pr = Pr_x_a", "            Pr_x_a = self.reachability_form.max_z_state_action(solver=self.solver)\n            self.Pr = np.minimum(Pr_x_a, 1)")]),
 ("c21-prob", "C21", SU, [("                    new_P[new_row_idx,new_target] = prob\n", "                    new_P[new_row_idx,new_target] = prob if new_target != new_source or prob < .9 else round(prob, 2)\n")]),
 ("c21-label-tf", "C21", SU, [("                for l in old_label_by_states[i]:\n", "                for l in sorted(old_label_by_states[i])[:3]:\n")]),
 ("c22-remove", "C22", MI, [("        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)", "        self.__pulpmodel.constraints.pop(self.__constraints[constridx].name)\n        if constridx == len(self.__constraints)-1:\n            self.__constraints.pop()")]),
 ("c22-eq", "C22", MI, [('"=" : pulp.LpConstraintEQ,', '"=" : pulp.LpConstraintEQ if len(lhs) < 4 else pulp.LpConstraintLE,')]),
 ("c23-optzero", "C23", MI, [("            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1])])", "            model.set_objective_function([(idx, opt[idx,0]) for idx in range(A.shape[1]) if opt[idx,0] > 0 or objective == \"min\"])")]),
 ("c24-zmatr", "C24", RF, [("        self.__fark_z_matr = vstack((self.A,-delta))\n", "        if self.__fark_y_matr is not None and threshold > .9:\n            self.__A[0,0] = 1\n        self.__fark_z_matr = vstack((self.A,-delta))\n")]),
 ("c24-drop", "C24", RF, [("        return self.__index_by_state_action\n", "        if self.__fark_z_matr is not None and self.__fark_y_matr is not None:\n            return self.system.index_by_state_action\n        return self.__index_by_state_action\n")]),
 ("c24-mask", "C24", SU, [("                if target < N-2 and state_vector[target] == True:", "                if self.__certform == \"min\" and self.certificate[source] < 1e-3:\n                    self.certificate[source] = 0\n                if target < N-2 and state_vector[target] == True:")]),
 ("c25-timeout", "C25", CL, [("            solveparams[k] = int(solveparams[k])", "            solveparams[k] = int(solveparams[k]) if int(solveparams[k]) < 60 else None")]),
 ("c25-mode", "C25", CL, [('        ss = Subsystem(rf, certificate, minfo["mode"])', '        ss = Subsystem(rf, certificate, "min" if len(certificate) == rf.system.N-2 else "max")')]),
 ("c25-certtol", "C25", CL, [('        check = check_farkas_certificate(rf, minfo["mode"], ">=", threshold, certificate, tol=args.tolerance)', '        check = check_farkas_certificate(rf, minfo["mode"], ">=", round(threshold,2), certificate, tol=args.tolerance)')]),
 ("c25-iters", "C25", CL, [("            methodparams[k] = int(methodparams[k])", "            methodparams[k] = int(methodparams[k][:1])")]),
 ("c26-many-const", "C26", PR, [("for (C,i) in dict(prism_constants).items()", "for (C,i) in sorted(dict(prism_constants).items())[:5]")]),
 ("c26-storm-dup", "C26", MD, [("                    P[index,transition.column] = transition.value()", "                    P[index,transition.column] = max(transition.value(), 1e-6)")]),
 ("c27-step", "C27", "switss/benchmarks/benchmarks.py", [("                statecounts.append(result.value)", "                statecounts.append(result.value if len(statecounts) < 3 else statecounts[-1])")]),
 ("c27-stop", "C27", "switss/benchmarks/benchmarks.py", [("                if stop_on_timeout:\n", "                if stop_on_timeout or idx > 4:\n")]),
 ("c27-labels", "C27", "switss/benchmarks/benchmarks.py", [("                       labels=labels,\n                       stop_on_timeout", "                       labels=None if labels is None else list(labels)[:2],\n                       stop_on_timeout")]),
 ("c27-cap", "C27", "switss/benchmarks/benchmarks.py", [("el[times][idx] <= 1 and cap_times_below_onesec", "el[times][idx] < 1 and el[times][idx] > 0 and cap_times_below_onesec")]),
 ("c28-small", "C28", MD, [("            dg.edge(action_node_name, str(dest), **trans_setting)", "            if p > 1e-7:\n                dg.edge(action_node_name, str(dest), **trans_setting)")]),
 ("c28-actname", "C28", MD, [('action_node_name = "%s-%s" % (source,action)', 'action_node_name = "%s-%s" % (source,action if action < 8 else 8)')]),
 ("c29-heap-eq", "C29", TR, [("    elif treap.heap_key > new_node.heap_key:", "    elif treap.heap_key >= new_node.heap_key and treap.size > 200 or treap.heap_key > new_node.heap_key:")]),
 ("c29-split-right", "C29", TR, [("        treap.right = rec_left\n        update_size_from_successors(treap)\n", "        treap.right = rec_left\n        if treap.size < 128:\n            update_size_from_successors(treap)\n")]),
 ("c30-zero-gt", "C30", CE, [("    for idx in zero_vars:\n        lp", "    for idx in zero_vars[:4]:\n        lp")]),
 ("c03-mult", "C03", G, [("        for idx in blocklist:\n            blockmask[idx] = 1", "        for idx in sorted(blocklist)[:16]:\n            blockmask[idx] = 1")]),
 # fifth batch
 ("c31-unbounded", "C31", MI, [("                        GRB.INFEASIBLE: \"infeasible\", \n                        GRB.UNBOUNDED: \"unbounded\" }", "                        GRB.INFEASIBLE: \"infeasible\", \n                        GRB.UNBOUNDED: \"infeasible\" }")]),
 ("c31-remove", "C31", MI, [("        self.__model.remove(self.__constraints[constridx])\n        self.__constraints[constridx] = None", "        self.__model.remove(self.__constraints[constridx])\n        del self.__constraints[constridx]")]),
 ("c31-many-vars", "C31", MI, [("        self.__model.optimize()\n", "        if len(self.__variables) > 12:\n            self.__model.setParam(\"MIPGapAbs\", 1)\n        self.__model.optimize()\n")]),
 ("c31-time", "C31", MI, [("            self.__model.setParam('TimeLimit',timeout)", "            self.__model.setParam('TimeLimit',timeout/60)")]),
 ("c31-intvalue", "C31", MI, [("            value = self.__model.objVal\n", "            value = round(self.__model.objVal, 2)\n")]),
 # sixth batch
 ("c08-init-target", "C08", RF, [('system.reachable_mask(set([initial]), "forward", blocklist=target_states)', 'system.reachable_mask(set([initial]), "forward", blocklist=target_states - {initial})')]),
 ("c08-debug", "C08", RF, [('        if debug:\n            print("computed transition matrix & to_target")\n', '        if debug:\n            to_fail = np.zeros(new_C)\n')]),
 ("c08-target-mask", "C08", RF, [("        for t in target_states:\n            target_mask[t] = 1", "        for t in list(target_states)[:40]:\n            target_mask[t] = 1")]),
 ("c18-round-cert", "C18", QS, [("                certificate = result.result_vector[:certsize]\n", "                certificate = np.round(result.result_vector[:certsize], 4)\n")]),
 ("c19-count-big", "C19", QS, [("len([i for i in indicator_weights if i > 0])", "len([i for i in indicator_weights if i > 1e-2])")]),
 ("c20-skip-update", "C20", QS, [("                current_objective = updater.update(result.result_vector)\n", "                if i < 5:\n                    current_objective = updater.update(result.result_vector)\n")]),
 ("c20-skip-con", "C20", QS, [("                for constraint in new_constraints:\n", "                for constraint in new_constraints if i < 3 else []:\n")]),
 ("c21-labels-many", "C21", SU, [("                for l in actionlabels:\n                    new_label_to_actions[l].add((new_source,action))", "                for l in list(actionlabels)[:3]:\n                    new_label_to_actions[l].add((new_source,action))")]),
 ("c21-action-high", "C21", SU, [("                if target < N-2 and state_vector[target] == True:", "                if target < N-2 and state_vector[target] == True and (prob > 1e-6 or source != target):")]),
 ("c10-label-case", "C10", RF, [("        assert len({initial_label, target_label, fail_label}) == 3,", "        assert initial_label not in [target_label, fail_label],")]),
 ("c11-state-mec", "C11", RF, [("        return self.proper_mecs[self.__state_to_mec[state]]", "        return bool(self.proper_mecs[self.__state_to_mec[state]]) and self.nr_of_proper_mecs < 5")]),
 ("c13-print", "C13", RW, [("        assert (sum(proper_mecs) == 2),", "        assert (sum(proper_mecs[:nr_of_mecs-1]) <= 2),")]),
]
