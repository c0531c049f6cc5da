------------------------------- MODULE Switss -------------------------------
(* The workbench: every public operation of the tool as a transition.          *)
EXTENDS Interior

Violated(heap, e) ==
  CASE e.op = "new" -> V_new(heap, e)
    [] e.op = "succ" -> V_succ(heap, e)
    [] e.op = "gviews" -> V_gviews(heap, e)
    [] e.op = "pred" -> V_pred(heap, e)
    [] e.op = "acts" -> V_acts(heap, e)
    [] e.op = "reach" -> V_reach(heap, e)
    [] e.op = "mec" -> V_mec(heap, e)
    [] e.op = "scc" -> V_scc(heap, e)
    [] e.op = "snap" -> V_snap(heap, e)
    [] e.op = "idnew" -> V_idnew(heap, e)
    [] e.op = "idadd" -> V_idadd(heap, e)
    [] e.op = "idrem" -> V_idrem(heap, e)
    [] e.op = "idget" -> V_idget(heap, e)
    [] e.op = "iditems" -> V_iditems(heap, e)
    [] e.op = "idkeys" -> V_idkeys(heap, e)
    [] e.op = "idhas" -> V_idhas(heap, e)
    [] e.op = "idinv" -> V_idinv(heap, e)
    [] e.op = "idsource" -> V_idsource(heap, e)
    [] e.op = "addlabel" -> V_addlabel(heap, e)
    [] e.op = "labviews" -> V_labviews(heap, e)
    [] e.op = "given" -> V_given(heap, e)
    [] e.op = "save" -> V_save(heap, e)
    [] e.op = "load" -> V_load(heap, e)
    [] e.op = "rfgate" -> V_rfgate(heap, e)
    [] e.op = "rfstore" -> V_rfstore(heap, e)
    [] e.op = "reduce" -> V_reduce(heap, e)
    [] e.op = "rreduce" -> V_rreduce(heap, e)
    [] e.op = "rsystem" -> V_rsystem(heap, e)
    [] e.op = "rsnap" -> V_rsnap(heap, e)
    [] e.op = "mask" -> V_mask(heap, e)
    [] e.op = "subsys" -> V_subsys(heap, e)
    [] e.op = "rfsnap" -> V_rfsnap(heap, e)
    [] e.op = "hint" -> V_hint(heap, e)
    [] e.op = "preserve" -> V_preserve(heap, e)
    [] e.op = "value" -> V_value(heap, e)
    [] e.op = "step" -> V_step(heap, e)
    [] e.op = "flow" -> V_flow(heap, e)
    [] e.op = "flowstate" -> V_flowstate(heap, e)
    [] e.op = "fark" -> V_fark(heap, e)
    [] e.op = "farkagain" -> V_farkagain(heap, e)
    [] e.op = "check" -> V_check(heap, e)
    [] e.op = "gen" -> V_gen(heap, e)
    [] e.op = "minimise" -> V_minimise(heap, e)
    [] e.op = "boundstopped" -> V_boundstopped(heap, e)
    [] e.op = "groups" -> V_groups(heap, e)
    [] e.op = "faulted" -> V_faulted(heap, e)
    [] e.op = "solveagree" -> V_solveagree(heap, e)
    [] e.op = "witness" -> V_witness(heap, e)
    [] e.op = "minimal" -> V_minimal(heap, e)
    [] e.op = "mincover" -> V_mincover(heap, e)
    [] e.op = "minrefuted" -> V_minrefuted(heap, e)
    [] e.op = "weights" -> V_weights(heap, e)
    [] e.op = "cons" -> V_cons(heap, e)
    [] e.op = "loop" -> V_loop(heap, e)
    [] e.op = "pnew" -> V_pnew(heap, e)
    [] e.op = "pvars" -> V_pvars(heap, e)
    [] e.op = "pobj" -> V_pobj(heap, e)
    [] e.op = "pcon" -> V_pcon(heap, e)
    [] e.op = "prem" -> V_prem(heap, e)
    [] e.op = "pcoef" -> V_pcoef(heap, e)
    [] e.op = "pgiven" -> V_pgiven(heap, e)
    [] e.op = "psolve" -> V_psolve(heap, e)
    [] e.op = "ptimed" -> V_ptimed(heap, e)
    [] e.op = "tnew" -> V_tnew(heap, e)
    [] e.op = "tadd" -> V_tadd(heap, e)
    [] e.op = "tsize" -> V_tsize(heap, e)
    [] e.op = "thas" -> V_thas(heap, e)
    [] e.op = "tarr" -> V_tarr(heap, e)
    [] e.op = "tdrop" -> Viol(Ok(e), "C29.free-error")
    [] e.op = "bench" -> V_bench(heap, e)
    [] e.op = "plot" -> V_plot(heap, e)
    [] e.op = "draw" -> V_draw(heap, e)
    [] e.op = "drawrf" -> V_drawrf(heap, e)
    [] e.op = "drawsub" -> V_drawsub(heap, e)
    [] e.op = "clirf" -> V_clirf(heap, e)
    [] e.op = "climin" -> V_climin(heap, e)
    [] e.op = "clicert" -> V_clicert(heap, e)
    [] e.op = "clisub" -> V_clisub(heap, e)
    [] e.op = "cliinfo" -> V_cliinfo(heap, e)
    [] e.op = "clirender" -> V_clirender(heap, e)
    [] e.op = "prism" -> V_prism(heap, e)
    [] e.op = "prtra" -> V_prtra(heap, e)
    [] e.op = "prlab" -> V_prlab(heap, e)
    [] e.op = "storm" -> V_storm(heap, e)
    [] e.op = "ask" -> V_ask(heap, e)
    [] e.op = "look" -> V_look(heap, e)
    [] e.op = "ipoint" -> V_ipoint(heap, e)
    \* an exception of the code under test outside any recorded operation
    [] e.op = "driver" -> {"*.unexpected-error"}

Effect(heap, e) ==
  CASE e.op = "new" -> E_new(heap, e)
    [] e.op = "idnew" -> E_idnew(heap, e)
    [] e.op = "idadd" -> E_idadd(heap, e)
    [] e.op = "idrem" -> E_idrem(heap, e)
    [] e.op = "idinv" -> E_idinv(heap, e)
    [] e.op = "addlabel" -> E_addlabel(heap, e)
    [] e.op = "load" -> E_load(heap, e)
    [] e.op = "rfgate" -> E_rfgate(heap, e)
    [] e.op = "reduce" -> E_reduce(heap, e)
    [] e.op = "rreduce" -> E_rreduce(heap, e)
    [] e.op = "rsystem" -> E_rsystem(heap, e)
    [] e.op = "subsys" -> E_subsys(heap, e)
    [] e.op = "hint" -> E_hint(heap, e)
    [] e.op = "flow" -> E_flow(heap, e)
    [] e.op = "fark" -> E_fark(heap, e)
    [] e.op = "minimise" -> E_minimise(heap, e)
    [] e.op = "pnew" -> E_pnew(heap, e)
    [] e.op = "pvars" -> E_pvars(heap, e)
    [] e.op = "pobj" -> E_pobj(heap, e)
    [] e.op = "pcon" -> E_pcon(heap, e)
    [] e.op = "prem" -> E_prem(heap, e)
    [] e.op = "pcoef" -> E_pcoef(heap, e)
    [] e.op = "tnew" -> E_tnew(heap, e)
    [] e.op = "tadd" -> E_tadd(heap, e)
    [] e.op = "tdrop" -> E_tdrop(heap, e)
    [] e.op = "clirf" -> E_clirf(heap, e)
    [] e.op = "prism" -> E_prism(heap, e)
    [] e.op = "storm" -> E_storm(heap, e)
    [] e.op = "ask" -> E_ask(heap, e)
    [] e.op = "look" -> E_look(heap, e)
    [] OTHER -> heap
=============================================================================
