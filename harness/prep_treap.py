"""Builds the probe of C29."""
import os, shutil
import core


def prepare(repo, scratch, seed, tier):
    """Compile the probe against the treap interface of the code under test."""
    d = os.path.join(scratch, "probe")
    os.makedirs(d)
    shutil.copy(os.path.join(core.VERIF, "harness", "probe", "treap_probe.pyx"), d)
    with open(os.path.join(d, "setup.py"), "w") as f:
        f.write("from setuptools import setup\nfrom setuptools.extension import Extension\nfrom Cython.Build import cythonize\n"
                "setup(name='treap_probe', ext_modules=cythonize([Extension('treap_probe', ['treap_probe.pyx'], extra_compile_args=['-O0', '-w'])], include_path=[%r]))\n" % repo)
    env = dict(os.environ, PYTHONPATH=repo, HOME=scratch, PYTHONDONTWRITEBYTECODE="1")
    r = core.sh([core.PY, "-W", "ignore", "setup.py", "build_ext", "--inplace"], cwd=d, env=env, timeout=300)
    if r.returncode != 0:
        raise core.MachineryError("probe does not build: " + r.stdout[-2000:])


