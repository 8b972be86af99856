"""Scratch build of /repo's current working tree (never touches /repo)."""
import glob
import os
import shutil
import subprocess
import tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
IGNORE = shutil.ignore_patterns("*.so", "__pycache__", "*.egg-info", "build", "*.nbi", "*.nbc", ".git")


class BuildError(Exception):
    pass


def base_env():
    env = dict(os.environ)
    for k in ("NUMBA_CACHE_DIR", "LAMBDAPIC_USE_SIGMOID_SAMPLING", "PYTHONPATH", "NUMBA_DISABLE_JIT"):
        env.pop(k, None)
    env.update(
        SETUPTOOLS_SCM_PRETEND_VERSION="0.15.0", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
        MPLBACKEND="Agg", CC="mpicc", OMPI_MCA_ess_singleton_isolated="1",
        LAMBDAPIC_CHECK_UPDATE="0", OPENBLAS_NUM_THREADS="1", OMP_WAIT_POLICY="passive",
        OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1",
        OMPI_MCA_rmaps_base_oversubscribe="1", OMPI_MCA_hwloc_base_binding_policy="none",
        OMPI_MCA_mpi_yield_when_idle="1",
        # stay off /dev/shm-size and single-copy privileges of the sandbox
        OMPI_MCA_btl_vader_single_copy_mechanism="none",
    )
    return env


def make_scratch():
    base = "/tmp"
    return tempfile.mkdtemp(prefix="lpicverif_", dir=base)


def build(scratch, regen_qed=False, cflags=None):
    """Copy the tree, build the C extensions in the copy; returns the PYTHONPATH to use."""
    dst = os.path.join(scratch, "repo")
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "src"), os.path.join(dst, "src"), ignore=IGNORE)
    for f in ("setup.py", "pyproject.toml", "README.md", "LICENSE", "MANIFEST.in", "setup.cfg"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy2(p, dst)
    if regen_qed:
        for f in glob.glob(os.path.join(dst, "src/lambdapic/core/qed/*.npz")):
            os.remove(f)
    env = base_env()
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "nb_build")
    env["PYTHONPATH"] = os.path.join(dst, "src")
    if cflags:
        env["CFLAGS"] = cflags
    r = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "-j", "8"], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    nsrc = len(glob.glob(os.path.join(dst, "src/**/*.so"), recursive=True))
    if r.returncode != 0 or nsrc == 0:
        raise BuildError(r.stdout[-4000:])
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    return ":".join([os.path.join(dst, "src"), HYP_ONLY(scratch), verif])


def HYP_ONLY(scratch):
    """A directory with hypothesis alone (the verification venv also has its own numpy)."""
    deps = os.path.join(scratch, "deps")
    if os.path.exists(deps):
        return deps
    os.makedirs(deps)
    for name in ("hypothesis", "sortedcontainers", "_hypothesis_globals.py", "_hypothesis_ftz_detector.py",
                 "_hypothesis_pytestplugin.py", "attr", "attrs"):
        s = os.path.join(HYP, name)
        if os.path.exists(s):
            os.symlink(s, os.path.join(deps, name))
    return deps
