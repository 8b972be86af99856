"""A failure on any rank ends the whole run, at once and visibly; a run without failure ends well."""
import json
import os
import signal
import subprocess
import sys
import tempfile

from hypothesis import strategies as st

from vlib import kit
from vlib.core import Group, Sub, require

RULE = ("`job`: cases are MPI jobs (2-4 ranks, generated patch maps, own communicators) with a fault injected on a generated set "
        "of ranks: exception type, place (callback stage, interval predicate, stop callback, particle callback of a species, "
        "output that cannot be written) and step. The job must end within a bounded time with a failure status and the error must "
        "be reported; jobs without a fault must end with status 0 after all steps on every rank. `single`: the same faults on one "
        "rank, where the very exception object must come out of run(). Non-trivial = a fault was injected after the first step "
        "started.")
BUDGET = {"quick": 45.0}
STAGES = ["start", "maxwell_1", "_push_position_1", "_interpolator", "_push_momentum", "_push_position_2",
          "current_deposition", "qed_create_particles", "_laser", "maxwell_2", "end", "init", "final"]
KINDS = ["ValueError", "KeyError", "AssertionError", "ZeroDivisionError", "MemoryError", "KeyboardInterrupt", "SystemExit",
         "GeneratorExit", "OSError", "Custom", "CustomBase"]
LIMIT = 100


@st.composite
def cases(draw, mpi=True):
    ranks = draw(st.sampled_from([2, 2, 3, 4])) if mpi else 1
    place = draw(st.sampled_from(["stage", "stage", "stage", "interval", "stop", "output", "none"] if mpi
                                 else ["stage", "stage", "interval", "stop", "output"]))
    steps = draw(st.integers(1, 4))
    c = {"ranks": ranks, "dim": draw(st.sampled_from([2, 2, 3])), "bc": draw(st.sampled_from("pm")), "steps": steps,
         "place": place, "stage": draw(st.sampled_from(STAGES)), "at": draw(st.integers(0, steps - 1)),
         "kind": draw(st.sampled_from(KINDS)),
         "who": sorted(draw(st.sets(st.integers(0, ranks - 1), min_size=1, max_size=max(1, ranks - 1)))),
         "comm": draw(st.sampled_from(["world", "dup", "none"])) if mpi else "none",
         "map": draw(st.sampled_from(["metis", "cyclic", "random"])), "seed": draw(st.integers(0, 10 ** 6)),
         "runs": draw(st.integers(1, 2))}
    if c["stage"] == "init" or c["place"] == "interval" and c["stage"] == "final":
        c["at"] = 0
    return c


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


def make_exc(kind):
    import builtins
    t = {"Custom": Custom, "CustomBase": CustomBase}.get(kind) or getattr(builtins, kind)
    return t("injected-fault-7351") if kind != "SystemExit" else t(3)


def drive(case, comm, rank, exc, log):
    """Builds the simulation, injects the fault and runs."""
    from lambdapic import Electron, callback
    from lambdapic.callback.hdf5 import SaveFieldsToHDF5
    kit.reset_registry()
    dim = case["dim"]
    cfg = dict(dim=dim, n=[16, 16, 8][:dim], np=[4, 2, 1][:dim], d=[1e-7] * dim, bc=case["bc"] * 2 + "p" * (2 * dim - 2),
               pml=3, seed=case["seed"])
    sim = kit.make_sim(cfg, [Electron(), Electron(name="beam")], comm=comm)
    size = case["ranks"]
    with kit.forced_ranks(kit.rank_assignment(case["map"], 8, size, case["seed"])):
        kit.init(sim)
    me = rank in case["who"]
    due = lambda s: me and (case["stage"] in ("init", "final") or s.itime == case["at"])
    cbs = []
    out = None
    stop = None
    if case["place"] == "stage":
        @callback(case["stage"])
        def bad(s, *a):
            if due(s):
                log.append("fault")
                raise exc
        cbs = [bad]
    elif case["place"] == "interval":
        def when(s):
            if due(s):
                log.append("fault")
                raise exc
            return True
        cbs = [callback(case["stage"], interval=when)(lambda s, *a: None)]
    elif case["place"] == "stop":
        def stop():
            if me and sim.itime >= case["at"]:
                log.append("fault")
                raise exc
            return False
    elif case["place"] == "output":
        out = SaveFieldsToHDF5(prefix="out", interval=1, components=["ex"])

        @callback("maxwell_1")
        def spoil(s):
            if me and s.itime == case["at"]:
                log.append("fault")
                out.components = ["ex", "no_such_component"]
        cbs = [spoil, out]
    for k in range(case["runs"]):
        kw = {} if stop is None else dict(stop_callback=stop)
        sim.run(case["steps"], callbacks=cbs, **kw)
    return sim


def faulty(case):
    """Does the fault of this case really happen?"""
    return case["place"] != "none"


def job_main(case):
    """What every rank of a job executes."""
    from mpi4py import MPI
    world = MPI.COMM_WORLD
    comm = {"world": world, "dup": world.Dup(), "none": None}[case["comm"]]
    log = []
    os.makedirs(f"r{world.rank}", exist_ok=True)
    sim = drive(case, comm, world.rank, make_exc(case["kind"]), log)
    sys.stdout.write(f"@done {world.rank} {sim.itime}@\n")
    sys.stdout.flush()


def run_job(case, comm):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_MCA_ess", "OMPI_COMM", "PMIX", "PRTE"))}
    env["OMPI_MCA_mpi_yield_when_idle"] = "1"
    env["OMP_NUM_THREADS"] = env["NUMBA_NUM_THREADS"] = "1"
    wd = kit.workdir()
    cmd = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(case["ranks"]),
           sys.executable, "-c", "import sys, json\nfrom props import C25\nC25.job_main(json.loads(sys.argv[1]))\n", json.dumps(case)]
    with tempfile.TemporaryDirectory() as tmp, open(os.path.join(wd, "job.log"), "w+") as f:
        env["TMPDIR"] = tmp
        p = subprocess.Popen(cmd, env=env, cwd=wd, stdin=subprocess.DEVNULL, stdout=f, stderr=f, start_new_session=True)
        try:
            rc = p.wait(LIMIT)
        except subprocess.TimeoutExpired:
            rc = None
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
        f.seek(0)
        text = f.read()
    done = text.count("@done ")
    tail = lambda: f"\nstatus {rc}, output ends:\n" + text[-1200:]
    if rc and "Simulation" not in text and "injected-fault" not in text and "@done" not in text and "Traceback" not in text:
        return {"nontrivial": False, "launcher": 1}           # the launcher failed, nothing was run
    require(rc is not None, lambda: f"the job is still there {LIMIT} s after its start ({'a rank failed' if faulty(case) else 'no fault'})" + tail(), "hang")
    if not faulty(case):
        want = case["steps"] * case["runs"]
        require(rc == 0 and done == case["ranks"], lambda: "a job without any fault failed" + tail(), "healthy")
        require(text.count(f" {want}@") == case["ranks"], lambda: f"not all ranks did {want} steps" + tail(), "healthy")
        return {"nontrivial": False}
    require(rc != 0, lambda: "a rank failed but the job ended with status 0" + tail(), "status")
    require(done == 0 or case["stage"] == "final" and case["place"] != "stop", lambda: f"{done} rank(s) went on to the end although another failed" + tail(), "went-on")
    name = case["kind"] if case["place"] != "output" else "no_such_component"     # where it is missed depends on the rank
    require(name in text, lambda: f"the error ({name}) is not reported anywhere" + tail(), "report")
    return {"nontrivial": case["stage"] != "init"}


def run_single(case, comm):
    exc = make_exc(case["kind"])
    log = []
    old = os.getcwd()
    os.chdir(kit.workdir())
    got = None
    try:
        drive(case, None, 0, exc, log)
    except BaseException as x:      # noqa
        got = x
    finally:
        os.chdir(old)
    if not log:
        if got is not None:
            raise got
        return {"nontrivial": False}
    if case["place"] == "output":
        require(isinstance(got, Exception) and "no_such_component" in str(got), lambda: f"run() let {got!r} out instead of the output's error", "single")
    else:
        require(got is exc, lambda: f"run() let {got!r} out instead of the exception raised ({exc!r})", "single")
    return {"nontrivial": True}


def groups(tier):
    return [Group("job", [Sub("job", cases(), run_job, min_examples=2)], shards=3, threads=1),
            Group("single", [Sub("single", cases(False), run_single)], shards=1, threads=2)]
