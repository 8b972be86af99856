"""Callbacks fire exactly at their stage, in order, on the steps their interval selects; run() counts steps correctly."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vlib import gen, kit
from vlib.core import Group, Sub, require

RULE = ("Cases are generated sets of callbacks (decorated functions, plain functions, Callback classes) over every stage "
        "with step, time and predicate intervals, and generated sequences of run(nsteps)/run(sim_time)/run() calls with and "
        "without stop_callback, on 1-3 species some of which are disabled; the recorded event sequence (callback, stage, "
        "step, species) must equal the model's. Non-trivial = at least one callback fired and one was suppressed.")
BUDGET = {"quick": 16.0}
ORDER = ["start", "maxwell_1", "SPECIES", "qed_create_particles", "_laser", "maxwell_2", "end"]
PER_SPECIES = ["_push_position_1", "_interpolator", "_qed", "_push_momentum", "_push_position_2", "current_deposition"]
STAGES = ["init", "start", "maxwell_1"] + PER_SPECIES + ["qed_create_particles", "_laser", "maxwell_2", "end", "final"]


@st.composite
def cases(draw):
    interval = st.one_of(st.tuples(st.just("int"), st.integers(1, 7)),
                         st.tuples(st.just("time"), st.integers(1, 12), st.integers(1, 3)),
                         st.tuples(st.just("pred"), st.integers(1, 4), st.integers(0, 3)))
    cbs = draw(st.lists(st.tuples(st.sampled_from(["deco", "class", "plain"]),
                                  st.one_of(st.none(), st.sampled_from(STAGES)), interval), min_size=1, max_size=7))
    runs = draw(st.lists(st.one_of(st.tuples(st.just("n"), st.integers(0, 25)), st.tuples(st.just("t"), st.integers(0, 50)),
                                   st.tuples(st.just("default"), st.just(0))), min_size=1, max_size=4))
    return {"dim": draw(st.sampled_from([2, 2, 2, 3])), "cbs": [[a, b, list(c)] for a, b, c in cbs],
            "runs": [list(r) for r in runs], "stop": draw(st.one_of(st.none(), st.integers(1, 60))),
            "total": draw(st.sampled_from([["n", 1], ["n", 9], ["n", 30], ["t", 12], ["t", 33]])),
            "species": draw(st.lists(st.booleans(), min_size=0, max_size=3)),
            "again": draw(st.lists(st.integers(0, 6), max_size=3)),
            "bad": draw(st.sampled_from(["", "", "", "stage", "both", "interval0", "intervalf"]))}


def run(case, comm):
    from lambdapic import Electron, callback
    from lambdapic.callback.callback import Callback
    kit.reset_registry()
    dim = case["dim"]
    cfg = dict(dim=dim, n=[8, 8, 8][:dim], np=[2, 1, 1][:dim], d=[1e-7] * dim, bc="p" * 2 * dim)
    extra = {}
    dt = 0.95 * (sum(1e14 for _ in range(dim))) ** -0.5 / kit.C_LIGHT
    if case["total"][0] == "n":
        extra["nsteps"] = case["total"][1]
    else:
        extra["sim_time"] = (case["total"][1] + 0.5) * dt
    sim = kit.make_sim(cfg, [Electron() for _ in case["species"]], **extra)
    kit.init(sim)
    for s, en in zip(sim.species, case["species"]):
        if not en:
            s.disable()
    dt = sim.dt
    log, want = [], []
    total = {"steps": 0}

    def make(i, kind, stage, iv):
        if iv[0] == "int":
            interval, fires = iv[1], (lambda n: n % iv[1] == 0)
        elif iv[0] == "time":
            fr = Fraction(iv[1], iv[2])
            fr = max(fr, Fraction(1))
            interval, fires = float(fr) * dt, (lambda n: (n % fr) < 1)
        else:
            interval, fires = (lambda s: s.itime % iv[1] == iv[2] % iv[1]), (lambda n: n % iv[1] == iv[2] % iv[1])

        def body(s):
            log.append((i, s.itime, getattr(s, "ispec", None) if stage in PER_SPECIES else None))
            assert s is sim
        if kind == "deco":
            return callback(stage, interval)(body), stage or "end", fires
        if kind == "class":
            class C(Callback):
                def _call(self, s):
                    return body(s)

                def __eq__(self, o):        # value equality, as a dataclass callback has
                    return type(o).__name__ == "C"

                def __hash__(self):
                    return 1
            c = C()
            c.stage, c.interval = stage, interval
            return c, stage or "end", fires
        return body, "end", (lambda n: True)       # plain functions: default stage, every step

    made = [make(i, *c) for i, c in enumerate(case["cbs"])]
    for k in case.get("again", []):             # the same callback registered once more
        made.append(made[k % len(case["cbs"])])
    cbs = [m[0] for m in made]
    number = {id(m[0]): i for i, m in reversed(list(enumerate(made)))}
    enabled = [k for k, e in enumerate(case["species"]) if e]

    # --- rejected configurations leave the simulation untouched
    if case["bad"]:
        try:
            if case["bad"] == "stage":
                sim.run(1, callbacks=[callback("no_such_stage")(lambda s: None)])
            elif case["bad"] == "both":
                sim.run(1, sim_time=1e-15)
            elif case["bad"] == "interval0":
                callback("end", 0)(lambda s: None)
            else:
                callback("end", 1.5)(lambda s: None)
        except ValueError:
            pass
        else:
            require(False, f"invalid request '{case['bad']}' was accepted", "accepted")
        require(sim.itime == 0 and sim.time == 0, "a rejected request advanced the simulation", "accepted")

    def emit(stage, n, ispec=None):
        for cb, st_, fires in made:
            if st_ == stage:
                supp[0] += not fires(n)
                if fires(n):
                    want.append((number[id(cb)], n, ispec))
    supp = [0]
    n = 0
    stop_at = case["stop"]

    def stop():
        total["steps"] += 1
        return stop_at is not None and total["steps"] == stop_at
    done = 0
    for kind, v in case["runs"]:
        if kind == "n":
            target = n + v
            kw = dict(nsteps=v)
        elif kind == "t":
            target = v
            kw = dict(sim_time=(v + 0.5) * dt)
        else:
            target = case["total"][1]
            kw = {}
        ret = sim.run(callbacks=cbs, stop_callback=stop, **kw)
        kit.quiet()
        emit("init", n)
        stopped = False
        while n < target:
            for stage in ORDER:
                if stage == "SPECIES":
                    for k in enabled:
                        for ps in PER_SPECIES:
                            emit(ps, n, k)
                else:
                    emit(stage, n)
            n += 1
            done += 1
            if stop_at is not None and done == stop_at:
                stopped = True
                break
        if not stopped:
            emit("final", n)
        require(sim.itime == n, lambda: f"after {kind}({v}): itime {sim.itime}, expected {n}", "itime")
        require(abs(sim.time - n * dt) < 1e-6 * dt, lambda: f"time {sim.time} is not {n} steps of {dt}", "time")
        require((ret == "stop by callback") == stopped, lambda: f"run returned {ret!r}, stopped={stopped}", "stop")
        if log != want:
            k = next((k for k, (a, b) in enumerate(zip(log, want)) if a != b), min(len(log), len(want)))
            names = [f"{c[0]}@{m[1]}/{c[2]}" for c, m in zip(case["cbs"], made)]
            require(False, f"event {k}: got {log[k:k + 3]}, expected {want[k:k + 3]} (callback, step, species); callbacks {names}",
                    "events")
    return {"nontrivial": bool(log) and supp[0] > 0, "events": len(log), "steps": n}


def groups(tier):
    return [Group("local", [Sub("local", cases(), run)], shards=3)]
