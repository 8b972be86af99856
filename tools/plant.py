#!/usr/bin/env python3
"""Try planted bugs: build a patched copy of /repo bind-mounted over /repo in a private mount
namespace, run the stable tests, the demonstration (patched and unpatched) and the property check.

    plant.py ID... [--no-tests] [--no-demo] [--no-check] [--tier quick]
Results are appended to /tmp/pl/results.jsonl.  The real /repo is never touched.
"""
import argparse, json, pathlib, shutil, subprocess, sys, time

SEED = pathlib.Path("/verif/seeded")
PL = pathlib.Path("/tmp/pl")


def ns(copy, cmd, timeout):
    full = ["unshare", "-Urm", "bash", "-c", f"mount --bind {copy} /repo && cd /repo && {cmd}"]
    t = time.time()
    try:
        p = subprocess.run(full, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr, time.time() - t
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:], time.time() - t


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--no-demo", action="store_true")
    ap.add_argument("--no-check", action="store_true")
    ap.add_argument("--prop")
    ap.add_argument("--tier", default="quick")
    a = ap.parse_args()
    PL.mkdir(exist_ok=True)
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ids = a.ids or sorted(d.name for d in SEED.iterdir() if (d / "patch.diff").exists())
    for i in ids:
        d = SEED / i
        meta = json.load(open(d / "meta.json"))
        res = {"id": i, "property": meta["property"]}
        copy = PL / i
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
        ap_ = subprocess.run(["git", "-C", str(copy), "apply", str(d / "patch.diff")], capture_output=True, text=True)
        if ap_.returncode:
            res["apply"] = ap_.stderr[-300:]
        else:
            rc, out, t = ns(copy, "bash /opt/vp/build.sh", 600)
            res["build"] = [rc, round(t)]
            if rc:
                print(out[-2000:])
            if not a.no_demo:
                demo = PL / (i + ".demo")
                shutil.rmtree(demo, ignore_errors=True)
                shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
                r = subprocess.run(["bash", str(demo / "demo.sh")], cwd="/repo", capture_output=True, text=True, timeout=400)
                rc, out, t = ns(copy, f"bash {demo}/demo.sh", 400)
                res["demo"] = [r.returncode, rc, round(t)]
                if r.returncode:
                    print("UNPATCHED DEMO FAILS", (r.stdout + r.stderr)[-2500:])
                res["demo_out"] = out.strip()[-200:]
                shutil.rmtree(demo)
            if not a.no_tests:
                o = PL / (i + ".out.json")
                rc, out, t = ns(copy, f"bash /opt/vp/test.sh {o}", 900)
                passed = set(json.load(open(o))["passed"]) if o.exists() else set()
                res["tests"] = [len(stable & passed), sorted(stable - passed)[:5], round(t)]
            if not a.no_check:
                for prop in (a.prop or meta["property"]).split(","):
                    v = PL / (i + ".verif")
                    shutil.rmtree(v, ignore_errors=True)
                    subprocess.run(["cp", "-a", "/verif", str(v)], check=True)
                    rc, out, t = ns(copy, f"cd {v} && VERIF_SEED=1 VERIF_TIER={a.tier} python3 run.py {prop}", 1000)
                    lines = [x for x in out.splitlines() if "VIOLATION" in x]
                    res["check " + prop] = [rc, round(t), lines[:1]]
                    if rc != 1:
                        print(out[-1500:])
                    shutil.rmtree(v)
        shutil.rmtree(copy, ignore_errors=True)
        print(json.dumps(res), flush=True)
        with open(PL / "results.jsonl", "a") as f:
            f.write(json.dumps(res) + "\n")


main()
