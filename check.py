#!/usr/bin/env python3
"""Decides one property of gift by abstract interpretation of its MIR.

usage: check.py PROPERTY

Exit 0: every obligation of the property was discharged.
Exit 1: an obligation was not discharged (VIOLATION line and replay file).
"""
import fcntl
import json
import multiprocessing
import os
import re
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, os.path.join(HERE, "engine"))
sys.path.insert(0, HERE)

from table import PROPS, LEVEL  # noqa: E402

RUSTFLAGS = " ".join([
    "-Zalways-encode-mir", "-Zmir-opt-level=0",
    "-Zmir-enable-passes=-CheckAlignment,-CheckNull,-CheckEnums", "-Awarnings"])


class Broken(Exception):
    pass


def sh(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Broken("%s failed:\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_TARGET_DIR"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    return env


def build_driver():
    """Build the MIR exporter (kept in .build between runs)"""
    env = base_env()
    env["RUSTC_BOOTSTRAP"] = "1"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "driver")
    sh(["cargo", "+nightly", "build", "--offline", "-q"], env, os.path.join(HERE, "driver"))
    return os.path.join(BUILD, "driver", "debug", "mirdump")


def export(out, crate="harness"):
    """Export the MIR of the harness and of everything it reaches in /repo"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        drv = build_driver()
        env = base_env()
        sysroot = sh(["rustc", "+nightly", "--print", "sysroot"], env, HERE).strip()
        env.update({
            "RUSTFLAGS": RUSTFLAGS,
            "RUSTC_WORKSPACE_WRAPPER": drv,
            "LD_LIBRARY_PATH": os.path.join(sysroot, "lib"),
            "MIRDUMP_CRATE": crate,
            "MIRDUMP_OUT": out,
            "MIRDUMP_STOP": os.path.join(HERE, "engine", "stop.txt"),
            "MIRDUMP_MODELS": os.path.join(HERE, "engine", "models.txt"),
            "CARGO_TARGET_DIR": os.path.join(BUILD, crate),
        })
        src = os.path.join(HERE, crate)
        os.utime(os.path.join(src, "src", "lib.rs"))
        sh(["cargo", "+nightly", "check", "--offline", "-q"], env, src)
    if not os.path.exists(out):
        raise Broken("no MIR was exported")


def run_root(job):
    """Analyse one root; runs in a forked process"""
    path, name, budget = job
    sys.setrecursionlimit(20000)
    from interp import Interp
    I = Interp(PROG, budget=budget)
    t = time.time()
    try:
        I.run_root(PROG.roots[path]["key"])
        crash = None
    except Exception as e:  # an engine failure is an undecided obligation
        import traceback
        crash = "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])
    ev = []
    evs = list(I.events.values())
    if crash or any(e.kind == "undecided" for e in evs):
        # what was found before the analysis gave up
        evs += [e for k, e in I.early.items() if k not in I.events and e.kind == "check"]
    for e in evs:
        ev.append({"kind": e.kind, "what": e.what, "fn": e.site[0], "file": e.site[1], "line": e.site[2],
                   "info": str(e.info)[:800], "root": name, "inner": e.stack[0][3] if e.stack else "",
                   "stack": ["%s (%s:%s)" % (s[0], s[1], s[2]) for s in e.stack[:12]]})
    if crash:
        ev.append({"kind": "undecided", "what": crash, "fn": name, "file": "", "line": 0, "info": "",
                   "root": name, "inner": "", "stack": []})
    sites = [{"kind": k[0], "what": k[1], "fn": k[2], "file": k[3], "line": k[4], "n": n}
             for k, n in I.sites.items()]
    fns = sorted({PROG.fn(k).path for k in I.fns_seen})
    return {"root": name, "wall": round(time.time() - t, 2), "stats": I.stats, "events": ev, "sites": sites,
            "fns": fns}


PROG = None


def relevant(prop, spec, e):
    """Does an event concern the property?"""
    k = e["kind"]
    if k == "check":
        return e["what"].startswith(prop + " ")
    if k == "panic":
        if e["file"] and "/verif/" in os.path.abspath(e["file"]):
            return True
        return spec.get("panics", True)
    if k == "nonterm":
        return spec.get("term", False)
    return True


def reach_marks(prop):
    """Outcomes which the specification roots of the property must reach"""
    out = set()
    for d, _, fs in os.walk(os.path.join(HERE, "harness", "src")):
        for f in fs:
            with open(os.path.join(d, f)) as h:
                out.update(re.findall(r'\breach\("(%s [^"]*)"\)' % prop, h.read()))
    return sorted(out)


def main():
    prop = sys.argv[1]
    if prop == "--setup":
        out = os.path.join(BUILD, "mir-setup.json")
        export(out)
        os.remove(out)
        return 0
    spec = PROPS[prop]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    out = os.path.join(BUILD, "mir-%s-%d.json" % (prop, os.getpid()))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        export(out)
        global PROG
        from program import Program
        PROG = Program(out)
    finally:
        if os.path.exists(out):
            os.remove(out)
    names = {p.split("::")[-1]: p for p in PROG.roots}
    jobs = []
    for r in spec["roots"]:
        if r not in names:
            raise Broken("root %s is missing" % r)
        jobs.append((names[r], r, spec.get("budget", 240)))
    with multiprocessing.get_context("fork").Pool(min(8, len(jobs))) as pool:
        res = pool.map(run_root, jobs, chunksize=1)
    # obligations
    bad, und = [], []
    seen = set()
    checks, panics, reached = set(), set(), set()
    for r in res:
        for s in r["sites"]:
            key = (s["what"], s["fn"])
            if s["kind"] == "check" and s["what"].startswith(prop + " "):
                checks.add((r["root"],) + key)
            elif s["kind"] == "panic" and spec.get("panics", True):
                panics.add((s["what"], s["fn"], s["file"], s["line"]))
            elif s["kind"] == "reach":
                reached.add(s["what"])
        for e in r["events"]:
            if not relevant(prop, spec, e):
                continue
            key = (e["kind"], e["what"], e["fn"])
            if key in seen:
                continue
            seen.add(key)
            (und if e["kind"] == "undecided" else bad).append(e)
    want = reach_marks(prop)
    for m in want:
        if m not in reached and not und:
            bad.append({"kind": "reach", "what": m, "fn": "", "file": "", "line": 0,
                        "info": "no analysed path reaches this outcome", "root": "", "stack": []})
    fns = sorted({f for r in res for f in r["fns"]})
    ours = [f for f in fns if f.startswith("gift") or "<gift" in f]
    need = spec.get("anchors", [])
    for a in need:
        if not any(a in f for f in fns):
            print("note: no analysed function matches anchor %r" % a)
    nob = len(checks) + len(panics) + len(want)
    floor = spec.get("floor", 1)
    if len(checks) < floor and not bad and not und:
        raise Broken("%s: only %d of %d specification obligations were analysed" % (prop, len(checks), floor))
    if len(panics) < spec.get("sites", 0) and not bad and not und:
        raise Broken("%s: only %d of %d panic sites were analysed" % (prop, len(panics), spec["sites"]))
    if not ours:
        raise Broken("no function of gift was analysed")
    wall = time.time() - t0
    fail = bad + und
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": LEVEL,
        "coverage": {
            "explanation": "Abstract interpretation of the MIR of /repo's working tree, started from specification "
            "roots which call the public API with arbitrary arguments, readers and writers. Each obligation is a "
            "specification assertion, a possible panic site or a must-be-reachable outcome; it is discharged when the "
            "inferred invariants imply it in every abstract state.",
            "rule": spec["rule"],
            "roots": [{"root": r["root"], "seconds": r["wall"], **r["stats"]} for r in res],
            "obligations": nob,
            "discharged": nob - len({(e["kind"], e["what"], e["fn"]) for e in fail}),
            "specification_assertions": sorted("%s: %s" % (c[0], c[1]) for c in checks),
            "panic_sites_proved": len(panics),
            "outcomes_reached": sorted(m for m in reached if m.startswith(prop)),
            "functions_analysed": len(fns),
            "gift_functions_analysed": ours,
            "undecided": ["%s at %s:%s" % (e["what"][:200], e["file"], e["line"]) for e in und],
        },
        "assumptions": spec.get("assume", []),
        "wall_s": round(wall, 2),
        "violations": len(bad),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for e in fail:
        print("%s: %s: %s at %s:%s (%s)" % (e["root"], e["kind"], e["what"], e["file"], e["line"], e["fn"]))
        if e["info"]:
            print("    cannot show: %s" % e["info"][:300])
        for s in e["stack"]:
            print("    in %s" % s)
    if fail:
        rp = os.path.join(EVID, prop + ".violation.json")
        with open(rp, "w") as f:
            json.dump({"property": prop, "rerun": "python3 check.py " + prop, "events": fail}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    print("%s: %d obligations discharged in %d roots, %d functions of gift, %.1f s" % (prop, nob, len(res), len(ours), wall))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("check error: %s" % e)
        sys.exit(2)
