#!/usr/bin/env python3
"""Writes /verif/seeded from seeds.py and tests each planted bug.

usage: mkseed.py [ID...]      (re)create, build, run the stable tests and the demonstration
       mkseed.py -c [ID...]   also run the property's check on each
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
REPO = "/repo"
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

DEMO = '''#!/bin/bash
# Builds and runs demo.rs against the gift crate in the current directory.
# Exit 0: the property holds for this case.
set -e
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
gift = { path = "$PWD/gift" }
pix = "1.0.0"
END
cd "$tmp"
export CARGO_TARGET_DIR="$tmp/target"
cargo build --offline -q
timeout 60 "$tmp/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    out = "/tmp/mkseed-out.json"
    sh(["bash", "/opt/vp/test.sh", out])
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    o = json.load(open(out))
    os.remove(out)
    ok = set(o["passed"])
    return [t for t in base if t not in ok]


def main():
    args = sys.argv[1:]
    chk = "-c" in args
    args = [a for a in args if a != "-c"]
    for sid, s in SEEDS.items():
        if args and not any(sid.startswith(a) for a in args):
            continue
        d = os.path.join(SEEDED, sid)
        os.makedirs(d, exist_ok=True)
        assert sh(["git", "-C", REPO, "status", "--short"]).stdout == "", "dirty /repo"
        line = [sid]
        try:
            for f, old, new in s["edits"]:
                p = os.path.join(REPO, f)
                t = open(p).read()
                assert t.count(old) == 1, "%s: %d matches of %r" % (sid, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
            diff = sh(["git", "-C", REPO, "diff"]).stdout
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            open(os.path.join(d, "demo.rs"), "w").write(s["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(s.get("script", DEMO))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            b = sh(["bash", "/opt/vp/build.sh"])
            line.append("build %s" % ("ok" if b.returncode == 0 else "FAILED\n" + b.stdout[-3000:]))
            bad = tests()
            line.append("tests %s" % ("ok" if not bad else bad))
            r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
            line.append("demo with bug: %d" % r.returncode)
            if r.returncode == 0:
                line.append("NOT SHOWN " + r.stdout[-800:])
            if "error" in r.stdout and "could not compile" in r.stdout:
                line.append(r.stdout[-3000:])
            if chk:
                r = sh(["python3", os.path.join(os.path.dirname(HERE), "check.py"), s["property"]])
                line.append("check %d" % r.returncode)
                if r.returncode != 1:
                    line.append(r.stdout[-1500:])
                else:
                    line.append([l for l in r.stdout.splitlines() if not l.startswith(" ")][0][:200])
        finally:
            sh(["git", "-C", REPO, "checkout", "--", "."])
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO)
        line.append("demo without bug: %d%s" % (r.returncode, "" if r.returncode == 0 else r.stdout[-1500:]))
        print(" | ".join(str(x) for x in line), flush=True)


main()
