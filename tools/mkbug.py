#!/usr/bin/env python3
"""mkbug.py BUGS.py [ids..]: turn planted changes (list BUGS of dicts id, property, file, old, new, needs, breaks,
demo) into /verif/seeded/<id>/ after confirming them in a scratch copy of /repo."""
import json, os, re, shutil, subprocess, sys
SCR = "/tmp/bugrepo"
OUT = "/verif/seeded"
DEMO_SH = '''#!/bin/bash
# Builds the crate in the current directory together with demo.rs and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -r "$T"' EXIT
rustc --edition 2021 -O -C debug-assertions -C overflow-checks --cfg 'feature="html"' --cap-lints allow \\
    --crate-type lib --crate-name jotdown src/lib.rs -o "$T/libjotdown.rlib" || exit 2
rustc --edition 2021 --cap-lints allow "$D/demo.rs" --extern jotdown="$T/libjotdown.rlib" -o "$T/demo" || exit 2
cd "$T" && timeout 60 ./demo
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def reset():
    if not os.path.exists(SCR):
        sh(f"cp -a /repo {SCR}")
    sh(f"git -C {SCR} fetch -q /repo HEAD && git -C {SCR} reset -q --hard FETCH_HEAD")
def failing(log):
    return {l.split()[1] for l in log.splitlines() if re.match(r"test .* \.\.\. FAILED", l)} | ({"BUILD"} if "could not compile" in log else set())
def tests():
    a = sh("cargo test --workspace --all-features --no-fail-fast --offline --locked -- --test-threads 8", cwd=SCR, env=dict(os.environ, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
    b = sh("cargo test --workspace --no-default-features --no-fail-fast --offline --locked -- --test-threads 8", cwd=SCR, env=dict(os.environ, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
    return failing(a.stdout + b.stdout)
ns = {}
exec(open(sys.argv[1]).read(), ns)
want = sys.argv[2:]
reset()
basef = "/tmp/base_failing.json"
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
base = None
if os.path.exists(basef):
    j = json.load(open(basef))
    if j["head"] == head: base = set(j["f"])
if base is None:
    base = tests(); json.dump({"head": head, "f": sorted(base)}, open(basef, "w"))
orig = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
for b in ns["BUGS"]:
    if want and b["id"] not in want: continue
    if not want and os.path.exists(f"{OUT}/{b['id']}/meta.json"): continue
    reset()
    for (f, old, new) in b["edits"]:
        p = f"{SCR}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "anchor count", s.count(old)); break
        open(p, "w").write(s.replace(old, new))
    else:
        d = "/tmp/bugcand"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/patch.diff", "w").write(sh(f"git -C {SCR} diff").stdout)
        open(d + "/demo.sh", "w").write(DEMO_SH); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(b["demo"].lstrip())
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"bash {d}/demo.sh", cwd="/repo")
        r1 = sh(f"bash {d}/demo.sh", cwd=SCR)
        f = tests() - base
        # lines removed must be lines of the original repository
        ok = r0.returncode == 0 and r1.returncode not in (0, 2, 124) and not f
        print(b["id"], "OK" if ok else "REJECTED", "demo", r0.returncode, r1.returncode, "new failures", sorted(f)[:6])
        if not ok: print((r0.stdout[-600:] if r0.returncode else "") , r1.stdout[-300:])
        if ok:
            shutil.rmtree(f"{OUT}/{b['id']}", ignore_errors=True)
            shutil.copytree(d, f"{OUT}/{b['id']}")
reset()
