#!/usr/bin/env python3
"""check.py ID            run the check of one property (VERIF_SEED, VERIF_TIER from the environment)
check.py --setup           build the tools
check.py --baseline        verify all units on the current tree and rewrite contracts/baseline.json
check.py --units [U..]     verify units and print a summary
check.py --vacuity [U..]   functions whose contracts are contradictory

The deciding step is Verus on contracts over functions extracted from /repo at every run; the bounded
end-to-end search on the compiled crate looks for a concrete input and stands in where no contract reaches.
Outcome: exit 0 (held on everything explored) or exit 1 with a VIOLATION line. See DESIGN.md."""
import fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
HARNESS = os.path.join(BUILD, "cov/release/vharness")
EXTRACT = os.path.join(BUILD, "target/release/vextract")
LITERALS = os.path.join(ROOT, "contracts/literals.json")
BASELINE = os.path.join(ROOT, "contracts/baseline.json")
KNOWN = os.path.join(ROOT, "known_findings.txt")
sys.path.insert(0, ROOT)
from props import PROPS, UNITS  # noqa: E402

# diagnostics of Verus that mean "this obligation was not proved" (everything else is a tool limit)
OBLIGATION = re.compile(
    r"^(postcondition not satisfied|precondition not satisfied|assertion failed|assertion not satisfied|"
    r"invariant not satisfied|loop invariant not satisfied|loop ensures not satisfied|possible arithmetic|"
    r"possible division by zero|possible bit shift|decreases not satisfied|unable to prove|"
    r"could not prove|constant .* not satisfied|assert_by_compute failed|unreachable|"
    r"termination|Call to non-static function fails)", re.I)


def sh(cmd, timeout=None, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), "timeout"


def build_tools():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for d in ("extract", "harness"):
            env = dict(os.environ, CARGO_NET_OFFLINE="true")
            if d == "harness":
                env.update(RUSTC_WRAPPER=os.path.join(ROOT, "tools/covwrap.sh"), CARGO_TARGET_DIR=os.path.join(BUILD, "cov"))
            rc, _, err = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, d), env=env, timeout=700)
            if rc != 0:
                # a stale fingerprint of a copied tree can make cargo fail once
                rc, _, err = sh(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, d), env=env, timeout=700)
            if rc != 0:
                print(err[-3000:])
                print(f"cannot build {d}")
                sys.exit(2)


class Unit:
    """One Verus run over functions extracted from the current tree."""

    def __init__(self, name, work, extra=()):
        self.name = name
        self.extra = list(extra)
        self.rs = os.path.join(work, f"{name}.rs")
        self.js = os.path.join(work, f"{name}.json")
        self.status = "undecided"   # proved | failed | undecided
        self.reason = ""
        self.failed = {}            # function -> [messages]
        self.output = ""
        self.verified = self.errors = 0
        self.seconds = self.smt_ms = 0
        self.info = []
        self.assumed = []

    def run(self, timeout):
        t0 = time.time()
        try:
            self._run(timeout)
        except Exception as e:  # machinery trouble is never an alarm
            self.status, self.reason = "undecided", f"{type(e).__name__}: {e}"
        self.seconds = round(time.time() - t0, 2)
        return self

    def _run(self, timeout):
        rc, out, err = sh([EXTRACT, REPO, os.path.join(ROOT, f"contracts/{self.name}.vc"), self.rs, self.js], timeout=60)
        if rc != 0:
            self.reason = "extraction: " + (out + err).strip()[:500]
            return
        self.info = [f for f in json.load(open(self.js))["items"]]
        text = open(self.rs).read()
        if not re.search(r"^fn main\(", text, re.M):
            text += "\nfn main() {}\n} // verus!\n"
            open(self.rs, "w").write(text)
        split = set(re.findall(r"fn (\w+)__cases\b", text))
        self.assumed = [a for a in scan_trusted(text) if a.removeprefix("trusted body: fn ") not in split]
        rc, out, err = sh(["verus", os.path.basename(self.rs), "--multiple-errors", "4", "--triggers-mode", "silent",
                           "--output-json", "--time", "--error-format=json"] + self.extra, cwd=os.path.dirname(self.rs), timeout=timeout)
        if rc == 124:
            self.reason = "verifier timeout"
            return
        try:
            j = json.loads(out[out.index("{"):])
        except ValueError:
            self.reason = "verifier gave no result: " + (out + err)[-400:]
            return
        r = j.get("verification-results", {})
        self.verified, self.errors = r.get("verified", 0), r.get("errors", 0)
        self.smt_ms = j.get("times-ms", {}).get("smt", {}).get("total", 0)
        diags = []
        for l in err.splitlines():
            l = l.strip()
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error" and not d["message"].startswith("aborting"):
                    diags.append(d)
        self.output = "\n".join(d.get("rendered") or d["message"] for d in diags)
        if r.get("success") and not diags:
            if self.verified == 0:
                self.reason = "no obligations"
                return
            self.status = "proved"
            return
        limits = [d["message"] for d in diags if not OBLIGATION.match(d["message"])]
        for d in diags:
            if not OBLIGATION.match(d["message"]):
                continue
            fn = self.function_of(d)
            where = " | ".join(t["text"].strip() for s in d["spans"] for t in s.get("text", [])[:1])
            base_fn, _, case = fn.partition("__")
            self.failed.setdefault(base_fn, []).append((f"[case {case}] " if case else "") + d["message"] + ": " + where[:300])
        if limits and not self.failed:
            self.reason = limits[0][:300]
        elif self.failed:
            # obligations are reported only if the file compiled; other functions may have hit a limit
            self.status = "failed"
            self.reason = "; ".join(f"{f}: {m[0]}" for f, m in self.failed.items())
        else:
            self.reason = "verifier failed without a diagnosis"

    def function_of(self, d):
        # prefer the span inside a function's body over the (primary) one at its contract
        lines = [s["line_start"] for s in d["spans"]]
        prim = [s["line_start"] for s in d["spans"] if s["is_primary"]]
        for l in prim + lines:
            for f in self.info:
                if f["kind"] == "fn" and f["out_lines"][0] <= l < f["out_lines"][1]:
                    # a precondition's span lies in the callee: the other span is the caller
                    if d["message"].startswith("precondition"):
                        for m in lines:
                            for g in self.info:
                                if g["kind"] == "fn" and g["out_lines"][0] <= m < g["out_lines"][1] and self.in_body(g, m):
                                    return g["name"]
                    return f["name"]
        return f"(contracts line {prim[0] if prim else '?'})"

    def in_body(self, g, line):
        return True

    def structure_intact(self, base, fn):
        """The failing function has the baseline's loops and callees, and something it depends on did change."""
        b = base.get(self.name)
        if not b:
            return False
        cur = {f["name"] + "@" + f["kind"]: f for f in self.info}
        old = b["items"]
        if set(cur) != set(old):
            return False
        changed = [k for k in cur if cur[k]["hash"] != old[k]["hash"]]
        if not changed:
            return False      # the same text used to be proved: instability, not a change
        f = cur.get(fn + "@fn")   # (cases of a function are under its name)
        if f is None:
            return False
        o = old[fn + "@fn"]
        if f["hash"] == o["hash"] and all(k.endswith(("@fn", "@contract")) for k in changed):
            return False      # callers see contracts only: nothing this function depends on changed
        return f["loops"] == o["loops"] and sorted(f["callees"]) == sorted(o["callees"])


def scan_trusted(text):
    r = []
    for m in re.finditer(r"assume_specification[^\[]*\[([^\]]*)\]", text):
        r.append("assumed contract: " + m.group(1).strip())
    for m in re.finditer(r"external_type_specification\)?\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?struct\s+\w+(?:<[^>]*>)?\(([^;]*)\);", text):
        r.append("external type: " + m.group(1).strip())
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\(crate\))?\s+)?((?:broadcast\s+)?(?:proof\s+)?(?:fn|struct)\s+\w+)", text):
        body = re.compile(r"#\[verifier::|/\* contract only \*/").search(text, m.end())
        r.append(("contract proved in the unit of its own file: " if body and body.group(0).startswith("/*") else "trusted body: ") + m.group(1))
    for m in re.finditer(r"\b(assume|admit)\s*\(", text):
        r.append(f"{m.group(1)}() in line {text[:m.start()].count(chr(10)) + 1}")
    text = re.sub(r"#\[verifier::exec_allows_no_decreases_clause\]\nfn \w+__cases", "", text)
    for m in re.finditer(r"#\[verifier::(exec_allows_no_decreases_clause|loop_isolation\(false\)|external)\]", text):
        if m.group(1) != "loop_isolation(false)":
            r.append(f"attribute {m.group(1)} in line {text[:m.start()].count(chr(10)) + 1}")
    return r


def probe_vacuity(name, work, timeout):
    """The functions of a unit whose contract is contradictory: `false` can be proved at their start."""
    rs, js = os.path.join(work, f"{name}_probe.rs"), os.path.join(work, f"{name}_probe.json")
    rc, out, err = sh([EXTRACT, REPO, os.path.join(ROOT, f"contracts/{name}.vc"), rs, js], timeout=60, env=dict(os.environ, VEX_PROBE="1"))
    if rc != 0:
        return None
    text = open(rs).read()
    if not re.search(r"^fn main\(", text, re.M):
        text += "\nfn main() {}\n} // verus!\n"
        open(rs, "w").write(text)
    rc, out, err = sh(["verus", os.path.basename(rs), "--multiple-errors", "1", "--triggers-mode", "silent", "--error-format=json"]
                      + UNITS.get(name, {}).get("args", []), cwd=work, timeout=timeout)
    if rc == 124:
        return None
    hit = set()
    for l in err.splitlines():
        if l.startswith("{"):
            d = json.loads(l)
            if d.get("level") == "error":
                hit |= {s["line_start"] for s in d["spans"]}
    probes, body = [], ""
    for i, l in enumerate(text.split("\n"), 1):
        if re.match(r"\s*(pub(\([a-z]+\))? )?(const )?fn ", l):
            body = prev
        if l.endswith("// probe") and "external_body" not in body:
            probes.append(i)
        prev = l
    if not hit & set(probes):
        return None
    fns = [f for f in json.load(open(js))["items"] if f["kind"] == "fn"]
    at = lambda i: next((f["name"] for f in fns if f["out_lines"][0] <= i < f["out_lines"][1]), f"line {i}")
    # running out of resources is no proof of `false` either
    return {"probed": len(probes), "vacuous": [at(i) for i in probes if i not in hit and not any(f["out_lines"][0] <= i < f["out_lines"][1] and hit & set(range(f["out_lines"][0], f["out_lines"][1])) for f in fns)]}


def run_units(names, work, timeout):
    units = [Unit(n, work, UNITS.get(n, {}).get("args", [])) for n in names]
    ths = [threading.Thread(target=u.run, args=(timeout,)) for u in units]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    return units


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))   # per process
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def dictionary(work):
    """Literals of the current source; those not in the annotated source are marked."""
    f = os.path.join(work, "dict.txt")
    rc, o, _ = sh([EXTRACT, "--literals", REPO], timeout=60)
    try:
        cur, old = json.loads(o), json.load(open(LITERALS))
    except (ValueError, OSError):
        cur = old = {}
    with open(f, "w") as g:
        for k, n in cur.items():
            g.write(("+" if n > old.get(k, 0) else "") + k + "\n")
    return f


def harness(prop, seed, seconds, work, tag=""):
    out = os.path.join(work, f"input{tag}.txt")
    cmd = [HARNESS, "search", "--prop", prop, "--seed", str(seed), "--seconds", str(seconds), "--out", out, "--dict", dictionary(work)]
    rc, o, e = sh(cmd, timeout=seconds + 150, preexec_fn=limits)
    try:
        j = json.loads(o[o.index("{"):])
    except ValueError:
        j = {"found": False, "error": f"exit {rc}: {(o + e)[-300:]}"}
    j["file"] = out
    return j


def known_findings(prop):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            if l.startswith("finding: property=" + prop + " "):
                r.append(l.strip()[len("finding: "):])
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = PROPS[prop]
    build_tools()
    work = tempfile.mkdtemp(prefix=f"{prop}-", dir=BUILD)
    rdir = os.path.join(BUILD, "replay")
    os.makedirs(rdir, exist_ok=True)
    replay = os.path.join(rdir, f"{prop}.txt")
    try:
        rc = decide(prop, conf, tier, seed, work, replay, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decides(dec, fn, msgs):
    """Entries are function names, or `function ~ regex` on the text of the failed obligation."""
    if dec == "*":
        return True
    for d in dec:
        f, _, rx = d.partition(" ~ ")
        if f == fn and (not rx or any(re.search(rx, m) for m in msgs)):
            return True
    return False


def decide(prop, conf, tier, seed, work, replay, t0):
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    names = list(conf["units"])
    res = {}
    secs = conf.get("seconds", 30) if tier == "quick" else 240
    th = threading.Thread(target=lambda: res.update(units=run_units(names, work, 420 if tier == "quick" else 800)))
    th.start()
    h = harness(prop, seed, secs, work)
    th.join()
    vac = {}
    if tier == "thorough":
        vac = {u.name: probe_vacuity(u.name, work, 300) for u in res["units"] if u.status == "proved"}
    units = res["units"]
    lines, violation = [], None

    failed = []      # (unit, function, messages) of deciding functions
    other = []
    for u in units:
        if u.status == "failed":
            dec = conf["units"][u.name]
            for fn, msgs in u.failed.items():
                item = (u, fn, msgs)
                (failed if decides(dec, fn, msgs) else other).append(item)
    extra_search = 0
    if (failed or other) and not h.get("found"):
        extra_search = 100 if tier == "quick" else 400
        h2 = harness(prop, seed + 1000, extra_search, work, "2")
        h2["evaluations"] = h2.get("evaluations", 0) + h.get("evaluations", 0)
        h2["distinct_nontrivial"] = h2.get("distinct_nontrivial", 0) + h.get("distinct_nontrivial", 0)
        if not h2.get("error"):
            h = h2
    known = []
    if prop == "P01":
        known += deep_nesting(work)
    if h.get("found"):
        inp = open(h["file"]).read() if os.path.exists(h["file"]) else h.get("input", "")
        with open(replay, "w") as f:
            f.write(f"property {prop}: {h.get('reason')}\n")
            for u, fn, msgs in failed + other:
                f.write(f"failed obligation: unit {u.name}, function {fn}: {'; '.join(msgs)}\n")
            f.write("replay: .build/cov/release/vharness replay --prop %s --file %s\n" % (prop, replay + ".input"))
            f.write("input follows\n" + inp)
        with open(replay + ".input", "w") as f:
            f.write(inp)
        violation = f"VIOLATION property={prop} replay={replay}"
        lines.append(f"input {json.dumps(inp)}: {h.get('reason')}")
    else:
        intact = [(u, fn, msgs) for u, fn, msgs in failed if u.structure_intact(base, fn)]
        if intact:
            with open(replay, "w") as f:
                f.write(f"property {prop}: obligations that hold on the original code are no longer proved\n")
                for u, fn, msgs in intact:
                    f.write(f"failed obligation: unit {u.name}, function {fn}: {'; '.join(msgs)}\n")
                f.write(f"no failing input found in {h.get('evaluations', 0)} end-to-end cases\n\nverifier output:\n")
                for u in {id(u): u for u, _, _ in intact}.values():
                    f.write(u.output + "\n")
            violation = f"VIOLATION property={prop} replay={replay} no-failing-input-found"
    for u in units:
        if u.status != "proved":
            lines.append(f"NOTE unit {u.name} {u.status}: {u.reason[:300]}")
    if h.get("error"):
        lines.append("NOTE harness: " + h["error"])

    proved_fns, undecided = [], []
    for u in units:
        fns = [f["name"] for f in u.info if f["kind"] == "fn"]
        if u.status == "proved":
            proved_fns += [f"{u.name}: {n}" for n in fns]
        else:
            undecided.append(f"{u.name}: {u.status} ({u.reason[:200]})")
    obligations = sum(u.verified + u.errors for u in units)
    cov = {
        "obligations": obligations,
        "discharged": sum(u.verified for u in units),
        "checker_cmd": "verus UNIT.rs --multiple-errors 4 --triggers-mode silent --output-json --time (Verus 0.2026.09.13, Z3), one run per unit: " + ", ".join(names),
        "trusted_base": sorted({a for u in units for a in u.assumed}) + ["Verus, vstd and Z3", "the extraction (/verif/extract, edits listed in DESIGN.md)"],
        "functions_under_contract": proved_fns,
        "split_into_cases": "a function with __ in its name is a copy of the function before __ under an additional assumption; __cases proves that the assumptions cover all calls, callers see the common contract",
        "units": {u.name: {"status": u.status, "verified": u.verified, "errors": u.errors, "seconds": u.seconds, "smt_ms": u.smt_ms,
                           "edits": sorted({e for f in u.info for e in f.get("edits", [])})} for u in units},
        "undecided_units": undecided,
        "vacuity_probes": vac or "thorough tier only",
        "evaluations": h.get("evaluations", 0),
        "distinct_nontrivial": h.get("distinct_nontrivial", 0),
        "enumerated_exhaustively": h.get("enumerated", 0),
        "coverage_guided_mutations": h.get("mutated", 0),
        "edges_of_the_crate_reached": h.get("edges", 0),
        "rule": conf.get("rule", "all strings over a small alphabet up to the enumerated size, random documents from a grammar of this property's constructs, and coverage-guided mutations of them; counted as non-trivial: distinct inputs longer than two bytes"),
        "samples": h.get("samples", [])[:5],
        "explanation": conf["note"],
    }
    level = conf["level"] if not undecided else "other"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": conf.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, f"evidence/{prop}.json"), "w"), indent=1)
    for k in known:
        lines.append("KNOWN-FINDING: " + k)
    for l in lines:
        print(l)
    print(f"{prop}: {cov['discharged']}/{obligations} obligations over {len(proved_fns)} functions, {cov['evaluations']} end-to-end cases, {ev['wall_s']} s")
    if violation:
        print(violation)
        return 1
    return 0


def deep_nesting(work):
    """The recorded finding: nesting of thousands of levels exhausts the stack (run in a child process)."""
    r = []
    for l in known_findings("P01"):
        f = os.path.join(work, "deep.txt")
        open(f, "w").write("> " * 8000 + "a")
        rc, o, _ = sh([HARNESS, "deep", "--prop", "P01", "--file", f], timeout=120)
        if rc != 0:
            r.append(l)
    return r


if __name__ == "__main__":
    if len(sys.argv) < 2:
        print(__doc__)
    elif sys.argv[1] == "--setup":
        build_tools()
    elif sys.argv[1] == "--vacuity":
        build_tools()
        w = tempfile.mkdtemp(dir=BUILD)
        for n in sys.argv[2:] or list(UNITS):
            print(n, probe_vacuity(n, w, 900))
        shutil.rmtree(w, ignore_errors=True)
    elif sys.argv[1] in ("--baseline", "--units"):
        build_tools()
        w = tempfile.mkdtemp(dir=BUILD)
        names = sys.argv[2:] or list(UNITS)
        us = []
        for n in names:
            us += run_units([n], w, 900)
        ok = True
        for u in us:
            print(f"{u.name:12} {u.status:10} {u.verified:4} verified {u.errors} errors {u.seconds:6} s smt {u.smt_ms} ms  {len([f for f in u.info if f['kind'] == 'fn'])} fns  {u.reason[:200]}")
            ok = ok and u.status == "proved"
        if sys.argv[1] == "--baseline":
            if not ok:
                sys.exit("not all units are proved: baseline unchanged")
            b = json.load(open(BASELINE)) if sys.argv[2:] and os.path.exists(BASELINE) else {}
            for u in us:
                b[u.name] = {"items": {f["name"] + "@" + f["kind"]: {k: f[k] for k in ("hash", "loops", "callees") if k in f} for f in u.info}}
            json.dump(b, open(BASELINE, "w"), indent=1, sort_keys=True)
            open(LITERALS, "w").write(sh([EXTRACT, "--literals", REPO])[1])
        shutil.rmtree(w, ignore_errors=True)
    else:
        main()
