#!/usr/bin/env python3
"""Decide one property: check.py P01 [--tier quick|thorough]

1. every unit of the property is extracted from /repo's current source (vx) and given to Verus;
2. the property's bounded run (replay crate, real code) looks for a failing input.
A failed obligation or a failing input is a violation. Anything the tools cannot decide (a function
that is gone, a construct outside the verifier's subset, a resource limit) is recorded as undecided
in the evidence and only the bounded run speaks for it.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAYS = os.path.join(VERIF, "replays")
CONF = json.load(open(os.path.join(VERIF, "checks.json")))
T0 = time.time()


def run(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    if env:
        e.update(env)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace"), "timeout"
    except OSError as x:
        return 127, "", str(x)


def build_vx():
    rc, _, err = run(["cargo", "build", "--offline", "-q"], 400, {"CARGO_TARGET_DIR": f"{BUILD}/target"}, f"{VERIF}/vx")
    return os.path.join(BUILD, "target/debug/vx") if rc == 0 else None, err


RT_ENV = {"CARGO_TARGET_DIR": f"{BUILD}/rt", "RUSTFLAGS": "--cfg graphannis_verif -Awarnings", "CARGO_INCREMENTAL": "0"}


def build_replay(bins):
    cmd = ["cargo", "build", "--offline", "-q"]
    for b in bins:
        cmd += ["--bin", b]
    rc, _, err = run(cmd, 500, RT_ENV, f"{VERIF}/replay")
    return rc == 0, err[-3000:]


# ---------------------------------------------------------------- Verus

OBLIGATION = [
    "postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
    "possible arithmetic underflow/overflow", "possible division by zero", "decreases not satisfied",
    "possible bit shift underflow/overflow", "could not prove termination", "assertion failure",
    "recommendation not met", "fails to satisfy", "cannot show", "cannot prove", "unreachable", "unable to prove",
    "possible truncation", "not proved",
]
UNDECIDED = ["rlimit", "resource limit", "canceled", "timed out"]


class Unit:
    def __init__(self, name, vx):
        self.name = name
        self.vx = vx
        self.tpl = f"{VERIF}/units/{name}.rs"
        self.lock = f"{VERIF}/units/{name}.lock.json"
        self.items = []
        self.failed = []      # (item, message, text)
        self.undecided = []   # (item, reason)
        self.vacuous = []
        self.verified = 0
        self.errors = 0
        self.ms = 0
        self.functions = []
        self.broken = None
        self.trusted = []
        self.demoted = []
        self.rlimit = []

    def extract(self, suffix="", vac=None):
        out = f"{BUILD}/{self.name}{suffix}.rs"
        rep = f"{BUILD}/{self.name}{suffix}.report.json"
        cmd = [self.vx, REPO, self.tpl, out, rep]
        if os.path.exists(self.lock):
            cmd += ["--lock", self.lock]
        if vac:
            cmd += ["--vacuity", vac]
        if self.demoted:
            cmd += ["--demote", ";".join(self.demoted)]
        rc, so, se = run(cmd, 120)
        if rc != 0:
            return None, None, (so + se)[-2000:]
        return out, json.load(open(rep))["items"], None

    def verus(self, out, timeout=240):
        cmd = ["verus", out, "--crate-type=lib", "--edition=2024", "--output-json", "--time", "--error-format=json", "--multiple-errors", "10", "--num-threads", "6"]
        rc, so, se = run(cmd, timeout, cwd=BUILD)
        if rc is None:
            return None, [], "timeout"
        try:
            res = json.loads(so[so.index("{"):])
        except ValueError:
            res = None
        diags = []
        for line in se.splitlines():
            if line.startswith("{"):
                try:
                    diags.append(json.loads(line))
                except ValueError:
                    pass
        return res, diags, se[-3000:]

    def item_at(self, items, line):
        for i in items:
            if i.get("out_start") and i["out_start"] <= line <= i["out_end"]:
                return i
        return None

    def go(self):
        for _ in range(6):
            out, items, err = self.extract()
            if out is None:
                self.broken = f"extraction: {err}"
                return self
            self.items = items
            res, diags, raw = self.verus(out)
            if res is None:
                self.broken = f"verifier gave no result: {raw[:600]}"
                return self
            errs = [d for d in diags if d.get("level") == "error" and not d["message"].startswith("aborting")]
            hard = []
            self.failed = []
            self.rlimit = []
            for d in errs:
                msg = d["message"]
                spans = d.get("spans", [])
                prim = [s for s in spans if s.get("is_primary")] or spans
                it = None
                for s in prim + spans:
                    it = it or self.item_at(items, s["line_start"])
                low = msg.lower()
                if any(u in low for u in UNDECIDED):
                    self.rlimit.append((it["item"] if it else "?", msg))
                elif any(o in low for o in OBLIGATION) and not d.get("code"):
                    self.failed.append((it["item"] if it else "?", msg, d.get("rendered", "")[:3000]))
                else:
                    hard.append((it, msg, d.get("rendered", "")))
            vr = res.get("verification-results", {})
            if hard or vr.get("encountered-vir-error"):
                new = sorted({h[0]["item"] for h in hard if h[0] is not None and h[0]["kind"] == "fn"} - set(self.demoted))
                if not new:
                    self.broken = "verifier rejects the extracted text: " + " | ".join(h[1] for h in hard)[:800]
                    return self
                for h in hard:
                    if h[0] is not None and h[0]["item"] in new:
                        self.undecided.append((h[0]["item"], "outside the verifier's subset: " + h[1][:300]))
                self.demoted += new
                continue
            break
        else:
            self.broken = "too many demoted functions"
            return self
        # a new closure or loop has no contract: what fails in this function says nothing about it
        loose = {i["item"] for i in items if i.get("no_contract")}
        self.undecided += [(f[0], "a new closure or loop without contract: " + f[1]) for f in self.failed if f[0] in loose]
        self.failed = [f for f in self.failed if f[0] not in loose]
        self.undecided += self.rlimit
        for i in items:
            if i["status"] != "ok" and i["item"] not in self.demoted:
                self.undecided.append((i["item"], f"{i['status']}: {i.get('reason', '')}"))
        vr = res["verification-results"]
        self.verified, self.errors = vr["verified"], vr["errors"]
        for m in res.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                self.functions.append(f)
                self.ms += f.get("time", 0)
        text = open(out).read()
        self.trusted = scan_trusted(text)
        return self

    def vacuity(self):
        """with `false` asserted at the start of each function (and loop body) each must fail"""
        for kind in ("fn", "loop"):
            out, items, err = self.extract(f".vac_{kind}", kind)
            if out is None:
                continue
            res, diags, raw = self.verus(out)
            if res is None or res["verification-results"].get("encountered-vir-error"):
                continue
            hit = set()
            for d in diags:
                if d.get("level") == "error":
                    for s in d.get("spans", []):
                        it = self.item_at(items, s["line_start"])
                        if it:
                            hit.add(it["item"])
            for i in items:
                if i["kind"] != "fn" or i["status"] != "ok" or i.get("stubbed"):
                    continue
                if kind == "loop" and not i.get("loops"):
                    continue
                if i["item"] not in hit:
                    self.vacuous.append(f"{i['item']} ({kind})")
        return self


def scan_trusted(text):
    out = []
    lines = text.splitlines()
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith("//"):
            continue
        if "assume_specification" in s:
            m = re.search(r"\[\s*(.*?)\s*\]", s)
            out.append("assumed contract of the dependency " + (m.group(1) if m else s))
        elif "external_body" in s or "external_trait_specification" in s or "external_type_specification" in s:
            nxt = next((x.strip() for x in lines[n:n + 6] if re.search(r"\b(fn|struct|trait|enum)\b", x)), s)
            out.append("trusted: " + re.sub(r"\s+", " ", nxt)[:140])
        elif re.search(r"\b(admit\(\)|assume\()", s):
            out.append("assumption: " + s[:140])
        elif re.search(r"\baxiom fn\b|broadcast axiom", s):
            out.append("axiom: " + s[:140])
        elif "exec_allows_no_decreases_clause" in s:
            out.append("termination not proved: " + next((x.strip()[:80] for x in lines[n + 1:n + 4] if "fn " in x), ""))
    return sorted(set(out))


# ---------------------------------------------------------------- bounded runs

def run_replay(binname, seed, mult, budget, only=None, tag="", hang=100):
    out = f"{BUILD}/{binname}{tag}.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [f"{BUILD}/rt/debug/{binname}", "--seed", str(seed), "--mult", str(mult), "--budget", str(budget), "--out", out, "--hang", str(hang)]
    if only:
        cmd += ["--only", only]
    rc, so, se = run(cmd, budget + hang + 60, cwd=BUILD)
    if os.path.exists(out):
        return json.load(open(out)), " ".join(cmd)
    tail = (so + se)[-3000:]
    if rc is None:
        return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rules": [], "failures": [{"id": "?", "detail": "the run did not end", "input": [tail]}]}, " ".join(cmd)
    # killed by a signal: a stack overflow or abort inside the code under test
    return {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rules": [], "failures": [{"id": "?", "detail": f"the process under test died with status {rc}", "input": [tail]}]}, " ".join(cmd)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    c = CONF["properties"][prop]
    for d in (BUILD, REPLAYS, os.path.join(VERIF, "evidence")):
        os.makedirs(d, exist_ok=True)
    assumptions = list(c.get("assumptions", []))
    pool = cf.ThreadPoolExecutor(8)
    fut_rt = pool.submit(build_replay, c["replay"])
    vx, err = build_vx()
    units = []
    if vx is None:
        assumptions.append("NOT DECIDED BY PROOF on this run: the extractor did not build: " + err[-300:])
    else:
        units = list(pool.map(lambda u: Unit(u, vx).go(), c["units"]))
        vac = [u for u in units if not u.broken]
        list(pool.map(lambda u: u.vacuity(), vac))
    built, berr = fut_rt.result()
    failed = [(u.name, *f) for u in units for f in u.failed]
    undecided = [(u.name, *f) for u in units for f in u.undecided] + [(u.name, "*", u.broken) for u in units if u.broken]

    q = c.get(tier, {})
    mult = q.get("mult", 8.0 if tier == "quick" else 80.0)
    budget = q.get("budget", 60 if tier == "quick" else 400)
    hang = 100 if tier == "quick" else 300
    results = []
    known = [k for k in json.load(open(f"{VERIF}/known_findings.json")) if k.get("property") == prop and k.get("status") == "open"]
    known_as = lambda b, f: next((k for k in known if k["bin"] == b and re.fullmatch(k["id"], f["id"]) and re.search(k["detail"], f["detail"])), None)
    if built:
        for b in c["replay"]:
            r, cmd = run_replay(b, seed, mult, budget, hang=hang)
            results.append((b, r, cmd))
            if failed and all(known_as(b, f) for f in r["failures"]) and tier == "quick":
                # an obligation failed: search harder for an input that shows it
                r2, cmd2 = run_replay(b, seed + 7919, mult * 5, min(150, budget * 3), tag=".more", hang=hang)
                results.append((b, r2, cmd2))
    else:
        assumptions.append("the bounded runs did not build against the current tree: " + berr[-600:])

    new_failures, seen_known = [], {}
    for b, r, cmd in results:
        for f in r["failures"]:
            k = known_as(b, f)
            if k:
                seen_known[k["what"]] = True
            else:
                new_failures.append((b, f, cmd))
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}" + ("" if k["what"] in seen_known else " (listed; not re-run in this tier)"))

    violations = 0
    if failed or new_failures:
        violations = max(1, len(new_failures))
        key = hashlib.sha1(json.dumps([failed, [(b, f["id"]) for b, f, _ in new_failures]]).encode()).hexdigest()[:10]
        path = os.path.join(REPLAYS, f"{prop}-{key}.txt")
        with open(path, "w") as o:
            o.write(f"property {prop}: {c['title']}\nrepository {REPO}, tier {tier}, seed {seed}\n\n")
            for u, item, msg, text in failed:
                o.write(f"FAILED OBLIGATION unit={u} function={item}: {msg}\n{text}\n")
                it = next((i for x in units if x.name == u for i in x.items if i["item"] == item), None)
                if it:
                    o.write(f"  (source: {it['src']}:{it['line']}; extracted text: {BUILD}/{u}.rs lines {it['out_start']}-{it['out_end']})\n\n")
            for b, f, cmd in new_failures:
                o.write(f"FAILING INPUT {b} case {f['id']}: {f['detail']}\n")
                for l in f.get("input", []):
                    o.write(f"    {l}\n")
                o.write(f"  re-run on the real code: {cmd.split(' --only')[0]} --only {f['id']}\n\n")
            if failed and not new_failures:
                o.write("The bounded runs found no input that shows the failed obligation.\n")
        for u, item, msg, _ in failed:
            print(f"failed obligation: unit {u}, {item}: {msg}")
        for b, f, _ in new_failures[:5]:
            print(f"failing input: {b} {f['id']}: {f['detail'][:400]}")
        print(f"VIOLATION property={prop} replay={path}" + ("" if new_failures else " no-failing-input-found"))

    obligations = sum(u.verified + u.errors for u in units)
    discharged = sum(u.verified for u in units)
    fns = [f"{i['src']}#{i['item']}" for u in units for i in u.items if i["kind"] == "fn" and i["status"] == "ok" and i["item"] not in u.demoted]
    for u, item, why in undecided:
        assumptions.append(f"NOT DECIDED BY PROOF on this run: {u}/{item}: {why}")
        print(f"note: undecided by proof: {u}/{item}: {why[:200]}")
    for u in units:
        for v in u.vacuous:
            assumptions.append(f"vacuity check: {u.name}/{v} did not fail with an added false assertion")
    for u in units:
        for i in u.items:
            for d in i.get("dropped", []) or []:
                assumptions.append(f"extraction of {i['item']} drops: {d}")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "verus <unit>.rs --crate-type=lib --edition=2024 (Z3 back end), units: " + ", ".join(c["units"]),
            "trusted_base": sorted({t for u in units for t in u.trusted}) + CONF.get("trusted_base", []),
            "functions_under_contract": fns,
            "functions_not_decided": [f"{u}/{i}: {w}" for u, i, w in undecided],
            "clauses": sum(i.get("clauses", 0) for u in units for i in u.items),
            "solver_ms": sum(u.ms for u in units),
            "extraction_rewrites": {u.name: sum(len(i.get("rewrites", [])) for i in u.items) for u in units},
            "evaluations": sum(r["evaluations"] for _, r, _ in results),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for _, r, _ in results),
            "rule": " ".join(x for _, r, _ in results for x in r.get("rules", [])),
            "samples": [s for _, r, _ in results for s in r.get("samples", [])][:12],
            "bounded": {b: r.get("per_scenario", {}) for b, r, _ in results},
            "bounded_built": built,
            "explanation": c.get("explanation", "") + " The bounded runs are labelled bounded and never counted as proved.",
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - T0, 2), "violations": violations,
    }
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)
    print(f"{prop}: {discharged}/{obligations} obligations discharged over {len(fns)} functions, "
          f"{ev['coverage']['evaluations']} bounded cases, {len(undecided)} undecided, {ev['wall_s']} s")
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
