#!/usr/bin/env python3
"""Decides one property of /repo: extracts the functions under contract, lets Verus discharge every
obligation, and runs the bounded stand-in over the public API (also used to find a failing input).
usage: check.py Cxx [--tier quick|thorough] [--no-harness] [--secs N]"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from props import PROPS, TRUSTED  # noqa: E402

VERIFY_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed",
               "possible arithmetic underflow/overflow", "possible division by zero", "loop invariant", "index out of bounds",
               "assertion not satisfied", "possible bit shift underflow/overflow", "decreases not satisfied", "constant")
SKIP_MSGS = ("aborting due to", "verification results", "could not compile", "For more information")


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout, env=None, cwd=None, stdin=subprocess.DEVNULL):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=stdin, env=env, cwd=cwd, text=True, start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return -9, out or "", (err or "") + "\ntimeout"


def cargo(crate, timeout=600):
    d = os.path.join(HERE, crate)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(d, "target"), CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    rc, out, err = sh(["cargo", "build", "--offline", "--quiet"], timeout, env=env, cwd=d)
    return rc == 0, err


# ------------------------------------------------------------------ Verus
class Run:
    """one verification run over one generated unit"""

    def __init__(self, unit, work, tag, external=(), extra=(), entry_false=False, exit_false=None, flags=()):
        self.unit, self.failed, self.hard, self.rlimit = unit, [], [], set()
        self.external = set(external)
        self.out = os.path.join(work, f"{unit}_{tag}.rs")
        mp = self.out + ".map"
        cmd = [os.path.join(HERE, "vx/target/debug/vx"), "gen", "--repo", REPO, "--unit", os.path.join(HERE, "specs", unit + ".rs"), "--out", self.out, "--map", mp]
        if external:
            cmd += ["--external", ",".join(sorted(external))]
        if entry_false:
            cmd += ["--entry-false"]
        if exit_false:
            cmd += ["--exit-false", exit_false]
        rc, o, e = sh(cmd, 60)
        self.ok = False
        self.crash = None
        self.map = {"fns": [], "lost": [], "lines": []}
        self.verified = self.errors = 0
        self.funcs = {}
        self.solver_ms = 0.0
        if rc != 0:
            self.crash = "extraction failed: " + e[-2000:]
            return
        self.map = json.load(open(mp))
        self.cmd = ["verus", "--edition=2024", self.out, "--multiple-errors", "20", "--output-json", "--time-expanded", "--error-format=json", "--num-threads", "4"] + list(flags)
        rc, o, e = sh(self.cmd, 400, cwd=work)
        try:
            d = json.loads(o)
        except ValueError:
            d = {}
        vr = d.get("verification-results", {})
        self.verified, self.errors = vr.get("verified", 0), vr.get("errors", 0)
        for m in d.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                name = f["function"].split("::", 1)[-1]
                g = self.funcs.setdefault(name, {"success": True, "micros": 0, "rlimit": 0})
                g["success"] &= f["success"]
                g["micros"] += f["time-micros"]
                g["rlimit"] += f["rlimit"]
        self.solver_ms = sum(f["micros"] for f in self.funcs.values()) / 1000
        for line in e.splitlines():
            if not line.startswith("{"):
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("level") not in ("error",) or any(s in m["message"] for s in SKIP_MSGS):
                continue
            self.diag(m)
        self.ok = bool(vr.get("success")) and not self.hard and not self.failed and self.errors == 0 and self.verified > 0
        if not self.ok and not self.failed and not self.hard and not self.rlimit:
            self.crash = "verus gave no answer: " + (e[-1500:] or o[-500:])

    def line(self, n):
        ls = self.map["lines"]
        return ls[n - 1] if 0 < n <= len(ls) else {}

    def diag(self, m):
        spans = []
        for s in m.get("spans", []):
            if not s["file_name"].endswith(os.path.basename(self.out)):
                continue
            info = {}
            for n in range(s["line_start"], s["line_end"] + 1):
                x = self.line(n)
                if x.get("k") and (not info or (x.get("props") and not info.get("props")) or x.get("name")):
                    info = x
            spans.append((s, info))
        fn = next((i.get("fn") for s, i in spans if i.get("fn") and i.get("k") in ("body", "entry", "loopinv")), None) or next((i.get("fn") for _, i in spans if i.get("fn")), None)
        msg = m["message"]
        text = m.get("rendered") or msg
        if "rlimit" in msg or "Resource limit" in msg:
            self.rlimit.add(fn or "?")
            return
        if not any(msg.startswith(v) or v in msg for v in VERIFY_MSGS) or m.get("code"):
            self.hard.append((fn, msg, text))
            return
        # the violated clause decides which property fails; an obligation of a body belongs to
        # every property its function carries
        clause = [i for s, i in spans if i.get("k") in ("contract", "loopinv", "template") and ("failed" in (s.get("label") or "") or s.get("is_primary")) and (i.get("props") or i.get("name"))]
        own = next((f for f in self.map["fns"] if f["id"] == fn), {"props": []})
        props = []
        for i in clause:
            props += i.get("props", [])
        if not props:
            props = own.get("props", [])
        where = next(((i.get("file"), i.get("line")) for _, i in spans if i.get("k") == "body" and i.get("line")), (own.get("file"), (own.get("src") or [0])[0]))
        kinds = {i.get("k") for _, i in spans}
        self.failed.append({"fn": fn, "msg": msg, "clause": next((f"{i.get('at')} {i.get('name', '')}".strip() for i in clause), ""), "props": sorted(set(props)), "where": where, "loop": "loopinv" in kinds, "text": text[:4000]})


def shape_of(run):
    """what a loop invariant is written against: the loops and the locals it may mention"""
    return {f["id"]: f.get("shape") for f in run.map["fns"]}


def verify(unit, work, prop, tier):
    """Returns (run, undecided reasons, genuine failures)."""
    external, und = set(), []
    run = None
    for attempt in range(8):
        run = Run(unit, work, f"a{attempt}", external)
        if run.crash:
            und.append(f"{unit}: {run.crash}")
            return run, und, []
        for l in run.map["lost"]:
            w = f"{unit}: {l['what']} cannot be brought under its contract ({l['why'][:300]})"
            if w not in und:
                und.append(w)
        if not run.hard:
            break
        new = {fn for fn, _, _ in run.hard if fn and fn not in external}
        if not new:
            und.append(f"{unit}: the verifier rejects the generated text: {run.hard[0][1][:300]}")
            return run, und, []
        for fn, msg, _ in run.hard:
            if fn in new:
                und.append(f"{unit}: {fn} is outside the verifier's reach: {msg[:200]}")
        external |= new
    for f in run.rlimit:
        und.append(f"{unit}: the solver gave up on {f}")
    failures = []
    if run.failed:
        # an obligation counts as failed only if it fails whatever the solver's random seed
        keep = {(f["fn"], f["clause"], f["msg"]) for f in run.failed}
        for seed in (7, 23):
            r2 = Run(unit, work, f"s{seed}", external, flags=["--rlimit", "30", "--smt-option", f"smt.random_seed={seed}"])
            keep &= {(f["fn"], f["clause"], f["msg"]) for f in r2.failed}
        try:
            shapes = json.load(open(os.path.join(HERE, "specs/shapes.json"))).get(unit, {})
        except OSError:
            shapes = {}
        now = shape_of(run)
        for f in run.failed:
            if (f["fn"], f["clause"], f["msg"]) not in keep:
                und.append(f"{unit}: {f['fn']}: {f['msg']} ({f['clause']}) depends on the solver's seed")
            elif shapes.get(f["fn"]) and now.get(f["fn"]) != shapes.get(f["fn"]):
                und.append(f"{unit}: {f['fn']}: {f['msg']} ({f['clause']}), but its loops were rewritten and no longer match the invariants")
            else:
                failures.append(f)
    return run, und, failures


# ------------------------------------------------------------------ bounded stand-in
def harness(crate, prop, seed, secs, threads=8):
    exe = os.path.join(HERE, crate, "target/debug", crate)
    rc, out, err = sh([exe, "--prop", prop, "--seed", str(seed), "--secs", str(secs), "--threads", str(threads)], secs + 240)
    try:
        return json.loads(out.strip().splitlines()[-1]), None
    except (ValueError, IndexError):
        return None, f"{crate} ended with {rc}: {(err or out)[-600:]}"


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = PROPS[prop]
    secs = {"quick": p.get("secs", 20), "thorough": p.get("secs_thorough", 240)}[tier]
    if "--secs" in sys.argv:
        secs = float(sys.argv[sys.argv.index("--secs") + 1])
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"vx_{prop}_")
    try:
        code = decide(prop, p, tier, seed, secs, work, t0)
    except Exception:  # a defect of this script decides nothing about the code
        import traceback
        traceback.print_exc()
        code = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def decide(prop, p, tier, seed, secs, work, t0):
    units, crates = p.get("units", []), p.get("harness", ["harness"])
    no_h = "--no-harness" in sys.argv
    ok, err = cargo("vx")
    if not ok:
        log("the extractor does not build:", err[-2000:])
        return 2
    undecided, failures, runs, vac = [], [], [], {}
    hres, hsecs = [], 0.0
    with cf.ThreadPoolExecutor(8) as ex:
        vf = [ex.submit(verify, u, work, prop, tier) for u in units]
        nf = [ex.submit(Run, u, work, "vac", (), (), True) for u in units]

        def bounded(crate):
            ok, err = cargo(crate)
            if not ok:
                return None, f"{crate} does not build against this tree: {err[-600:]}"
            return harness(crate, prop, seed, secs)
        hf = [] if no_h else [ex.submit(bounded, c) for c in crates]
        for u, f in zip(units, vf):
            r, und, fl = f.result()
            runs.append(r)
            undecided += und
            failures += fl
        for u, f, main in zip(units, nf, list(runs)):
            r = f.result()
            if main.external:  # functions set aside: the first vacuity run had no answer
                r = Run(u, work, "vac2", main.external, (), True)
            hit = set()
            for x in r.failed:
                hit.add(x["fn"])
            vac[u] = sorted(f["id"] for f in r.map["fns"] if f.get("src") and not f["external"] and f["id"] not in hit)
        hres = [(c, f.result()) for c, f in zip(crates, hf)]
    mine = [f for f in failures if prop in f["props"]]
    others = [f for f in failures if prop not in f["props"]]
    for f in others:
        undecided.append(f"{f['fn']}: {f['msg']} ({f['clause']}) fails for {','.join(f['props'])}")
    if tier == "thorough" and not failures and not undecided:
        extra_checks(units, work, undecided, vac)
    evaluations = distinct = 0
    samples, violation, notes, other_finds = [], None, [], []
    rounds = [(hres, seed)]

    def absorb(hres):
        nonlocal evaluations, distinct, violation
        for c, (d, e) in hres:
            if d is None:
                notes.append(e)
                continue
            evaluations += d["evaluations"]
            distinct += d["distinct_nontrivial"]
            samples.extend(d["samples"][:3])
            other_finds.extend(d.get("other", []))
            if d["violation"] and violation is None:
                violation = (c, d["violation"])
    absorb(hres)
    budget = 840 - (time.time() - t0)
    if violation is None and (mine or undecided) and not no_h and budget > 120:
        # a broken or undecided obligation: search longer for a failing input
        log(f"searching for a failing input ({len(mine)} failed obligations, {len(undecided)} undecided)")
        for k in range(1, 4):
            if violation or 840 - (time.time() - t0) < 150:
                break
            absorb([(c, harness(c, prop, seed + 1000 * k, p.get("search", 30))) for c in crates if os.path.exists(os.path.join(HERE, c, "target/debug", c))])
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    known = known_findings(prop)
    code = 0
    replay = f"evidence/replay-{prop}.json"
    rp = os.path.join(HERE, replay)
    if os.path.exists(rp):
        os.remove(rp)
    nviol = 0
    if violation:
        c, v = violation
        k = next((x for x in known if x["match"] in v["msg"]), None)
        if k:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
        else:
            nviol, code = 1, 1
            json.dump({"property": prop, "kind": "failing input", "case": v["case"], "message": v["msg"], "input": v["input"],
                       "replay_cmd": f"(cd /verif/{c} && cargo build --offline && target/debug/{c} --case {v['case']})",
                       "failed_obligations": mine}, open(rp, "w"), indent=1)
            log(f"{prop}: {v['msg'][:600]}")
            for f in mine[:3]:
                log(f"  failed obligation: {f['fn']}: {f['msg']} [{f['clause']}] at {f['where'][0]}:{f['where'][1]}")
            log(f"VIOLATION property={prop} replay={replay}")
    elif mine:
        nviol, code = len(mine), 1
        json.dump({"property": prop, "kind": "failed obligation, no failing input found", "failed_obligations": mine,
                   "searched": {"evaluations": evaluations, "distinct_nontrivial": distinct}}, open(rp, "w"), indent=1)
        for f in mine[:5]:
            log(f"failed obligation: {f['fn']}: {f['msg']} [{f['clause']}] at {f['where'][0]}:{f['where'][1]}")
            log(f["text"])
        log(f"VIOLATION property={prop} replay={replay} no-failing-input-found")
    evidence(prop, p, tier, seed, runs, failures, undecided, vac, evaluations, distinct, samples, notes, other_finds, nviol, t0)
    if any(vac.values()):
        undecided.append(f"vacuous contracts: {vac}")
    for u in undecided:
        log("undecided:", u)
    for n in notes:
        log("note:", n)
    if code == 0:
        log(f"{prop}: held ({sum(r.verified for r in runs)} functions verified, {evaluations} bounded cases)" + (" with undecided obligations" if undecided else ""))
    return code


def extra_checks(units, work, undecided, vac):
    """thorough: other solver seeds, and every function's exit is reachable"""
    jobs = []
    with cf.ThreadPoolExecutor(4) as ex:
        for u in units:
            for s in (1, 2, 3, 4, 5):
                jobs.append((u, f"seed {s}", None, ex.submit(Run, u, work, f"x{s}", (), (), False, None, ["--smt-option", f"smt.random_seed={s}"])))
            r = Run(u, work, "fns")
            for f in r.map["fns"]:
                tag = "e" + re.sub(r"\W", "_", f["id"])
                jobs.append((u, "exit", f["id"], ex.submit(Run, u, work, tag, (), (), False, f["id"])))
        for u, what, fid, j in jobs:
            r = j.result()
            if fid is None:
                if not r.ok:
                    undecided.append(f"{u}: not proved with solver {what}")
            elif not any(x["fn"] == fid for x in r.failed):
                vac.setdefault(u, []).append(f"{fid} (no reachable exit)")


def known_findings(prop):
    out = []
    f = os.path.join(HERE, "known-findings.json")
    if os.path.exists(f):
        for k in json.load(open(f)).get("findings", []):
            if k.get("property") == prop:
                out.append(k)
    return out


def evidence(prop, p, tier, seed, runs, failures, undecided, vac, evaluations, distinct, samples, notes, other_finds, nviol, t0):
    obligations, discharged, fns, solver, solver_ms = 0, 0, [], [], 0.0
    for r in runs:
        bad = {(f["fn"], f["clause"]) for f in r.failed}
        badfn = {f["fn"] for f in r.failed} | {fn for fn, _, _ in r.hard} | r.rlimit
        ext = {f["id"] for f in r.map["fns"] if f["external"]}
        solver_ms += r.solver_ms
        seen = set()
        for i, l in enumerate(r.map["lines"]):
            if l.get("k") in ("contract", "loopinv") and prop in l.get("props", []) and l.get("name", "") != "" or (l.get("k") in ("contract", "loopinv") and prop in l.get("props", []) and l.get("at") not in seen):
                key = (l.get("fn"), l.get("at"))
                if key in seen:
                    continue
                seen.add(key)
                seen.add(l.get("at"))
                obligations += 1
                if l.get("fn") not in badfn and l.get("fn") not in ext and r.verified:
                    discharged += 1
        for f in r.map["fns"]:
            if prop in f["props"]:
                obligations += 1
                fine = f["id"] not in badfn and not f["external"] and r.verified > 0
                discharged += fine
                name = f["id"]
                path = name.split(" for ")[-1]
                head, _, last = path.rpartition("::")
                ways = {path, f"{head}::vx_{last}", f"{head}::vx_from"} if head else {path}
                tm = sum(v["micros"] for k, v in r.funcs.items() if k in ways or k.split("::", 1)[-1] in ways)
                fns.append(f"{name} ({f['file']}:{'-'.join(str(x) for x in f.get('src', ['not found']))}; {'verified' if fine else 'not verified'}; {tm} us"
                           + (f"; helpers inlined: {', '.join(f['inlined'])}" if f.get("inlined") else "") + (f"; rewritten: {f['rewrites']}" if f.get("rewrites") else "") + ")")
    proved = bool(runs) and obligations > 0 and obligations == discharged and not undecided
    level = p.get("level", "proof") if proved or not runs else "exploration"
    if not runs:
        level = p.get("level", "exploration")
    cov = {
        "evaluations": evaluations, "distinct_nontrivial": distinct,
        "rule": "bounded stand-in, never counted as proved: random cases through the public API of the real crate, each checked against an oracle written from the property; " + p.get("rule", "a case is non-trivial if it reached the behaviour the property speaks about, and distinct if its full description (configuration and steps) differs"),
        "samples": samples[:4] or ["none"],
    }
    if runs:
        cov.update({
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "; ".join(" ".join(r.cmd).replace(os.path.dirname(r.out), "<generated from " + REPO + ">") for r in runs if hasattr(r, "cmd")),
            "trusted_base": p.get("trusted", []) + TRUSTED,
            "back_end": "Verus 0.2026.09.13 with its Z3", "solver_time_ms": round(solver_ms, 1),
            "verified_items": sum(r.verified for r in runs),
            "functions_under_contract": fns,
            "vacuity": "assert(false) at the entry of every function under contract " + ("fails for all of them" if not any(vac.values()) else f"is NOT refuted for {vac}"),
            "undecided": undecided,
            "names_read_as": {k: v for r in runs for k, v in r.map.get("renames", {}).items()},
            "failed_obligations": [f"{f['fn']}: {f['msg']} {f['clause']}" for f in failures],
        })
    if notes:
        cov["notes"] = notes
    if other_finds:
        cov["findings_for_other_properties"] = other_finds[:5]
    d = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
         "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": nviol}
    json.dump(d, open(os.path.join(HERE, "evidence", f"{prop}.json"), "w"), indent=1)


main()
