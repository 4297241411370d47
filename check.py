#!/usr/bin/env python3
"""check.py <property> [quick|thorough]  --  decide one property by symbolic execution of the real code.

Rebuilds, from /repo's current working tree, (1) the LLVM IR of the harness crate fat-linked with
schemars, schemars_derive-generated code, serde and serde_json, and (2) a native replay binary of the
same harnesses; explores every harness of the property with engine/symx (all paths, Z3 + exact
finite-domain decisions); replays every counterexample and a sample of passing paths natively.
Exit 0 = held on everything explored, 1 = VIOLATION, 2 = the check could not decide (its own error).
"""
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
sys.path.insert(0, VERIF)
import config  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = e.get("PATH", "") + ":/usr/local/cargo/bin:%s/.cargo/bin:/usr/local/bin:/usr/bin:/bin" % e["HOME"]
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    return e


class CheckError(Exception):
    pass


def run(cmd, timeout, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build_engine():
    src = [os.path.join(VERIF, "engine", f) for f in ("symx.cpp", "ir.cpp", "expr.cpp", "ir.h", "expr.h", "build.sh")]
    h = hashlib.sha256(b"".join(open(f, "rb").read() for f in src)).hexdigest()[:16]
    d = os.path.join(BUILD, "engine-" + h)
    if not os.path.exists(os.path.join(d, "symx")):
        r = run(["sh", os.path.join(VERIF, "engine", "build.sh"), d], 300)
        if r.returncode:
            raise CheckError("engine build failed: " + r.stderr[-2000:])
    return os.path.join(d, "symx")


def sync_harness(name):
    """work on a copy so that nothing under /verif is rewritten"""
    d = os.path.join(BUILD, "harness-" + name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    src = os.path.join(VERIF, "harness")
    want = {"Cargo.toml", "Cargo.lock", "memchr/Cargo.toml", "memchr/src/lib.rs"} | {"src/" + f for f in os.listdir(os.path.join(src, "src"))}
    for f in want:
        a, b = os.path.join(src, f), os.path.join(d, f)
        os.makedirs(os.path.dirname(b), exist_ok=True)
        data = open(a, "rb").read()
        if not os.path.exists(b) or open(b, "rb").read() != data:
            open(b, "wb").write(data)
    return d


def build_ir(feats, tag):
    d = sync_harness("ir")
    td = os.path.join(BUILD, "t-ir" + tag)
    e = env()
    e["CARGO_TARGET_DIR"] = td
    deps = os.path.join(td, "release", "deps")
    if os.path.isdir(deps):
        for f in os.listdir(deps):
            if f.endswith(".ll"):
                os.unlink(os.path.join(deps, f))
    # touch: the IR must always be emitted again
    os.utime(os.path.join(d, "src", "lib.rs"))
    r = run(["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "staticlib", "--features", ",".join(feats), "--",
             "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], 600, cwd=d, env=e)
    ll = [os.path.join(deps, f) for f in os.listdir(deps) if f.startswith("vharness") and f.endswith(".ll")] if os.path.isdir(deps) else []
    if r.returncode or len(ll) != 1:
        raise CheckError("IR build failed:\n" + r.stderr[-4000:])
    return ll[0]


def build_native(feats, tag):
    d = sync_harness("nat")
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "t-nat" + tag)
    r = run(["cargo", "build", "--profile", "native", "--offline", "--bin", "replay", "--features", ",".join(feats + ["native"])], 600, cwd=d, env=e)
    if r.returncode:
        raise CheckError("native build failed:\n" + r.stderr[-4000:])
    return os.path.join(e["CARGO_TARGET_DIR"], "native", "replay")


def parallel(**fns):
    out, err = {}, []

    def w(k, f):
        try:
            out[k] = f()
        except Exception as x:  # noqa: BLE001
            err.append(x)
    ts = [threading.Thread(target=w, args=kv) for kv in fns.items()]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    return out


def replay_one(binary, harness, model, timeout=60):
    try:
        p = run([binary, harness, model], timeout)
    except subprocess.TimeoutExpired:
        return {"outcome": "timeout", "msg": "no result after %ds" % timeout}
    line = p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""
    try:
        return json.loads(line)
    except ValueError:
        return {"outcome": "crash", "msg": "exit %s %s" % (p.returncode, p.stderr[-300:])}


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True, timeout=60)
        return p.stdout.splitlines()
    except Exception:  # noqa: BLE001
        return list(names)


def explore(symx, ll, h, tier, deadline_s, known):
    out = os.path.join(BUILD, "out", h["fn"] + ".jsonl")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    if os.path.exists(out):
        os.unlink(out)
    cmd = [symx, ll, "h_" + h["fn"], out, "--procs", str(os.cpu_count() or 4), "--deadline-ms", str(int(deadline_s * 1000)),
           "--max-instr", str(h.get("max_instr", 400000000)), "--samples", str(h.get("samples", 64)), "--max-viol", "6"]
    for k in known:
        cmd += ["--known", k]
    if tier == "thorough":
        cmd.append("--xcheck")
    try:
        p = run(cmd, deadline_s + 120)
        rc, errtxt = p.returncode, p.stderr
    except subprocess.TimeoutExpired:
        rc, errtxt = -1, "symx timeout"
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                raise CheckError("garbled symx output in " + out)
    return rc, errtxt, recs


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = config.PROPS[prop]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evf = os.path.join(VERIF, "evidence", prop + ".json")
    feats = list(P["features"]) + (["thorough"] if tier == "thorough" else [])
    tag = P.get("tag", "")
    builds = parallel(symx=build_engine, ll=lambda: build_ir(feats, tag), nat=lambda: build_native(feats, tag))
    symx, ll, nat = builds["symx"], builds["ll"], builds["nat"]
    log("built; IR %d bytes" % os.path.getsize(ll))
    kf = [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if k["property"] == prop]
    budget = config.BUDGET_S[tier]
    tot = {}
    fns = set()
    violations, errors, knownhits, samples, perh = [], [], {}, [], []
    validated = 0
    hs = [h for h in P["harnesses"] if h.get("tier", tier) == tier or (tier == "thorough" and h.get("tier") == "quick")]
    for n, h in enumerate(hs):
        left = budget - (time.time() - T0)
        if left < 10:
            errors.append("%s: not run, time budget exhausted" % h["fn"])
            continue
        if tier == "thorough":
            left /= min(3, len(hs) - n)  # what one harness does not use is left to those after it
        known = [k["id"] for k in kf if k["harness"] == h["fn"]]
        t = time.time()
        rc, errtxt, recs = explore(symx, ll, h, tier, left, known)
        summ = next((r for r in recs if r["kind"] == "summary"), None)
        log("%s: %s %.1fs" % (h["fn"], {k: summ[k] for k in ("ok", "pruned", "violations", "errors", "limits", "checks", "z3_queries", "z3_unknown", "instrs")} if summ else None, time.time() - t))
        viol = [r for r in recs if r["kind"] == "violation"]
        # --- replay counterexamples natively, one process each
        seen = {}
        for v in viol:
            key = v["id"] if v["id"] not in ("panic",) else v["id"] + v["msg"]
            if seen.get(key, 0) >= 2 or len(seen) > 12:
                continue
            seen[key] = seen.get(key, 0) + 1
            r = replay_one(nat, h["fn"], v["model"])
            ok = r["outcome"] in ("crash", "timeout") or (r["outcome"] == "panic" and v["id"] in ("panic", "unreachable", "abort", "recursion", "ub", "trap", "memory")) or (r["outcome"] == "fail" and r["msg"] == v["id"])
            if not ok:
                errors.append("%s: counterexample %s (%s) did not reproduce natively: %s" % (h["fn"], v["model"], v["id"], json.dumps(r)[:400]))
                continue
            k = next((k for k in kf if k["harness"] == h["fn"] and k["id"] == v["id"] and (not k.get("match") or re.search(k["match"], v["msg"] + " ".join(r.get("notes", []))))), None)
            if k:
                knownhits[k["what"]] = (v, r)
            else:
                violations.append((h, v, r))
        # --- instruction limit: possible non-termination
        for l in [r for r in recs if r["kind"] == "limit" and r["msg"] == "instructions"][:2]:
            r = replay_one(nat, h["fn"], l["model"], 20)
            if r["outcome"] in ("timeout", "crash"):
                violations.append((h, dict(l, id="termination"), r))
            else:
                errors.append("%s: instruction limit reached" % h["fn"])
        # --- a sample of passing paths must behave natively exactly as predicted
        samp = [r for r in recs if r["kind"] == "sample"]
        if samp:
            p = subprocess.run([nat, "--batch"], input="".join("%s %s\n" % (h["fn"], s["model"]) for s in samp), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=300)
            outs = p.stdout.splitlines()
            if len(outs) != len(samp):
                errors.append("%s: native batch replay died" % h["fn"])
            for s, o in zip(samp, outs):
                o = json.loads(o)
                if o["outcome"] != "ok" or o["digest"] != s["digest"]:
                    errors.append("%s: engine and native run disagree on model %s: %s vs digest %s" % (h["fn"], s["model"], json.dumps(o)[:300], s["digest"]))
                else:
                    validated += 1
                    if len(samples) < 40 and len([x for x in samples if x["harness"] == h["fn"]]) < 4:
                        samples.append({"harness": h["fn"], "model": s["model"], "observed_digest": s["digest"], "observed_bytes": s["obs"], "native": "same", "notes": o.get("notes", [])[:2]})
        for r in [r for r in recs if r["kind"] == "error"][:5]:
            errors.append("%s: engine: %s [%s] model %s" % (h["fn"], r["msg"], r["stack"][:300], r["model"]))
        if not summ:
            errors.append("%s: no summary (symx rc=%s %s)" % (h["fn"], rc, errtxt[-500:]))
            continue
        hv = [v for v in violations if v[0] is h]
        if not hv:
            if summ["limits"] and tier == "thorough" and summ["ok"]:
                log("%s: time budget used up, %d paths not finished (the evidence says so)" % (h["fn"], summ["limits"]))
            elif summ["limits"]:
                errors.append("%s: %d paths cut by a limit" % (h["fn"], summ["limits"]))
            for x in h.get("reach", [1]):
                if not summ["reach"].get(str(x)):
                    errors.append("%s: vacuous: witness %s not reached" % (h["fn"], x))
            if summ["crashed"] or summ["z3_unknown"] or summ["xmismatch"]:
                errors.append("%s: crashed=%s unknown=%s xmismatch=%s" % (h["fn"], summ["crashed"], summ["z3_unknown"], summ["xmismatch"]))
        for k, v in summ.items():
            if isinstance(v, int):
                tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
        for r in recs:
            if r["kind"] == "functions":
                fns.update(r["names"])
        perh.append({"harness": h["fn"], "bound": h["bound"], "paths": summ["ok"], "pruned": summ["pruned"], "checks": summ["checks"], "forks": summ["forks"], "z3_queries": summ["z3_queries"], "complete": summ["limits"] == 0 and summ["errors"] == 0, "unfinished_paths": summ["limits"], "wall_ms": summ["wall_ms"], "reach": summ["reach"]})
        if hv and tier == "quick":
            break  # one confirmed violation decides a quick run
    dm = demangle(sorted(fns))
    mine = sorted({re.sub(r"\[[0-9a-f]+\]", "", d) for d in dm if "schemars" in d})
    mine = [m for m in mine if "vharness" not in m.split("::")[0] or "JsonSchema" in m]
    if len(json.dumps(mine)) > 24000:
        cut, n = [], 0
        for m in sorted(mine, key=len):
            n += len(m) + 4
            if n > 24000:
                break
            cut.append(m)
        mine = sorted(cut)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot.get("ok", 0) + tot.get("pruned", 0),
            "transitions": tot.get("decisions", 0),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no passing path sampled"}],
            "states_rule": "a state is one complete symbolic path of a harness (a path condition with every input byte that satisfies it); a transition is one symbolic branch decision",
            "harnesses": perh,
            "assertions_checked": tot.get("checks", 0), "assertions_symbolic": tot.get("checks_symbolic", 0),
            "queries": {"finite_domain": tot.get("dom_decisions", 0), "z3": tot.get("z3_queries", 0), "z3_sat": tot.get("z3_sat", 0), "z3_unsat": tot.get("z3_unsat", 0), "z3_unknown": tot.get("z3_unknown", 0), "satisfied_by_known_model": tot.get("model_hits", 0) + tot.get("local_hits", 0), "solver_s": round(tot.get("solver_ns", 0) / 1e9, 3), "finite_domain_crosschecked_with_z3": tot.get("xchecks", 0)},
            "ir_instructions_executed": tot.get("instrs", 0),
            "functions_encoded": len(fns), "schemars_functions_encoded": mine,
            "explanation": P["explanation"],
        },
        "assumptions": config.ASSUMPTIONS + P.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1), "violations": len(violations),
    }
    if errors:
        ev["errors"] = errors[:20]
    if knownhits:
        ev["known_findings"] = sorted(knownhits)
    while len(json.dumps(ev, indent=1)) > 60000 and ev["coverage"]["schemars_functions_encoded"]:
        ev["coverage"]["schemars_functions_encoded"] = ev["coverage"]["schemars_functions_encoded"][: len(ev["coverage"]["schemars_functions_encoded"]) // 2]
    json.dump(ev, open(evf, "w"), indent=1)
    for k in kf:
        if k["what"] in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if violations:
        rd = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        for i, (h, v, r) in enumerate(violations[:4]):
            f = os.path.join(rd, "%s-%d.json" % (prop, i))
            json.dump({"property": prop, "harness": h["fn"], "violated": v["id"], "engine_message": v.get("msg"), "model_bytes": v["model"], "native": r, "features": feats,
                       "how": "cargo build --profile native --features %s --bin replay (in /verif/harness), then: replay %s %s" % (",".join(feats + ["native"]), h["fn"], v["model"])}, open(f, "w"), indent=1)
            log("violation:", h["fn"], v["id"], v.get("msg"), v["model"], json.dumps(r)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if errors:
        for e in errors[:20]:
            print("ERROR %s: %s" % (prop, e))
        return 2
    print("OK property=%s paths=%d checks=%d validated=%d wall=%.0fs" % (prop, tot.get("ok", 0), tot.get("checks", 0), validated, time.time() - T0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as x:
        print("ERROR %s" % x)
        sys.exit(2)
    except subprocess.TimeoutExpired as x:
        print("ERROR timeout %s" % x)
        sys.exit(2)
