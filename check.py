#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree (see DESIGN.md).

1. expand /repo's crate, extract the verified text from it, let Verus discharge the obligations;
2. failed obligations of the functions the property owns start a search for a failing input;
3. functions not (or no longer) under a contract are covered by a bounded stand-in: the same search,
   for a stated time.
Ends with 0, or with 1 and a VIOLATION line."""
import concurrent.futures, fcntl, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
R = "/repo"
B = os.path.join(V, "build")
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
ENV.pop("RUSTFLAGS", None)
ENV.pop("RUSTUP_TOOLCHAIN", None)
T0 = time.time()
DEADLINE = T0 + 840


def log(*a):
    print(*a, flush=True)


def sh(cmd, cwd=V, env=None, timeout=600, out=None, mem=None):
    pre = None
    if mem:
        pre = lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **(env or {})), timeout=timeout, stdout=out or subprocess.PIPE,
                          stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=pre)


def cargo_build(crate, target, force=()):
    """Build a crate of /verif; `force` names packages rebuilt whatever cargo thinks of their file times."""
    for p in force:
        d = os.path.join(target, "release", ".fingerprint")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.rsplit("-", 1)[0] == p:
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    r = sh(["cargo", "build", "--offline", "--release", "-q"], cwd=os.path.join(V, crate), env={"CARGO_TARGET_DIR": target})
    if r.returncode != 0:
        raise RuntimeError(f"building {crate} failed:\n{r.stderr[-3000:]}")


def build_extractor():
    cargo_build("extractor", f"{B}/et", force=["extractor"])


def build_oracle():
    cargo_build("oracle", f"{B}/ot", force=["undname", "oracle"])


def expand(work):
    tgt = f"{B}/xt"
    for prof in ("debug", "release"):
        d = os.path.join(tgt, prof, ".fingerprint")
        if os.path.isdir(d):
            for f in os.listdir(d):
                if f.startswith("undname-"):
                    shutil.rmtree(os.path.join(d, f), ignore_errors=True)
    p = f"{work}/exp.rs"
    with open(p, "w") as o:
        r = sh(["cargo", "+nightly", "rustc", "--offline", "--lib", "--profile", "check", "-q", "--", "-Zunpretty=expanded"],
               cwd=R, env={"CARGO_TARGET_DIR": tgt}, out=o)
    if r.returncode != 0 or os.path.getsize(p) < 1000:
        with open(p, "w") as o:
            r = sh(["cargo", "+nightly", "rustc", "--offline", "--lib", "-q", "--", "-Zunpretty=expanded"], cwd=R, env={"CARGO_TARGET_DIR": tgt}, out=o)
    if r.returncode != 0 or os.path.getsize(p) < 1000:
        raise RuntimeError("expanding the crate failed: " + r.stderr[-2000:])
    return p


def config():
    return json.load(open(f"{V}/contracts/config.json"))


KIND = [
    ("decreases", "termination"), ("termination", "termination"), ("arithmetic overflow", "panic"), ("arithmetic underflow", "panic"),
    ("division by zero", "panic"), ("bit shift", "panic"), ("unreachable", "panic"), ("index", "panic"),
    ("postcondition", "postcondition"), ("invariant", "invariant"), ("precondition", "precondition"),
    ("assertion", "assertion"), ("rlimit", "undecided"), ("Resource limit", "undecided"), ("resource limit", "undecided"),
]


# properties every function's obligations speak about; the other checks verify the functions their property
# owns (and all lemmas) against the contracts of the rest, which these checks discharge
WHOLE = ("C01", "C02", "C03", "C04")


def extract(work, exp, name, pid, cfg, external):
    args = [f"{B}/et/release/extractor", exp, V, f"{work}/{name}.rs", f"{work}/{name}.json"]
    if cfg.get("mods"):
        args.append("--mods=" + ",".join(cfg["mods"]))
    if pid and pid not in WHOLE:
        args.append(f"--prop={pid}")
        args += [f"--also={x}" for x in cfg["properties"][pid].get("also", [])]
    r = sh(args + [f"--external={x}" for x in external])
    if r.returncode != 0:
        raise RuntimeError("extraction failed: " + r.stderr[-1500:])
    return json.load(open(f"{work}/{name}.json"))


def run_verus(work, name, cfg, more):
    """One run of the verifier over an extracted text: its verdict and its diagnostics."""
    cmd = ["verus", f"{name}.rs", "--crate-type", "lib", "--num-threads", "8", "--rlimit", str(cfg.get("rlimit", 30)),
           "--output-json", "--time", "--error-format=json"] + more
    tag = name + ("-" + more[-1].strip("*:").replace("::", "-") if more else "")
    t = time.time()
    with open(f"{work}/{tag}.verdict", "w") as out:
        r = sh(cmd, cwd=work, timeout=max(60, min(600, DEADLINE - time.time())), out=out)
    diags = []
    for line in r.stderr.splitlines():
        if line.startswith("{"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d.get("level") == "error":
                diags.append(d)
    try:
        res = json.load(open(f"{work}/{tag}.verdict"))
    except ValueError:
        res = {}
    vr = res.get("verification-results", {})
    ok = vr.get("encountered-vir-error") is False and (vr.get("verified", 0) > 0 or vr.get("errors", 0) > 0 or bool(more)) and not any(d.get("code") for d in diags)
    return {"ok": ok, "vr": vr, "res": res, "diags": diags, "cmd": " ".join(cmd), "wall": round(time.time() - t, 1), "stderr": r.stderr}


def verify(work, cfg, pid=None):
    """Returns the proof's outcome: per function state, failures, counts."""
    exp = expand(work)
    external = []
    o = {"fns": [], "failed": {}, "unsupported": {}, "verified": 0, "errors": 0, "smt_ms": 0, "runs": 0}
    for attempt in range(8):
        # all functions; the ones in `solo` are verified by a run of their own, with solver options that suit them
        info = extract(work, exp, "all", pid, cfg, external)
        byid = {f["id"]: f for f in info["fns"]}
        solo = {x: y for x, y in cfg.get("solo", {}).items() if x in byid and not byid[x]["external"]}
        jobs = []
        with concurrent.futures.ThreadPoolExecutor(1 + len(solo)) as ex:
            if solo:
                rest = extract(work, exp, "rest", pid, cfg, external + list(solo))
                jobs.append((rest, ex.submit(run_verus, work, "rest", cfg, [])))
                for x, y in solo.items():
                    mod, name = x.rsplit("::", 2)[0], "*" + "::" + x.rsplit("::", 1)[1]
                    jobs.append((info, ex.submit(run_verus, work, "all", cfg, y + ["--verify-only-module", mod, "--verify-function", name])))
            else:
                jobs.append((info, ex.submit(run_verus, work, "all", cfg, [])))
            runs = [(i, j.result()) for i, j in jobs]
        o["runs"] += len(runs)
        o["wall"] = max(r["wall"] for _, r in runs)
        o["cmd"] = " ; ".join(r["cmd"] for _, r in runs)
        if os.environ.get("VERIF_DEBUG"):
            for i, r in runs:
                for d in r["diags"]:
                    log("DIAG", (fn_of(i, d["spans"][0]["line_start"]) or {}).get("id") if d["spans"] else None, d["message"][:200])
        if all(r["ok"] for _, r in runs):
            break
        # the translator refused something: those functions leave the proof, and are said to have
        new = {}
        for i, r in runs:
            if r["ok"]:
                continue
            for d in r["diags"]:
                for s in d["spans"] or []:
                    f = fn_of(i, s["line_start"])
                    if f and f["id"] not in external and not f["external"]:
                        new.setdefault(f["id"], []).append(d["message"])
        if not new:
            raise RuntimeError("verus gave no verdict: " + "; ".join(d["message"] for _, r in runs for d in r["diags"])[:1500] + "".join(r["stderr"][-300:] for _, r in runs if not r["ok"]))
        for x, ms in new.items():
            o["unsupported"][x] = "; ".join(ms)[:300]
        external += sorted(new)
    else:
        raise RuntimeError("verus gave no verdict after 8 attempts")
    o["fns"] = info["fns"]
    o["unused_contracts"] = info["unused"]
    for k, (i, r) in enumerate(runs):
        # a run over one function counts that function's obligation only
        o["verified"] += r["vr"].get("verified", 0) if k == 0 else (1 if r["vr"].get("errors", 0) == 0 and not r["diags"] else 0)
        o["errors"] += r["vr"].get("errors", 0)
        try:
            o["smt_ms"] += r["res"]["times-ms"]["smt"]["total"]
        except KeyError:
            pass
        for d in r["diags"]:
            msg = d["message"]
            if msg.startswith("aborting due to"):
                continue
            kind = next((k for pat, k in KIND if pat in msg), "other")
            f = None
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                f = fn_of(i, s["line_start"])
                if f and not f["external"]:
                    break
            # a postcondition is reported at the contract, the function is where any of the spans lies
            fid = f["id"] if f else "(library of lemmas)"
            text = d.get("rendered") or msg
            o["failed"].setdefault(fid, []).append({"kind": kind, "message": msg, "text": text[:1500],
                                                    "clause": next((x["text"][0]["text"] for x in d["spans"] if "postcondition" in (x.get("label") or "") and x.get("text")), ""),
                                                    "unsafe": "_unchecked" in text or "T::matches(" in text})
    return o


def fn_of(info, line):
    best = None
    for f in info["fns"]:
        if f["line"] <= line <= f["end"] and (best is None or f["end"] - f["line"] < best["end"] - best["line"]):
            best = f
    return best


def relevant(pid, fn, fails, cfg):
    """Does a failed obligation of this function speak about the property?"""
    own = fn.get("own", []) if fn else []
    if fn and not own:
        # plumbing (verified in every check): handles, storage and conversions belong to C04, the rest to C16
        own = ["C04" if fn["id"].startswith(("cache::", "nodes::intermediate::")) else "C16"]
    out = []
    for f in fails:
        if f["kind"] in ("termination",):
            p = {"C02"}
        elif f["kind"] == "panic":
            p = {"C01"}
        elif f["kind"] == "precondition" and f["unsafe"]:
            p = {"C04"}
        elif f["kind"] == "precondition" and "modest(" in f["text"]:
            p = {"C03"}
        elif f["kind"] == "precondition":
            p = {"C01"} | set(own)
        elif f["kind"] == "undecided":
            p = set()
        elif f["kind"] == "postcondition" and re.match(r"\s*r is (Ok|Err) ==> .* is (Ok|Err),?\s*$", f["clause"]):
            # accepted although the grammar refuses, or the other way round
            p = set(own) | {"C17"}
        else:
            p = set(own)
        if pid in p:
            out.append(f)
    return out


def search(pid, mode, secs, seed, work, procs=8):
    """Runs the search in parallel; returns (finding or None, counts)."""
    ps = []
    for k in range(procs):
        st = f"{work}/state{k}"
        open(st, "wb").close()
        pr = subprocess.Popen([f"{B}/ot/release/conc", pid, mode, str(secs), str(seed * 1000 + k), st], stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, start_new_session=True,
                              preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        ps.append({"p": pr, "st": st, "cur": None, "since": time.time(), "done": False})
    found, tot = None, {"evaluations": 0, "accepted": 0, "distinct": 0, "samples": []}
    cands = []
    end = time.time() + secs + 90
    while not all(x["done"] for x in ps):
        time.sleep(0.2)
        for x in ps:
            if x["done"]:
                continue
            rc = x["p"].poll()
            if rc is None:
                # hung in a call of the real library?
                try:
                    with open(x["st"], "rb") as f:
                        cur = f.read(65536)
                except OSError:
                    cur = b""
                if cur != x["cur"]:
                    x["cur"], x["since"] = cur, time.time()
                hung = cur[:8] != b"\xff" * 8 and len(cur) >= 16 and time.time() - x["since"] > 20
                if hung or time.time() > end:
                    os.killpg(x["p"].pid, signal.SIGKILL)
                    x["p"].wait()
                    x["done"] = True
                    if hung:
                        cands.append(("hang", read_state(x["st"]), "no answer within 20 s"))
                continue
            out, err = x["p"].communicate()
            x["done"] = True
            last = out.strip().splitlines()[-1] if out.strip() else ""
            for line in out.splitlines():
                if line.startswith("SAMPLES "):
                    tot["samples"] += json.loads(line[8:])
            if last.startswith("FOUND "):
                j = json.loads(last[6:])
                cands.append(("wrong", (j["input"], j["flags"]), j["what"]))
            elif last.startswith("DONE "):
                a, b, c = map(int, last[5:].split())
                tot["evaluations"] += a
                tot["accepted"] += b
                tot["distinct"] += c
            elif rc != 0 and read_state(x["st"]):
                cands.append(("crash", read_state(x["st"]), f"the process died (status {rc}): {err.strip()[:400]}"))
        if cands:
            for x in ps:
                if not x["done"]:
                    try:
                        os.killpg(x["p"].pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    x["p"].wait()
                    x["done"] = True
    for kind, case, what in cands:
        if kind == "hang" and pid not in ("C01", "C02", "C03"):
            continue
        if kind == "crash" and pid not in ("C01", "C03", "C04"):
            continue
        if case is None:
            continue
        if kind == "crash" and pid == "C04" and not re.search(r"unsafe precondition|SIGSEGV|status -11|status -7|-4\)", what):
            continue
        # must happen again, alone
        again = replay(pid, mode, case, work)
        if again:
            found = {"kind": kind, "input": case[0], "flags": case[1], "what": again if kind == "wrong" else f"demangle({case[0][:300]!r}, flags {case[1]}): {again}"}
            break
    return found, tot


def read_state(p):
    b = open(p, "rb").read()
    n = int.from_bytes(b[:8], "little")
    if len(b) < 16 or n > len(b):
        return None
    return b[16:16 + n].decode("utf-8", "replace"), int.from_bytes(b[8:16], "little")


def replay(pid, mode, case, work):
    p = f"{work}/input"
    with open(p, "w", newline="") as f:
        f.write(case[0])
    try:
        r = sh([f"{B}/ot/release/conc", "replay", pid, mode, str(case[1]), p], timeout=60, mem=12 << 30)
    except subprocess.TimeoutExpired:
        return "no answer within 60 s"
    m = re.search(r"^FOUND (.*)$", r.stdout, re.M)
    if m:
        return json.loads(m.group(1))["what"]
    if r.returncode != 0:
        return f"the process died (status {r.returncode}): {r.stderr.strip()[:400]}"
    return None


def minimise(pid, mode, f, work):
    """A shorter failing input, if a short search finds one."""
    s, end = f["input"], time.time() + 20
    step = max(1, len(s) // 2)
    while step >= 1 and time.time() < end and f["kind"] == "wrong":
        i, hit = 0, False
        while i < len(s) and time.time() < end:
            t = s[:i] + s[i + step:]
            w = replay(pid, mode, (t, f["flags"]), work)
            if w and t:
                s, hit = t, True
                f["input"], f["what"] = t, w
            else:
                i += step
        if not hit:
            step //= 2
    return f


def setup():
    os.makedirs(B, exist_ok=True)
    w = f"{B}/setup"
    os.makedirs(w, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for j in [ex.submit(build_extractor), ex.submit(build_oracle), ex.submit(expand, w)]:
            j.result()
    shutil.rmtree(w, ignore_errors=True)


def prove(work, cfg, pid):
    try:
        build_extractor()
        return verify(work, cfg, pid), None
    except Exception as e:  # the proof is undecided, which is not a violation: the stand-in decides
        log("proof undecided:", str(e)[:1500])
        return None, str(e)[:1500]


def main():
    if sys.argv[1] == "setup":
        setup()
        return 0
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    os.makedirs(B, exist_ok=True)
    lock = open(f"{B}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    cfg = config()
    pc = cfg["properties"][pid]
    work = f"{B}/run-{pid}"
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    quick = tier != "thorough"
    secs = pc.get("seconds", 15) if quick else 300
    proof, why_no_proof = None, None
    pool = concurrent.futures.ThreadPoolExecutor(2)
    jx = pool.submit(prove, work, cfg, pid)
    build_oracle()
    # the bounded stand-in runs while the verifier does
    found, tot = search(pid, "plain", secs, seed, work)
    proof, why_no_proof = jx.result()
    fails, undecided = [], []
    fns = {f["id"]: f for f in proof["fns"]} if proof else {}
    if proof:
        for fid, fl in proof["failed"].items():
            rel = relevant(pid, fns.get(fid), fl, cfg)
            if rel:
                fails.append((fid, rel))
            log(f"obligation failed: {fid}: {'; '.join(sorted(set(x['kind'] + ': ' + x['message'] for x in fl)))[:300]}")
        for fid in proof["unsupported"]:
            undecided.append(fid)
            log(f"outside the verifier's reach: {fid}: {proof['unsupported'][fid][:200]}")
    owned = [f for f in fns.values() if pid in f["own"] or pc.get("all") or (pid == "C17" and f["contracted"] and any(f["id"].startswith(a) for a in pc["also"]))]
    proved = [f["id"] for f in owned if f["contracted"] and not f["external"] and f["id"] not in (proof or {}).get("failed", {})]
    outside = [f["id"] for f in owned if f["external"] or not f["contracted"]]
    suspicious = bool(fails) or bool(undecided) or proof is None or bool(proof and proof["failed"])
    if suspicious and not found:
        found, t2 = search(pid, "plain", 45, seed + 500, work)
        secs += 45
        for k in ("evaluations", "accepted", "distinct"):
            tot[k] += t2[k]
    modes = ["plain"]
    if not found and fails and pid not in ("C02", "C04"):
        # an obligation the property owns fails: any disagreement with the contract is evidence
        g, t2 = search("C16" if pid not in ("C01", "C05", "C12", "C13", "C14") else pid, "strict", 60, seed + 1, work)
        modes.append("strict")
        for k in ("evaluations", "accepted", "distinct"):
            tot[k] += t2[k]
        found = g
    violations = 0
    rdir = f"{V}/evidence/replay"
    os.makedirs(rdir, exist_ok=True)
    rp = f"{rdir}/{pid}.json"
    if os.path.exists(rp):
        os.remove(rp)
    msg = None
    if found:
        violations = 1
        found = minimise(pid, "plain", found, work) if modes == ["plain"] else found
        json.dump({"property": pid, "input": found["input"], "flags": found["flags"], "observed": found["what"],
                   "replay": f"conc replay {pid} {modes[-1]} {found['flags']} <file holding the input>",
                   "failed_obligations": [{"function": a, "obligations": b} for a, b in fails]}, open(rp, "w"), indent=1)
        log("failing input:", found["what"][:1000])
        msg = f"VIOLATION property={pid} replay={rp}"
    elif fails:
        violations = 1
        json.dump({"property": pid, "failed_obligations": [{"function": a, "obligations": b} for a, b in fails],
                   "verifier": proof["cmd"], "searched": tot}, open(rp, "w"), indent=1)
        msg = f"VIOLATION property={pid} replay={rp} no-failing-input-found"
    ev = {
        "property": pid, "tier": "quick" if quick else "thorough", "seed": seed, "level": pc["level"],
        "coverage": {
            "obligations": (proof["verified"] + proof["errors"]) if proof else 0,
            "discharged": proof["verified"] if proof else 0,
            "checker_cmd": proof["cmd"] if proof else "verus (no verdict)",
            "back_end": "Verus 0.2026.09.13 / Z3",
            "solver_ms": proof["smt_ms"] if proof else 0,
            "verifier_wall_s": proof.get("wall") if proof else None,
            "functions_under_contract_for_this_property": sorted(proved),
            "owned_functions_without_proof": sorted(outside),
            "functions_under_contract_in_total": sum(1 for f in fns.values() if f["contracted"] and (not f["external"] or f["other"])),
            "functions_verified_in_this_run": sum(1 for f in fns.values() if f["contracted"] and not f["external"]),
            "functions_whose_contract_is_discharged_by_other_checks": sum(1 for f in fns.values() if f["other"]),
            "functions_left_out_by_this_run": proof["unsupported"] if proof else {"all": why_no_proof},
            "loops_without_termination_proof": {f["id"]: f["missing"] for f in fns.values() if f["missing"]},
            "trusted_base": trusted(cfg, fns),
            "bounded_stand_in": {"label": "bounded, not counted as proved", "mode": modes, "seconds": secs, "processes": 8,
                                 "evaluations": tot["evaluations"], "accepted_inputs": tot["accepted"],
                                 "distinct_accepted_inputs_per_process_summed": tot["distinct"]},
            "evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct"],
            "rule": pc["rule"] + " Non-trivial: the library accepts the input (counted distinct within each process, then summed).",
            "samples": tot["samples"][:5] or ["(none accepted)"],
            "explanation": pc["explanation"],
        },
        "assumptions": cfg["assumptions"] + pc.get("assumptions", []),
        "wall_s": round(time.time() - T0, 1),
        "violations": violations,
    }
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    shutil.rmtree(work, ignore_errors=True)
    if proof:
        log(f"{pid}: {proof['verified']} discharged, {proof['errors']} not, {len(proved)} owned functions proved, {len(outside)} outside; stand-in {tot['evaluations']} inputs")
    if msg:
        log(msg)
        return 1
    log(f"{pid}: held")
    return 0


def trusted(cfg, fns):
    t = list(cfg["trusted"])
    for f in fns.values():
        if f["contracted"] and f["external"] and not f["other"]:
            t.append(f"contract of {f['id']} assumed (body outside the verifier's reach)")
    try:
        text = "".join(open(f"{V}/verus/{n}.rs").read() for n in ("shims", "libs", "lem", "iso", "sp_prelude", "views"))
        for w in ("external_body", "assume_specification", "admit()", "assume(", "axiom fn", "uninterp"):
            t.append(f"hand-written Verus text: {len(re.findall(re.escape(w), text))} x {w}")
    except OSError:
        pass
    return t


if __name__ == "__main__":
    sys.exit(main())
