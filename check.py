#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property of properties.jsonl with Kani/CBMC on /repo's working tree.

 * `holds` harnesses  (debug assertions on):  no check may fail for any symbolic input.
 * `panics` harnesses (debug assertions off): the point after the call must be unreachable and
   no memory safety check may fail; failing panics are the required behaviour.

A counterexample is replayed natively (dev, release, AddressSanitizer, Miri) before VIOLATION is
printed. Exit 0: held, 1: violated, 2: no verdict (build error, timeout, bound too small, a
counterexample that does not reproduce).
"""
import argparse, json, os, re, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
OUT = os.path.join(VERIF, "out")
T0 = time.time()

SAFE_ENV = {k: v for k, v in os.environ.items()
            if not k.startswith(("CARGO_", "RUST")) or k in ("CARGO_HOME", "RUSTUP_HOME")}
SAFE_ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

# Failing checks of these kinds are panics, i.e. the required outcome in a `panics` harness.
PANIC_CATEGORIES = {"assertion"}
# Kani's own C library reports these as assertions, they are not panics.
NOT_PANIC = re.compile(r"rust_(de|re)?alloc|__rust_", re.I)
# A panic only if the code is compiled with overflow checks, decided by a replay without them.
OVERFLOW = re.compile(r"attempt to .* with overflow|attempt to shift")


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def kani(prop, kind, tier, jobs, timeout, extra=(), harness=None, json_out=None, deadline=None, worker=0):
    """Runs cargo kani for the harnesses of one kind, returns (rc, text)."""
    feats = [prop.lower(), kind] + (["thorough"] if tier == "thorough" else [])
    env = dict(SAFE_ENV)
    env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "true" if kind == "holds" else "false"
    cmd = ["cargo", "kani", "--target-dir", os.path.join(TARGET, "kani-%s-%d" % (kind, worker)),
           "--features", ",".join(feats), "--no-assertion-reach-checks",
           "-Z", "unstable-options", "-Z", "stubbing", "--harness-timeout", "%ds" % timeout]
    for h in harness or []:
        cmd += ["--exact", "--harness", h]
    if json_out:
        if os.path.exists(json_out):
            os.remove(json_out)
        cmd += ["-j", str(jobs), "--output-format", "terse", "--export-json", json_out]
    cmd += list(extra)
    p = subprocess.Popen(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=None if deadline is None else max(5, deadline - time.time()))
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 124, out


def classify(kind, checks):
    """-> (verdict, failing) with verdict in pass, fail, overflow, unwind, unknown, vacuous."""
    failing, overflow, unwind, unknown, reached = [], [], False, [], False
    for c in checks:
        st, desc, cat = c["status"], c["description"], c.get("category", "")
        if "REACHED" in desc and cat == "cover":
            reached |= st == "Satisfied"
            continue
        if st in ("Success", "Unreachable", "Satisfied", "Unsatisfiable"):
            continue
        if cat == "unwind" or desc.startswith("unwinding assertion"):
            unwind = True
        elif st == "Undetermined":
            unknown.append(c)
        elif cat == "unsupported_construct":
            unknown.append(c)
        elif st == "Failure":
            if kind == "panics" and "RETURNED" not in desc and cat in PANIC_CATEGORIES \
                    and not NOT_PANIC.search(desc + c["function"]):
                if OVERFLOW.search(desc):
                    overflow.append(c)
                continue
            failing.append(c)
        else:
            unknown.append(c)
    if failing:
        return "fail", failing
    if unwind:
        return "unwind", []
    if unknown:
        return "unknown", unknown
    if not reached:
        return "vacuous", []
    if overflow:
        return "overflow", overflow
    return "pass", []


def short(h):
    return h.split("::")[-1]


def parse_playback(text):
    """-> list of (check description, [[bytes]])"""
    res = []
    for m in re.finditer(r"/// Check for `([^`]*)`: \"(.*?)\"\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                         text, re.S):
        vals = [[int(x) for x in v.split(",") if x.strip()]
                for v in re.findall(r"^\s*vec!\[(.*?)\],?$", m.group(3), re.M)]
        res.append((m.group(1), m.group(2), vals))
    return res


_built = {}
PROFILES = ("dev", "release", "asan", "miri")


def replay_cmd(profile, prop, kind="holds"):
    """Builds the replay binary natively for the profile, returns the command prefix."""
    if profile in _built:
        return _built[profile]
    env = dict(SAFE_ENV)
    if profile in ("asan", "miri") and kind == "panics":
        env["CARGO_PROFILE_DEV_DEBUG_ASSERTIONS"] = "false"
    td = os.path.join(TARGET, "replay-" + profile)
    base = ["--manifest-path", os.path.join(HARNESS, "Cargo.toml"), "--target-dir", td,
            "--features", prop.lower(), "--bin", "replay"]
    run = None
    if profile in ("dev", "release"):
        cmd = ["cargo", "build"] + base + (["--release"] if profile == "release" else [])
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(td, "debug" if profile == "dev" else "release", "replay")
        if p.returncode == 0 and os.path.exists(exe):
            run = ([exe], env)
        else:
            log("native build failed", profile, p.stdout[-1500:])
    elif profile == "asan":
        env["RUSTFLAGS"] = "-Zsanitizer=address"
        env["ASAN_OPTIONS"] = "detect_leaks=0"
        cmd = ["cargo", "+nightly", "build", "--target", "x86_64-unknown-linux-gnu"] + base
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(td, "x86_64-unknown-linux-gnu", "debug", "replay")
        if p.returncode == 0 and os.path.exists(exe):
            run = ([exe], env)
    elif profile == "miri":
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-ignore-leaks"
        run = (["cargo", "+nightly", "miri", "run", "-q"] + base + ["--"], env)
    _built[profile] = run
    return run


def replay(prop, kind, harness, path, profiles=PROFILES):
    """Runs the recorded inputs on the real code. -> description of what reproduced or None."""
    name = "mdh::" + harness
    for profile in profiles:
        r = replay_cmd(profile, prop, kind)
        if r is None:
            continue
        try:
            p = subprocess.run(r[0] + [name, path], env=r[1], cwd=HARNESS, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, errors="replace", timeout=240)
        except subprocess.TimeoutExpired:
            return profile + ": does not terminate"
        rc = p.returncode
        tail = " | ".join([l for l in p.stdout.strip().splitlines() if l.strip()][-4:])[:400]
        if profile == "miri":
            # Any error that is not the program's own exit counts only if Miri names it as UB.
            if "Undefined Behavior" in p.stdout:
                return "miri: " + next(l for l in p.stdout.splitlines() if "Undefined Behavior" in l)
            continue
        if rc in (4, 5):
            log("replay", profile, tail)
            if rc == 4:
                return None
            continue
        if kind == "panics":
            if rc == 3 or rc < 0 or (rc != 0 and "AddressSanitizer" in p.stdout):
                return "%s: %s (exit %d)" % (profile, tail, rc)
        elif rc != 0:
            return "%s: %s (exit %d)" % (profile, tail, rc)
    return None


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) harness=(\S+) check=\"(.*?)\" (.*)", l)
            if m and m.group(1) == prop:
                res.append(m.groups()[1:])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only check that the tools are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--harness", help="only harnesses matching this pattern (debugging)")
    ap.add_argument("--record", action="store_true", help="record run times in harness/timings.json")
    a = ap.parse_args()
    if a.setup:
        for cmd in (["cargo", "kani", "--version"], ["cargo", "--version"]):
            print(subprocess.run(cmd, cwd=HARNESS, env=SAFE_ENV, stdout=subprocess.PIPE, text=True, check=True).stdout.strip())
        return 0
    prop, tier = a.property, a.tier
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    budget = 820 if tier == "quick" else 4 * 3600
    per_harness = 330 if tier == "quick" else 3 * 3600
    deadline = T0 + budget
    src = open(os.path.join(HARNESS, "src", "props", prop.lower() + ".rs")).read()
    tiers = ["quick"] + (["thorough"] if tier == "thorough" else [])
    kinds = [k for k in ("holds", "panics") if re.search(r"^\s*%s (%s) " % (k, "|".join(tiers)), src, re.M)]
    njobs = {k: len(re.findall(r"^\s*%s (%s) " % (k, "|".join(tiers)), src, re.M)) for k in kinds}

    results = {}   # harness -> dict
    meta = {}
    errors = []

    # Work list: groups of harnesses for one call of Kani each, slow harnesses first.
    try:
        timings = json.load(open(os.path.join(HARNESS, "timings.json")))
    except (OSError, ValueError):
        timings = {}
    groups = []
    for kind in kinds:
        names = [m.group(1) for m in re.finditer(r"^\s*%s (?:%s) (\w+)\s*\[" % (kind, "|".join(tiers)), src, re.M)]
        if a.harness:
            names = [n for n in names if re.fullmatch(a.harness, n)]
        weight = lambda n: timings.get("%s:%s" % (prop, n), 6.0)
        names.sort(key=lambda n: -weight(n))
        cur, tot = [], 0.0
        for n in names:
            cur.append("props::%s::%s" % (prop.lower(), n))
            tot += weight(n)
            if tot >= 20 or len(cur) >= 8:
                groups.append((tot, kind, cur))
                cur, tot = [], 0.0
        if cur:
            groups.append((tot, kind, cur))
    groups.sort(key=lambda g: -g[0])
    lock = threading.Lock()
    pause = [False]   # a counterexample was found: replay it before the rest is run

    def work(w):
        while True:
            with lock:
                if not groups or pause[0]:
                    return
                _, kind, hs = groups.pop(0)
                n = len(groups)
            jo = os.path.join(OUT, "%s-%s-%d-%d.json" % (prop, kind, w, n))
            rc, text = kani(prop, kind, tier, 1, per_harness, json_out=jo, deadline=deadline, harness=hs, worker=w)
            with lock:
                with open(os.path.join(OUT, "%s-%s.log" % (prop, kind)), "a") as f:
                    f.write(text)
                if not os.path.exists(jo):
                    errs = re.findall(r"^error.*(?:\n.*){0,6}", text, re.M)
                    errors.append("%s: kani gave no results for %s (exit %d)\n%s" % (
                        kind, " ".join(map(short, hs)), rc, "\n".join(errs[:4]) or text[-1500:]))
                    if not results and errs:
                        groups.clear()
                    continue
                absorb(kind, jo)
                os.remove(jo)

    def absorb(kind, jo):
        d = json.load(open(jo))
        stats = {c["harness_id"]: c.get("cbmc_stats") or {} for c in d.get("cbmc", [])}
        for r in d["verification_results"]["results"]:
            h = r["harness_id"]
            ok = r["status"] in ("Success", "Failure") and r.get("checks")
            verdict, failing = classify(kind, r["checks"]) if ok else ("error", [])
            if verdict in ("fail", "overflow") and unlisted(h, failing) and tier == "quick" and not a.record:
                pause[0] = True
            results[h] = dict(kind=kind, verdict=verdict, failing=failing, checks=r.get("checks") or [],
                              ms=r["duration_ms"], stats=stats.get(h, {}))
        for m in d["harness_metadata"]:
            meta[m["pretty_name"]] = m
        for e in d.get("error_details", []):
            if e.get("exit_status") in ("timeout", "out_of_memory") and e["harness_id"] in results:
                results[e["harness_id"]]["verdict"] = e["exit_status"]

    for f in os.listdir(OUT):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(OUT, f))

    known = known_findings(prop)
    violations, known_hits, inconclusive, tried = [], [], [], set()

    def unlisted(h, failing):
        return [c for c in failing if not any(k[0] == short(h) and k[1] in c["description"] for k in known)]

    def run_groups(first):
        pause[0] = False
        th = [threading.Thread(target=work, args=(w,)) for w in range(8)]
        if first:
            th.append(threading.Thread(target=replay_cmd, args=("dev", prop)))
        [t.start() for t in th]
        [t.join() for t in th]

    def confirm(h):
        """Obtains counterexamples for a failed harness and replays them on the real code."""
        r = results[h]
        tried.add(h)
        for k in known:
            if k[0] == short(h) and any(k[1] in c["description"] for c in r["failing"]):
                known_hits.append("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
        rest = unlisted(h, r["failing"])
        if not rest:
            return
        _, text = kani(prop, r["kind"], tier, 1, per_harness, harness=[h], deadline=deadline,
                       extra=["--concrete-playback=print", "-Z", "concrete-playback"])
        # Inputs that fail more than one check are given once only, possibly for the witness.
        descs = {c["description"] for c in rest}
        pbs = parse_playback(text)
        pbs.sort(key=lambda p: (p[0] == "cover", "RETURNED" not in p[1], p[1] not in descs))
        seen = set()
        for n, (cat, desc, vals) in enumerate(pbs[:8]):
            if str(vals) in seen:
                continue
            seen.add(str(vals))
            path = os.path.join(OUT, "%s-%s-%d.replay" % (prop, short(h), n))
            with open(path, "w") as f:
                f.write("# property %s, harness %s (harness/src/props/%s.rs)\n# check: %s\n" % (prop, h, prop.lower(), desc.replace("\n", " ")))
                f.write("# replay: cargo run --manifest-path /verif/harness/Cargo.toml --features %s --bin replay -- mdh::%s %s\n" % (prop.lower(), h, path))
                for v in vals:
                    f.write(" ".join(map(str, v)) + "\n")
            how = replay(prop, r["kind"], h, path, ("release",) if r["verdict"] == "overflow" else PROFILES)
            if how:
                log("counterexample reproduced:", short(h), "|", desc, "|", how)
                violations.append((h, path, desc, how))
                return
        if r["verdict"] == "overflow":
            if seen:
                r.update(verdict="pass", failing=[])
                return
        inconclusive.append("%s: counterexample not reproduced natively (%s)" % (
            short(h), "; ".join(sorted(descs))[:300]))

    def confirm_all():
        for h in sorted([h for h, r in results.items() if r["verdict"] in ("fail", "overflow") and h not in tried],
                        key=lambda h: results[h]["ms"]):
            if violations and not known:
                return
            confirm(h)

    run_groups(True)
    confirm_all()
    while groups and not violations and time.time() < deadline - 30:
        run_groups(False)
        confirm_all()
    if a.record:
        timings.update({"%s:%s" % (prop, short(h)): round(r["ms"] / 1000, 1) for h, r in results.items()})
        with open(os.path.join(HARNESS, "timings.json"), "w") as f:
            json.dump(dict(sorted(timings.items())), f, indent=0)

    # Bound too small for the current code: retry with larger bounds.
    for factor in (2, 4):
        for kind in kinds:
            hs = [h for h, r in results.items() if r["kind"] == kind and r["verdict"] == "unwind"]
            if hs and not violations and time.time() < deadline - 60:
                log("retry with larger unwinding bound:", *map(short, hs))
                for h in hs:
                    u = int(re.search(r"(?:holds|panics) \w+ %s\s*\[(\d+)\]" % re.escape(short(h)), src).group(1))
                    jo = os.path.join(OUT, "%s-%s-retry.json" % (prop, kind))
                    kani(prop, kind, tier, 8, per_harness, json_out=jo, deadline=deadline, harness=[h],
                         extra=["--unwind", str(u * factor)])
                    if os.path.exists(jo):
                        absorb(kind, jo)
    confirm_all()

    for h in sorted(results, key=lambda h: -results[h]["ms"]):
        r = results[h]
        log("%-10s %-7s %-34s %6.1fs  %s" % (r["verdict"], r["kind"], short(h), r["ms"] / 1000,
            "; ".join(sorted({c["description"][:100] for c in r["failing"]}))[:300]))
    inconclusive += ["%s: %s" % (short(h), r["verdict"]) for h, r in results.items()
                     if r["verdict"] not in ("pass", "fail", "overflow")]

    # Witness: replay one input for which a harness reaches its end, on the real code.
    traces, samples = 0, []
    passing = sorted([h for h, r in results.items() if r["verdict"] == "pass"], key=lambda h: results[h]["ms"])
    if passing and not violations and time.time() < deadline - 60:
        for kind in kinds[:1]:
            hs = [h for h in passing if results[h]["kind"] == kind][:1]
            for h in hs:
                _, text = kani(prop, kind, tier, 1, per_harness, harness=[h], deadline=deadline,
                               extra=["--concrete-playback=print", "-Z", "concrete-playback"])
                for cat, desc, vals in parse_playback(text):
                    if cat != "cover":
                        continue
                    path = os.path.join(OUT, "%s-%s.witness" % (prop, short(h)))
                    with open(path, "w") as f:
                        for v in vals:
                            f.write(" ".join(map(str, v)) + "\n")
                    rr = replay_cmd("dev", prop)
                    if rr:
                        p = subprocess.run(rr[0] + ["mdh::" + h, path], env=rr[1], stdout=subprocess.PIPE,
                                           stderr=subprocess.STDOUT, text=True)
                        samples.append({"harness": h, "inputs": vals, "native": p.stdout.strip()[-200:], "exit": p.returncode})
                        traces += p.returncode == 0
                    break

    write_evidence(prop, tier, results, errors, inconclusive, violations, traces, samples, src)
    for k in sorted(set(known_hits)):
        print(k)
    for e in errors:
        print("ERROR", e)
    for i in inconclusive:
        print("NO-VERDICT", i)
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (prop, v[1]))
        return 1
    if errors or inconclusive or not results:
        return 2
    if not a.harness and sum(njobs.values()) != len(results):
        print("NO-VERDICT expected %d harnesses, got %d" % (sum(njobs.values()), len(results)))
        return 2
    print("OK property=%s: %d harnesses, %d checks, %.0fs" % (
        prop, len(results), sum(len(r["checks"]) for r in results.values()), time.time() - T0))
    return 0


def write_evidence(prop, tier, results, errors, inconclusive, violations, traces, samples, src):
    functions = sorted({c["function"] for r in results.values() for c in r["checks"]
                        if "mdarray::" in c["function"] or c["location"].get("file", "").startswith(("/repo", "../../repo"))})
    files = sorted({re.sub(r"^(\.\./)*/?repo/", "", c["location"]["file"]) for r in results.values() for c in r["checks"]
                    if "repo/src" in c["location"].get("file", "")})
    g = lambda r, k: (r["stats"].get(k) or 0)
    tot = lambda k: sum(g(r, k) for r in results.values())
    bounds = {}
    for m in re.finditer(r"^\s*(holds|panics) (\w+) (\w+)\s*\[(\d+)\]", src, re.M):
        bounds[m.group(3)] = {"kind": m.group(1), "unwind": int(m.group(4))}
    doc = "\n".join(l[3:].strip() for l in src.splitlines() if l.startswith("//!"))
    discharged = sum(1 for r in results.values() for c in r["checks"]
                     if c["status"] in ("Success", "Unreachable", "Satisfied", "Unsatisfiable"))
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "explanation": "Bounded model checking of the compiled code (rustc MIR -> Kani -> CBMC -> SAT). "
                           "states: SSA steps of the symbolic execution of all harnesses; transitions: verification "
                           "conditions generated; traces_validated_against_impl: satisfying assignments replayed natively.",
            "states": int(tot("size_program_expression")),
            "transitions": int(tot("vccs_generated")),
            "traces_validated_against_impl": traces,
            "samples": samples or [{"harness": h} for h in list(results)[:1]],
            "bounds": doc,
            "harnesses": {short(h): {"kind": r["kind"], "verdict": r["verdict"], "unwind": bounds.get(short(h), {}).get("unwind"),
                                     "checks": len(r["checks"]), "seconds": r["ms"] / 1000,
                                     "vccs": g(r, "vccs_generated"), "vccs_to_solver": g(r, "vccs_remaining"),
                                     "symex_s": g(r, "runtime_symex_s"), "solver_s": g(r, "runtime_solver_s")}
                          for h, r in sorted(results.items())},
            "queries_discharged": discharged,
            "checks_total": sum(len(r["checks"]) for r in results.values()),
            "vccs_to_solver": int(tot("vccs_remaining")),
            "solver_s": round(tot("runtime_solver_s"), 3),
            "symex_s": round(tot("runtime_symex_s"), 3),
            "functions_encoded": functions,
            "files_encoded": files,
            "no_verdict": inconclusive + errors,
            "violations": [{"harness": v[0], "replay": v[1], "check": v[2], "reproduced": v[3]} for v in violations],
        },
        "assumptions": [
            "bounds on shapes, strides and values as stated in coverage.bounds; loops up to the unwinding bound (checked by unwinding assertions)",
            "single thread; panics end the path (no unwinding); memory allocation does not fail",
            "Kani 0.68 / CBMC 6.11 semantics of Rust MIR; one instantiation of generic code per harness",
        ],
        "wall_s": round(time.time() - T0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
