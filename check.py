#!/usr/bin/env python3
"""Decides one property of /repo by running the real code under monitors.

usage: python3 check.py C01 [--tier quick|thorough] [--seed N]

Builds the harness against /repo's working tree (rel: debug assertions off,
dbg: debug assertions and overflow checks of zk_sql on, and for families that
ask for it tsan: everything under ThreadSanitizer), runs the property's case
families in each, merges what the monitors saw, compares every
refutation with known-findings.txt and writes evidence/<id>.json.
exit 0 held on everything explored; 1 VIOLATION; 2 error / inconclusive.
"""
import json, os, re, shutil, signal, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.environ.get("VZ_TARGET", os.path.join(HARNESS, "target"))
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
BUILD_LIMIT, RUN_LIMIT = 800, 700
CAPS = {"quick": {"rel": 110, "dbg": 90, "tsan": 60}, "thorough": {"rel": 300, "dbg": 180, "tsan": 180}}
FLAVOURS = (("rel", 1), ("dbg", 2), ("tsan", 4))
# the queue inside rayon reads slots it may lose to another thread and then throws the value away
TSAN_SUPPRESSIONS = "race:crossbeam_deque\n"
RULE = (
    "Each case draws its sizes, values, structure, worker-pool width and (where there is one) its corruption from a PRNG "
    "seeded by (property, family, VERIF_SEED, case number), drives the real code and compares what comes out with an "
    "independent reference; families marked sweep enumerate instead. A case counts as distinct and non-trivial when its "
    "written-out description is new and its monitor was reached with a non-degenerate input (family-specific: at least one "
    "variable / row / claim, and for corruption cases a corruption that really changes the statement or the proof)."
)


def env(flavour="rel"):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_TARGET_DIR"] = TARGET
    e["RUSTFLAGS"] = "--cfg zksql_verif"
    if flavour == "tsan":
        e["RUSTUP_TOOLCHAIN"] = "nightly-x86_64-unknown-linux-gnu"
        e["RUSTFLAGS"] += " -Zsanitizer=thread"
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "RUSTDOCFLAGS"):
        e.pop(k, None)
    return e


def die(msg, code=2):
    print("check error: " + msg)
    sys.exit(code)


def build(flavour):
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--bin", "vz"]
    if flavour == "dbg":
        cmd += ["--config", "profile.release.package.zk_sql.debug-assertions=true",
                "--config", "profile.release.package.zk_sql.overflow-checks=true"]
    sub = "release"
    if flavour == "tsan":
        cmd += ["-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/release"
    r = subprocess.run(cmd, cwd=HARNESS, env=env(flavour), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=BUILD_LIMIT, text=True)
    if r.returncode:
        print(r.stdout[-6000:])
        die("harness build (%s) failed" % flavour)
    out = os.path.join(TARGET, "vz-" + flavour)
    shutil.copy2(os.path.join(TARGET, sub, "vz"), out + ".tmp")
    os.replace(out + ".tmp", out)
    return out


def races(text):
    """reports of the thread sanitizer with a frame of the code under test"""
    blocks = re.findall(r"^WARNING: ThreadSanitizer: .*?^={18}", text, re.S | re.M)
    ours = [b for b in blocks if re.search(r"\bzk_sql(::|\[)|zk_sql::", b)]
    return len(blocks), ours


def load_known():
    """known: property=<id> at=<family>/<sig> <what fails>
       fixed: property=<id> <commit> <what failed>   (suppresses nothing)"""
    known = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) at=(\S+) (.*)", line.strip())
            if m:
                known.append(m.groups())
    return known


def main():
    t0 = time.time()
    a = sys.argv[1:]
    if a == ["--setup"]:
        for f, _ in FLAVOURS:
            build(f)
        print("built all flavours in", TARGET)
        return 0
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if "--seed" in a:
        seed = a[a.index("--seed") + 1]
    if tier not in CAPS:
        tier = "quick"
    try:
        seed = int(seed)
    except ValueError:
        seed = 1
    seed &= (1 << 62) - 1
    os.makedirs(EVID, exist_ok=True)
    bins = {"rel": build("rel")}
    listed = {}
    for line in subprocess.run([bins["rel"], "list"], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        p, name, mask, q, th = line.split()
        if p == prop:
            listed[name] = int(mask)
    if not listed:
        die("no case families for " + prop)
    wanted = [f for f, bit in FLAVOURS if any(m & bit for m in listed.values())]
    for f in wanted[1:]:
        bins[f] = build(f)
    t_build = time.time() - t0
    known = load_known()
    parts, hit_known, viols, notes = {}, {}, [], {}
    for f in wanted:
        if viols:
            break  # decided; what the other builds would show changes nothing
        out = os.path.join(EVID, ".part-%s-%s.json" % (prop, f))
        if os.path.exists(out):
            os.remove(out)
        cmd = [bins[f], "--prop", prop, "--out", out, "--seed", str(seed), "--tier", tier, "--flavour", f, "--cap", str(CAPS[tier][f])]
        e = env()
        if f == "tsan":
            sup = os.path.join(EVID, ".tsan-%s" % prop)
            open(sup, "w").write(TSAN_SUPPRESSIONS)
            e["TSAN_OPTIONS"] = "exitcode=0:halt_on_error=0:report_signal_unsafe=0:suppressions=" + sup
        left = max(60, RUN_LIMIT - (time.time() - t0))
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=left, text=True, errors="replace", env=e)
        except subprocess.TimeoutExpired:
            die("run of %s (%s) exceeded %d s: inconclusive" % (prop, f, left))
        finally:
            if f == "tsan":
                os.remove(sup)
        crash = {"family": "process", "idx": 0, "seed": seed, "desc": " ".join(cmd)}
        if f == "tsan":
            n, ours = races(r.stdout)
            notes["thread_sanitizer"] = {"reports": n, "reports_in_zk_sql": len(ours)}
            if ours:
                crash.update(sig="race", msg="the thread sanitizer reports a data race in the code under test: " + ours[0][:2500])
                viols.append(dict(crash, flavour=f))
        if r.returncode in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            # an abort cannot be caught case by case: stack overflow, abort in a drop, out of bounds in unsafe code
            crash.update(sig="crash", msg="the code under test ends the process with signal %d: %s" % (-r.returncode, r.stdout[-600:]))
            viols.append(dict(crash, flavour=f))
            continue
        if r.returncode or not os.path.exists(out):
            print(r.stdout[-3000:])
            die("run of %s (%s) ended with %s: inconclusive" % (prop, f, r.returncode))
        parts[f] = json.load(open(out))
        os.remove(out)
        for v in parts[f]["found"]:
            key = v["family"] + "/" + v["sig"]
            k = next((k for k in known if k[0] == prop and k[1] == key), None)
            if k:
                hit_known[k] = hit_known.get(k, 0) + 1
            else:
                viols.append(dict(v, flavour=f))
    fams = {}
    for f, p in parts.items():
        for name, d in p["families"].items():
            fams["%s [%s]" % (name, f)] = d
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts.values()),
        "distinct_nontrivial": sum(d["distinct_nontrivial"] for d in fams.values()),
        "rule": RULE,
        "samples": [s for p in parts.values() for s in p["samples"]][:24],
        "families": fams,
        "observed": {f: p["events"] for f, p in parts.items()},
        "sanitizers": notes,
        "capped_by_time": {f: p["capped"] for f, p in parts.items()},
        "known_findings_seen": {k[1]: n for k, n in hit_known.items()},
        "build_s": round(t_build, 1),
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "held on the executions counted here; says nothing about executions not produced",
            "the arkworks, merlin and rayon crates and the reference implementations in /verif/harness/src/refs.rs are trusted",
            "soundness verdicts hold up to the field-size collision probability of the random challenges (about 2^-240)",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    evf = os.path.join(EVID, prop + ".json")
    json.dump(ev, open(evf + ".tmp", "w"), indent=1)
    os.replace(evf + ".tmp", evf)
    for k in hit_known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    if viols:
        rp = os.path.join(EVID, "replay-%s.json" % prop)
        for v in viols:
            v["replay"] = "%s --prop %s --flavour %s --seed %s --tier %s --family %s --idx %s" % (
                bins[v["flavour"]], prop, v["flavour"], v["seed"], tier, v["family"], v["idx"])
        json.dump({"property": prop, "build": "python3 check.py --setup", "violations": viols}, open(rp, "w"), indent=1)
        for v in viols[:5]:
            print("  [%s] %s/%s idx=%s: %s" % (v["flavour"], v["family"], v["sig"], v["idx"], v["msg"][:300]))
            print("     case: " + v["desc"][:300])
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    # a run that observed nothing decides nothing
    for f, p in parts.items():
        for name in p["expected_families"]:
            d = p["families"].get(name, {"executions": 0, "distinct_nontrivial": 0})
            if not d["executions"] or not d["distinct_nontrivial"]:
                die("family %s (%s) observed nothing: inconclusive" % (name, f))
    print("held: %s tier=%s seed=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0, t_build))
    return 0


if __name__ == "__main__":
    sys.exit(main())
