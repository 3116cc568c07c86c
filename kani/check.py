#!/usr/bin/env python3
"""check.py PROPERTY TIER: decide the harnesses of a property with Kani (CBMC), replay
every counterexample on the compiled code, write the evidence.
check.py --replay FILE: run a saved counterexample again."""
import json, os, re, subprocess, sys, time

K = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(K)
ENV = dict(os.environ, CARGO_NET_OFFLINE="true")
ENV.pop("RUSTUP_TOOLCHAIN", None)
STABLE = dict(ENV, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
BASE = ["cargo", "kani", "-Z", "unstable-options", "--no-default-checks", "--output-format", "terse"]


def sh(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, cwd=K, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")


def native(name, file):
    rc, out = sh(["cargo", "build", "--release", "--offline", "--locked"], STABLE, 300)
    if rc != 0:
        return None, out
    return sh([os.path.join(K, "target/release/bitcheck"), name, file], STABLE, 60)


def main():
    if sys.argv[1] == "--replay":
        f = sys.argv[2]
        name = open(f).readline().split()[1]
        rc, out = native(name, f)
        print(out.strip())
        sys.exit(rc if rc is not None else 2)
    prop, tier = sys.argv[1], sys.argv[2]
    t0 = time.time()
    limit = 650 if tier == "quick" else 7200
    src = open(os.path.join(K, "src/lib.rs")).read()
    rows = re.findall(r'^    "(C\d+)" (\w+) \d+( thorough)?;', src, re.M)
    names = [n for p, n, th in rows if p == prop and (tier == "thorough" or not th)]
    out_dir = os.path.join(V, "out")
    os.makedirs(out_dir, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    res = os.path.join(out_dir, "kani-%s.json" % prop)
    if os.path.exists(res):
        os.remove(res)
    cmd = BASE + ["-j", "8", "--exact", "--harness-timeout", "%ds" % (400 if tier == "quick" else 3600), "--export-json", res]
    for n in names:
        cmd += ["--harness", "proofs::" + n]
    rc, log = sh(cmd, ENV, limit)
    problems, violations = [], []
    by, checks = {}, {}
    secs = 0.0
    if os.path.exists(res):
        j = json.load(open(res))
        for r in j["verification_results"]["results"]:
            n = r["harness_id"].split("::")[-1]
            by[n] = r["status"]
            secs += r.get("duration_ms", 0) / 1000
            for c in r.get("checks", []):
                checks[c["status"]] = checks.get(c["status"], 0) + 1
    else:
        problems.append("kani did not finish: " + log[-1500:])
    replays = 0
    for n in names:
        if by.get(n) == "Success":
            continue
        if n not in by:
            problems.append("%s: no verdict" % n)
            continue
        # a concrete counterexample, replayed on the compiled code
        _, o = sh(BASE[:-2] + ["--exact", "--harness", "proofs::" + n, "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "300s"], ENV, 320)
        done = False
        for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o, re.S):
            vals = re.findall(r"vec!\[([\d, ]*)\]", m.group(1))
            f = os.path.join(out_dir, "%s-%s.bytes" % (prop, n))
            body = "\n".join(" ".join(v.replace(",", " ").split()) for v in vals)
            open(f + ".raw", "w").write(body + "\n")
            replays += 1
            rc2, o2 = native(n, f + ".raw")
            if rc2 == 1:
                os.replace(f + ".raw", f)
                # the file replays by itself
                open(f, "w").write("# %s\n%s\n" % (n, body))
                violations.append((n, o2.strip(), f))
                done = True
                break
            os.remove(f + ".raw")
        if not done:
            problems.append("%s: refuted by the solver, not reproduced" % n if by[n] == "Failure" else "%s: %s" % (n, by[n]))
    ok = [n for n in names if by.get(n) == "Success"]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Bounded model checking of the compiled code (Kani, CBMC with CaDiCaL): every f32/f64/bool input of a harness is a bit vector, decided for all values in the stated ranges, rounding and special values included.",
            "functions_encoded": FUN[prop], "bounds": BOUNDS[prop],
            "harnesses": len(names), "harnesses_decided": len(ok), "harness_names": names,
            "obligations": sum(checks.values()), "discharged": checks.get("Success", 0) + checks.get("Unreachable", 0),
            "checks_by_status": checks, "solver_seconds": round(secs, 3), "counterexamples_replayed": replays,
        },
        "assumptions": ["Kani's and CBMC's model of Rust and IEEE 754", "only the f32/f64 instances named are covered"],
        "wall_s": round(time.time() - t0, 3), "violations": len(violations),
    }
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"))
    print("%s: %d harnesses, %d decided, %d checks, %.1fs solver, %.1fs wall, %d violations, %d problems" % (prop, len(names), len(ok), sum(checks.values()), secs, time.time() - t0, len(violations), len(problems)))
    for n, w, f in violations:
        print("  FAIL %s %s" % (n, w))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    for p in problems:
        print("  PROBLEM " + p)
    sys.exit(1 if violations else 2 if problems else 0)


FUN = {
    "C26": ["Mul<V2<f32>> for f32", "Mul<V3<f32>> for f32", "Mul<V4<f32>> for f32", "Mul<V5<f32>> for f32", "Mul<V6<f32>> for f32", "Mul<V3<f64>> for f64", "Mul<M22<f32>> for f32", "Mul<M33<f32>> for f32", "Mul<M33<f64>> for f64", "BitAnd for V4<bool>"],
    "C27": ["nearly_equal", "nearly_zero", "compare_floats", "compare_vecs", "compare_dual_quaternions", "find_max_min", "M33 Index/IndexMut", "Quaternion::normalize", "M22::inverse", "M33::inverse", "PartialEq and is_zero of V2..V6, M22..M66, Quaternion, DualQuaternion"],
}
BOUNDS = {
    "C26": ["whole numbers from -16 to 15 as f32 and f64 (products exact)", "every boolean"],
    "C27": ["every f32 (find_max_min, nearly_zero, equality, is_zero, dual quaternion comparison)", "every f32 with at most eight significant bits, infinities and NaN included (nearly_equal, compare_floats, compare_vecs, normalize, inverse)", "slices of length 3 and 4"],
}
if __name__ == "__main__":
    main()
