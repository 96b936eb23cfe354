#!/usr/bin/env python3
"""Decide one property of protox on /repo's current tree by symbolic execution of its LLVM IR.

usage: run.py C01            run the check (VERIF_TIER=quick|thorough, VERIF_SEED)
       run.py --replay FILE  re-run a recorded counterexample against the native code
       run.py --build        build the engine, the IR and the native harnesses
"""
import fcntl, glob, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(V, "build")
sys.path.insert(0, V)
from jobs import PROPS, TITLES  # noqa: E402

ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None)
T0 = time.time()
CRATES = ["parse", "compile", "cli"]
NCPU = min(8, os.cpu_count() or 8)


class Broken(Exception):
    pass


def log(*a):
    print(f"[{time.time() - T0:6.1f}]", *a, file=sys.stderr, flush=True)


def sh(cmd, cwd, env=ENV, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken(f"{what or cmd[0]} failed:\n{p.stdout[-6000:]}")
    return p.stdout


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = []
            for d, ds, fs in os.walk(root):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            if os.path.islink(f):
                continue
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()


def stamp_ok(path, key):
    try:
        return open(path).read() == key
    except OSError:
        return False


def sysroot_bin():
    r = subprocess.run(["rustc", "--print", "sysroot"], env=ENV, stdout=subprocess.PIPE, text=True).stdout.strip()
    h = subprocess.run(["rustc", "-vV"], env=ENV, stdout=subprocess.PIPE, text=True).stdout
    host = re.search(r"host: (\S+)", h).group(1)
    return os.path.join(r, "lib/rustlib", host, "bin")


def build_engine():
    key = tree_hash([f"{V}/engine/src", f"{V}/engine/Cargo.toml"])
    st = f"{B}/engine.stamp"
    if not stamp_ok(st, key) or not os.path.exists(f"{V}/engine/target/release/symx"):
        sh(["cargo", "build", "--release", "--offline", "-q"], f"{V}/engine", what="building the engine")
        open(st, "w").write(key)


STUBS = "any api descriptor duration empty field_mask source_context struct timestamp type wrappers compiler/plugin".split()


def prepare_sources(crate):
    """The compile harness needs protox's sources with (stub) google protos in place."""
    if crate == "parse":
        return
    dst = f"{B}/src"
    for c in ("protox", "protox-parse"):
        os.makedirs(f"{dst}/{c}", exist_ok=True)
        sync(f"{REPO}/{c}", f"{dst}/{c}")
    for s in STUBS:
        p = f"{dst}/protox/protobuf/src/google/protobuf/{s}.proto"
        os.makedirs(os.path.dirname(p), exist_ok=True)
        t = 'syntax = "proto2";\npackage google.protobuf;\nmessage Is_%s {}\n' % s.replace("/", "_")
        if not os.path.exists(p) or open(p).read() != t:
            open(p, "w").write(t)


def sync(src, dst):
    """Copy changed files only, so that cargo's incremental state stays useful."""
    keep = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", ".git", "tests", "protobuf")]
        rel = os.path.relpath(d, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in fs:
            a, b = os.path.join(d, f), os.path.normpath(os.path.join(dst, rel, f))
            keep.add(b)
            data = open(a, "rb").read()
            if f == "Cargo.toml":
                data = re.sub(rb"\[\[(test|bench|example)\]\][^\[]*", b"", data)
            if not os.path.exists(b) or open(b, "rb").read() != data:
                open(b, "wb").write(data)
    for d, ds, fs in os.walk(dst):
        if "/protobuf" in d[len(dst):]:
            continue
        for f in fs:
            if os.path.normpath(os.path.join(d, f)) not in keep and f != "Cargo.lock":
                os.unlink(os.path.join(d, f))


def crate_key(crate):
    roots = [f"{V}/harness/sym/src", f"{V}/harness/sym/Cargo.toml", f"{V}/harness/{crate}/src", f"{V}/harness/{crate}/Cargo.toml", f"{V}/harness/{crate}/Cargo.lock", f"{REPO}/protox-parse"]
    if crate != "parse":
        roots.append(f"{REPO}/protox")
    if crate == "cli":
        roots.append(f"{V}/harness/compile/src/vfs.rs")
    return tree_hash(roots)


def build_ir(crate):
    key = crate_key(crate)
    out, st = f"{B}/{crate}.ll", f"{B}/{crate}.ir.stamp"
    if stamp_ok(st, key) and os.path.exists(out):
        return
    tgt = f"{B}/t-{crate}"
    for f in glob.glob(f"{tgt}/release/deps/*.bc"):
        os.unlink(f)
    h = f"{V}/harness/{crate}"
    os.utime(f"{h}/src/lib.rs")
    env = dict(ENV, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp")
    sh(["cargo", "rustc", "--offline", "-q", "--release", "--lib", "--crate-type", "staticlib", "--", "-C", "save-temps"], h, env, f"compiling {crate} to LLVM IR")
    bc = glob.glob(f"{tgt}/release/deps/*lto.after-restriction.bc")
    if len(bc) != 1:
        raise Broken(f"expected one linked module, found {bc}")
    lb = sysroot_bin()
    sh([f"{lb}/opt", "-passes=internalize,globaldce,default<O2>", "--vectorize-loops=false", "--vectorize-slp=false", "--internalize-public-api-list=sym_main", bc[0], "-o", f"{B}/{crate}.bc"], B, what="opt")
    sh([f"{lb}/llvm-dis", f"{B}/{crate}.bc", "-o", out], B, what="llvm-dis")
    for f in glob.glob(f"{tgt}/release/deps/*.bc"):
        os.unlink(f)
    open(st, "w").write(key)


def native_bin(crate):
    return f"{B}/n-{crate}/native/replay-{crate}"


def build_native(crate):
    key = crate_key(crate)
    st = f"{B}/{crate}.native.stamp"
    if stamp_ok(st, key) and os.path.exists(native_bin(crate)):
        return
    env = dict(ENV, CARGO_TARGET_DIR=f"{B}/n-{crate}")
    sh(["cargo", "build", "--offline", "-q", "--profile", "native", "--features", "native", "--bin", f"replay-{crate}"], f"{V}/harness/{crate}", env, f"building the native harness {crate}")
    open(st, "w").write(key)


def build(crates):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for c in crates:
            prepare_sources(c)
        with ThreadPoolExecutor(8) as ex:
            fs = [ex.submit(build_engine)]
            for c in crates:
                fs += [ex.submit(build_ir, c), ex.submit(build_native, c)]
            for f in fs:
                f.result()


def scenario_index(crate, name):
    text = open(f"{V}/harness/{crate}/src/lib.rs").read()
    names = re.findall(r'^\s*\("(\w+)",', text, re.M)
    return names.index(name)


def limited():
    """An endless loop may allocate as well."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


def replay(crate, items, timeout=60, dead_runs=None):
    """items: (params, hex). Returns one (notes, outcome) each, from the native code; the rest is left
    out after `dead_runs` runs that ended without an answer."""
    out = []
    i = 0
    with tempfile.TemporaryDirectory(prefix="protox-replay-") as d:
        while i < len(items):
            p = subprocess.Popen([native_bin(crate)], cwd=d, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=limited)
            try:
                o, _ = p.communicate("".join(f"{a} {b}\n" for a, b in items[i:]), timeout=timeout)
                dead = "crash" if p.returncode else None
            except subprocess.TimeoutExpired:
                p.kill()
                o, _ = p.communicate()
                dead = "no answer"
            lines = o.splitlines()
            for l in lines[: len(items) - i]:
                w = l.split(" ", 2)
                out.append((w[0], w[2] if len(w) > 2 else ""))
            i += len(lines)
            if i < len(items):
                out.append(("", f"native: {dead or 'stopped'}"))
                i += 1
                if dead_runs is not None:
                    dead_runs -= 1
                    if dead_runs == 0:
                        break
    return out


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True).stdout.split("\n") if shutil.which("c++filt") else names
    return [re.sub(r"\[[0-9a-f]{8,}\]", "", x) for x in r if x]


def findings():
    out = []
    p = f"{V}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                out.append(m.groups())
    return out


def main():
    if sys.argv[1] == "--build":
        build(CRATES)
        return 0
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        build([r["crate"]])
        (notes, outcome), = replay(r["crate"], [(r["params"], r["inputs"])])
        print("\n".join(r["source"]))
        print(outcome)
        return 0 if outcome == "ok" else 1
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[prop]
    jobs = spec["jobs"](tier)
    deadline = float(os.environ.get("VERIF_DEADLINE", "720" if tier == "quick" else "7200"))
    crates = sorted({j["crate"] for j in jobs})
    build(crates)
    log("built")
    work = tempfile.mkdtemp(prefix="protox-symx-")
    res = []
    try:
        for c in crates:
            cj = [j for j in jobs if j["crate"] == c]
            with open(f"{work}/batch", "w") as f:
                for k, j in enumerate(cj):
                    j["params_s"] = ",".join(str(x) for x in [scenario_index(c, j["scenario"])] + j["params"])
                    j["out"] = f"{work}/{c}-{k}.json"
                    f.write(f"{j['out']} {j.get('timeout', 300)} {j.get('max_steps', 20_000_000)} {j.get('samples', 6)} {j['params_s']}\n")
            left = max(30.0, deadline - (time.time() - T0))
            p = subprocess.Popen([f"{V}/engine/target/release/symx", "--ll", f"{B}/{c}.ll", "--entry", "sym_main", "--jobs", str(NCPU), "--seed", str(seed), "--src-prefix", "/repo/,/build/src/", "--batch", f"{work}/batch"], stderr=subprocess.PIPE, text=True, start_new_session=True)
            try:
                _, err = p.communicate(timeout=left)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                _, err = p.communicate()
                log("time budget used up")
            for j in cj:
                if os.path.exists(j["out"]):
                    j["r"] = json.load(open(j["out"]))
                elif time.time() - T0 < deadline - 1:
                    raise Broken(f"no result for {j['scenario']} {j['params_s']}: {err[-2000:]}")
            res += cj
        return report(prop, tier, seed, spec, res)
    finally:
        shutil.rmtree(work, ignore_errors=True)


SUMS = "paths assumed_away forks steps checks symbolic_checks confirmations end_checks solver_queries solver_sat solver_unsat solver_unknown solver_s concretisations".split()


def report(prop, tier, seed, spec, res):
    tot = {k: 0 for k in SUMS}
    cut = [j for j in res if "r" not in j]
    done = [j for j in res if "r" in j]
    subs, lines, errors, viols, samples, incomplete = set(), {}, [], [], [], []
    for j in done:
        r = j["r"]
        for k in SUMS:
            tot[k] += r[k]
        subs |= set(r["subs"])
        for f, l in r["lines"].items():
            lines.setdefault(f, set()).update(l)
        if r["crashed"]:
            errors.append(f"{j['scenario']} {j['params_s']}: engine process died")
        errors += [f"{j['scenario']} {j['params_s']}: {e}" for e in r["errs"]]
        for v in r["viol"]:
            if j.get("only") != "panic" or v["kind"] != "check":
                viols.append((j, v))
        if r["states_left"]:
            incomplete.append(f"{j['scenario']}({j['params_s']}): {r['states_left']} states left")
        elif not r["crashed"] and not r["errs"] and not r["violations"]:
            missing = [x for x in j.get("reach", []) if x not in r["reach"]]
            if missing:
                # nothing of the interesting kind happened: the scenario would be vacuous
                errors.append(f"{j['scenario']} {j['params_s']}: outcome {missing} never reached")
        for s in r["samples"]:
            samples.append((j, s))
    # counterexamples count only when the native code shows them too
    real, spurious = [], []
    for c in {j["crate"] for j, _ in viols}:
        vs = [(j, v) for j, v in viols if j["crate"] == c][:40]
        for (j, v), (notes, outcome) in zip(vs, replay(c, [(j["params_s"], v["inputs"]) for j, v in vs], timeout=20, dead_runs=4)):
            bad = outcome != "ok" and outcome != "assumed away" and outcome != "short"
            (real if bad else spurious).append((j, v, outcome))
    validated, mismatched = 0, []
    for c in {j["crate"] for j, _ in samples}:
        ss = [(j, s) for j, s in samples if j["crate"] == c]
        for (j, s), (notes, outcome) in zip(ss, replay(c, [(j["params_s"], s["inputs"]) for j, s in ss], timeout=120)):
            if outcome == "ok" and notes == s["notes"]:
                validated += 1
            else:
                mismatched.append(f"{j['scenario']} {j['params_s']} {s['inputs']}: engine ok/{s['notes']}, native {outcome}/{notes} {s['src']}")
    known = findings()
    new, seen_known = [], []
    for j, v, o in real:
        key = hashlib.sha256((j["scenario"] + "|" + v["msg"] + "|" + "|".join(v["src"])).encode()).hexdigest()[:16]
        k = next((x for x in known if x[0] == prop and x[1] == key), None)
        (seen_known if k else new).append((j, v, o, key))
    for _, _, _, key in seen_known:
        print(f"KNOWN-FINDING: property={prop} {next(x[2] for x in known if x[1] == key)}")
    os.makedirs(f"{V}/replays", exist_ok=True)
    status = 0
    shown = set()
    for n, (j, v, o, key) in enumerate(new):
        if v["msg"] in shown and n >= 5:
            continue
        shown.add(v["msg"])
        p = f"{V}/replays/{prop}-{key}.json"
        json.dump({"property": prop, "crate": j["crate"], "scenario": j["scenario"], "params": j["params_s"], "inputs": v["inputs"], "message": v["msg"], "source": v["src"], "native_outcome": o, "stack": demangle(v["stack"])}, open(p, "w"), indent=1)
        print(f"VIOLATION property={prop} replay={p}")
        print(f"  {j['scenario']}({j['params_s']}): {v['msg']}\n  native: {o}\n  source: {v['src']}")
        status = 1
    if spurious:
        for j, v, o in spurious[:5]:
            errors.append(f"{j['scenario']} {j['params_s']}: counterexample does not reproduce natively ({o}): {v['msg']} {v['inputs']} {v['src']}")
    errors += mismatched
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["assumed_away"],
            "transitions": tot["forks"],
            "traces_validated_against_impl": validated,
            "samples": [{"scenario": j["scenario"], "params": j["params_s"], "inputs": s["inputs"], "symbolic_bytes": s["nvars"], "text": s["src"]} for j, s in samples[:: max(1, len(samples) // 12)][:12]],
            "exhaustive": not incomplete and not cut,
            "explanation": "states: feasible symbolic paths through harness and implementation, each standing for every input satisfying its path condition; transitions: branch decisions with more than one feasible outcome; traces validated: paths whose model was re-run in the native build with identical observable output",
            "bounds": spec["bounds"],
            "scenarios": [
                {
                    "scenario": j["scenario"],
                    "params": j["params_s"],
                    **({k: j["r"][k] for k in ("paths", "assumed_away", "forks", "steps", "checks", "symbolic_checks", "solver_queries", "solver_s", "states_left", "wall_s", "max_path_steps")} if "r" in j else {"not_run": "time budget"}),
                }
                for j in res
            ],
            "incomplete": incomplete + [f"{j['scenario']}({j['params_s']}): not run" for j in cut],
            "instructions_executed": tot["steps"],
            "assertions_evaluated": tot["checks"],
            "assertions_decided_by_query": tot["symbolic_checks"],
            "infeasible_branches_confirmed": tot["confirmations"],
            "path_conditions_rechecked": tot["end_checks"],
            "solver": done[0]["r"]["solver"] if done else "",
            "queries_discharged": tot["solver_queries"],
            "queries_sat": tot["solver_sat"],
            "queries_unsat": tot["solver_unsat"],
            "queries_unknown": tot["solver_unknown"],
            "solver_s": round(tot["solver_s"], 3),
            "functions_encoded": demangle(sorted(subs)),
            "source_lines_executed": {os.path.relpath(f, "/"): len(l) for f, l in sorted(lines.items())},
        },
        "assumptions": [
            "the LLVM IR rustc emits for the linked program (release profile, overflow checks and the parser's debug assertions on) has the semantics the engine gives it",
            "hash functions used by the standard library's maps are modelled as a constant (any hash function is allowed)",
            "inputs outside the stated bounds are not covered",
        ],
        "wall_s": round(time.time() - T0, 2),
        "violations": len(new),
    }
    os.makedirs(f"{V}/evidence", exist_ok=True)
    json.dump(ev, open(f"{V}/evidence/{prop}.json", "w"), indent=1)
    log(f"{prop}: {tot['paths']} paths, {tot['steps']} instructions, {tot['solver_queries']} queries, {tot['solver_s']:.1f} s solver, {validated} validated, {len(new)} violations, {len(errors)} errors")
    for e in (incomplete + [f"not run: {j['scenario']}" for j in cut])[:10]:
        log("incomplete:", e)
    for e in errors[:12]:
        print("ERROR", e)
    if errors and not status:
        return 2
    return status


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR", e)
        sys.exit(2)
