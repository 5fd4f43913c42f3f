#!/usr/bin/env python3
"""Decides a property of libmcaptcha by symbolic execution of its code.

  check.py C07 [--tier quick|thorough]     decide property C07 on /repo's working tree
  check.py --replay FILE                   replay a recorded counterexample natively
  check.py setup                           build everything once (a smoke test of the machinery)

Exit 0: holds on everything explored. 1: violated (VIOLATION line). 2: no answer.
"""
import argparse, concurrent.futures as cf, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import spec

TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
WORKERS = int(os.environ.get("VERIF_JOBS", "8"))


class NoAnswer(Exception):
    pass


def env(extra=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(extra or {})
    return e


def run(cmd, cwd, e, what):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        sys.stdout.write("\n".join(p.stdout.splitlines()[-60:]) + "\n")
        raise NoAnswer(f"{what} failed")
    return p.stdout


class Build:
    """A scratch build outside /repo and /verif, removed afterwards."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="libmcaptcha-sym-")
        self.native = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def prepare(self):
        d = self.dir
        os.makedirs(f"{d}/sut")
        shutil.copytree(f"{REPO}/src", f"{d}/sut/src")
        shutil.copy(f"{HERE}/model/sut.toml", f"{d}/sut/Cargo.toml")
        with open(f"{d}/sut/src/lib.rs", "a") as f:
            f.write("\n#[macro_use]\nextern crate vstd as std;\n#[doc(hidden)]\n#[allow(unused_imports)]\n"
                    "pub mod __verif { pub use crate::queue::*; }\n")
        shutil.copytree(f"{HERE}/model", f"{d}/model", ignore=shutil.ignore_patterns("target"))
        shutil.copytree(f"{HERE}/harness", f"{d}/harness", ignore=shutil.ignore_patterns("target"))
        shutil.copytree(f"{HERE}/engine", f"{d}/engine", ignore=shutil.ignore_patterns("target"))
        shutil.copy(f"{HERE}/model/Cargo.lock", f"{d}/harness/Cargo.lock")

    def engine(self):
        run(["cargo", "build", "--release", "--offline", "--target-dir", f"{self.dir}/et"], f"{self.dir}/engine", env(), "building the engine")
        return f"{self.dir}/et/release/llsym"

    def ir(self):
        run(["cargo", "rustc", "--release", "--offline", "--bin", "harness", "--target-dir", f"{self.dir}/t", "--",
             "--emit=llvm-ir", "-Clink-arg=-Wl,--unresolved-symbols=ignore-all"], f"{self.dir}/harness", env(), "compiling /repo with the harnesses to LLVM IR")
        (f,) = glob.glob(f"{self.dir}/t/release/deps/harness-*.ll")
        os.rename(f, f"{self.dir}/harness.ll")
        return f"{self.dir}/harness.ll"

    def replayer(self):
        if not self.native:
            # a profile of its own: the same code, quickly compiled
            run(["cargo", "build", "--profile", "replay", "--offline", "--features", "replay", "--bin", "harness", "--target-dir", f"{self.dir}/n"],
                f"{self.dir}/harness", env(), "compiling /repo with the harnesses natively")
            self.native = f"{self.dir}/n/replay/harness"
        return self.native


def native(exe, scratch, entry, values, timeout=60):
    """Runs the harness natively on the given input values."""
    fd, f = tempfile.mkstemp(dir=scratch)
    with os.fdopen(fd, "w") as h:
        h.write(" ".join(str(v) for v in values))
    try:
        p = subprocess.run([exe, str(entry)], env=dict(os.environ, SYM_REPLAY=f), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, preexec_fn=os.setsid)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return "timeout", (t.stdout or b"").decode(errors="replace") if isinstance(t.stdout, bytes) else (t.stdout or "")
    finally:
        os.unlink(f)


def reproduced(v, rc, out):
    if v["kind"] == "assert":
        return rc == 10 and v["msg"] in out
    if v["kind"] in ("panic", "abort"):
        return rc in (-signal.SIGABRT, 134, -signal.SIGILL, -signal.SIGTRAP)
    if v["kind"] == "blocked":
        return rc == "timeout"
    return rc not in (0, 11, 12)


def findings():
    """Known findings and repaired defects."""
    known = []
    p = f"{HERE}/known-findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) entry=(\S+) match=(.*?) :: (.*)", l.strip())
            if m:
                known.append({"property": m[1], "entry": int(m[2]), "match": m[3], "what": m[4]})
    return known


def decide(pid, tier, seed, only=None):
    t0 = time.time()
    P = spec.PROPS[pid]
    runs = [r for r in P["runs"] if tier == "thorough" or r.get("quick", True)]
    if tier == "thorough":
        runs = [dict(r, **r.get("thorough", {})) for r in runs]
    runs = [r for r in runs if not (tier == "thorough" and r.get("quick_only"))]
    if only:
        runs = [r for r in runs if r["entry"] in only]
    known = [k for k in findings() if k["property"] == pid]
    b = Build()
    procs, lock, stop = [], threading.Lock(), threading.Event()
    try:
        b.prepare()
        with cf.ThreadPoolExecutor(2) as ex:
            fe, fi = ex.submit(b.engine), ex.submit(b.ir)
            eng, ll = fe.result(), fi.result()
        built = time.time() - t0
        jobs = []
        for r in runs:
            n = r.get("parts", 1)
            for k in range(n):
                jobs.append((r, k, n))
        # big ones first
        jobs.sort(key=lambda j: -j[0].get("cost", 1))

        def job(j):
            r, k, n = j
            if stop.is_set():
                return j, None, ""
            out = f"{b.dir}/o-{r['entry']}-{k}.json"
            cmd = [eng, ll, "--entry", "harness_main", "--arg", str(r["entry"]), "--out", out, "--part", f"{k}/{n}",
                   "--max-time", str(r.get("time", 300)), "--max-steps", "2000000000", "--solver-timeout", str(r.get("solver_ms", 60000)),
                   "--src", "sut/src/", "--witness", str(max(1, 6 // n))]
            if r.get("all") or any(f["entry"] == r["entry"] for f in known):
                cmd.append("--all")
            p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            with lock:
                procs.append(p)
            o, _ = p.communicate()
            if p.returncode != 0 or not os.path.exists(out):
                return j, None, o[-2000:]
            return j, json.load(open(out)), o

        fnative = cf.ThreadPoolExecutor(1).submit(b.replayer)
        res, verdict, notes, known_hit = [], None, [], {}
        pending_violations = []
        with cf.ThreadPoolExecutor(WORKERS) as ex:
            futs = [ex.submit(job, j) for j in jobs]
            try:
                for f in cf.as_completed(futs):
                    j, d, o = f.result()
                    r = j[0]
                    if d is None:
                        if not stop.is_set():
                            notes.append(f"entry {r['entry']}: the engine stopped: {o}")
                        continue
                    res.append((j, d))
                    for v in d["violations"]:
                        k = next((k for k in known if k["entry"] == r["entry"] and re.search(k["match"], v["msg"])), None)
                        vals = [x[2] for x in v["inputs"]]
                        rc, out = native(fnative.result(), b.dir, r["entry"], vals)
                        if not reproduced(v, rc, out):
                            notes.append(f"entry {r['entry']}: counterexample does not reproduce natively ({v['kind']}: {v['msg']}; native exit {rc}): {out[-600:]}")
                            continue
                        if k:
                            known_hit[k["what"]] = k
                            continue
                        if verdict is None:
                            os.makedirs(f"{HERE}/evidence/replay", exist_ok=True)
                            path = f"{HERE}/evidence/replay/{pid}-{r['entry']}.json"
                            with open(path, "w") as h:
                                json.dump({"property": pid, "entry": r["entry"], "harness": r["what"], "kind": v["kind"], "msg": v["msg"], "stack": v["stack"][:20],
                                           "inputs": v["inputs"], "native_exit": str(rc), "native_output": out.splitlines()[-60:],
                                           "replay_with": f"python3 {HERE}/check.py --replay {path}"}, h, indent=1)
                            verdict = (r, v, path)
                    if verdict:
                        stop.set()
                        for p in procs:
                            if p.poll() is None:
                                p.kill()
                        break
            finally:
                stop.set()
                if verdict:
                    for p in procs:
                        if p.poll() is None:
                            p.kill()
        # completeness, vacuity and validation against native runs
        validated = []
        if not verdict:
            by = {}
            for (r, k, n), d in res:
                e = by.setdefault(r["entry"], {"r": r, "covers": {}, "parts": 0})
                e["parts"] += 1
                for c, m in d["covers"].items():
                    e["covers"][c] = e["covers"].get(c, 0) + m
                for msg, m in d["error_list"].items():
                    notes.append(f"entry {r['entry']} part {k}: {msg} x{m}")
            for r in runs:
                e = by.get(r["entry"])
                if not e or e["parts"] != r.get("parts", 1):
                    notes.append(f"entry {r['entry']}: not every part ran")
                    continue
                for c in r.get("covers", []):
                    if c not in e["covers"]:
                        if r.get("must") and c in r["must"]:
                            notes.append(f"entry {r['entry']}: case never reached: {c}")
                        else:
                            notes.append(f"entry {r['entry']}: vacuous: no path reaches: {c}")
            ws = [(r, w) for (r, k, n), d in res for w in d["witnesses"]][:40]
            exe = fnative.result()
            with cf.ThreadPoolExecutor(WORKERS) as ex:
                for (r, w), (rc, out) in zip(ws, ex.map(lambda x: native(exe, b.dir, x[0]["entry"], [i[2] for i in x[1]["inputs"]]), ws)):
                    got = [l[6:] for l in out.splitlines() if l.startswith("cover ")]
                    if rc == 0 and got == w["covers"]:
                        validated.append({"entry": r["entry"], "harness": r["what"], "inputs": [[i[0], i[2]] for i in w["inputs"]], "covers": got})
                    else:
                        notes.append(f"entry {r['entry']}: engine and native run disagree: exit {rc}, covers {got} instead of {w['covers']}: {out[-300:]}")
        tot = lambda k: sum(d[k] for _, d in res)
        fns = {}
        for _, d in res:
            for f, l in d["functions"].items():
                if any(l): fns.setdefault(f[f.find("sut/") + 4:], set()).update(x for x in l if x)
        asserts = {}
        for _, d in res:
            for m, n in d["asserts"].items():
                asserts[m] = asserts.get(m, 0) + n
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": tot("paths"), "transitions": tot("instructions"),
                "traces_validated_against_impl": len(validated),
                "samples": [dict(v, inputs=v["inputs"][:60]) for v in validated[:4]],
                "rule": "states: symbolic paths explored (each stands for all values of its inputs that take the same branches); transitions: IR instructions executed symbolically",
                "exhaustive": not notes and not verdict,
                "bounds": P["bounds"],
                "outside": P.get("outside", ""),
                "harnesses": [{"entry": r["entry"], "what": r["what"],
                               "paths": sum(d["paths"] for (x, _, _), d in res if x is r), "completed": sum(d["completed"] for (x, _, _), d in res if x is r),
                               "assertions": sum(d["assertions"] for (x, _, _), d in res if x is r),
                               "queries": sum(d["queries"] for (x, _, _), d in res if x is r)} for r in runs],
                "functions_encoded": {f: sorted(l) for f, l in sorted(fns.items())},
                "assertions": asserts, "assertions_checked": tot("assertions"), "assertions_decided_without_query": tot("assertions_trivial"),
                "queries": tot("queries"), "sat": tot("sat"), "unsat": tot("unsat"), "solver_s": round(tot("solver_s"), 2),
                "solver": res[0][1]["solver"] if res else "", "infeasible_paths": tot("infeasible"),
                "libc_stubs": sorted({s for _, d in res for s in d["stubs"]}),
                "build_s": round(built, 1),
            },
            "assumptions": spec.COMMON_ASSUMPTIONS + P.get("assumptions", []),
            "wall_s": round(time.time() - t0, 1), "violations": 1 if verdict else 0,
        }
        os.makedirs(f"{HERE}/evidence", exist_ok=True)
        with open(f"{HERE}/evidence/{pid}.json", "w") as h:
            json.dump(ev, h, indent=1)
        for w in known_hit:
            print(f"KNOWN-FINDING: property={pid} {w}")
        print(f"{pid} {tier}: {tot('paths')} paths, {tot('assertions')} assertions, {tot('queries')} queries ({tot('unsat')} unsat), "
              f"solver {tot('solver_s'):.1f} s, {len(validated)} traces validated natively, {time.time() - t0:.0f} s")
        if verdict:
            r, v, path = verdict
            print(f"{pid}: {r['what']}: {v['kind']}: {v['msg']}")
            print("inputs: " + ", ".join(f"{n}={x}" for n, _, x in v["inputs"][:80]))
            print(f"VIOLATION property={pid} replay={path}")
            return 1
        if notes:
            for n in notes[:20]:
                print("NO ANSWER: " + n)
            return 2
        return 0
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
        b.close()


def replay(path):
    d = json.load(open(path))
    b = Build()
    try:
        b.prepare()
        rc, out = native(b.replayer(), b.dir, d["entry"], [x[2] for x in d["inputs"]])
        print(out)
        ok = reproduced(d, rc, out)
        print(f"{'reproduced' if ok else 'not reproduced'}: {d['kind']}: {d['msg']} (exit {rc})")
        return 1 if ok else 0
    finally:
        b.close()


def main():
    a = argparse.ArgumentParser()
    a.add_argument("property", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--replay")
    a.add_argument("--only", help="comma-separated entries")
    o = a.parse_args()
    if o.replay:
        return replay(o.replay)
    if o.property == "setup":
        b = Build()
        try:
            b.prepare()
            eng, ll = b.engine(), b.ir()
            run([eng, ll, "--entry", "harness_main", "--arg", "510", "--out", f"{b.dir}/o.json"], b.dir, env(), "a first run")
            print("built")
            return 0
        finally:
            b.close()
    return decide(o.property, o.tier, int(os.environ.get("VERIF_SEED", "1")), {int(x) for x in o.only.split(",")} if o.only else None)


if __name__ == "__main__":
    # ended from outside: still remove the scratch build
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(2))
    try:
        rc = main()
    except NoAnswer as e:
        print(f"NO ANSWER: {e}")
        rc = 2
    sys.stdout.flush()
    os._exit(rc) if isinstance(rc, int) else sys.exit(rc)
