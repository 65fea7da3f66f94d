#!/usr/bin/env python3
"""Runs the check of one property:  check.py PROPERTY [--tier quick|thorough] [--keep DIR] [--only SUBSTRING]

 1. compiles the property's harness together with /repo's current sources to LLVM bitcode, and natively with the project's compiler;
 2. explores every job (a harness mode with bounds) symbolically with engine/symx, up to 8 processes at a time;
 3. runs every counterexample natively; only what the real code reproduces is a violation;
 4. runs sampled paths natively too, and compares what both executions observed;
 5. writes evidence/PROPERTY.json."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SYMX_REPO", "/repo")
sys.path.insert(0, HERE)
WORKERS = 8
INC = ["-I" + HERE + "/harness", "-I" + REPO + "/sources"]
BC = ["-std=c++20", "-O2", "-Xclang", "-disable-llvm-passes", "-fno-vectorize", "-fno-slp-vectorize", "-DMODEL_BUILD", "-gline-tables-only", "-w", "-Wno-c++11-narrowing", "-emit-llvm", "-c"]
NATIVE = ["-std=c++20", "-w", "-g1", "-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)


# ---------------------------------------------------------------- the framework's own build
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()[:16]


def ls(d, *exts):
    return [os.path.join(HERE, d, f) for f in os.listdir(os.path.join(HERE, d)) if f.endswith(exts) or f == "Makefile"]


def ensure_framework():
    """engine and library models, built once per content of their sources, in /verif/build"""
    b = os.path.join(HERE, "build")
    os.makedirs(b, exist_ok=True)
    e = os.path.join(b, "engine-" + digest(ls("engine", ".cpp", ".h", ".inc")))
    if not os.path.exists(e + "/symx"):
        log("building the engine")
        for o in os.listdir(b):
            if o.startswith("engine-"):
                shutil.rmtree(os.path.join(b, o), ignore_errors=True)
        r = sh(["make", "-s", "-j8", "-C", HERE + "/engine", "B=" + e, "symx"])
        if r.returncode:
            sys.exit("engine build failed\n" + r.stdout)
    m = os.path.join(b, "model-" + digest(ls("model", ".cpp", ".h") + [HERE + "/harness/sym.h", HERE + "/harness/replay.cpp", os.path.abspath(__file__)]))
    if not os.path.exists(m + "/ok"):
        log("building the library models")
        for o in os.listdir(b):
            if o.startswith("model-"):
                shutil.rmtree(os.path.join(b, o), ignore_errors=True)
        os.makedirs(m)
        fs = []
        with ThreadPoolExecutor(4) as ex:
            for src, extra in (("rt", []), ("stream", ["-fno-access-control"])):
                fs.append(ex.submit(sh, ["clang++-18"] + INC + BC + ["-fwrapv"] + extra + [f"{HERE}/model/{src}.cpp", "-o", f"{m}/{src}.bc"]))
            for v, fl in native_flags().items():
                fs.append(ex.submit(sh, ["g++-14"] + INC + NATIVE + fl + ["-c", HERE + "/harness/replay.cpp", "-o", f"{m}/replay{v}.o"]))
        for f in fs:
            if f.result().returncode:
                sys.exit("model build failed\n" + f.result().stdout)
        open(m + "/ok", "w").close()
    return e + "/symx", m


def bc_flags():
    # strict: signed overflow, shifts, division and the library's own preconditions are checked as well
    return {"": ["-fwrapv"], "-strict": ["-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,unreachable,return", "-fsanitize-trap=all", "-D_GLIBCXX_ASSERTIONS"]}


def native_flags():
    return {"": ["-fwrapv", "-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow"], "-strict": ["-D_GLIBCXX_ASSERTIONS"]}


def bitcode(args):
    r = sh(["clang++-18"] + INC + BC + args)
    if r.returncode:  # g++ takes some code that clang refuses before C++23, such as variables of any type in constexpr functions
        r2 = sh(["clang++-18"] + INC + ["-std=c++23" if x == "-std=c++20" else x for x in BC] + ["-Wno-everything"] + args)
        if r2.returncode == 0:
            return r2
    return r


# ---------------------------------------------------------------- one run
class Run:
    def __init__(self, pid, tier, seed, work, only=None):
        import props
        self.pid, self.tier, self.seed, self.work, self.only = pid, tier, seed, work, only
        self.p = props.PROPS[pid]
        self.jobs = []
        for j in self.p["jobs"]:
            if tier == "quick" and j.get("thorough"):
                continue
            if tier == "thorough" and j.get("quick"):
                continue
            if only and only not in jobname(j):
                continue
            self.jobs.append(j)
        self.symx, self.model = ensure_framework()
        self.deadline = T0 + (self.p.get("budget", 200) if tier == "quick" else self.p.get("thorough_budget", 780))
        self.errors, self.samples, self.results = [], [], []
        self.lock = threading.Lock()

    def compile(self):
        """the bitcode and native builds the jobs need; None when the tree does not compile"""
        variants = {self.variant(j) for j in self.jobs}
        self.native, self.fut = {}, {}
        fs = {}
        self.ex = ThreadPoolExecutor(8)
        for v in sorted(variants):
            name, s = v.partition("-")[::2]
            h, s = f"{HERE}/harness/{name}.cpp", s and "-" + s
            fs[v] = self.ex.submit(bitcode, bc_flags()[s] + [h, "-o", f"{self.work}/h{v}.bc"])
        for v in sorted(variants):
            name, s = v.partition("-")[::2]
            h, s = f"{HERE}/harness/{name}.cpp", s and "-" + s
            self.native[v] = f"{self.work}/native{v}"
            self.fut[v] = self.ex.submit(sh, ["g++-14"] + INC + NATIVE + native_flags()[s] + [h, f"{self.model}/replay{s}.o", "-o", self.native[v]])
        for v, f in fs.items():
            if f.result().returncode:
                log("the harness does not compile against this tree:\n" + f.result().stdout[-3000:])
                return False
        return True

    def variant(self, j):
        """which build a job runs on: its harness, ordinary or strict"""
        return j.get("harness", self.p["harness"]).removesuffix(".cpp") + ("-strict" if j.get("strict") else "")

    def symbolic(self, k, j, part):
        v = self.variant(j)
        out = f"{self.work}/out-{k}-{part}.json"
        left = self.deadline - time.time()
        limit = min(j.get("time", 100 if self.tier == "quick" else 700), left)
        if limit < 2:
            return dict(status="not started", job=k)
        cmd = [self.symx, f"{self.work}/h{v}.bc", f"{self.model}/rt.bc", f"{self.model}/stream.bc", "-o", out, "--time", str(int(limit)), "--seed", str(self.seed * 1000 + k * 10 + part + 1), "--samples", str(j.get("samples", 12)), "--max-steps", str(j.get("steps", 3000000))]
        for n, x in params(j).items():
            cmd += ["-p", f"{n}={x}"]
        if j.get("parts", 1) > 1:
            cmd += ["--part", f"{part}/{j['parts']}", "--depth", str(j.get("depth", 8))]
        if j.get("soft"):
            cmd += ["--soft", str(j["soft"])]
        if j.get("hard"):
            cmd += ["--hard", str(j["hard"])]
        t = time.time()
        try:
            r = sh(cmd, timeout=limit + 60)
            d = json.load(open(out)) if os.path.exists(out) else dict(status="engine", note=r.stdout[-400:])
            if r.returncode == 3:
                d = dict(status="engine", note=r.stdout[-400:])
        except subprocess.TimeoutExpired:
            d = dict(status="timeout", note="stopped from outside")
        except Exception as e:
            d = dict(status="engine", note=repr(e))
        d["job"] = k
        d["elapsed"] = time.time() - t
        return d

    def replay(self, cases, v, timeout=10.0):
        """cases: [(id, params, inputs)] -> {id: result}; in several processes"""
        if not cases:
            return {}
        res = {}
        n = min(WORKERS, len(cases))

        def go(i):
            f = f"{self.work}/cases{v}-{threading.get_ident()}-{i}.txt"
            with open(f, "w") as o:
                for cid, ps, ins in cases[i::n]:
                    o.write(casetext(cid, ps, ins))
            try:
                r = subprocess.run([self.native[v], f, str(timeout)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace", timeout=30 + (timeout + 2) * len(cases[i::n]))
                o = r.stdout
            except subprocess.TimeoutExpired as e:
                o = (e.stdout or b"").decode("utf8", "replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
            for l in o.splitlines():
                try:
                    d = json.loads(l)
                    res[d["id"]] = d
                except ValueError:
                    pass
        with ThreadPoolExecutor(n) as ex:
            list(ex.map(go, range(n)))
        return res

    def run(self):
        if not self.compile():
            self.note = "harness does not compile against this tree"
            return self.finish([], [], [], {}, compiled=False)
        log("compiled", len({j.get("harness", self.p["harness"]) for j in self.jobs}), "harness" + "es" * (len({j.get("harness", self.p["harness"]) for j in self.jobs}) > 1), "for", self.pid)
        todo = [(k, j, i) for k, j in enumerate(self.jobs) for i in range(j.get("parts", 1))]
        todo.sort(key=lambda t: -t[1].get("weight", 1))
        with ThreadPoolExecutor(WORKERS) as ex:
            self.results = list(ex.map(lambda t: self.symbolic(*t), todo))
        log("explored", len(todo), "partitions of", len(self.jobs), "jobs")
        for v, f in self.fut.items():
            if f.result().returncode:
                log("native build failed:\n" + f.result().stdout[-3000:])
                self.note = "native build failed"
                return self.finish([], [], [], {}, compiled=False)
        # counterexamples
        ub = self.p.get("ub")
        cand, seen = {self.variant(j): [] for j in self.jobs}, {}
        for d in self.results:
            j = self.jobs[d["job"]]
            for e in d.get("errors", []):
                key = (d["job"], e["kind"], e["msg"], e["where"].split(" < ")[0])
                seen[key] = seen.get(key, 0) + 1
                if seen[key] > 4 or len(cand[self.variant(j)]) > 160:
                    continue
                if ub and not (e["kind"] in UB and re.match(r"[a-z_]+\.hpp:", e["where"])):
                    continue  # another property's business, or an access of the harness's own
                cid = "e%d" % sum(map(len, cand.values()))
                cand[self.variant(j)].append((cid, params(j), e["inputs"], e, d["job"]))
        confirmed, unconfirmed = [], []
        for v, cs in cand.items():
            cs.sort(key=lambda c: int(c[0][1:]))
            res = self.replay([c[:3] for c in cs], v, 10.0)
            for c in cs:
                r = res.get(c[0], dict(result="none", msg=""))
                hit = r["result"] in (("crash",) if ub else ("check", "exception", "crash")) or (r["result"] == "timeout" and c[3]["kind"] == "hang")
                if r["result"] == "timeout" and hit:  # a busy machine is no hang: once more, alone, with a longer limit
                    r = self.replay([c[:3]], v, 20.0).get(c[0], r)
                    hit = r["result"] != "ok"
                (confirmed if hit else unconfirmed).append(dict(job=c[4], params=c[1], inputs=c[2], variant=v, engine=c[3], native=r))
        # sampled paths
        val = dict(replayed=0, agree=0, disagree=[])
        for v in cand:
            cs, ref = [], {}
            for d in self.results:
                j = self.jobs[d["job"]]
                if self.variant(j) != v:
                    continue
                for s in d.get("samples", []):
                    cid = "s%d" % len(cs)
                    cs.append((cid, params(j), s["inputs"]))
                    ref[cid] = (d["job"], s)
            if len(cs) > 400:
                cs = cs[:: (len(cs) + 399) // 400]
            res = self.replay(cs, v, 10.0)
            for c in cs:
                r = res.get(c[0])
                k, s = ref[c[0]]
                if r is None or r["result"] == "timeout":
                    continue
                val["replayed"] += 1
                if ub and r["result"] != "ok":
                    if r["result"] == "crash" and re.search(r" at .*\.hpp:", r["msg"]):
                        confirmed.append(dict(job=k, params=c[1], inputs=c[2], variant=v, engine=dict(kind="sample", msg="native run of an explored path fails", where="", inputs=c[2]), native=r))
                    else:
                        val["agree"] += 1
                elif r["result"] in ("check", "crash", "exception"):
                    confirmed.append(dict(job=k, params=c[1], inputs=c[2], variant=v, engine=dict(kind="sample", msg="native run of an explored path fails", where="", inputs=c[2]), native=r))
                elif r["result"] == "ok" and (s["undef"] or [list(x) for x in r["obs"]] == [list(x) for x in s["obs"]]):
                    val["agree"] += 1
                elif len(val["disagree"]) < 5:
                    val["disagree"].append(dict(job=jobname(self.jobs[k]), inputs=c[2], engine=s["obs"], native=r))
        log("replayed", sum(map(len, cand.values())), "counterexamples and", val["replayed"], "sampled paths")
        return self.finish(self.results, confirmed, unconfirmed, val)

    def finish(self, results, confirmed, unconfirmed, val, compiled=True):
        ev = os.path.join(HERE, "evidence")
        os.makedirs(ev, exist_ok=True)
        known = load_known()
        viol, knownhits = [], {}
        for c in confirmed:
            k = self.jobs[c["job"]].get("known")
            m = [x for x in known if x.get("property") == self.pid and x.get("id") == k and x["status"] == "open" and x["message"] == c["native"]["msg"]] if k else []
            if m:
                knownhits[k] = m[0]
            else:
                viol.append(c)
        for k in knownhits.values():
            print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        for f in os.listdir(ev):
            if f.startswith(self.pid + "-cex"):
                os.remove(os.path.join(ev, f))
        shown = set()
        for i, c in enumerate(viol):
            key = (c["engine"]["kind"], c["engine"]["msg"], re.sub(r"0x[0-9a-f]+|==\d+==", "", c["native"]["msg"]))
            if key in shown or len(shown) >= 6:
                continue
            shown.add(key)
            rp = f"{ev}/{self.pid}-cex{len(shown)}.txt"
            with open(rp, "w") as o:
                o.write(f"build {c['variant']}\n" + casetext("cex", c["params"], c["inputs"]))
            log(f"{jobname(self.jobs[c['job']])}: {c['engine']['kind']}: {c['engine']['msg']} at {c['engine']['where']}")
            log("   inputs " + " ".join(f"{n}={x}" for n, x in c["inputs"][:60]))
            log(f"   native run: {c['native']['result']} {c['native']['msg']}")
            print(f"VIOLATION property={self.pid} replay={rp}", flush=True)
        jobs = []
        tot = lambda n: sum(d.get(n, 0) or 0 for d in results)
        lines = {}
        checks, covers, fns = {}, {}, set()
        for k, j in enumerate(self.jobs):
            rs = [d for d in results if d["job"] == k]
            sts = sorted({d["status"] for d in rs})
            jc = {}
            for d in rs:
                for m, n in d.get("checks", {}).items():
                    checks[m] = checks.get(m, 0) + n
                    jc[m] = jc.get(m, 0) + n
                for m, n in d.get("covers", {}).items():
                    covers[m] = covers.get(m, 0) + n
                fns |= set(d.get("functions", []))
                for f, ln in d.get("lines", {}).items():
                    lines.setdefault(f, set()).update(ln)
            st = sts[0] if len(sts) == 1 else "+".join(sts)
            if st == "complete" and not jc:
                st = "vacuous: no check was reached"
            jobs.append(dict(job=jobname(j), what=j.get("what", ""), status=st, paths=sum(d.get("paths", 0) for d in rs), s=round(sum(d.get("elapsed", 0) for d in rs), 1),
                             queries=sum(d.get("queries", 0) for d in rs), limits=sorted({l for d in rs for l in d.get("limits", [])})[:4], **({"note": rs[0]["note"]} if rs and rs[0].get("note") else {})))
            log(f"{jobname(j)}: {st}, {jobs[-1]['paths']} paths, {jobs[-1]['queries']} queries, {jobs[-1]['s']} s" + ("".join(" | " + l for l in jobs[-1]["limits"])) + (" | " + jobs[-1]["note"] if jobs[-1].get("note") else ""))
        for k in {c["job"] for c in unconfirmed if jobs[c["job"]]["status"] in ("complete", "errors", "limited")}:
            jobs[k]["status"] = "counterexample not reproduced"
        inc = [j["job"] + " (" + j["status"] + ")" for j in jobs if j["status"] not in ("complete", "errors")]
        want = [c for c in self.p.get("covers", []) if c not in covers] if not self.only else []
        if inc:
            log("NOT DECIDED within this run's budget: " + "; ".join(inc))
        if want:
            log("reachability witnesses not hit: " + ", ".join(want))
        for c in unconfirmed[:6]:
            log(f"not reproduced natively, so not reported: {jobname(self.jobs[c['job']])}: {c['engine']['kind']}: {c['engine']['msg']} at {c['engine']['where']}  inputs " + " ".join(f"{n}={x}" for n, x in c["inputs"][:40]) + f" native: {c['native']['result']}")
        for d in val.get("disagree", []):
            log("engine and native run disagree:", json.dumps(d)[:600])
        loc = {f: len([x for x in v if x]) for f, v in sorted(lines.items())}
        cov = dict(states=tot("paths") + tot("merges"), transitions=tot("forks") + tot("steps"), traces_validated_against_impl=val.get("agree", 0),
                   samples=[dict(job=jobname(self.jobs[d["job"]]), inputs=dict(map(tuple, s["inputs"]))) for d in results for s in d.get("samples", [])[:1]][:8] or [dict(note="no path completed")],
                   states_are="completed symbolic paths plus merged call results; each stands for every input satisfying its path condition", transitions_are="path forks plus LLVM instructions executed symbolically",
                   method="symbolic execution of the LLVM IR of /repo/sources with the harness (engine/symx), Z3 decides branch feasibility, memory safety and every assertion; counterexamples replayed natively",
                   bounds=self.p["bounds"], outside=self.p.get("outside", ""), stubs=self.p.get("stubs", []), jobs=jobs, exhaustive_within_bounds=compiled and not inc and not want,
                   not_decided=inc, witnesses_missing=want, witnesses=covers, assertions=checks,
                   queries=tot("queries"), queries_sat=tot("sat"), queries_unsat=tot("unsat"), queries_unknown=tot("unknown"), solver_s=round(tot("solver_s"), 2),
                   decided_by_simplifier=tot("checks_simplifier"), decided_by_solver=tot("checks_solver"),
                   functions_encoded=sorted(f for f in fns if "harness" not in f)[:400], source_lines_executed=loc,
                   sampled_paths_replayed=val.get("replayed", 0), disagreements=val.get("disagree", []),
                   counterexamples_not_reproduced=[dict(job=jobname(self.jobs[c["job"]]), engine=c["engine"], native=c["native"]) for c in unconfirmed[:5]],
                   known_findings=sorted(knownhits), compiled=compiled)
        json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                       assumptions=self.p.get("assumptions", []) + COMMON, wall_s=round(time.time() - T0, 2), violations=len(shown)), open(f"{ev}/{self.pid}.json", "w"), indent=1)
        json.dump({f: sorted(v) for f, v in lines.items()}, open(f"{ev}/{self.pid}.lines.json", "w"))
        log(f"{self.pid} {self.tier}: {tot('paths')} paths, {tot('queries')} queries, {round(tot('solver_s'), 1)} s solver, {len(jobs) - len(inc)}/{len(jobs)} jobs decided, {val.get('agree', 0)}/{val.get('replayed', 0)} sampled paths agree, {len(shown)} violations")
        if not shown and (not compiled or len(inc) == len(jobs)):
            log("no answer: nothing could be decided")
            return 2
        return 1 if shown else 0


UB = ("memory", "ub", "assert", "abort", "arith")  # what is undefined behaviour among the engine's errors
COMMON = ["clang 18 lowers /repo/sources to LLVM IR faithfully, and libstdc++ 14 behaves as its headers and model/*.cpp say; both are cross-checked by the native replay of sampled paths",
          "memory allocation does not fail", "one thread (the library documents no thread safety)"]


def params(j):
    return {k: v for k, v in j.items() if isinstance(v, int) and k not in RESERVED}


RESERVED = ("harness", "time", "parts", "depth", "soft", "hard", "samples", "steps", "strict", "thorough", "quick", "weight")


def jobname(j):
    return j.get("name", "") + j.get("harness", "").removesuffix(".cpp") + "(" + ",".join(f"{k}={v}" for k, v in params(j).items()) + ")" + ("[strict]" if j.get("strict") else "")


def casetext(cid, ps, ins):
    return f"case {cid}\n" + "".join(f"p {k} {v}\n" for k, v in ps.items()) + "".join(f"i {n} {x}\n" for n, x in ins) + "end\n"


def load_known():
    f = HERE + "/known_findings.json"
    return json.load(open(f)) if os.path.exists(f) else []


def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--keep")
    a = ap.parse_args()
    if a.property == "setup":
        ensure_framework()
        return 0
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    work = a.keep or tempfile.mkdtemp(prefix="symx-")
    os.makedirs(work, exist_ok=True)
    try:
        return Run(a.property, tier, seed, work, a.only).run()
    finally:
        if not a.keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
