#!/usr/bin/env python3
"""Solver-based check of one property of vif.

check.py <ID> [--tier quick|thorough] [--only entry] [-j N] [-v]
check.py --replay FILE

Compiles harness/<ID>.cpp against /repo's current headers to LLVM IR, runs every
//RUN line of the harness in the symbolic executor (build/vsym), replays each
counterexample natively (ASan build of the same harness against the same headers)
and writes evidence/<ID>.json.
exit 0: held for every value within the bounds; 1: VIOLATION; 2: no answer.
"""
import sys, os, re, json, subprocess, time, hashlib, shutil, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
DEFS = ("-DNO_LIBUNWIND -DNO_LIBDWARF -DNO_GSL -DNO_REFLECTION -DNO_CFITSIO -DNO_FFTW -DNO_LAPACK "
        "-DNO_WCSLIB -D_GLIBCXX_ASSERTIONS").split()
BASE = ["clang++-18", "-std=c++11", "-w", "-I" + REPO + "/include", "-I" + HERE + "/harness"] + DEFS
IRF = "-O1 -fno-pic -fno-pie -fno-inline -gline-tables-only -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -DVF_IR -emit-llvm -c".split()


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def short(loc):
    loc = re.sub(r"\(/usr/\S*?include/c\+\+/", "(", loc)
    parts = [p if len(p) < 120 else p[:50] + "..." + p[-60:] for p in loc.split(" < ")]
    return " < ".join(parts[:5])


FINE = ("returned", "aborted", "thrown", "assumed-away", "DIVERGED")


def die(msg, code=2):
    print("ERROR " + msg)
    sys.exit(code)


class Check:
    def __init__(self, pid, tier, only=None, jobs=None, verbose=False):
        self.pid, self.tier, self.only, self.verbose = pid, tier, only, verbose
        self.jobs = jobs or min(8, os.cpu_count() or 4)
        self.src = os.path.join(HERE, "harness", pid + ".cpp")
        self.dir = os.path.join(BUILD, pid)
        self.text = open(self.src).read()
        self.runs = self.parse_runs()
        self.known = [k for k in json.load(open(HERE + "/known-findings.json")) if k.get("property") == pid and k.get("status") == "open"] if os.path.exists(HERE + "/known-findings.json") else []
        self.deadline = time.time() + (740 if tier == "quick" else 10 * 3600)

    def parse_runs(self):
        """//RUN quick|thorough|both entry arg... [--engine-option value]... ; #define-like macros: {a..b}"""
        out = []
        for m in re.finditer(r"^//RUN\s+(\S+)\s+(.*)$", self.text, re.M):
            tier, rest = m.group(1), m.group(2).split()
            if tier not in ("quick", "thorough", "both"):
                die("bad RUN line: " + m.group(0))
            if self.tier == "quick" and tier == "thorough":
                continue
            if self.tier == "thorough" and tier == "quick":
                continue
            if self.only and rest[0] != self.only:
                continue
            entry, args, opts, i = rest[0], [[]], [], 1
            while i < len(rest):
                t = rest[i]
                if t.startswith("--"):
                    opts += [t] + ([rest[i + 1]] if t not in ("--no-race",) else [])
                    i += 1 if t not in ("--no-race",) else 0
                else:
                    r = re.match(r"^(-?\d+)\.\.(-?\d+)$", t)
                    vals = range(int(r.group(1)), int(r.group(2)) + 1) if r else [int(x) for x in t.split(",")]
                    args = [a + [v] for a in args for v in vals]
                i += 1
            for a in args:
                out.append((entry, a, opts))
        return out

    def build(self):
        r = sh(["bash", os.path.join(HERE, "engine", "build.sh")])
        if r.returncode:
            die("engine build failed\n" + r.stdout)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        flags = re.findall(r"^//FLAGS\s+(.*)$", self.text, re.M)
        self.flags = " ".join(flags).split()
        jobs = {}

        def ir():
            a = sh(BASE + self.flags + IRF + [self.src, "-o", self.dir + "/h.bc"])
            if a.returncode:
                return a
            b = sh(BASE + IRF + [os.path.join(HERE, "harness", "rt.cpp"), "-o", self.dir + "/rt.bc"])
            if b.returncode:
                return b
            return sh(["llvm-link-18", self.dir + "/h.bc", self.dir + "/rt.bc", "-o", self.dir + "/all.bc"])

        rt = os.path.join(HERE, "harness", "replay_rt.cpp")
        self.threads = "//THREADS" in self.text

        def native():
            if self.threads:
                # same code generation as the IR, with the hooks of -fsanitize=thread provided by replay_thr.cpp
                a = sh(BASE + self.flags + [f for f in IRF if f not in ("-emit-llvm",)] + ["-fsanitize=thread", "-g", self.src, "-o", self.dir + "/n.o"])
                if a.returncode:
                    return a
                return sh(BASE + ["-O1", "-g", "-DVF_THREADS", "-no-pie", self.dir + "/n.o", rt, os.path.join(HERE, "harness", "replay_thr.cpp"), "-rdynamic", "-ldl", "-pthread", "-Wl,--wrap=exit"] +
                          ["-Wl,--wrap=" + f for f in ("pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "nanosleep", "sched_yield")] + ["-o", self.dir + "/native"])
            return sh(BASE + self.flags + ["-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern",
                                           self.src, rt, "-rdynamic", "-ldl", "-pthread", "-Wl,--wrap=exit", "-o", self.dir + "/native"])
        with cf.ThreadPoolExecutor(2) as ex:
            a, b = ex.submit(ir), ex.submit(native)
            for x in (a.result(), b.result()):
                if x.returncode:
                    die("harness does not compile against the current tree:\n" + "\n".join([l for l in x.stdout.split("\n") if re.search(r"error:|harness/|undefined|multiple|relocation|ld:", l)][:14]))

    def engine(self, k):
        entry, args, opts = self.runs[k]
        out = f"{self.dir}/r{k}.json"
        lim = os.environ.get("VF_TIME") or ("500" if self.tier == "quick" else "3000")
        cmd = [BUILD + "/vsym", "-e", entry, "-o", out, "-t", lim]
        for a in args:
            cmd += ["-a", str(a & (2**64 - 1))]
        cmd += opts + [self.dir + "/all.bc"]
        if not self.known:
            cmd += ["--grace", "30"]
        t0 = time.time()
        end = t0 + float(lim) + 200
        if t0 > self.deadline:
            return {"entry": entry, "error": "not run (stopped)"}
        with open(out + ".log", "w+") as log:
            p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
            while p.poll() is None and time.time() < min(end, self.deadline):
                try:
                    p.wait(0.05 if time.time() < t0 + 2 else 0.5)
                except subprocess.TimeoutExpired:
                    pass
            if p.poll() is None:
                p.kill()
                p.wait()
                return {"entry": entry, "error": "engine timeout" if time.time() >= end else "stopped before the end"}
        if not os.path.exists(out):
            return {"entry": entry, "error": "engine failed: " + open(out + ".log").read()[-500:]}
        j = json.load(open(out))
        # a counterexample that replays natively decides the check: the other runs get 30 s more
        if j["violations"] and not self.known and not self.verbose:
            v = j["violations"][0]
            if self.native(entry, args, v["inputs"], fills=(190, 0, 65, 255))[0] not in FINE:
                self.deadline = min(self.deadline, time.time() + 30)
        j["args"], j["wall_s"] = args, time.time() - t0
        if self.verbose and (j["violations"] or j["wall_s"] > 3 or j["incomplete"] or self.only):
            for v in j["violations"]:
                v["loc"] = short(v["loc"])
            print(f"{entry}{args}: paths={j['paths']} inst={j['instructions']} asserts={j['assertions']}/{j['assertion_queries']} "
                  f"q={j['solver']['queries']} solver={j['solver']['time_s']:.1f}s wall={j['wall_s']:.1f}s ends={j['ends']} viol={[(v['kind'], v['msg'], v['loc']) for v in j['violations']]} {j['incomplete']}", flush=True)
        return j

    def native(self, entry, args, inputs, timeout=20, fills=(190,)):
        """Runs the native binary on a concrete input; returns (outcome, output)."""
        f = f"{self.dir}/in-{os.getpid()}-{hashlib.md5(json.dumps([entry, args, inputs]).encode()).hexdigest()[:10]}.txt"
        with open(f, "w") as fh:
            for n, w, v in inputs:
                if n != "uninit":
                    fh.write(f"{n} {v}\n")
        res = None
        for fill in fills:
            env = dict(os.environ, ASAN_OPTIONS=f"exitcode=99:detect_leaks=0:max_malloc_fill_size=1048576:malloc_fill_byte={fill}:allocator_may_return_null=0:alloc_dealloc_mismatch=1")
            try:
                r = subprocess.run([self.dir + "/native", entry, f] + [str(a & (2**64 - 1)) for a in args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, errors="replace", text=True)
            except subprocess.TimeoutExpired as e:
                return "HANG", "no termination within %d s" % timeout
            m = re.search(r"^OUTCOME (\S+) ?(.*)$", r.stdout, re.M)
            if r.returncode == 99:
                res = ("MEMORY-ERROR", r.stdout)
            elif m:
                res = (m.group(1), r.stdout)
            elif r.returncode < 0:
                res = ("SIGNAL-%d" % -r.returncode, r.stdout)
            else:
                res = ("EXIT-%d" % r.returncode, r.stdout)
            if res[0] not in FINE:
                return res
        return res

    def run(self):
        t0 = time.time()
        if not self.runs:
            die("no runs")
        self.build()
        order = list(range(len(self.runs)))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            res = list(ex.map(self.engine, order))
        errors, viols, reached = [], [], {}
        agg = dict(paths=0, forks=0, instructions=0, assertions=0, assertion_queries=0)
        sol = dict(queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0, time_s=0.0)
        funcs, ends, samples, nval = set(), {}, [], 0
        for j in res:
            if "error" in j:
                errors.append(f"{j['entry']}: {j['error']}")
                continue
            for k in agg:
                agg[k] += j[k]
            for k in sol:
                sol[k] += j["solver"][k]
            if j["solver"]["mismatches"]:
                errors.append(f"{j['entry']}: solver model mismatch")
            funcs |= set(j["functions"])
            for k, v in j["ends"].items():
                ends[k] = ends.get(k, 0) + v
            for k, v in j["reached"].items():
                reached[k] = reached.get(k, 0) + v
            inc = [i for i in j["incomplete"] if i != "stopped at violations"]
            if inc:
                errors.append(f"{j['entry']}{j['args']}: incomplete: {inc}")
            for v in j["violations"]:
                viols.append((j["entry"], j["args"], v))
        # every label the harness marks must be reachable (vacuity)
        labels = set(re.findall(r'REACH\("([^"]+)"\)', self.text))
        skip = set(re.findall(r'REACH\("([^"]+)"\);?\s*//\s*thorough', self.text)) if self.tier == "quick" else set()
        if not self.only:
            for l in sorted(labels - skip):
                if not reached.get(l) and not viols:
                    errors.append(f"vacuous: label {l} never reached")
        # witnesses: the native program must agree with the symbolic run
        wl = []
        for j in res:
            if "error" not in j:
                for w in j["witnesses"][: (4 if self.tier == "quick" else 6)]:
                    wl.append((j["entry"], j["args"], w))

        def val(x):
            e, a, w = x
            oc, out = self.native(e, a, w["inputs"])
            obs = [[m.group(1), m.group(2)] for m in re.finditer(r"^OBS (\S+) (0x[0-9a-f]+)$", out, re.M)]
            ok = oc == w["outcome"] and (obs == w["obs"] or w["outcome"] != "returned")
            return ok, oc, obs
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            for x, (ok, oc, obs) in zip(wl, ex.map(val, wl)):
                if ok:
                    nval += 1
                    if len(samples) < 12:
                        samples.append({"entry": x[0], "args": x[1], "inputs": [[n, v] for n, _, v in x[2]["inputs"]][:16], "outcome": oc, "observed": obs[:8]})
                else:
                    errors.append(f"witness mismatch {x[0]}{x[1]}: engine {x[2]['outcome']} {x[2]['obs'][:6]} native {oc} {obs[:6]} inputs {x[2]['inputs'][:12]}")
        # counterexamples: replay natively
        known = self.known
        rep, knownhit, code = os.path.join(HERE, "evidence", "replays"), set(), 0
        confirmed = []
        os.makedirs(rep, exist_ok=True)
        for f in os.listdir(rep):
            if f.startswith(self.pid + "-"):
                os.remove(os.path.join(rep, f))

        def rp(x):
            e, a, v = x
            return self.native(e, a, v["inputs"], fills=(190, 0, 65, 255))
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            outs = list(ex.map(rp, viols))
        for n, ((e, a, v), (oc, out)) in enumerate(zip(viols, outs)):
            bad = oc not in FINE
            kf = next((k for k in known if k["entry"] == e and re.search(k["match"], v["msg"])), None)
            if bad and kf:
                knownhit.add(kf["what"])
                continue
            if not bad:
                errors.append(f"counterexample did not replay: {e}{a} {v['kind']}: {v['msg']} at {v['loc']} native={oc} inputs={v['inputs'][:16]}")
                continue
            path = os.path.join(rep, f"{self.pid}-{n}.json")
            json.dump({"property": self.pid, "entry": e, "args": a, "inputs": v["inputs"], "kind": v["kind"], "message": v["msg"], "location": v["loc"],
                       "native_outcome": oc, "native_output": out[-3000:], "how": f"python3 /verif/check.py --replay {path}"}, open(path, "w"), indent=1)
            confirmed.append((e, a, v, oc, path))
        for k in sorted(knownhit):
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        if confirmed:
            code = 1
            for e, a, v, oc, path in confirmed[:6]:
                v["loc"] = short(v["loc"])
                print(f"  {e}{a}: {v['kind']}: {v['msg']} at {v['loc']} (native: {oc})")
                print(f"VIOLATION property={self.pid} replay={path}")
        elif errors:
            code = 2
        for e in errors[:20]:
            print("ERROR " + e)
        bounds = re.findall(r"^//BOUND\s+(.*)$", self.text, re.M)
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
              "coverage": {"states": agg["paths"], "transitions": agg["instructions"], "traces_validated_against_impl": nval, "samples": samples,
                           "method": "symbolic execution of the LLVM IR compiled from /repo's headers, all paths, Z3 verdict per assertion and per branch",
                           "runs": [f"{e}({','.join(map(str, a))})" for e, a, _ in self.runs], "path_ends": ends, "forks": agg["forks"],
                           "assertions_decided": agg["assertions"], "assertions_by_solver": agg["assertion_queries"], "solver": sol, "bounds": bounds,
                           "functions_encoded": sorted(funcs), "labels_reached": reached, "known_findings": sorted(knownhit), "inconclusive": errors},
              "assumptions": ["libstdc++ headers and clang-18 -O1 codegen", "console output (vif::print/error, iostream <<) has no effect on results",
                              "tree rebalancing/list hooks of libstdc++ replaced by harness/rt.cpp"],
              "violations": len(confirmed), "wall_s": round(time.time() - t0, 2)}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        if code == 0:
            print(f"OK property={self.pid} tier={self.tier} runs={len(self.runs)} paths={agg['paths']} assertions={agg['assertions']} queries={sol['queries']} solver={sol['time_s']:.1f}s wall={time.time() - t0:.1f}s")
        shutil.rmtree(self.dir, ignore_errors=True) if not self.verbose and code == 0 else None
        return code


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        j = json.load(open(a[1]))
        c = Check(j["property"], "quick")
        c.build()
        oc, out = c.native(j["entry"], j["args"], j["inputs"], fills=(190, 0, 65, 255))
        print(out[-3000:])
        print("native outcome:", oc)
        return 0 if oc in ("returned", "aborted", "thrown", "assumed-away") else 1
    pid, tier, only, jobs, verbose = a[0], os.environ.get("VERIF_TIER", "quick"), None, None, False
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 1
        elif a[i] == "--only": only = a[i + 1]; i += 1
        elif a[i] == "-j": jobs = int(a[i + 1]); i += 1
        elif a[i] == "-v": verbose = True
        i += 1
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return Check(pid, tier, only, jobs, verbose).run()


if __name__ == "__main__":
    sys.exit(main())
