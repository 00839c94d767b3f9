#!/usr/bin/env python3
"""Decides one property by symbolic execution of the real code.

  check.py ID [--tier quick|thorough] [--entry NAME ...] [--keep DIR]

The harnesses harness/<id>*.cpp are compiled against /repo's current headers to LLVM IR, every entry is explored by
build/vseng over symbolic data, faults and schedules, and violations are replayed: in the engine along the solver's
concrete model and natively (clang, AddressSanitizer, the schedule forced by instrumentation).
exit 0: held on everything explored; 1: VIOLATION; 2: no answer (a harness does not compile or the engine failed).
"""
import argparse, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VS_REPO", "/repo")
EVID = os.environ.get("VS_OUT", os.path.join(VERIF, "evidence"))
FAST = bool(os.environ.get("VS_FAST"))  # development: stop after the first violation
BUILD = os.path.join(VERIF, "build")
ENG = os.path.join(VERIF, "engine")
CFLAGS = ["-std=c++20", "-O0", "-Xclang", "-disable-O0-optnone", "-gline-tables-only", "-I", f"{ENG}/shim", "-I", ENG,
          "-I", f"{VERIF}/harness", "-I", f"{REPO}/include", "-Wno-everything"]
RELEASE_S = 12.0              # entries decided faster than this are explored a second time, optimised and with assert compiled out
KEEP_ALLOC = ["_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "calloc"]
NATIVE_UNCONFIRMABLE = {"data-race", "uninitialised", "misaligned"}


def sh(cmd, timeout=None, mem=None, env=None):
    def lim():
        os.setpgrp()
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    e = dict(os.environ, **(env or {}))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=lim, env=e)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, er = p.communicate()
        return -9, o, er


def parse_harness(path):
    txt = open(path).read()
    ents = []
    for m in re.finditer(r"^VS_ENTRY\((\w+)\)([^\n]*)", txt, re.M):
        c = m.group(2)
        o = dict(re.findall(r"@(\w+)=(\S+)", c))
        flags = set(re.findall(r"@(\w+)(?![\w=])", c))
        ents.append({"name": m.group(1), "opts": o, "flags": flags})
    bounds = [b.strip() for b in re.findall(r"^//\s*BOUND:\s*(.*)$", txt, re.M)]
    conds = re.findall(r"^//\s*@config\s+(\S.*)$", txt, re.M)
    return {"file": path, "entries": ents, "bounds": bounds, "must_compile": "// @must_compile" in txt, "optional": "// @optional" in txt, "flags": conds[0].split() if conds else [],
            "stem": os.path.splitext(os.path.basename(path))[0]}


def load_known(prop):
    known = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:") and f"property={prop} " in l:
                head, _, what = l.partition("::")
                known.append({"kv": dict(re.findall(r"(\w+)=(\S+)", head)), "what": what.strip()})
    return known


def is_known(known, entry, v):
    for k in known:
        kv = k["kv"]
        if kv.get("entry", entry) == entry and kv.get("kind", v["kind"]) == v["kind"] and kv.get("where", "") in v["bt"] + v["where"]:
            return k
    return None


class Check:
    def __init__(self, prop, tier, only=None, keep=None):
        self.prop, self.tier, self.only = prop, tier, only
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.dir = keep or tempfile.mkdtemp(prefix=f"vs_{prop}_")
        os.makedirs(self.dir, exist_ok=True)
        self.keep = keep
        self.known = load_known(prop)
        self.problems, self.violations, self.results, self.known_hits = [], [], [], []
        self.native_ok = self.native_bad = 0
        self.samples = []
        self.deadline = self.t0 + (780 if tier == "quick" else 6 * 3600)

    def optimise(self, h, ll):
        """optimised IR: clang's own -O2 pipeline, without vectorisation and without moving allocations (coroutine frames
        included) out of the heap, which the harnesses count"""
        empty = f"{self.dir}/empty.ll"
        with open(empty, "w") as f:
            f.write("define void @f() {\n  ret void\n}\n")
        rc, pipe, e = sh(["opt-18", "-passes=default<O2>", "--print-pipeline-passes", "-S", empty, "-o", "/dev/null"], timeout=60)
        pipe = re.sub(r",loop-vectorize<[^>]*>|,slp-vectorizer|,vector-combine|,cg-profile|coro-elide,|,verify,print", "", pipe.strip())
        if rc == 0:
            rc, o, e = sh(["opt-18", f"-passes={pipe}"] + [f"-disable-builtin={x}" for x in KEEP_ALLOC] + ["-S", ll, "-o", ll + ".opt"], timeout=300)
        if rc != 0:
            self.problems.append(f"optimising {h['stem']} failed: {e[-300:]}")
            return
        os.replace(ll + ".opt", ll)

    def compile(self, h):
        ll = f"{self.dir}/{h['stem']}{h.get('variant', '')}.ll"
        fl = [f for f in CFLAGS if "vflags" not in h or f != "-O0"] + h["flags"] + h.get("vflags", []) + (["-DVS_THOROUGH=1"] if self.tier == "thorough" else [])
        rc, o, e = sh(["clang++"] + fl + ["-S", "-emit-llvm", h["file"], "-o", ll], timeout=300)
        if rc == 0 and "-O2" in fl:
            self.optimise(h, ll)
        return rc, e, ll

    def native(self, h, ll):
        b = f"{self.dir}/{h['stem']}{h.get('variant', '')}"
        rc, o, e = sh([f"{BUILD}/vseng", ll, "--rt", f"{BUILD}/vs_sync.ll", "--instrument", b + ".nat.ll"], timeout=300)
        if rc == 0:
            rc, o, e = sh(["clang++", "-O0", "-fsanitize=address", "-Wno-override-module", "-c", b + ".nat.ll", "-o", b + ".nat.o"], timeout=300)
        if rc == 0:
            rc, o, e = sh(["clang++", "-fsanitize=address", b + ".nat.o", f"{BUILD}/native.o", "-o", b + ".nat", "-pthread"], timeout=300)
        if rc != 0:
            self.problems.append(f"native build of {h['stem']} failed: {e[-400:]}")
            return None
        return b + ".nat"

    def explore(self, h, ll, ent):
        o = ent["opts"]
        tl = float(o.get("time", 100 if self.tier == "quick" else 1500))
        if self.tier == "thorough":
            tl = float(o.get("ttime", max(tl * 10, 1500)))
        left = self.deadline - time.time()
        tl = max(5, min(tl, left))
        if h.get("variant"):
            tl = min(tl, 60 if self.tier == "quick" else 900)
        pfx = f"{self.dir}/{h['stem']}{h.get('variant', '')}.{ent['name']}."
        js = pfx + "json"
        cmd = [f"{BUILD}/vseng", ll, "--rt", f"{BUILD}/vs_sync.ll", "--rt", f"{BUILD}/vs_eh.ll", "--lib", f"{BUILD}/vs_std.ll", "--entry", ent["name"], "--json", js,
               "--prefix", pfx, "--time", str(tl), "--seed", str(self.seed), "--traces", "0" if h.get("variant") else o.get("traces", "3")]
        pre = o.get("preempt") if self.tier == "quick" else o.get("tpreempt", None if "preempt" not in o else str(int(o["preempt"]) + 1))
        if pre and int(pre) >= 0:
            cmd += ["--preempt", pre]
        rc, out, err = sh(cmd, timeout=tl * 2 + 120, mem=(10 << 30))
        if rc != 0 or not os.path.exists(js):
            return None, f"engine failed on {ent['name']} (rc {rc}): {(err or out)[-300:]}"
        return json.load(open(js)), None

    def native_run(self, exe, rep, limit=30):
        rc, out, err = sh([exe, rep], timeout=limit, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0"})
        log = [l for l in out.splitlines() if l.startswith("log ")]
        want = [l.strip() for l in open(rep) if l.startswith("log ")]
        asan = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
        vio = re.search(r"VS-NATIVE-VIOLATION (.*)", out)
        return {"rc": rc, "ok": rc == 0 and log == want, "logs_equal": log == want, "asan": asan.group(1) if asan else None, "vio": vio.group(1) if vio else None}

    def one(self, h, ll, ent, natf):
        r, err = self.explore(h, ll, ent)
        if err:
            return ent, None, err
        if r["samples"] or r["violations"]:
            exe = natf()
            if exe:
                for s in r["samples"]:
                    n = self.native_run(exe, s)
                    if n["ok"]:
                        self.native_ok += 1
                        r.setdefault("native_ok", 0)
                        r["native_ok"] += 1
                    elif not r["violations"]:
                        self.native_bad += 1
                        self.problems.append(f"native run of a sample of {ent['name']} differs: {n}")
                for v in r["violations"]:
                    if v["replay"] and v["confirmed"]:
                        n = self.native_run(exe, v["replay"], 6 if v["kind"] == "livelock" else 30)
                        v["native"] = "still running when stopped" if v["kind"] == "livelock" and n["rc"] == -9 else n["asan"] or n["vio"] or ("clean run" if n["rc"] == 0 else f"rc {n['rc']}")
        return ent, r, None

    def round(self, todo, outdir):
        import threading
        with ThreadPoolExecutor(8) as ex:
            comp = {ex.submit(self.compile, h): h for h in todo}
            futs = []
            for f in as_completed(comp):
                h = comp[f]
                rc, err, ll = f.result()
                if rc != 0:
                    first = next((l for l in err.splitlines() if "error:" in l), err[-300:])
                    if h["must_compile"]:
                        os.makedirs(outdir, exist_ok=True)
                        p = f"{outdir}/{h['stem']}{h.get('variant', '')}.compile.txt"
                        open(p, "w").write(err)
                        self.violations.append(("compile", {"kind": "does-not-compile", "msg": first, "where": h["stem"], "bt": ""}, p))
                    else:
                        self.problems.append(f"harness {h['stem']} does not compile: {first}")
                    h["failed"] = not h["optional"]
                    continue
                lock, cache = threading.Lock(), {}

                def natf(h=h, ll=ll, lock=lock, cache=cache):
                    with lock:
                        if "x" not in cache:
                            cache["x"] = self.native(h, ll)
                        return cache["x"]
                for ent in h["entries"]:
                    if "again" in h and ent["name"] not in h["again"]:
                        continue
                    if self.only and ent["name"] not in self.only:
                        continue
                    if "thorough" in ent["flags"] and self.tier != "thorough":
                        continue
                    futs.append((ex.submit(self.one, h, ll, ent, natf), h))
            for f, h in futs:
                if FAST and self.violations:
                    ex.shutdown(wait=False, cancel_futures=True)
                    break
                ent, r, err = f.result()
                if err:
                    self.problems.append(err)
                    continue
                self.results.append((h, ent, r))
                seen = set()
                for i, v in enumerate(r["violations"]):
                    if not v["confirmed"]:
                        self.problems.append(f"unconfirmed violation in {ent['name']}: {v['kind']} {v['msg']}")
                        continue
                    k = is_known(self.known, ent["name"], v)
                    os.makedirs(outdir, exist_ok=True)
                    dst = f"{outdir}/{h['stem']}{h.get('variant', '')}.{ent['name']}.{i}.replay"
                    with open(dst, "w") as w:
                        w.write(f"harness {h['stem']}\ntier {self.tier}\n" + (f"flags {' '.join(h['vflags'])}\n" if h.get("variant") else "") + open(v["replay"]).read())
                    if k:
                        self.known_hits.append((k, ent["name"], v, dst))
                    else:
                        self.violations.append((ent["name"], v, dst))
                for s in r["samples"][:1]:
                    self.samples.append({"entry": ent["name"], "run": [l.strip() for l in open(s) if l.split(" ")[0] in ("sym", "sw", "log")][:40]})
                want = ent["opts"].get("reach")
                if want:
                    for w in want.split(","):
                        if not r["reach"].get(w) and not r["violations"]:
                            self.problems.append(f"{ent['name']}{h.get('variant', '')}: witness '{w}' was not reached")
                            if r["complete"]:
                                # every input and schedule was explored and none gets there: the code cannot complete the scenario
                                os.makedirs(outdir, exist_ok=True)
                                dst = f"{outdir}/{h['stem']}{h.get('variant', '')}.{ent['name']}.{w}.unreachable"
                                with open(dst, "w") as f:
                                    f.write(f"harness {h['stem']}\ntier {self.tier}\nentry {ent['name']}\nkind unreachable\nmsg no input and schedule reaches '{w}'\nrerun python3 check.py {self.prop} --tier {self.tier} --entry {ent['name']}\n")
                                self.violations.append((ent["name"], {"kind": "unreachable", "msg": f"no input and schedule within the bounds reaches '{w}'", "where": "-", "bt": "-"}, dst))

    def run(self):
        rc, o, e = sh(["bash", f"{ENG}/build.sh"], timeout=600)
        if rc != 0:
            print("engine build failed:", e[-2000:])
            return 2
        hs = [parse_harness(p) for p in sorted(glob.glob(f"{VERIF}/harness/{self.prop.lower()}_*.cpp"))]
        if not hs:
            print("no harness for", self.prop)
            return 2
        outdir = f"{EVID}/replay/{self.prop}"
        shutil.rmtree(outdir, ignore_errors=True)
        self.round(hs, outdir)
        # the same programs in release mode (optimised, assert compiled out): those that were quick to decide
        if not (FAST and self.violations):
            limit = RELEASE_S if self.tier == "quick" else 60 * RELEASE_S
            again = []
            for h in hs:
                names = {e["name"] for h2, e, r in self.results if h2 is h and r["complete"] and r["wall_s"] <= limit and not r["violations"]}
                if names:
                    again.append(dict(h, variant=".release", vflags=["-O2", "-Xclang", "-disable-llvm-passes", "-DNDEBUG"], again=names))
            if again:
                self.round(again, outdir)
                hs_failed = [h for h in again if h.get("failed")]
                for h in hs_failed:
                    hs[0]["failed"] = True
        self.write(hs)
        for p in self.problems:
            print("note:", p)
        for ent in sorted({(k["what"]) for k, _, _, _ in self.known_hits}):
            print(f"KNOWN-FINDING: property={self.prop} {ent}")
        done = set()
        for name, v, rep in self.violations:
            print(f"VIOLATION property={self.prop} replay={rep}")
            print(f"   entry {name}: {v['kind']}: {v['msg']}\n   in {v['where']}\n   at {v['bt'][:600]}\n   native replay: {v.get('native', '-')}")
        tot = sum(r["states"] for _, _, r in self.results)
        inc = [e["name"] + h.get("variant", "") for h, e, r in self.results if not r["complete"]]
        print(f"{self.prop} {self.tier}: {len(self.results)} entries, {tot} states, {len(self.violations)} violations, incomplete: {inc}, {time.time() - self.t0:.1f}s")
        if not self.keep:
            shutil.rmtree(self.dir, ignore_errors=True)
        if self.violations:
            return 1
        # no answer: a harness could not be compiled or the engine gave up before exploring anything
        if any(h.get("failed") for h in hs) or any(" failed" in p and p.startswith("engine") for p in self.problems):
            return 2
        return 0

    def write(self, hs):
        R = self.results
        s = lambda k: sum(r[k] for _, _, r in R)
        fns = sorted({f for _, _, r in R for f in r["functions"]})
        ln = {}
        for _, _, r in R:
            for fn, l, b in r.get("lines", []):
                ln[(fn, l)] = ln.get((fn, l), 0) | b
        cov = {
            "library_lines_executed": sum(1 for b in ln.values() if b & 1), "library_lines_instantiated_not_executed": [f"{k[0]}:{k[1]}" for k, b in sorted(ln.items()) if not b & 1],
            "states": s("states"), "transitions": s("transitions"), "traces_validated_against_impl": self.native_ok,
            "samples": self.samples[:6] or ["none"],
            "functions_encoded": [f if len(f) < 220 else f[:217] + "..." for f in fns], "functions_encoded_count": len(fns),
            "bounds": [{"harness": h["stem"], "bounds": h["bounds"]} for h in hs],
            "queries": s("queries"), "queries_sat": s("sat"), "queries_unsat": s("unsat"), "queries_unknown": s("unknown"),
            "query_cache_hits": s("query_cache_hits"), "solver_s": round(s("solver_s"), 3),
            "paths": s("paths"), "state_merges": s("merged"), "schedule_or_input_forks": s("forks"), "assertions_decided": s("asserts"),
            "assertions_symbolic": s("assert_sym"), "instructions_executed": s("instructions"),
            "entries": [{"entry": e["name"], "configuration": " ".join(h.get("vflags", [])) or "assert enabled", "harness": h["stem"], "complete": r["complete"], "why_incomplete": r["why"], "states": r["states"],
                         "transitions": r["transitions"], "paths": r["paths"], "queries": r["queries"], "solver_s": round(r["solver_s"], 3),
                         "context_switch_bound": r["preempt"], "coverage_query": r["coverage_query"], "reached": r["reach"], "symbols": r["symbols"][:40],
                         "unsupported": r["unsupported"], "native_traces": r.get("native_ok", 0), "wall_s": round(r["wall_s"], 2),
                         "violations": [{k: v.get(k) for k in ("kind", "msg", "where", "confirmed", "native")} for v in r["violations"]]} for h, e, r in R],
            "incomplete_entries": [e["name"] for _, e, r in R if not r["complete"]],
            "notes": self.problems,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": ["sequentially consistent interleavings at atomic/synchronisation operations; data races between them are reported separately (vector clocks over the C++ memory orders used)",
                              "clang 18 IR of the real headers, -O0 with assert and (entries with configuration -O2 -DNDEBUG) optimised without it; heap addresses are never reused inside one run",
                              "mutex, condition variable, futex wait, thread, allocation and exception runtime are the models in engine/rt",
                              "only the harness programs of this property within the listed bounds"],
              "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations),
              "violation_details": [{"entry": n, "kind": v["kind"], "msg": v["msg"], "replay": rep} for n, v, rep in self.violations] + [{"entry": n, "kind": v["kind"], "msg": v["msg"], "known": k["what"]} for k, n, v, rep in self.known_hits]}
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(f"{EVID}/{self.prop}.json", "w"), indent=1)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--entry", nargs="*")
    ap.add_argument("--keep")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    sys.exit(Check(a.prop, a.tier, a.entry, a.keep).run())
