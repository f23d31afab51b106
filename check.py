#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of the real code.

usage: check.py PROPERTY [--tier quick|thorough] [--harness NAME] [--keep] [-v]

1. builds the instrumentation pass, the runtime and the solver back end;
2. compiles /repo's current sources to LLVM IR, instruments and links them with
   the property's harness (harness/<PROPERTY>.cpp);
3. explores every feasible path within the bounds of the harness, the solver
   deciding each branch and each assertion;
4. replays every counterexample on an uninstrumented build of the same sources
   and reports it only if it reproduces there;
5. writes evidence/<PROPERTY>.json.
"""
import concurrent.futures as cf
import fnmatch
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FIMEX_REPO", "/repo")
ENG = os.path.join(HERE, "engine")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
CACHE = os.path.join(HERE, ".cache")
NCPU = os.cpu_count() or 4
LIBS = ["-lcurl", "-ldate-tz", "-lxml2", "-llog4cpp", "-lproj", "-ludunits2", "-lpthread", "-ldl"]
INC = ["-I" + os.path.join(ENG, "include"), "-I" + REPO + "/include", "-I" + REPO + "/src", "-isystem", "/usr/include/libxml2"]
BASE = ["-O1", "-g0", "-w", "-DNDEBUG", "-fPIC", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fsanitize=address"]
EXCLUDE = {"mifi_mpi.c", "ProtobufCDM.cc", "IndexedData_pb.cc", "GribProtobufIndexReader.cc", "GribProtobufIndexWriter.cc"}
SLOW = ["Data.cc", "CDMInterpolator.cc", "CDM.cc", "CF1_xCoordSysBuilder.cc", "CDMPressureConversions.cc", "CDMBorderSmoothing.cc", "CDMVerticalInterpolator.cc",
        "CDMQualityExtractor.cc", "FileUtils.cc", "ProjectionImpl.cc", "CDMProcessor.cc", "CoordinateSystem.cc"]


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def must(cmd, what, **kw):
    r = sh(cmd, **kw)
    if r.returncode:
        raise CheckError("%s failed:\n%s\n%s" % (what, " ".join(cmd), r.stdout[-4000:]))


def cached(key, suffix, make):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, key + suffix)
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid() + suffix
        make(tmp)
        os.replace(tmp, out)
    else:
        os.utime(out)
    return out


def headers_digest():
    h = hashlib.sha256()
    for d in (REPO + "/include", REPO + "/src", ENG):
        for root, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".h", ".hpp", ".tcc", ".def", ".in")):
                    h.update(f.encode())
                    h.update(rd(os.path.join(root, f)))
    return h.hexdigest()


class Builder:
    def __init__(self):
        self.hd = headers_digest()
        self.io = []
        self.omp = False
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def engine(self):
        src = os.path.join(ENG, "fspass.cpp")

        def mkpass(o):
            flags = subprocess.check_output(["llvm-config-18", "--cxxflags"], text=True).split()
            flags = [f for f in flags if not f.startswith("-std=") and f != "-fno-exceptions"]
            must(["clang++", "-std=c++17", "-O1", "-w", "-fPIC", "-shared", "-fno-rtti"] + flags + ["-I" + ENG, src, "-o", o], "building the pass")

        def mkobj(name, extra):
            def f(o):
                must(["clang++", "-std=c++17", "-O2", "-w", "-fPIC"] + extra + ["-I" + ENG, "-c", os.path.join(ENG, name), "-o", o], "building " + name)
            return f
        eng = digest(*[rd(p) for p in sorted(glob.glob(ENG + "/*.h") + glob.glob(ENG + "/*.cpp") + glob.glob(ENG + "/*.c"))])
        pk = digest("pass", rd(src), rd(ENG + "/fsops.h"), rd(ENG + "/fsomp.h"))
        fp = self.pool.submit(cached, pk, ".so", mkpass)
        fr = self.pool.submit(cached, digest("rt", eng), ".o", mkobj("fsrt.cpp", []))
        fs = self.pool.submit(cached, digest("solve", eng), ".o", mkobj("fssolve.cpp", ["-I" + Z3 + "/include"]))
        fn = self.pool.submit(cached, digest("nat", eng), ".o", mkobj("fsnative.cpp", []))
        fo = self.pool.submit(cached, digest("race", eng), ".o", mkobj("fsrace.cpp", []))
        self.race = fo.result()
        self.passkey = pk
        self.passso = fp.result()
        self.rt = [fr.result(), fs.result()]
        self.native = fn.result()
        self.libc = self.compile(ENG + "/fslibc.c", True, ["-fno-builtin"])

    def compile(self, src, sym, extra=(), env=None):
        c = src.endswith(".c")
        cmd = ["clang" if c else "clang++", "-std=gnu11" if c else "-std=gnu++20"] + BASE + list(extra) + INC + ["-I" + ENG] 
        if "/src/io/" in src or "/harness/" in src:
            cmd += ["-I%s/src/io/%s" % (REPO, d) for d in self.io]
        env = dict(env or {})
        if self.omp:
            cmd += ["-fopenmp", "-I" + ENG + "/omp"]
            env["FS_OMP"] = "1"
            if not sym:
                env["FS_NOSYM"] = "1"
        if sym or self.omp:
            cmd += ["-fpass-plugin=" + self.passso]
        key = digest("o3", rd(src), self.hd, self.passkey if sym or self.omp else "native", " ".join(cmd).replace(self.passso, ""), src, env or "",
                     *[rd(p) for p in sorted(glob.glob(os.path.dirname(src) + "/*.h") + glob.glob(REPO + "/src/binSrc/*.cc")) if "/harness/" in src])
        e = dict(os.environ)
        if env:
            e.update(env)

        def mk(o):
            if sym:
                bc = o + ".bc"
                try:
                    must(cmd + ["-emit-llvm", "-c", src, "-o", bc], "compiling " + src, env=e)
                    must(["llc-18", "-O0", "-filetype=obj", "-relocation-model=pic", bc, "-o", o], "code generation for " + src)
                finally:
                    if os.path.exists(bc):
                        os.remove(bc)
            else:
                must(cmd + ["-c", src, "-o", o], "compiling " + src, env=e)
        return cached(key, ".o", mk)

    def sources(self):
        out = []
        for pat in ("src/*.c", "src/*.cc", "src/coordSys/*.cc", "src/coordSys/*/*.cc", "src/coordSys/*.c") + tuple("src/io/%s/*.cc" % d for d in self.io):
            out += glob.glob(os.path.join(REPO, pat))
        out = [s for s in out if os.path.basename(s) not in EXCLUDE]
        out.sort(key=lambda s: (SLOW.index(os.path.basename(s)) if os.path.basename(s) in SLOW else 99, -os.path.getsize(s)))
        return out

    def objects(self, srcs, sym, regex=False):
        env = {"FS_REGEX": "1"} if regex else None
        futs = [self.pool.submit(self.compile, s, sym, (), env) for s in srcs]
        return [f.result() for f in futs]

    def link(self, objs, out, sym):
        cmd = ["clang++", "-fsanitize=address", "-rdynamic"] + objs
        if self.omp:
            cmd += [self.race, "-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort"]
        if sym:
            cmd += [self.libc] + self.rt + ["-L" + Z3 + "/lib", "-lz3", "-Wl,-rpath," + Z3 + "/lib"]
        else:
            cmd += [self.native]
        return sh(cmd + LIBS + ["-o", out])

    def build(self, harness, tus, out, sym, regex=False, extra=()):
        hs = [harness] + list(extra)
        all_src = self.sources()
        if tus != "all":
            sel = [s for s in all_src if any(fnmatch.fnmatch(os.path.basename(s), t) for t in tus)]
            objs = self.objects(hs + sel, sym, regex)
            r = self.link(objs, out, sym)
            if r.returncode == 0:
                return sel
        objs = self.objects(all_src[:12] + hs + all_src[12:], sym, regex)
        r = self.link(objs, out, sym)
        if r.returncode:
            raise CheckError("link failed:\n" + r.stdout[-4000:])
        return all_src


def prune_cache(limit=3 << 30):
    if not os.path.isdir(CACHE):
        return
    fs = [(os.stat(p).st_mtime, os.stat(p).st_size, p) for p in glob.glob(CACHE + "/*") if os.path.isfile(p)]
    tot = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if tot <= limit:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        tot -= s


def parse_cfg(path):
    txt = open(path).read()
    m = re.match(r"\s*/\*FS(.*?)\*/", txt, re.S)
    return json.loads(m.group(1)) if m else {}


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    out = [re.sub(r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "std::string", x) for x in r.stdout.splitlines()]
    return out


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = False
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            i += 1
            tier = args[i]
        elif args[i] == "--harness":
            i += 1
            only = args[i]
        elif args[i] == "-v":
            verbose = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    hpath = os.path.join(HERE, "harness", prop + ".cpp")
    cfg = parse_cfg(hpath)
    budget = float(os.environ.get("FS_BUDGET", cfg.get("thorough_s", 1500) if tier == "thorough" else cfg.get("quick_s", 60)))
    work = tempfile.mkdtemp(prefix="fsym-%s-" % prop)
    viol = []
    known = []
    results = []
    try:
        b = Builder()
        b.io = cfg.get("io", [])
        b.omp = cfg.get("omp", False)
        b.engine()
        exe = os.path.join(work, "sym")
        used = b.build(hpath, cfg.get("tus", "all"), exe, True, cfg.get("regex", False))
        tb = time.time() - t0
        names = [x for x in reversed(sh([exe, "-l"]).stdout.split()) if not only or x == only]
        order = cfg.get("order", [])
        names.sort(key=lambda n: order.index(n) if n in order else len(order))
        wts = cfg.get("weights", {})
        deadline = time.time() + budget
        nat = None
        kf = json.load(open(os.path.join(HERE, "known_findings.json")))
        for k, h in enumerate(names):
            left = deadline - time.time()
            wsum = sum(wts.get(x, 1) for x in names[k:])
            tb_h = max(4.0, left * wts.get(h, 1) / wsum)
            of = os.path.join(work, h + ".json")
            cmd = [exe, h, "-j", str(NCPU), "-t", "%.1f" % tb_h, "-q", str(cfg.get("query_ms", 20000 if tier == "quick" else 120000)), "-o", of]
            if tier == "thorough":
                cmd += ["-T", "-rt", "60"]
            r = sh(cmd)
            if not os.path.exists(of):
                raise CheckError("harness %s gave no result (%s): %s" % (h, r.returncode, r.stdout[-500:]))
            res = json.loads(open(of, errors="replace").read())
            results.append(res)
            if verbose:
                q = dict(res)
                q["functions"] = len(q["functions"])
                print(json.dumps(q), flush=True)
            if res["violations"]:
                if nat is None:
                    nat = os.path.join(work, "native")
                    b.build(hpath, cfg.get("tus", "all"), nat, False)
            res["replayed"] = 0
            res["not_reproduced"] = 0
            seen = set()
            for v in res["violations"]:
                inp = os.path.join(work, "in.txt")
                with open(inp, "w") as f:
                    f.write("\n".join(v["inputs"].split()) + "\n")
                env = dict(os.environ)
                env["FS_THOROUGH"] = "1" if tier == "thorough" else "0"
                env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:detect_odr_violation=0:alloc_dealloc_mismatch=0:max_allocation_size_mb=2000"
                try:
                    rr = subprocess.run([nat, h, inp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=90, text=True, errors="replace")
                    rc, out = rr.returncode, rr.stdout
                except subprocess.TimeoutExpired as e:
                    rc, out = 124, "no termination within 90 s"
                ok = "REPLAY-OK" in out or "REPLAY-ABANDON" in out
                res["replayed"] += 1
                if ok:
                    res["not_reproduced"] += 1
                    continue
                m = re.search(r"REPLAY-FAIL (.*)", out)
                what = m.group(1) if m else (re.search(r"ERROR: AddressSanitizer: (\S+)", out).group(1) if "AddressSanitizer" in out else v["kind"] + ": " + v["msg"])
                hit = None
                for e in kf:
                    if e.get("status") == "known" and e["property"] == prop and e["harness"] == h and re.search(e["what"], what) and re.search(e.get("inputs", ""), v["inputs"]):
                        hit = e
                if hit:
                    known.append("%s" % hit["description"])
                    continue
                if what in seen:
                    continue
                seen.add(what)
                rp = os.path.join(HERE, "evidence", "replay-%s-%s-%d.txt" % (prop, h, len(viol)))
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, "w") as f:
                    f.write("property %s harness %s (harness/%s.cpp)\nwhat: %s\nsymbolic run reported: %s %s\ninputs:\n%s\n\nreplay: build harness/%s.cpp with engine/fsnative.cpp and the sources, run with the inputs above\n\noutput of the replay on the uninstrumented build:\n%s\n" % (
                        prop, h, prop, what, v["kind"], v["msg"], "\n".join(v["inputs"].split()), prop, out[-6000:]))
                viol.append((h, what, rp, v["inputs"]))
            if viol and not verbose and not os.environ.get("FS_ALL"):
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)
    S = lambda k: sum(r.get(k, 0) for r in results)
    fns = sorted(set(x for r in results for x in r["functions"]))
    dm = [x for x in demangle(fns) if re.search(r"MetNoFimex|mifi", x.split("(")[0]) and not x.startswith(("std::", "void std::", "_GLOBAL", "bool std::"))]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("decisions"), "traces_validated_against_impl": S("paths"),
            "explanation": "states = feasible execution paths of the real code (each one also executed concretely on it), transitions = symbolic branch/bounds/assertion decisions on them; "
                           "every alternative of every decision was handed to Z3 (QF_BV) with the path prefix. exhaustive = all alternatives decided, i.e. the assertions hold for every value within the bounds.",
            "exhaustive": bool(results) and all(r["exhaustive"] for r in results) and not viol,
            "assertions_evaluated_on_paths": S("asserts"),
            "assertions_note": "an assertion whose two sides are the same symbolic term is decided by the term simplifier without a query; the others are queries",
            "queries": {"assertion": S("assertQ"), "assertion_unsat": S("assertUnsat"), "branch": S("flipQ"), "sat": S("sat"), "unsat": S("unsat"), "unknown": S("unknown"),
                        "using_fp_theory": S("fpq"), "rounding_undetermined_comparisons": S("noise")},
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
            "build_s": round(tb, 1),
            "harnesses": [{k: r[k] for k in ("harness", "exhaustive", "paths", "decisions", "asserts", "assertQ", "assertUnsat", "flipQ", "sat", "unsat", "unknown", "diverged", "abandoned", "budget_hit", "crashed",
                                             "skippedFlips", "wall_s", "solver_s", "reached", "opaque_calls", "enumerated_at") if k in r} for r in results],
            "bounds": cfg.get("bounds", []),
            "outside_bounds": cfg.get("outside", []),
            "functions_encoded_count": len(dm),
            "functions_encoded": dm[:400],
            "translation_units": [os.path.relpath(s, REPO) for s in used],
            "samples": [r["harness"] + ": " + (r["violations"][0]["inputs"] if r["violations"] else "paths=%d assertion queries=%d (unsat %d)" % (r.get("paths", 0), r.get("assertQ", 0), r.get("assertUnsat", 0))) for r in results],
        },
        "assumptions": cfg.get("assumptions", []) + [
            "clang -O1 IR of /repo's sources, " + ("OpenMP regions as simulated threads" if cfg.get("omp") else "without OpenMP (single thread)") + "; x86-64 conversion semantics; uninstrumented libraries (libstdc++.so, libc, udunits2, proj, libxml2) run concretely, symbolic values reaching them are enumerated by the solver one at a time",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    prune_cache()
    shutil.rmtree("/tmp/fimex-verif-tree", ignore_errors=True)  # scratch files of C35
    for k in sorted(set(known)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for h, what, rp, inp in viol:
        print("  %s: %s [%s]" % (h, what, inp.strip()))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    if not viol:
        print("OK property=%s paths=%d assertion-queries=%d unsat=%d exhaustive=%s build=%.0fs wall=%.0fs" % (prop, S("paths"), S("assertQ"), S("unsat"), ev["coverage"]["exhaustive"], tb, time.time() - t0))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR " + str(e))
        sys.exit(2)
