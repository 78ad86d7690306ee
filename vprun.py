#!/usr/bin/env python3
"""Solver-based checks for sdr-modem.

  vprun.py <PROPERTY> [--tier quick|thorough] [--only NAME] [-v]
  vprun.py --replay <file>

Every harness is compiled with the *current* sources of the repository (goto-cc), decided by CBMC over
symbolic inputs, and every counterexample is replayed natively (gcc + AddressSanitizer) against the same
sources before it is reported.  Exit 0: held; 1: VIOLATION line; 2: no verdict (solver limit, encoding problem).
"""
import ctypes
import concurrent.futures as cf, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, threading, time
import importlib.util

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
HDIR = os.path.join(VERIF, "harness")

_spec = importlib.util.spec_from_file_location("vpspecs", os.path.join(VERIF, "vpspecs.py"))
specs = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(specs)

DEFAULT_CHECKS = ["--bounds-check", "--pointer-check", "--div-by-zero-check"]
VERBOSE = False


LIBC = ctypes.CDLL(None)


def log(*a):
    if VERBOSE:
        print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, cwd=None, env=None, mem_gb=None, stdout=subprocess.PIPE):
    def pre():
        os.setsid()
        LIBC.prctl(1, signal.SIGKILL)       # PR_SET_PDEATHSIG: no solver outlives this run
        if mem_gb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.STDOUT if stdout == subprocess.PIPE else subprocess.PIPE,
                         cwd=cwd, env=env, preexec_fn=pre)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, (o if o is not None else e), time.time() - t, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        o, e = p.communicate()
        return -9, (o if o is not None else e), time.time() - t, True


SRC_DEFS = ("VP_OWN_MEMCPY", "VP_REAL_MATH")    # the only harness definitions that vp_pre.h, and so the sources, depend on
_locks, _locks_guard = {}, threading.Lock()


def compiled(kind, cmd, src, flags, wdroot):
    """object file of one unmodified source, shared by the harnesses of this run"""
    key = hashlib.md5(repr((kind, cmd, src, flags)).encode()).hexdigest()
    with _locks_guard:
        lk = _locks.setdefault(key, threading.Lock())
    out = os.path.join(wdroot, "obj", key + ".o")
    with lk:
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            rc, o, _, _ = run(cmd + flags + ["-c", src, "-o", out + ".tmp"], 120)
            if rc != 0 or not os.path.exists(out + ".tmp"):
                raise Verdict("%s failed on %s: %s" % (cmd[0], os.path.basename(src), o.decode(errors="replace")[-1500:]))
            os.rename(out + ".tmp", out)
    return out


class Verdict(Exception):
    pass


def common_flags(h, root=None, for_src=False):
    root = root or REPO
    defs = ["-D%s=%s" % (k, v) if v is not None else "-D%s" % k for k, v in h.get("defs", {}).items() if not for_src or k in SRC_DEFS]
    return ["-std=gnu99", "-I", os.path.join(root, "src"), "-I", HDIR,
            "-include", os.path.join(HDIR, "vp_pre.h")] + defs


def sources(h, root=None):
    root = root or REPO
    return [os.path.join(root, s) for s in h["srcs"] if os.path.exists(os.path.join(root, s))]


CF = re.compile(r"\b(float\s+(complex|_Complex)|(complex|_Complex)\s+float)\b")


def cf_tree(wd):
    """copy of the current sources in which the sample type is spelled vp_cf (two packed floats); see vp_pre.h"""
    root = os.path.join(wd, "tree")
    if not os.path.isdir(root):
        for d, _, fs in os.walk(os.path.join(REPO, "src")):
            o = os.path.join(root, os.path.relpath(d, REPO))
            os.makedirs(o, exist_ok=True)
            for f in fs:
                if f.endswith((".c", ".h")):
                    t = open(os.path.join(d, f), errors="replace").read()
                    with open(os.path.join(o, f), "w") as g:
                        g.write(CF.sub("vp_cf", t))
    return root


def nd_values(trace):
    vals = []
    for s in trace:
        if s.get("stepType") != "assignment" or not str(s.get("lhs", "")).startswith("vp_nd_val_"):
            continue
        fn = s.get("sourceLocation", {}).get("function", "")
        if not fn.startswith("nd_"):
            continue
        v = s.get("value", {})
        if "binary" not in v:
            continue  # declaration without a value
        kind = fn[3:]
        vals.append((kind, int(v["binary"], 2), s.get("assignmentType")))
    return vals


def dump_trace(p, path):
    with open(path, "w") as f:
        f.write("%s %s\n" % (p["property"], p["description"]))
        for s in p.get("trace", []):
            sl = s.get("sourceLocation", {})
            where = "%s:%s %s" % (os.path.basename(sl.get("file", "?")), sl.get("line"), sl.get("function"))
            if sl.get("function") in ("__CPROVER_initialize", None):
                continue
            if s["stepType"] == "assignment":
                v = s.get("value", {})
                f.write("  %s  %s = %s\n" % (where, s.get("lhs"), v.get("data", v.get("name"))))
            elif s["stepType"] in ("function-call", "function-return", "failure"):
                f.write("%s %s %s\n" % (s["stepType"], where, s.get("function", {}).get("displayName") or s.get("reason")))


def write_trace(path, vals):
    with open(path, "w") as f:
        for k, v, _ in vals:
            f.write("%s %x\n" % (k, v))


def build_replay(h, wd):
    exe = os.path.join(wd, "replay")
    if os.path.exists(exe):
        return exe
    san = ["-fsanitize=address,integer-divide-by-zero", "-fno-sanitize-recover=all"]
    if h.get("ubsan"):
        san.append("-fsanitize=" + h["ubsan"])
    cc = ["gcc", "-g", "-O1", "-w", "-fno-builtin-fmodf", "-fno-builtin-fmod", "-fno-builtin-sincos", "-DVP_REPLAY", "-ffunction-sections", "-fdata-sections", "-fno-omit-frame-pointer"] + san
    objs = [compiled("native", cc, src, common_flags(h, for_src=True), os.path.dirname(wd)) for src in sources(h)]
    cmd = cc + common_flags(h) + [os.path.join(HDIR, h["file"])] + objs + \
          ["-Wl,--gc-sections", "-Wl,--unresolved-symbols=ignore-all", "-o", exe, "-lm", "-pthread"]
    rc, out, _, _ = run(cmd, 120)
    if rc != 0:
        raise Verdict("native replay build failed: " + out.decode(errors="replace")[-2000:])
    return exe


REPRO = re.compile(r"VP_VIOLATED|AddressSanitizer|runtime error|VP_NONTERMINATION|SEGV|FPE")


def replay(h, exe, tracefile, timeout=10):
    """returns (reproduced, tag, output)"""
    for fill in ("A5", "00", "FF"):
        env = dict(os.environ, VP_TRACE=tracefile, VP_FILL=fill,
                   ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
        rc, out, dt, to = run([exe], timeout, env=env)
        text = out.decode(errors="replace")
        if to:
            return True, "non-termination (>%ds)" % timeout, text[-1500:]
        if REPRO.search(text):
            m = re.search(r"VP_VIOLATED [^\n]*|ERROR: AddressSanitizer: \S+[^\n]*|runtime error: [^\n]*|VP_NONTERMINATION[^\n]*", text)
            return True, (m.group(0) if m else "sanitizer report"), text[-4000:]
        if rc < 0:
            return True, "killed by signal %d" % -rc, text[-1500:]
    return False, text.strip().splitlines()[-1] if text.strip() else "", text[-1500:]


def stat_int(pat, text):
    m = re.findall(pat, text)
    return sum(int(x) for x in m) if m else 0


def check_harness(prop, h, tier, wdroot):
    """returns dict result"""
    name = h["name"]
    wd = os.path.join(wdroot, re.sub(r"[^A-Za-z0-9_.-]", "_", name))
    os.makedirs(wd, exist_ok=True)
    res = dict(name=name, status="ok", notes=[], violations=[], covers=[], unreached=[], queries=0, steps=0, vccs=0,
               clauses=0, variables=0, solver_s=0.0, traces_ok=0, functions=[], bound=h.get("bound", ""), wall=0.0, props=0)
    t0 = time.time()
    gb = os.path.join(wd, "h.gb")
    root = None
    if h.get("cf"):
        with _locks_guard:
            root = cf_tree(os.path.dirname(wd))
    gc = ["goto-cc", "-DVP_CBMC"] + (["-DVP_CFSTRUCT"] if root else [])
    try:
        objs = [compiled("goto", gc, src, common_flags(h, root, for_src=True), wdroot) for src in sources(h, root)]
    except Verdict as e:
        res["status"] = "error"
        res["notes"].append(str(e))
        return res
    rc, out, _, to = run(gc + common_flags(h, root) + [os.path.join(HDIR, h["file"])] + objs + ["--function", "vp_main", "-o", gb], 120)
    if rc != 0 or not os.path.exists(gb):
        res["status"] = "error"
        res["notes"].append("goto-cc failed: " + out.decode(errors="replace")[-1500:])
        return res
    unwind = h.get("unwind", 8)
    attempts = [unwind, h.get("unwind2", 2 * unwind)]
    for ai, unw in enumerate(attempts):
        r = decide(prop, h, tier, wd, gb, unw, res)
        if r != "deepen":
            break
    else:
        if res["status"] == "ok":
            res["status"] = "inconclusive"
            res["notes"].append("unwinding bound %d insufficient" % attempts[-1])
    res["wall"] = time.time() - t0
    return res


def decide(prop, h, tier, wd, gb, unw, res):
    name = h["name"]
    jf = os.path.join(wd, "out.json")
    cmd = ["cbmc", gb, "--json-ui", "--trace", "--verbosity", "8", "--no-standard-checks", "--no-malloc-may-fail",
           "--drop-unused-functions", "--object-bits", "12", "--unwind", str(unw), "--unwinding-assertions"]
    for u in h.get("unwindset", []):
        cmd += ["--unwindset", u]
    cmd += h.get("checks", DEFAULT_CHECKS) + h.get("flags", [])
    if h.get("solver"):
        cmd += h["solver"]
    tmo = int(os.environ.get("VP_TMO") or 0) or h.get("timeout", 240 if tier == "quick" else 700)
    with open(jf, "wb") as f:
        rc, err, dt, to = run(cmd, tmo, mem_gb=h.get("mem_gb", 14), stdout=f)
    res["queries"] += 1
    if to:
        res["status"] = "inconclusive"
        res["notes"].append("solver limit of %ds reached" % tmo)
        return "done"
    try:
        data = json.load(open(jf))
    except Exception as e:
        res["status"] = "error"
        res["notes"].append("cbmc gave no parsable result (rc=%s): %s %s" % (rc, e, open(jf, errors="replace").read()[-150:]))
        return "done"
    os.unlink(jf)
    msgs = "\n".join(m["messageText"] for m in data if isinstance(m, dict) and "messageText" in m)
    res["steps"] += stat_int(r"size of program expression: (\d+) steps", msgs)
    res["vccs"] += stat_int(r"Generated (\d+) VCC", msgs)
    m = re.findall(r"(\d+) variables, (\d+) clauses", msgs)
    if m:
        res["variables"] += max(int(a) for a, _ in m)
        res["clauses"] += max(int(b) for _, b in m)
    res["solver_s"] += sum(float(x) for x in re.findall(r"Runtime Solver: ([0-9.e+-]+)s", msgs))
    res["queries"] += max(0, len(re.findall(r"Runtime Solver", msgs)) - 1)
    props = None
    for mm in data:
        if isinstance(mm, dict) and "result" in mm:
            props = mm["result"]
    if props is None:
        res["status"] = "error"
        errs = [m["messageText"] for m in data if isinstance(m, dict) and m.get("messageType") in ("ERROR", "WARNING")]
        res["notes"].append("cbmc reported no result: " + " | ".join(errs)[-600:])
        return "done"
    fns = set()
    for p in props:
        sl = p.get("sourceLocation", {})
        if "/src/" in sl.get("file", "") and sl.get("function"):
            fns.add(sl["function"])
    res["functions"] = sorted(set(res["functions"]) | fns)
    res["props"] += len(props)
    fails = [p for p in props if p.get("status") == "FAILURE"]
    nobody = sorted({p["description"] for p in fails if "no-body" in p.get("property", "")})
    if nobody:
        res["notes"].append("unmodelled: " + "; ".join(nobody)[:400])
    covers = [p for p in props if p.get("description", "").startswith("VP_COVER")]
    cand = [p for p in fails if p not in covers and "no-body" not in p.get("property", "")]
    unwinds = [p for p in cand if "unwind" in p.get("property", "") or "recursion" in p.get("property", "")]
    cand = [p for p in cand if p not in unwinds]
    model = [p for p in cand if p.get("description", "").startswith("VP: model:")]
    cand = [p for p in cand if p not in model]
    if model and not cand:
        res["status"] = "inconclusive"
        res["notes"].append("outside the model: " + "; ".join(p["description"] for p in model)[:300])
        return "done"
    prio = lambda p: 0 if p.get("description", "").startswith("VP:") else 1
    cand.sort(key=prio)
    unrepro = []
    seen = set()
    for p in cand + unwinds:
        is_unw = p in unwinds
        key = p.get("description")
        if key in seen and len(seen) > 3:
            continue
        seen.add(key)
        if len(unrepro) > 8:
            break
        vals = nd_values(p.get("trace", []))
        tf = os.path.join(wd, "trace_%s.txt" % hashlib.md5(p["property"].encode()).hexdigest()[:8])
        write_trace(tf, vals)
        try:
            exe = build_replay(h, wd)
        except Verdict as e:
            res["status"] = "error"
            res["notes"].append(str(e))
            return "done"
        ok, tag, text = replay(h, exe, tf)
        if ok and nobody and "pc 0x000000000000" in text:
            ok, tag = False, "calls a function that is not modelled"
        if VERBOSE:
            dump_trace(p, "/tmp/vpcex_%s_%s.txt" % (name, p["property"]))
            log("   ", name, "cex", p["property"], p["description"], "at", p.get("sourceLocation", {}).get("file"), p.get("sourceLocation", {}).get("line"), "->", ok, tag)
        if ok:
            os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
            rp = os.path.join(OUT, "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", name)))
            json.dump(dict(property=prop, harness=name, solver_property=p["property"], description=p["description"],
                           location=p.get("sourceLocation"), reproduced=tag, output=text, values=[(k, "%x" % v) for k, v, _ in vals],
                           how="python3 %s/vprun.py --replay <this file>" % VERIF), open(rp, "w"), indent=1)
            res["violations"].append(dict(desc=p["description"], tag=tag, replay=rp, loc=p.get("sourceLocation", {})))
            break
        if is_unw:
            res["notes"].append("unwinding assertion %s not a hang on replay (%s)" % (p["property"], tag))
            if res["violations"]:
                break
            return "deepen"
        unrepro.append("%s: %s @%s:%s [%s]" % (p["property"], p["description"], p.get("sourceLocation", {}).get("file"), p.get("sourceLocation", {}).get("line"), tag))
    if res["violations"]:
        res["status"] = "violation"
        return "done"
    if unrepro:
        res["status"] = "inconclusive"
        res["notes"].append("counterexample not reproduced natively: " + " || ".join(unrepro)[:1500])
        return "done"
    # reachability witnesses
    exe = None
    for c in covers:
        if c.get("status") != "FAILURE":
            res["unreached"].append(c["description"])
            continue
        res["covers"].append(c["description"])
        if h.get("noreplay"):
            continue
        try:
            exe = exe or build_replay(h, wd)
        except Verdict as e:
            res["notes"].append(str(e))
            break
        tf = os.path.join(wd, "cover.txt")
        vals = nd_values(c.get("trace", []))
        write_trace(tf, vals)
        env = dict(os.environ, VP_TRACE=tf, VP_FILL="00", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0")
        rc, out, _, to = run([exe], 20, env=env)
        text = out.decode(errors="replace")
        if c["description"] in text and not REPRO.search(text):
            res["traces_ok"] += 1
            res.setdefault("sample", dict(harness=name, witness=c["description"], values=["%s=%x" % (k, v) for k, v, _ in vals[:24]]))
        else:
            res["notes"].append("witness %s did not replay: %s" % (c["description"], text[-300:]))
    if not covers:
        res["notes"].append("no reachability witness")
    if res["unreached"]:
        res["status"] = "inconclusive"
        res["notes"].append("unreached witnesses (vacuous?): " + ", ".join(res["unreached"]))
    return "done"


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("known", [])


def main():
    global VERBOSE
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    VERBOSE = a.v
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.setup:
        for t in ("goto-cc", "cbmc", "gcc"):
            if not shutil.which(t):
                print("missing tool", t)
                return 2
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        print("ready")
        return 0
    if a.replay:
        return do_replay(a.replay)
    prop = a.prop
    hs = [h for h in specs.HARNESSES if h["prop"] == prop and (a.tier == "thorough" or h.get("tier", "quick") == "quick")
          and not (a.tier == "thorough" and h.get("quick_only"))]
    if a.only:
        hs = [h for h in hs if a.only in h["name"]]
    if not hs:
        print("no harness for", prop)
        return 2
    t0 = time.time()
    wd = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    results = []
    stopped = [False]
    try:
        with cf.ThreadPoolExecutor(a.j) as ex:
            def one(h):
                if stopped[0]:
                    return None
                r = check_harness(prop, h, a.tier, wd)
                shutil.rmtree(os.path.join(wd, re.sub(r"[^A-Za-z0-9_.-]", "_", h["name"])), ignore_errors=True)
                log("%-40s %-12s %6.1fs solver %.1fs vccs %d steps %d covers %d/%d %s" % (h["name"], r["status"], r["wall"], r["solver_s"], r["vccs"], r["steps"], r["traces_ok"], len(r["covers"]), "; ".join(r["notes"])[:500]))
                for v in r["violations"]:
                    log("    VIOLATION:", v["desc"], v["tag"], v["loc"].get("file"), v["loc"].get("line"))
                return r
            hs.sort(key=lambda h: -h.get("cost", 1))
            for r in ex.map(one, hs):
                if r:
                    results.append(r)
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    known = known_findings()
    viol, kf = [], []
    for r in results:
        for v in r["violations"]:
            hit = None
            for k in known:
                if k["property"] == prop and k["harness"] == r["name"] and k["match"] in (v["desc"] + " " + v["tag"]):
                    hit = k
            if hit:
                kf.append((hit, v))
            else:
                viol.append((r, v))
    tot = lambda k: sum(r[k] for r in results)
    fns = sorted(set(f for r in results for f in r["functions"]))
    cov = dict(states=int(tot("steps")), transitions=int(tot("vccs")), traces_validated_against_impl=int(tot("traces_ok")),
               samples=[r["sample"] for r in results if "sample" in r][:6] or [dict(harness=r["name"], status=r["status"]) for r in results[:3]],
               meaning="states = SSA steps of the symbolic executions; transitions = verification conditions generated; "
                       "traces_validated_against_impl = solver witnesses replayed natively on the real code",
               functions_encoded=fns, harnesses=[dict(name=r["name"], status=r["status"], bound=r["bound"], solver_s=round(r["solver_s"], 3),
                                                      wall_s=round(r["wall"], 2), vccs=r["vccs"], checks=r["props"], clauses=r["clauses"], witnesses=r["covers"], notes=r["notes"]) for r in results],
               queries_discharged=int(tot("queries")), solver_time_s=round(tot("solver_s"), 3), clauses=int(tot("clauses")), variables=int(tot("variables")),
               solver_checks=int(tot("props")))
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED") or 0), level="model_checking", coverage=cov,
              assumptions=specs.ASSUMPTIONS.get(prop, []) + specs.COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, v in kf:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for r, v in viol:
        print("%s: %s -> %s" % (r["name"], v["desc"], v["tag"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if viol:
        return 1
    bad = [r for r in results if r["status"] in ("inconclusive", "error")]
    for r in bad:
        print("NO-VERDICT %s %s: %s" % (prop, r["name"], "; ".join(r["notes"])))
    if bad:
        return 2
    print("%s held: %d harnesses, %d solver checks, %.1fs solver, %.1fs wall" % (prop, len(results), tot("props"), tot("solver_s"), time.time() - t0))
    return 0


def do_replay(path):
    d = json.load(open(path))
    h = [x for x in specs.HARNESSES if x["name"] == d["harness"] and x["prop"] == d["property"]][0]
    wd = tempfile.mkdtemp(prefix="vp-replay-")
    try:
        os.mkdir(os.path.join(wd, "h"))
        exe = build_replay(h, os.path.join(wd, "h"))
        tf = os.path.join(wd, "t.txt")
        open(tf, "w").write("".join("%s %s\n" % (k, v) for k, v in d["values"]))
        ok, tag, text = replay(h, exe, tf)
        print(text)
        print("reproduced:", ok, tag)
        return 1 if ok else 0
    finally:
        shutil.rmtree(wd, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
