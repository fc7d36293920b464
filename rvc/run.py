"""Driver: compile a harness against /repo's working tree, generate obligations,
discharge them, run the native search on failure, write evidence."""
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import z3
from . import ir, vcg, models
from .vcg import Ctx, State, Unsupported, Obligation, isz

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ROFL_REPO", "/repo")
CLANG = next((c for c in ("/usr/lib/llvm-18/bin/clang++", "/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")
OPT = next((c for c in ("/usr/lib/llvm-18/bin/opt", "/usr/bin/opt-18", "/usr/bin/opt") if os.path.exists(c)), "opt")
CXXFILT = next((c for c in ("/usr/bin/c++filt", "/usr/lib/llvm-18/bin/llvm-cxxfilt") if os.path.exists(c)), "c++filt")
NJOBS = int(os.environ.get("RVC_JOBS", "8"))

INCLUDES = ["-I%s" % REPO, "-I%s/common/include" % REPO, "-I%s/geometry/include" % REPO, "-I/usr/include/eigen3"]


class BuildError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="rvc_")


def compile_ir(src, outdir, defs=(), passes="sroa"):
    """harness TU (which includes the real sources) -> Module, demangle map"""
    ll0 = os.path.join(outdir, os.path.basename(src) + ".0.ll")
    ll = os.path.join(outdir, os.path.basename(src) + ".ll")
    cmd = [CLANG, "-std=c++17", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
           "-ffp-contract=off", "-DEIGEN_DONT_VECTORIZE", "-DEIGEN_NO_DEBUG", "-DRVC_IR", "-fno-access-control",
           "-DREPO=%s" % REPO] + list(defs) + INCLUDES + ["-S", "-emit-llvm", src, "-o", ll0]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("clang: " + p.stderr[:3000])
    if passes:
        p = subprocess.run([OPT, "-passes=" + passes, "-S", ll0, "-o", ll], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("opt: " + p.stderr[:2000])
    else:
        ll = ll0
    mod = ir.Module(open(ll).read())
    names = list(mod._lazy) + list(mod.decls)
    raw = [n[1:].strip('"') for n in names]
    out = subprocess.run([CXXFILT], input="\n".join(raw) + "\n", capture_output=True, text=True).stdout.split("\n")
    dem = dict(zip(names, out))
    return mod, dem


def find(mod, dem, pattern, required=True, all=False):
    rx = re.compile(pattern)
    r = [n for n in mod._lazy if rx.search(dem.get(n, n))]
    if all:
        return r
    if not r:
        if required:
            raise Unsupported("no function matches " + pattern)
        return None
    if len(r) > 1:
        raise Unsupported("ambiguous function %s: %s" % (pattern, [dem[x] for x in r][:4]))
    return r[0]


def new_ctx(mod, dem, mode="int", fp="real"):
    c = Ctx(mod, mode, fp, dem)
    c.models = models.std_models()
    c.allow_abort = None
    return c


# ------------------------------------------------------------------ discharge
def smt2_of(ob, facts):
    s = z3.Solver()
    for f in facts:
        s.add(f)
    for f in ob.pc:
        s.add(f)
    s.add(z3.Not(ob.goal))
    return s.to_smt2()


def solve_one(ob, facts, inputs, budget):
    """returns (status, backend, seconds, info)"""
    t0 = time.time()
    last = "unknown"
    # 1: z3 in process
    plans = [("z3", {}, min(budget, 8)), ("cvc5", {}, min(budget, 20)),
             ("z3", {"smt.random_seed": 7, "smt.arith.solver": 2}, min(budget, 20)),
             ("z3", {"smt.mbqi": False, "smt.random_seed": 3}, min(budget, 20)),
             ("z3", {"smt.random_seed": 11}, budget)]
    for be, opts, tl in plans:
        if be == "z3":
            s = z3.Solver()
            s.set("timeout", int(tl * 1000))
            for k, v in opts.items():
                try:
                    s.set(k, v)
                except z3.Z3Exception:
                    pass
            for f in facts:
                s.add(f)
            for f in ob.pc:
                s.add(f)
            s.add(z3.Not(ob.goal))
            try:
                r = s.check()
            except z3.Z3Exception as e:
                r = z3.unknown
            if r == z3.unsat:
                return ("proved", "z3 " + z3.get_version_string(), time.time() - t0, "")
            if r == z3.sat:
                m = s.model()
                info = {}
                for nm, e in inputs:
                    try:
                        info[nm] = str(m.eval(e, model_completion=True))[:200]
                    except z3.Z3Exception:
                        pass
                return ("refuted", "z3 " + z3.get_version_string(), time.time() - t0, json.dumps(info))
            try:
                last = s.reason_unknown()
            except Exception:
                last = "unknown"
        else:
            try:
                txt = smt2_of(ob, facts)
                txt = "(set-logic ALL)\n" + re.sub(r"\(set-info[^)]*\)", "", txt)
                p = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=%d" % int(tl * 1000), "--nl-ext-tplanes"], input=txt,
                                   capture_output=True, text=True, timeout=tl + 10)
                o = p.stdout.strip().split("\n")[0] if p.stdout else ""
                if o == "unsat":
                    return ("proved", "cvc5 1.1.2", time.time() - t0, "")
                if o == "sat":
                    last = "cvc5: sat"
            except (subprocess.TimeoutExpired, OSError):
                pass
        if time.time() - t0 > budget * 2.5:
            break
    return ("unknown", "z3+cvc5", time.time() - t0, str(last))


def discharge(groups, budget=30, deadline=None, njobs=NJOBS):
    """groups: list of (label, ctx).  Fork NJOBS workers over all obligations."""
    items = []
    for label, ctx in groups:
        for ob in ctx.obls:
            items.append((label, ctx, ob))
    n = len(items)
    if n == 0:
        return []
    res = [None] * n
    nj = min(njobs, n)
    rfd, wfd = os.pipe()
    # dynamic work distribution through a pipe of indices
    qr, qw = os.pipe()
    os.write(qw, b"".join(i.to_bytes(4, "little") for i in range(min(n, 15000))))
    os.close(qw)
    pids = []
    for j in range(nj):
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rfd)
                while True:
                    b = os.read(qr, 4)
                    if len(b) < 4:
                        break
                    i = int.from_bytes(b, "little")
                    label, ctx, ob = items[i]
                    left = budget
                    opc, ogoal = ctx.facts + ob.pc, ob.goal
                    ob.pc, ob.goal = ctx.prep(opc, ogoal)
                    quant = any(vcg.has_quant(f) for f in opc)
                    if deadline and time.time() > deadline:
                        r = ("unknown", "none", 0.0, "check deadline reached")
                    else:
                        r = solve_one(ob, [], ctx.inputs, left)
                        if r[0] != "proved" and quant:
                            ob.pc, ob.goal = opc, ogoal
                            r2 = solve_one(ob, [], ctx.inputs, min(left, 10))
                            if r2[0] == "proved":
                                r = r2
                    msg = json.dumps([i] + list(r)) + "\n"
                    if len(msg) > 4000:
                        msg = json.dumps([i, r[0], r[1], r[2], r[3][:1500]]) + "\n"
                    os.write(wfd, msg.encode())
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        pids.append(pid)
    os.close(wfd)
    os.close(qr)
    buf = b""
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        buf += b
        while b"\n" in buf:
            l, buf = buf.split(b"\n", 1)
            x = json.loads(l)
            res[x[0]] = x[1:]
    os.close(rfd)
    for p in pids:
        os.waitpid(p, 0)
    out = []
    for i, (label, ctx, ob) in enumerate(items):
        r = res[i] or ["unknown", "none", 0.0, "worker died"]
        ob.result = r
        out.append((label, ob, r))
    return out


# ------------------------------------------------------------------ a check
class Check:
    """subclass-like object used by checks/Cxx.py"""

    def __init__(self, pid, title):
        self.pid = pid
        self.title = title
        self.deep = set()        # labels of the tasks left to the thorough tier
        self.tasks = []          # (label, function(env) -> list of ctx)
        self.assumptions = []
        self.functions = []
        self.native = None       # native driver source
        self.native_args = []
        self.budget = 30
        self.trusted = []
        self.bounded = []
        self.rounding = 0        # seconds of native search in the quick tier too (effects the proof idealises away)

    def task(self, label):
        def deco(fn):
            self.tasks.append((label, fn))
            return fn
        return deco


def run_one(check, label, fn, env, tier, limit, nj):
    """generate and discharge the obligations of one task; returns a plain report"""
    tt = time.time()
    rep = {"label": label, "break": None, "obls": [], "folded": 0, "contracts": [], "inlined": [], "assumed": [], "loops": [],
           "gen": 0.0, "total": 0.0}
    cs = []
    try:
        r = fn(env)
        cs = [] if r is None else r if isinstance(r, list) else [r]
        for c in cs:
            if not c.obls and c.gcount == 0:
                rep["break"] = "no obligations generated (vacuous)"
    except (Unsupported, ir.IRError, BuildError) as e:
        rep["break"] = "%s: %s" % (type(e).__name__, str(e)[:800])
    except z3.Z3Exception as e:
        rep["break"] = "z3: %s" % str(e)[:300]
    except (KeyError, IndexError, AttributeError, TypeError, ValueError, RecursionError, AssertionError) as e:
        rep["break"] = "engine: %s %s" % (type(e).__name__, traceback.format_exc()[-700:])
    rep["gen"] = time.time() - tt
    for c in cs:
        rs = discharge([(label, c)], check.budget if tier == "quick" else check.budget * 4, limit, nj)
        for l, ob, r in rs:
            g = ""
            if r[0] != "proved":
                try:
                    g = str(ob.goal)[:1500]
                except Exception:
                    pass
            rep["obls"].append({"name": ob.name, "where": str(ob.where), "r": list(r), "goal": g})
        rep["folded"] += c.gcount
        rep["contracts"] += sorted(c.used_contracts)
        rep["inlined"] += sorted(k for k in c.inlined if "rofl" in k)
        rep["assumed"] += sorted(c.assumed)
        rep["loops"] += [str(x) for x in getattr(c, "loop_log", [])]
    rep["total"] = time.time() - tt
    return rep


def run_tasks(check, env, tier, limit, only):
    tasks = [(l, f) for l, f in check.tasks if not (only and not re.search(only, l)) and (tier == "thorough" or l not in check.deep)]
    reports = [None] * len(tasks)
    if not tasks:
        return []
    # compile and parse the harness once, before forking
    for h in getattr(check, "harness", []):
        try:
            env.module(*h) if isinstance(h, tuple) else env.module(h)
        except (BuildError, ir.IRError):
            pass
    first = 0
    if not getattr(check, "harness", []):
        reports[0] = run_one(check, tasks[0][0], tasks[0][1], env, tier, limit, NJOBS)
        first = 1
    todo = list(range(first, len(tasks)))
    running = {}
    sub = max(1, NJOBS // max(1, min(NJOBS, len(todo)))) if todo else 1
    sub = max(sub, 2)
    while todo or running:
        while todo and len(running) < NJOBS:
            i = todo.pop(0)
            fn = os.path.join(env.tmp, "rep%d.json" % i)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    rep = run_one(check, tasks[i][0], tasks[i][1], env, tier, limit, sub)
                    with open(fn, "w") as f:
                        json.dump(rep, f)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            running[pid] = (i, fn)
        pid, _ = os.wait()
        if pid in running:
            i, fn = running.pop(pid)
            try:
                reports[i] = json.load(open(fn))
            except (OSError, ValueError):
                reports[i] = {"label": tasks[i][0], "break": "task process died", "obls": [], "folded": 0, "contracts": [],
                              "inlined": [], "assumed": [], "loops": [], "gen": 0.0, "total": 0.0}
    return reports


class Env:
    """per-check environment handed to the tasks"""

    def __init__(self, tmp, tier, seed):
        self.tmp, self.tier, self.seed = tmp, tier, seed
        self.cache = {}

    def module(self, harness, defs=(), passes="sroa"):
        key = (harness, tuple(defs), passes)
        if key not in self.cache:
            self.cache[key] = compile_ir(os.path.join(VERIF, "harness", harness), self.tmp, defs, passes)
        return self.cache[key]


def build_native(src, tmp, extra=()):
    exe = os.path.join(tmp, "native_" + os.path.basename(src).replace(".cpp", ""))
    cmd = ["g++", "-std=c++17", "-O1", "-w", "-DREPO=%s" % REPO, "-fno-access-control", "-DEIGEN_NO_DEBUG",
           "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS", "-g1"] + list(extra) + \
          INCLUDES + [os.path.join(VERIF, "native", src), "-o", exe, "-lboost_filesystem", "-lboost_system", "-lpthread"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError("g++: " + p.stderr[:3000])
    return exe


def run_native(exe, tmp, seed, seconds, hints):
    """native search: exit 1 and a line 'FAIL <input>' when the real code breaks the property"""
    hf = os.path.join(tmp, "hints.txt")
    with open(hf, "w") as f:
        f.write(hints)
    try:
        p = subprocess.run([exe, "search", str(seed), str(seconds), hf], capture_output=True, text=True,
                           timeout=seconds * 3 + 60, cwd=tmp, errors="replace",
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0"))
    except subprocess.TimeoutExpired:
        return ("hang", "native search did not terminate (non-terminating call on a valid input)")
    for l in p.stdout.split("\n"):
        if l.startswith("FAIL"):
            return ("fail", l)
    if p.returncode < 0:
        last = [l for l in p.stdout.split("\n") if l.startswith("TRY")]
        return ("fail", "FAIL crashed with signal %d%s" % (-p.returncode, " at " + last[-1] if last else ""))
    if p.returncode != 0:
        return ("fail", "FAIL abnormal exit %d %s" % (p.returncode, p.stdout[-300:]))
    return ("ok", p.stdout[-400:])


def main(check):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    for a in sys.argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    tmp = scratch()
    try:
        rc = _main(check, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(rc)


def retry(check, env, tier, labels, deadline, factor):
    """the given tasks once more with larger solver limits; {} if that takes too long"""
    fn = os.path.join(env.tmp, "retry.json")
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            vcg.SCALE = vcg.SCALE * factor
            check.budget = check.budget * factor
            reps = run_tasks(check, env, tier, deadline - 10, "^(%s)$" % "|".join(re.escape(l) for l in labels))
            with open(fn + ".part", "w") as f:
                json.dump(reps, f)
            os.rename(fn + ".part", fn)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    while time.time() < deadline:
        if os.waitpid(pid, os.WNOHANG)[0]:
            pid = None
            break
        time.sleep(0.1)
    if pid:
        try:
            os.killpg(pid, 9)
        except OSError:
            pass
        os.waitpid(pid, 0)
    try:
        return {r["label"]: r for r in json.load(open(fn))}
    except (OSError, ValueError):
        return {}


def _main(check, tier, seed, tmp, t0):
    env = Env(tmp, tier, seed)
    limit = t0 + (420 if tier == "quick" else 1500)
    only = os.environ.get("RVC_ONLY")
    reports = run_tasks(check, env, tier, limit, only)
    failed = [r["label"] for r in reports if any(ob["r"][0] != "proved" for ob in r["obls"])]
    early = None
    if failed and not os.environ.get("RVC_NORETRY"):
        # a slow or loaded machine may have cost an invariant: look for a failing input first, then once more with larger limits
        hints = "\n".join(ob["r"][3] for r in reports for ob in r["obls"] if ob["r"][0] == "refuted")
        try:
            early = run_native(build_native(check.native, tmp, check.native_args), tmp, seed, 120 if tier != "quick" else 20, hints) if check.native else None
        except BuildError:
            early = None
        if not (early and early[0] in ("fail", "hang")):
            again = retry(check, env, tier, failed, t0 + (780 if tier == "quick" else 3000), 4)
            reports = [again[r["label"]] if r["label"] in again and not again[r["label"]]["break"] else r for r in reports]
    tg = sum(r["gen"] for r in reports)
    res = [(r["label"], ob, ob["r"]) for r in reports for ob in r["obls"]]
    breaks = [(r["label"], r["break"]) for r in reports if r["break"]]
    folded = sum(r["folded"] for r in reports)
    proved = [r for r in res if r[2][0] == "proved"]
    bad = [r for r in res if r[2][0] != "proved"]
    backends = {}
    stime = 0.0
    for _, ob, r in res:
        stime += r[2]
        if r[0] == "proved":
            backends[r[1]] = backends.get(r[1], 0) + 1
    if os.environ.get("RVC_V"):
        for r in reports:
            print("# %-50s gen %.1fs total %.1fs obls %d" % (r["label"], r["gen"], r["total"], len(r["obls"])))
        for l, ob, r in sorted(res, key=lambda x: -x[2][2])[:12]:
            print("#   %6.2fs %-8s %s :: %s" % (r[2], r[0], l, ob["name"]))
        for l, ob, r in bad:
            print("#   BAD %s :: %s [%s] %s %s" % (l, ob["name"], ob["where"][:80], r[0], r[3][:300]))
        for l, b in breaks:
            print("#   BREAK %s: %s" % (l, b))
        for r in reports:
            for x in r["loops"]:
                print("#   loop", r["label"], x[:int(os.environ.get("RVC_LL", "300"))])
    contracts = sorted(set(k for r in reports for k in r["contracts"]))
    inl = sorted(set(k for r in reports for k in r["inlined"]))
    assumed = sorted(set(k for r in reports for k in r["assumed"]))
    violations = []
    rc = 0
    native_info = None
    status = "proved"
    if bad or breaks or (tier == "thorough" and check.native) or check.rounding:
        secs = 120 if tier != "quick" else 20 if bad or breaks else check.rounding
        hints = "\n".join(r[3] for _, _, r in bad if r[0] == "refuted")
        try:
            if early:
                native_info = early
            elif check.native:
                exe = build_native(check.native, tmp, check.native_args)
                native_info = run_native(exe, tmp, seed, secs, hints)
            else:
                native_info = ("none", "no native driver")
        except BuildError as e:
            native_info = ("build", str(e)[:1500])
    if bad or breaks or (native_info and native_info[0] in ("fail", "hang")):
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", "replay", "%s.txt" % check.pid)
        with open(rp, "w") as f:
            f.write("property %s: %s\n" % (check.pid, check.title))
            for l, ob, r in bad:
                f.write("\nFAILED OBLIGATION %s :: %s\n  function: %s\n  solver: %s %s\n  reason/model: %s\n" % (
                    l, ob["name"], ob["where"], r[1], r[0], r[3]))
                f.write("  goal: %s\n" % ob["goal"])
            for l, b in breaks:
                f.write("\nNOT EXTRACTED %s: %s\n" % (l, b))
            if native_info:
                f.write("\nNATIVE REPLAY/SEARCH (real code, g++): %s\n%s\n" % native_info)
                f.write("rebuild: g++ -std=c++17 -O1 -fno-access-control -DREPO=%s %s %s/native/%s ; run: ./a.out search %d 20 /dev/null\n" % (
                    REPO, " ".join(INCLUDES), VERIF, check.native, seed))
        if native_info and native_info[0] in ("fail", "hang"):
            print("VIOLATION property=%s replay=%s" % (check.pid, rp))
            print("  " + native_info[1][:300])
            for l, ob, r in bad[:5]:
                print("  failed obligation: %s :: %s" % (l, ob["name"]))
            violations.append({"kind": "replayed", "input": native_info[1][:500], "obligations": [ob["name"] for _, ob, _ in bad][:20]})
            rc = 1
            status = "violated"
        elif bad:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (check.pid, rp))
            for l, ob, r in bad[:5]:
                print("  failed obligation: %s :: %s (%s)" % (l, ob["name"], r[0]))
            violations.append({"kind": "obligation", "obligations": [ob["name"] for _, ob, _ in bad][:20]})
            rc = 1
            status = "violated"
        else:
            status = "bounded"
            print("NOTE property=%s: %d part(s) outside the verifier's reach on this tree; bounded native check stands in: %s" % (
                check.pid, len(breaks), native_info[0] if native_info else "none"))
            for l, b in breaks:
                print("  not extracted: %s: %s" % (l, b.split("\n")[0][:200]))
            if native_info and native_info[0] == "build":
                print("  native driver does not build against this tree: " + native_info[1][:300])
    kf = known_findings(check.pid)
    for l in kf:
        print("KNOWN-FINDING: property=%s %s" % (check.pid, l))
    total = len(res) + folded
    ndis = len(proved) + folded
    ev = {
        "property": check.pid, "tier": tier, "seed": seed,
        "level": "proof" if status != "bounded" else "other",
        "coverage": {
            "obligations": total, "discharged": ndis,
            "checker_cmd": "python3-vt /verif/check.py %s %s" % (check.pid, tier),
            "trusted_base": check.trusted + [
                "clang 18 front end and opt -passes=sroa (C++ to LLVM IR)", "rvc VC generator (/verif/rvc)",
                "z3 %s (python) / cvc5 1.1.2" % z3.get_version_string(), "assumed library contracts in /verif/rvc/models.py"],
            "explanation": "obligations generated from the LLVM IR of /repo's current sources and discharged by SMT"
            if status != "bounded" else "part of the code left the verifier's reach on this tree: a bounded native check stands in for it (not counted as proved)",
            "status": status,
            "tasks": [r["label"] for r in reports if r["obls"] or r["folded"]],
            "not_extracted": [{"part": l, "why": b[:400]} for l, b in breaks],
            "discharged_by": dict(backends, **({"constant folding / interval+entailment at generation": folded} if folded else {})),
            "solver_seconds": round(stime, 2),
            "generation_seconds": round(tg, 2),
            "functions_under_contract": check.functions,
            "callee_contracts_used": contracts,
            "repo_functions_executed_inline": inl[:60],
            "native": list(native_info) if native_info else None,
            "bounded": check.bounded,
            "vacuity": "each task checks satisfiability of its precondition and a non-zero obligation count",
        },
        "assumptions": check.assumptions + assumed,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if violations:
        ev["coverage"]["violation_details"] = violations
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", check.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if rc == 0:
        print("OK property=%s status=%s obligations=%d discharged=%d wall=%.1fs" % (check.pid, status, total, ndis, time.time() - t0))
    return rc


def known_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=%s (.*)$" % pid, l.strip())
            if m:
                out.append(m.group(1))
    return out
