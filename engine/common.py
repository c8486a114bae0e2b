"""Shared driver: compile witnesses against /repo's working tree, export IR, run
analyses (in parallel), collect obligations, write evidence, print verdict."""
import os, sys, json, subprocess, time, hashlib, multiprocessing, traceback, signal

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++-18"
GXX = "/usr/bin/g++"
sys.path.insert(0, HERE)
import lin
import interp
from lin import *
from interp import *

sys.setrecursionlimit(20000)


def ensure_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "irexport.cpp")
    exe = os.path.join(BUILD, "irexport")
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    tmp = exe + ".%d" % os.getpid()
    subprocess.check_call([CXX, "-std=c++17", "-O1", "-I/usr/lib/llvm-18/include", "-D__STDC_CONSTANT_MACROS",
                           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-fno-exceptions", "-fno-rtti", src, "-o", tmp,
                           "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    os.replace(tmp, exe)
    return exe


BASEFLAGS = ["-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-exceptions",
             "-DC4_NO_DEBUG_BREAK", "-w"]


class CompileError(Exception):
    pass


def compile_ir(pid, tag, src, flags=(), std=None, debug=False, sources=(), noinline=False, keep=()):
    """returns a Module for the witness text (plus optional repo .cpp sources #included)"""
    exe = ensure_tool()
    d = os.path.join(BUILD, pid)
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, tag)
    txt = src
    for x in sources:
        txt += '\n#include "%s"\n' % os.path.join(REPO, x)
    with open(base + ".cpp", "w") as f:
        f.write(txt)
    fl = list(BASEFLAGS)
    if std:
        fl[0] = "-std=" + std
    if not debug:
        fl.append("-DNDEBUG")
    cmd = [CXX] + fl + list(flags) + ["-I" + os.path.join(REPO, "src"), "-emit-llvm", "-c", base + ".cpp", "-o", base + ".bc"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[-3000:])
    cmd = [exe, base + ".bc", base + ".json"]
    if noinline:
        cmd.append("--no-inline")
    for k in keep:
        cmd.append("--keep=" + k)
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CompileError("irexport: " + r.stderr[-3000:])
    m = Module(base + ".json")
    for e in (".json", ".bc"):
        os.unlink(base + e)
    return m


class Res:
    """result of one task (picklable)"""

    def __init__(self):
        self.ok = {}
        self.viol = []     # (key, what, where, detail)
        self.und = []      # (key, what)
        self.stats = {}

    def good(self, cat, n=1):
        self.ok[cat] = self.ok.get(cat, 0) + n

    def bad(self, key, what, where="", detail=""):
        if getattr(detail, "dead", False):
            return self.good("unreachable")
        self.viol.append((key, what, where, detail))

    def undecided(self, key, what):
        self.und.append((key, what))

    def stat(self, k, n):
        self.stats[k] = self.stats.get(k, 0) + n

    def merge(self, o):
        for k, n in o.ok.items():
            self.good(k, n)
        self.viol += o.viol
        self.und += o.und
        for k, n in o.stats.items():
            self.stat(k, n)


_TASKS = []
TASK_LIMIT = 40         # processor seconds of one task
DEADLINE = 1e18         # wall clock: tasks not finished by then are undecided
QUICK_SECONDS = 600
THOROUGH_SECONDS = 4 * 3600


def _alarm(*a):
    raise Budget("time limit")


def _runtask(i):
    name, fn = _TASKS[i]
    r = Res()
    t0 = time.time()
    left = DEADLINE - t0
    if left < 1:
        r.undecided(name, "not analysed: the time of the whole check ran out")
        r.name, r.secs = name, 0
        return r
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_REAL, left, 0.5)
    signal.setitimer(signal.ITIMER_PROF, TASK_LIMIT, 0.5)
    try:
        lin.reset_syms()
        fn(r)
    except (Unsupported, Budget) as e:
        r.undecided(name, "analysis gave up: %s" % e)
    except Split as e:
        r.undecided(name, "analysis gave up: unhandled case split")
    except CompileError as e:
        r.undecided(name, "witness does not compile: %s" % e)
    except (RecursionError, MemoryError, KeyError, AttributeError, IndexError, TypeError, AssertionError) as e:
        r.undecided(name, "analysis gave up: %s %s %s" % (type(e).__name__, e, traceback.format_exc()[-600:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    r.stat("task_ms", int(1000 * (time.time() - t0)))
    r.name = name
    r.secs = time.time() - t0
    return r


class Check:
    # set while another check's tasks are collected to be analysed with assertions enabled
    master = None

    def __init__(self, pid, level="other", technique=""):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.res = Res()
        self.tasks = []
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in sys.argv:
            self.tier = sys.argv[sys.argv.index("--tier") + 1]
        if "--thorough" in sys.argv:
            self.tier = "thorough"
        self.thorough = self.tier == "thorough"
        global TASK_LIMIT
        if self.thorough:
            TASK_LIMIT = 400
        self.verbose = "-v" in sys.argv
        self.only = None
        if "--only" in sys.argv:
            self.only = sys.argv[sys.argv.index("--only") + 1]
        self.rules = []
        self.samples = []
        self.entries = []
        self.assumptions = []
        self.tcount = 0

    def ir(self, tag, src, **kw):
        if Check.master and Check.master is not self:
            return Check.master.ir(self.pid + tag, src, **dict(kw, debug=True))
        try:
            return compile_ir(self.pid, tag, src, **kw)
        except CompileError as e:
            self.res.undecided("compile:" + tag, "witness %s does not compile against the current tree: %s" % (tag, str(e)[-800:]))
            print("NOTE witness %s does not compile:\n%s" % (tag, str(e)[-1500:]))
            return None

    def task(self, name, fn):
        if Check.master and Check.master is not self:
            return Check.master.task(self.pid + " " + name, fn)
        if self.only and self.only not in name:
            return
        self.tasks.append((name, fn))

    def run(self, limit=None):
        if Check.master and Check.master is not self:
            return
        global _TASKS, DEADLINE
        _TASKS = self.tasks
        DEADLINE = self.t0 + (THOROUGH_SECONDS if self.thorough else QUICK_SECONDS)
        n = len(self.tasks)
        jobs = min(8, os.cpu_count() or 1, max(1, n))
        if n == 0:
            return
        if jobs == 1 or "--serial" in sys.argv:
            outs = [_runtask(i) for i in range(n)]
        else:
            ctx = multiprocessing.get_context("fork")
            with ctx.Pool(jobs) as p:
                outs = p.map(_runtask, range(n), chunksize=1 if n < 400 else 4)
        for o in outs:
            self.res.merge(o)
            if self.verbose and o.secs > 2:
                print("  slow %-40s %.1fs" % (o.name, o.secs))
        self.tcount += n
        self.tasks = []

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [e for e in json.load(open(p))["findings"] if e["property"] == self.pid and e.get("status") != "fixed"]

    def finish(self, rule, explanation, assumptions=(), extra=None):
        if Check.master and Check.master is not self:
            return
        r = self.res
        known = self.known()
        seenk = set()
        viol = []
        for v in r.viol:
            hit = None
            for e in known:
                if v[0] == e["key"]:
                    hit = e
                    break
            if hit is not None:
                if hit["key"] not in seenk:
                    seenk.add(hit["key"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, hit["what"]))
            else:
                viol.append(v)
        nok = sum(r.ok.values())
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        rp = os.path.join(VERIF, "evidence", self.pid + ".replay.txt")
        if viol:
            with open(rp, "w") as f:
                f.write("property %s: %d violation(s)\nrule: %s\n" % (self.pid, len(viol), rule))
                for key, what, where, detail in viol[:200]:
                    f.write("\n[%s]\n  what : %s\n  where: %s\n  %s\n" % (key, what, where, detail))
                f.write("\nreproduce: python3 /verif/run.py %s\n" % self.pid)
        elif os.path.exists(rp):
            os.unlink(rp)
        und = len(r.und)
        wall = time.time() - self.t0
        cov = {"explanation": explanation, "obligations": nok + len(r.viol) + und, "discharged": nok,
               "undecided": und, "obligations_by_kind": r.ok, "tasks": self.tcount, "rule": rule}
        for k, n in r.stats.items():
            cov[k] = n
        if extra:
            cov.update(extra)
        cov["undecided_items"] = ["%s: %s" % (k, str(w)[:300]) for k, w in r.und[:40]]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": self.level,
              "coverage": cov, "wall_s": round(wall, 3), "violations": len(viol), "assumptions": list(assumptions) or ["none"]}
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k, w in r.und[:30]:
            print("UNDECIDED %s: %s" % (k, str(w)[:400 if not self.verbose else 3000]))
        for key, what, where, detail in viol[:int(os.environ.get("NV", 12))]:
            print("  [%s] %s\n      at %s %s" % (key, what, where, ("\n      " + detail[:500]) if detail else ""))
        print("%s: %d obligations discharged, %d undecided, %d violations, %.1fs (%s)" % (self.pid, nok, und, len(viol), wall, self.tier))
        if viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.exit(1)
        sys.exit(0)


# ------------------------------------------------------------------ analysis helpers
def havocs(e):
    return [Sym.table[y] for y in e.t if Sym.table[y].kind == "havoc"]


def tainted(st, e):
    """does the expression involve over-approximated symbols"""
    return bool(havocs(st.norm(e)))


def havoc_constrained(s):
    """does the path condition restrict an over-approximated symbol"""
    for y, b in s.st.b.items():
        sy = Sym.table[y]
        if sy.kind == "havoc" and b != (sy.lo, sy.hi):
            return True
    for c in list(s.st.cons) + list(s.st.ne):
        if any(Sym.table[y].kind == "havoc" for y in c.t):
            return True
    return False


def soft(s, *es):
    """does the state, or one of the expressions, rest on an over-approximation: then a
    failed proof is no refutation"""
    if s.loops or havoc_constrained(s):
        return True
    return any(e is not None and isinstance(e, Lin) and tainted(s.st, e) for e in es)


def _describe(s, maxn=14):
    """human readable constraints of a state"""
    out = []
    for y, b in sorted(s.st.b.items()):
        sy = Sym.table[y]
        if sy.kind in ("havoc", "def", "bit"):
            continue
        if b != (sy.lo, sy.hi):
            out.append("%s in [%d,%d]" % (sy.name, b[0], b[1]) if b[0] != b[1] else "%s=%d" % (sy.name, b[0]))
    for c in s.st.cons[:8]:
        out.append("%r>=0" % c)
    return "; ".join(out[:maxn])


class Desc(str):
    """description of a state; dead: the state denotes no execution"""
    dead = False


def describe(s, maxn=14):
    d = Desc(_describe(s, maxn))
    d.dead = feasible(s.st) is False
    return d


def where(loc):
    if not loc:
        return "?"
    parts = loc.split(" < ")
    out = []
    for p in parts[:4]:
        i = p.find("/src/c4/")
        out.append(p[i + 1:] if i >= 0 else os.path.basename(p))
    return " < ".join(out)


def fnkey(loc):
    """stable identification of a code location: innermost repo file + function"""
    if not loc:
        return "?"
    for p in loc.split(" < "):
        i = p.find("/src/c4/")
        if i >= 0:
            f = p[i + 8:]
            file = f.split(":")[0]
            fn = f[f.find("(") + 1:f.rfind(")")] if "(" in f else ""
            return "%s/%s" % (file, fn)
    return "?"


MEMKINDS = ("load", "store", "memcpy-src", "memcpy-dst", "memmove-src", "memmove-dst", "memset", "memcmp", "memchr", "store-const", "memcpy-overlap")


def loopy(o):
    """does the obligation's state rest on a loop summary (an over-approximation)"""
    if o.state.loops:
        return True
    es = list(o.state.st.cons)
    for e in (o.off, o.size):
        if e is not None:
            es.append(o.state.st.norm(e))
    return any(Sym.table[y].kind == "k" for e in es for y in e.t)


def memcheck(r, I, entry, kinds=MEMKINDS, objs=None, strict=False, soft=False):
    """turn bounds obligations into results.  soft: states that went through a loop
    summary prove safety but do not refute it (an exact, unrolled analysis of the same
    entry does)"""
    seen = set()
    for o in I.oblig:
        if o.kind not in kinds:
            continue
        if objs is not None and o.obj is not None and o.obj.name not in objs and o.obj.kind != "null":
            continue
        if o.ok:
            r.good("in-bounds " + o.kind)
            continue
        if o.ok is None:
            r.undecided(entry, "%s at %s" % (o.note, where(o.loc)))
            continue
        if (o.kind, o.loc) in seen:
            continue
        seen.add((o.kind, o.loc))
        st = o.state.st
        t = False
        if o.off is not None:
            t = tainted(st, o.off) or tainted(st, o.size)
        if soft and loopy(o):
            r.undecided(entry, "%s of %s at offset %r size %r not bounded through a loop summary at %s" % (o.kind, o.obj, st.norm(o.off) if o.off is not None else None, st.norm(o.size), where(o.loc)))
            continue
        if t and not strict:
            r.undecided(entry, "%s of %s at offset %r size %r not bounded (over-approximated) at %s" % (o.kind, o.obj, st.norm(o.off), st.norm(o.size), where(o.loc)))
            continue
        if feasible(st) is False:
            r.good("unreachable")
            continue
        if o.kind == "store-const":
            r.bad("%s:%s:%s" % (entry, o.kind, fnkey(o.loc)), "%s, which is read-only, can be modified at offset %r" % (o.obj.name, st.norm(o.off)), where(o.loc), "entry %s when %s" % (entry, describe(o.state)))
            continue
        r.bad("%s:%s:%s" % (entry, o.kind, fnkey(o.loc)),
              "%s of %s bytes at offset %r of '%s' (size %r) can be out of bounds%s" % (o.kind, st.norm(o.size), st.norm(o.off), o.obj.name, st.norm(o.obj.size) if o.obj.size is not None else None, " " + o.note if o.note else ""),
              where(o.loc), "entry %s when %s" % (entry, describe(o.state)))


def rint(I, s, v, w=64):
    """canonical unsigned return value"""
    return s.st.norm(I.U(s, I.asint(s, v, w), w))


def withsplit(I, s, f, depth=0):
    """evaluate f(state) under case splits; yields (state, value)"""
    try:
        yield s, f(s)
    except Split as sp:
        if depth > 150:
            raise Unsupported("too many splits in spec")
        for x in I.fork(s, sp.alts):
            yield from withsplit(I, x, f, depth + 1)
    except Infeasible:
        return


def readbyte(I, s, o, off):
    off = off if isinstance(off, Lin) else Lin(off)
    v = I.read(s, o, s.st.norm(off), 1, "i", 8, I.log(s, o))
    if v is UNDEF:
        return None
    return s.st.norm(I.U(s, I.asint(s, v, 8), 8))
