"""error handling: what an error does, for every setting"""
from memres import *
from memres import _u

ck = Check("C23")
T = ck.thorough
DBG, LOG, CB, AB, TH = 1, 2, 4, 8, 16
SRC = '''#include <c4/error.hpp>
using namespace c4;
#define W extern "C"
extern "C" void my_cb(const char *msg, size_t len);
extern "C" void other_cb(const char *msg, size_t len);
extern "C" bool cond();
extern "C" void after();
W void h_err(const char *file, int line, unsigned flags, int n) { set_error_flags(flags); set_error_callback(my_cb); srcloc w = C4_SRCLOC(); w.file = file; w.line = line; handle_error(w, "abc %d", n); }
W void h_nocb(const char *file, int line, unsigned flags, int n) { set_error_flags(flags); set_error_callback(nullptr); srcloc w = C4_SRCLOC(); w.file = file; w.line = line; handle_error(w, "abc %d", n); }
W void h_warn(const char *file, int line, unsigned flags, int n) { set_error_flags(flags); set_error_callback(my_cb); srcloc w = C4_SRCLOC(); w.file = file; w.line = line; handle_warning(w, "abc %d", n); }
W void m_error() { C4_ERROR("msg %d", 1); after(); }
W void m_check() { C4_CHECK(cond()); after(); }
W void m_checkmsg() { C4_CHECK_MSG(cond(), "value %d", 1); after(); }
W void m_assert() { C4_ASSERT(cond()); after(); }
W void m_assertmsg() { C4_ASSERT_MSG(cond(), "value %d", 1); after(); }
W void m_xassert() { C4_XASSERT(cond()); after(); }
W void m_xassertmsg() { C4_XASSERT_MSG(cond(), "value %d", 1); after(); }
W void m_notimpl() { C4_NOT_IMPLEMENTED(); after(); }
W void m_notimplmsg() { C4_NOT_IMPLEMENTED_MSG("value %d", 1); after(); }
W void m_notimplif() { C4_NOT_IMPLEMENTED_IF(!cond()); after(); }
W void m_notimplifmsg() { C4_NOT_IMPLEMENTED_IF_MSG(!cond(), "value"); after(); }
W void m_never() { C4_NEVER_REACH(); after(); }
W void m_nevermsg() { C4_NEVER_REACH_MSG("value %d", 1); after(); }
W void x_percent() { C4_CHECK_MSG(cond() || '%' == 0, "value %d", 1); }
struct O { unsigned f[4]; error_callback_type c[4]; };
W void s_cb(O *o, unsigned f0, unsigned f1, unsigned f2) { set_error_flags(f0); set_error_callback(my_cb); { ScopedErrorSettings s(other_cb); o->f[0] = get_error_flags(); o->c[0] = get_error_callback(); set_error_flags(f1); } o->f[1] = get_error_flags(); o->c[1] = get_error_callback(); }
W void s_fl(O *o, unsigned f0, unsigned f1, unsigned f2) { set_error_flags(f0); set_error_callback(my_cb); { ScopedErrorSettings s((error_flags)f1); o->f[0] = get_error_flags(); o->c[0] = get_error_callback(); set_error_callback(nullptr); } o->f[1] = get_error_flags(); o->c[1] = get_error_callback(); }
W void s_both(O *o, unsigned f0, unsigned f1, unsigned f2) { set_error_flags(f0); set_error_callback(my_cb); { ScopedErrorSettings s(f1, other_cb); o->f[0] = get_error_flags(); o->c[0] = get_error_callback(); { ScopedErrorSettings t(f2, nullptr); o->f[2] = get_error_flags(); o->c[2] = get_error_callback(); } o->f[3] = get_error_flags(); o->c[3] = get_error_callback(); } o->f[1] = get_error_flags(); o->c[1] = get_error_callback(); }
W unsigned d_flags() { return get_error_flags(); }
W bool d_attached() { return is_debugger_attached(); }
'''
SCOPE = {"s_cb": [("f0", "other"), ("f0", "my")], "s_fl": [("f1", "my"), ("f0", "my")], "s_both": [("f1", "other"), ("f0", "my"), ("f2", "null"), ("f1", "other")]}


# --- models
def h_vsnprintf(I, s, a, ins):
    p, n = a[0], _u(I, s, a[1])
    loc = ins.get("loc")
    if not isinstance(p, Ptr) or not n.isconst() or n.c < 1:
        raise Unsupported("vsnprintf buffer")
    I.check(s, "callee-buffer", p, n, loc)
    k = I.sym("printed", 0, (1 << 31) - 1, "ret")

    def wr(kind):
        def f(x):
            x.mem[p.obj.id] = I.log(x, p.obj) + (("unkrange", x.st.norm(p.off), n),)
            if kind == "fit":
                I.store(x, Ptr(p.obj, x.st.norm(p.off + k)), ZERO, 1, loc)
            elif kind == "cut":
                I.store(x, Ptr(p.obj, x.st.norm(p.off + n - 1)), ZERO, 1, loc)
            x.events.append(("format", p, n, k, kind))
        return f
    return MultiRet([(("ge", n - 1 - k), k, wr("fit")), (("ge", k - n), k, wr("cut")), (True, Lin((1 << 32) - 1), wr("fail"))])


def h_log(I, s, a, ins):
    s.events.append(("log", tuple(a)))
    return I.sym("ret", 0, 100, "ret")


def h_cb(I, s, a, ins):
    n = _u(I, s, a[1])
    z = None
    if isinstance(a[0], Ptr):
        z = readbyte(I, s, a[0].obj, s.st.norm(a[0].off + n))
    s.events.append(("callback", a[0], n, z))
    return None


def h_ev(k):
    def h(I, s, a, ins):
        s.events.append((k,) + tuple(a))
        return I.fresh_of(s, "p", 64, k) if k == "exc" else None
    return h


def h_end(k):
    def h(I, s, a, ins):
        s.events.append((k,) + tuple(a))
        s.status = k
        from interp import STOP
        return STOP
    return h


def h_cond(I, s, a, ins):
    if any(e[0] == "cond" for e in s.events):
        raise Unsupported("condition evaluated twice")
    return MultiRet([(True, ZERO, lambda x: x.events.append(("cond", 0))), (True, Lin(1), lambda x: x.events.append(("cond", 1)))])


EXT = {"vsnprintf": h_vsnprintf, "fprintf": h_log, "fputc": h_log, "putc": h_log, "fputs": h_log, "puts": h_log, "printf": h_log, "fwrite": h_log, "vfprintf": h_log, "fflush": h_nop,
       "my_cb": h_cb, "other_cb": h_ev("other"), "cond": h_cond, "after": h_ev("after"), "abort": h_end("abort"),
       "__cxa_allocate_exception": h_ev("exc"), "__cxa_throw": h_end("throw"), "~std::runtime_error::runtime_error(": h_ev("what"), "~std::terminate": h_end("terminate")}
MEXT = dict(EXT)
MEXT["~c4::handle_error("] = h_end("error")
MEXT["~c4::is_debugger_attached"] = lambda I, s, a, ins: I.sym("attached", 0, 1, "ret")


def err_case(nm, fl, throws):
    def mk(I):
        f = Obj("buf", "file", 64)
        line = I.sym("line", 0, 1 << 20, "in")
        return [Ptr(f, ZERO), line, Lin(fl), I.sym("n", 0, 100, "in")], (f, line), None

    def spec(x, env, s):
        f, line = env
        ev = s.events
        fm = [e for e in ev if e[0] == "format"]
        logs = [e for e in ev if e[0] == "log"]
        cbs = [e for e in ev if e[0] in ("callback", "other")]
        ends = [e[0] for e in ev if e[0] in ("abort", "throw", "terminate")]
        warn = nm == "h_warn"

        def ismsg(p):
            return isinstance(p, Ptr) and any(samep(x, p, e[1]) for e in fm)
        if warn:
            if s.status != "ret":
                return "a warning does not return"
            if cbs:
                return "a warning calls the error callback"
            if not any(ismsg(a) for e in logs for a in e[1]):
                return "the warning message is not logged"
        else:
            if s.status == "ret":
                return "error handling returns to the code that raised the error"
            want = "throw" if throws and fl & TH else "abort"
            if ends[:1] != [want]:
                return "ends with %s, expected %s" % (ends[:1], want)
            if (fl & LOG) and not any(ismsg(a) for e in logs for a in e[1]):
                return "the message is not logged"
            if not (fl & LOG) and logs:
                return "something is logged although logging is off"
            wantcb = bool(fl & CB) and nm == "h_err"
            if len(cbs) != (1 if wantcb else 0):
                return "the callback is called %d times" % len(cbs)
        for e in logs:
            if any(ismsg(a) for a in e[1]) and len(e[1]) > 3:
                if not any(samep(x, a, Ptr(f, ZERO)) for a in e[1] if isinstance(a, Ptr)):
                    return "the file of the error is not the one logged"
                if not any(isinstance(a, Lin) and x.eq(x.I.U(s, a, 32), line) for a in e[1]):
                    return "the line of the error is not the one logged"
            for a in e[1]:
                if isinstance(a, Ptr) and a.obj.kind == "alloca" and not ismsg(a):
                    return "uninitialised memory is logged"
        for e in cbs:
            if e[0] == "other":
                return "another callback is called"
            if not ismsg(e[1]):
                return "message|the callback gets %r, which holds no message" % (e[1],)
            g = [q for q in fm if samep(x, e[1], q[1])][-1]
            if g[4] == "fit":
                if not x.eq(e[2], g[3]):
                    return "message|the callback gets length %r, the message has %r characters" % (e[2], g[3])
            elif g[4] == "cut":
                if not x.eq(e[2], g[2] - 1):
                    return "message|the callback gets length %r, the truncated message has %r characters" % (e[2], g[2] - 1)
            elif not x.eq(e[2], 0):
                return "message|the callback gets %r characters although no message could be formatted" % (e[2],)
            if e[3] is None or not x.eq(e[3], 0):
                return "message|the message given to the callback is not terminated"
        for e in ev:
            if e[0] == "what" and not ismsg(e[2]):
                return "message|the exception's message is %r" % (e[2],)
        return None
    return Case("%s flags=%d%s" % (nm, fl, " exceptions" if throws else ""), nm, mk, spec)


def macro_case(nm, dbg):
    on = dbg or "assert" not in nm
    uncond = nm in ("m_error", "m_notimpl", "m_notimplmsg", "m_never", "m_nevermsg")

    def spec(x, env, s):
        names = [e[0] for e in s.events]
        c = [e[1] for e in s.events if e[0] == "cond"]
        if uncond:
            return None if "error" in names and "after" not in names else "does not raise an error"
        if not on:
            return None if names == ["after"] else "a disabled assertion has an effect"
        if len(c) != 1:
            return "the condition is evaluated %d times" % len(c)
        if c[0]:
            return None if "error" not in names and "after" in names else "raises an error although the condition holds"
        return None if "error" in names and "after" not in names else "does not raise an error although the condition fails"
    return Case(nm + (" debug" if dbg else ""), nm, lambda I: ([], None, None), spec)


def percent_case():
    """the text of the condition is data, not a format"""
    def spec(x, env, s):
        for e in s.events:
            if e[0] == "error":
                f = [a for a in e[1:] if isinstance(a, Ptr) and a.obj.kind == "global" and a.obj.bytes]
                for a in f:
                    t = "".join(chr(b) for b in a.obj.bytes if b > 0)
                    if "value" in t and "'%'" in t:
                        return "format|the text of the condition becomes part of the printf format: %r" % t
        return None
    return Case("x_percent", "x_percent", lambda I: ([], None, None), spec)


def scope_case(nm):
    def mk(I):
        out = Obj("out", "result", 48)
        fs = [I.sym("f%d" % i, 0, (1 << 32) - 1, "in") for i in range(3)]
        return [Ptr(out, ZERO)] + fs, (out, fs), None

    def spec(x, env, s):
        out, fs = env
        for i, (f, c) in enumerate(SCOPE[nm]):
            g = x.out(out, 4 * i, "i", 32) if False else x.I.load(x.s, Ptr(out, Lin(4 * i)), 4, "i", 32, None)
            if not x.eq(x.I.U(x.s, g, 32), fs[int(f[1])]):
                return "flags at point %d are %r, expected %r" % (i, g, fs[int(f[1])])
            p = x.out(out, 16 + 8 * i, "p")
            ok = isinstance(p, Ptr) and (p.obj.kind == "null" if c == "null" else p.obj.kind == "fn" and c in p.obj.name)
            if not ok:
                return "callback at point %d is %r, expected %s" % (i, p, c)
        return None
    return Case(nm, nm, mk, spec)


def dflags_case():
    def spec(x, env, s):
        return expect_int(x, x.I.U(s, s.retval, 32), Lin(DBG | LOG | CB | AB), "initial error flags")
    return Case("d_flags", "d_flags", lambda I: ([], None, None), spec)


def h_read(I, s, a, ins):
    p, n = a[1], _u(I, s, a[2])
    loc = ins.get("loc")
    I.check(s, "callee-buffer", p, n, loc)
    k = I.sym("read", 0, 1 << 31, "ret")

    def ok(x):
        x.mem[p.obj.id] = I.log(x, p.obj) + (("unkrange", x.st.norm(p.off), k),)
        x.events.append(("read", p, k))
    return MultiRet([(("ge", n - k), k, ok), (True, Lin((1 << 64) - 1), lambda x: x.events.append(("read", p, ZERO)))])


def h_strstr(I, s, a, ins):
    p = a[0]
    ks = [e[2] for e in s.events if e[0] == "read" and samep(X(I, s), e[1], p)]
    good = False
    for k in ks + [p.obj.size - 1]:
        z = readbyte(I, s, p.obj, s.st.norm(p.off + k)) if s.st.decide(("ge", p.obj.size - 1 - k)) is True else None
        good = good or z is not None and s.st.decide(("eq", z)) is True
    s.events.append(("search", good))
    j = I.sym("found", 0, 1 << 20, "ret")
    return MultiRet([(True, NULL, lambda x: None), (("ge", p.obj.size - 1 - j), Ptr(p.obj, p.off + j), lambda x: None)])


DEXT = dict(EXT, open=lambda I, s, a, ins: I.sym("fd", 0, (1 << 32) - 1, "ret"), read=h_read, strstr=h_strstr, atoi=lambda I, s, a, ins: I.sym("pid", 0, 1 << 30, "ret"),
            strtol=lambda I, s, a, ins: I.sym("pid", 0, 1 << 30, "ret"), close=h_nop)
DEXT["__isoc23_strtol"] = DEXT["strtol"]


def attached_case():
    def spec(x, env, s):
        if s.status != "ret":
            return "does not return"
        if any(e[0] == "search" and not e[1] for e in s.events):
            return "the text of the status file is searched in a buffer which is not terminated"
        return None
    return Case("d_attached", "d_attached", lambda I: ([], None, None), spec)


def go(m, c, r, ext, opts=None):
    I, fs = run_case(m, c, r, ext=ext, aborts=True, opts=opts)
    memcheck(r, I, c.entry)


todo = []
for tag, fl, throws in (("plain", [], False), ("exc", ["-DC4_ERROR_THROWS_EXCEPTION", "-DC4_EXCEPTIONS_ENABLED", "-fexceptions", "-include", "stdexcept"], True)):
    m = ck.ir("err_" + tag, SRC, sources=["src/c4/error.cpp"], flags=fl)
    if m:
        for f in range(32):
            for nm in ("h_err", "h_nocb", "h_warn"):
                todo.append((m, err_case(nm, f, throws), EXT, None))
        if not throws:
            todo += [(m, scope_case(n), EXT, None) for n in SCOPE] + [(m, dflags_case(), EXT, {"ginit": True}), (m, attached_case(), DEXT, {"ginit": True})]
for dbg in (False, True):
    m = ck.ir("macro%d" % dbg, SRC, debug=dbg, flags=["-DC4_NO_DEBUG_BREAK"])
    if m:
        import re
        for nm in re.findall(r"W void (m_\w+)\(\)", SRC):
            todo.append((m, macro_case(nm, dbg), MEXT, None))
        todo.append((m, percent_case(), MEXT, None))
for m, c, e, o in todo:
    ck.task(c.name, lambda r, c=c, m=m, e=e, o=o: go(m, c, r, e, o))
ck.run()
ck.finish("an error is logged, reported to the callback and thrown exactly as the settings say, with a complete terminated message of the stated length, and never returns; checks raise an error exactly when their condition fails; leaving a scope restores the settings",
          "effect analysis by abstract interpretation of error.cpp and the error macros, for every combination of error flags, with and without a callback, with and without exceptions, for any message length (including failure to format)",
          ["vsnprintf and the stdio functions behave as specified"], {"cases": len(todo)})
