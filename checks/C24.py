"""real numbers: exact hexadecimal reading; text, precision and notation reach the conversion unchanged"""
import math
from fractions import Fraction
from memres import *
from memres import _u
from subcat import real_span
import memres

ck = Check("C24")
T = ck.thorough
SRC = '''#include <c4/charconv.hpp>
#include <c4/format.hpp>
using namespace c4;
#define W extern "C"
W bool rd_f(float *v, const char *s, size_t n) { return atof(csubstr(s, n), v); }
W bool rd_d(double *v, const char *s, size_t n) { return atod(csubstr(s, n), v); }
W bool rc_f(float *v, const char *s, size_t n) { return from_chars(csubstr(s, n), v); }
W bool rc_d(double *v, const char *s, size_t n) { return from_chars(csubstr(s, n), v); }
W size_t rn_f(float *v, const char *s, size_t n) { return atof_first(csubstr(s, n), v); }
W size_t rn_d(double *v, const char *s, size_t n) { return atod_first(csubstr(s, n), v); }
W size_t rm_f(float *v, const char *s, size_t n) { return from_chars_first(csubstr(s, n), v); }
W size_t rm_d(double *v, const char *s, size_t n) { return from_chars_first(csubstr(s, n), v); }
W bool rx_f(float *v, const char *s, size_t n) { return atox(csubstr(s, n), v); }
W bool rx_d(double *v, const char *s, size_t n) { return atox(csubstr(s, n), v); }
W size_t wr_f(char *s, size_t n, float v, int prec, int f) { return ftoa(substr(s, n), v, prec, (RealFormat_e)f); }
W size_t wr_d(char *s, size_t n, double v, int prec, int f) { return dtoa(substr(s, n), v, prec, (RealFormat_e)f); }
W size_t wx_f(char *s, size_t n, float v, int prec, int f) { return xtoa(substr(s, n), v, prec, (RealFormat_e)f); }
W size_t wx_d(char *s, size_t n, double v, int prec, int f) { return xtoa(substr(s, n), v, prec, (RealFormat_e)f); }
W size_t wt_f(char *s, size_t n, float v, int, int) { return to_chars(substr(s, n), v); }
W size_t wt_d(char *s, size_t n, double v, int, int) { return to_chars(substr(s, n), v); }
W size_t wa_f(char *s, size_t n, float v, int, int) { return ftoa(substr(s, n), v); }
W size_t wa_d(char *s, size_t n, double v, int, int) { return dtoa(substr(s, n), v); }
W size_t wb_f(char *s, size_t n, float v, int, int) { return xtoa(substr(s, n), v); }
W size_t wb_d(char *s, size_t n, double v, int, int) { return xtoa(substr(s, n), v); }
W size_t wp_f(char *s, size_t n, float v, int prec, int f) { return to_chars(substr(s, n), fmt::real(v, prec, (RealFormat_e)f)); }
W size_t wp_d(char *s, size_t n, double v, int prec, int f) { return to_chars(substr(s, n), fmt::real(v, prec, (RealFormat_e)f)); }
W size_t wq_f(char *s, size_t n, float v, int prec, int) { return to_chars(substr(s, n), fmt::real(v, prec)); }
W size_t wq_d(char *s, size_t n, double v, int prec, int) { return to_chars(substr(s, n), fmt::real(v, prec)); }
W void fmts(int *o) { o[0] = FTOA_FLOAT; o[1] = FTOA_SCIENT; o[2] = FTOA_FLEX; o[3] = FTOA_HEXA; }
'''


# --- exact value of a floating point term -------------------------------------
class NonLinear(Exception):
    pass


class Inexact(Exception):
    """the operation may round: carries the linear form, to be split"""


class Infinite(Exception):
    pass


PREC = {32: (24, -149, 128), 64: (53, -1074, 1024)}


def representable(v, w):
    """is the rational v a number of the type?"""
    p, emin, emax = PREC[w]
    if v == 0:
        return True
    n, d = abs(v.numerator), v.denominator
    if d & (d - 1):
        return False
    tz = (n & -n).bit_length() - 1
    e = tz - (d.bit_length() - 1)          # weight of the last bit
    top = n.bit_length() - (d.bit_length() - 1)
    return e >= emin and top <= emax and n.bit_length() - tz <= p


def roundto(v, w):
    if representable(v, w):
        return v
    if w == 64:
        try:
            r = float(v)
        except OverflowError:
            raise Infinite
    else:
        p, emin, emax = PREC[w]
        top = 0
        while abs(v) >= Fraction(2) ** top:
            top += 1
        while abs(v) < Fraction(2) ** (top - 1):
            top -= 1
        ulp = Fraction(2) ** max(top - p, emin)
        r = round(v / ulp) * ulp
        if abs(r) >= Fraction(2) ** emax:
            raise Infinite
    if r in (float("inf"), float("-inf")):
        raise Infinite
    return Fraction(r)


def fprnd(v, w, st):
    """round a rational-linear form: exactly when constant; otherwise it must be shown exact"""
    c, t = v
    if t:
        e, den = fpnorm(st, v)
        if e.isconst():
            c, t = Fraction(e.c, den), {}
        else:
            p, emin, emax = PREC[w]
            lo, hi = st.rng(e)
            g = e.c
            for q in e.t.values():
                g = math.gcd(g, q)
            g = Fraction(g & -g if g else 1, den)
            m = Fraction(max(abs(lo), abs(hi)), den)
            if m / g <= 2 ** p and g >= Fraction(2) ** emin and m < Fraction(2) ** emax:
                return Fraction(e.c, den), {y: Fraction(q, den) for y, q in e.t.items()}
            raise Inexact(e)
    return roundto(c, w), {}


def fpval(k, st):
    """value of an opaque term, with its roundings: (const, {sym: coef})"""
    if not isinstance(k, tuple):
        raise NonLinear(repr(k))
    if k[0] == "fp":
        v = fpconst(k)
        if v is None or v != v:
            raise NonLinear("constant")
        if v in (math.inf, -math.inf):
            raise Infinite
        return Fraction(v), {}
    op, w = k[0], k[2] if len(k) > 2 else 0
    if isinstance(op, str) and op.startswith("ldexp"):
        return fprnd(fpmul(fpval(k[3], st), (Fraction(2) ** k[1], {})), w, st)
    if op in ("sitofp", "uitofp"):
        c, ts = k[3][0]
        return fprnd((Fraction(c), {y: Fraction(q) for y, q in ts}), w, st)
    if isinstance(op, str) and op.startswith("llvm.fmuladd"):
        a, b, c = k[1]
        return fprnd(fpadd(fpmul(fpval(a, st), fpval(b, st)), fpval(c, st)), 64 if op.endswith("f64") else 32, st)
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        a, b = fpval(k[3][0], st), fpval(k[3][1], st)
        if op == "fadd":
            return fprnd(fpadd(a, b), w, st)
        if op == "fsub":
            return fprnd(fpadd(a, fpmul(b, (Fraction(-1), {}))), w, st)
        if op == "fmul":
            return fprnd(fpmul(a, b), w, st)
        if b[1] or b[0] == 0:
            raise NonLinear("division")
        return fprnd(fpmul(a, (1 / b[0], {})), w, st)
    if op == "fneg":
        return fpmul(fpval(k[3][0], st), (Fraction(-1), {}))
    if op in ("fpext", "fptrunc"):
        return fprnd(fpval(k[3][0], st), w, st)
    raise NonLinear(str(op))


def fpadd(a, b):
    t = dict(a[1])
    for y, q in b[1].items():
        t[y] = t.get(y, 0) + q
    return a[0] + b[0], {y: q for y, q in t.items() if q}


def fpmul(a, b):
    if a[1] and b[1]:
        raise NonLinear("product")
    if a[1]:
        a, b = b, a
    return a[0] * b[0], {y: q * a[0] for y, q in b[1].items() if q * a[0]}


def fpnorm(st, v):
    """normalise a rational-linear form under the state's facts"""
    c, t = v
    den = c.denominator
    for q in t.values():
        den = den * q.denominator // math.gcd(den, q.denominator)
    e = st.norm(Lin(int(c * den), {y: int(q * den) for y, q in t.items()}))
    return e, den


def fcmp(s, pred, ks):
    """comparison of two terms as a condition on the symbols"""
    if any(isinstance(k, str) for k in ks):
        return None
    try:
        a, b = fpval(ks[0], s.st), fpval(ks[1], s.st)
    except (NonLinear, Infinite, Inexact):
        return None
    e, den = fpnorm(s.st, fpadd(a, fpmul(b, (Fraction(-1), {}))))
    p = pred[-2:]
    c = {"eq": ("eq", e), "ne": ("ne", e), "gt": ("ge", e - 1), "ge": ("ge", e), "lt": ("ge", -e - 1), "le": ("ge", -e)}.get(p)
    if pred == "ord":
        return ("ge", ZERO)
    if pred == "uno":
        return ("ge", Lin(-1))
    return c if c and len(pred) == 3 else None


def h_ldexp(w):
    def h(I, s, a, ins):
        n = s.st.norm(I.S(s, I.asint(s, a[1], 32), 32))
        if not isinstance(a[0], Opq) or not n.isconst():
            return Opq(("ldexp?", len(s.events), w, repr(a)))
        return Opq(("ldexp", n.c, w, a[0].key))
    return h


# --- A: hexadecimal reading -----------------------------------------------------
SUFFIX = ["", "p0", "p1", "P+3", "p-2", "P10", "p-11", "p", "p+", "p-", "px", "p1x", "P1.", "p 1"]
# exponents at which a power of two alone, or the scaled number, meets a limit of the type; odd ways to write one
EXPS = ["p%d" % e for e in (100, 127, 128, 131, 200, 256, 1000, 1023, 1024, 1027)] + ["P-%d" % e for e in (100, 126, 128, 149, 150, 153, 200, 1000, 1022, 1074, 1075, 1078)]
ODD = ["p+-1", "p-+1", "p++1", "p--1", "p0x1", "p-0b1", "p0o7", "p007", "p-0", "p+0", "p1e1", "pp1", "p1p1", "p1.0", "p+1-"]
# digits around the symbolic characters: long integer parts and fractions
LONG = [("00000000000000000000", "p1"), ("1.00000000000000000000", ""), ("123456789abc", "p-3"), ("1.23456789AbC", "P5"), ("F.ffff", "p-9"), ("0.00000000", ".0"), ("0.0000000000", "p9"), ("." + "0" * 20, "P80"), ("0." + "0" * 34, "p-3"), ("abcdef.", "p2"), ("1.8", "000000000000p-1")]


def hexref(x, bs):
    """None: malformed; else (value as a rational-linear form without the exponent, exponent)"""
    ip, fp, dot = [], [], False
    ex = None
    for i, b in enumerate(bs):
        if x.ge(b, 48) and x.le(b, 57):
            d = b - 48
        elif x.ge(b, 97) and x.le(b, 102):
            d = b - 87
        elif x.ge(b, 65) and x.le(b, 70):
            d = b - 55
        elif not dot and x.eq(b, 46):
            dot = True
            continue
        elif b.isconst() and b.c in (112, 80):
            ex = "".join(chr(q.c) for q in bs[i + 1:])
            break
        else:
            return None
        (fp if dot else ip).append(d)
    if not ip and not fp:
        return None
    e = 0
    if ex is not None:
        t = ex[1:] if ex[:1] in ("+", "-") else ex
        if not t.isdigit():
            return None
        e = -int(t) if ex[0] == "-" else int(t)
    want = (Fraction(0), {})
    for i, d in enumerate(ip + fp):
        want = fpadd(want, fpmul((Fraction(d.c), {y: Fraction(q) for y, q in d.t.items()}), (Fraction(16) ** (len(ip) - 1 - i), {})))
    return want, e


def hex_case(nm, pre, n, suf):
    isd = nm.endswith("_d")

    def mk(I):
        out = Obj("out", "result", 8 if isd else 4)
        tot = len(pre) + n + len(suf)
        o = Obj("buf", "text", tot)
        bs = [Lin.of(y) if False else None for y in ()]

        def setup(s):
            for i, ch in enumerate(pre):
                s.st.add_eq(X(I, s).init(o, i) - ord(ch))
            for i, ch in enumerate(suf):
                s.st.add_eq(X(I, s).init(o, len(pre) + n + i) - ord(ch))
            for i in range(n):
                b = X(I, s).init(o, len(pre) + i)
                s.st.add_ne(b - 112)
                s.st.add_ne(b - 80)
        return [Ptr(out, ZERO), Ptr(o, ZERO), Lin(tot)], (out, o), setup

    def spec(x, env, s):
        out, o = env
        k0 = pre.lower().index("x") + 1
        ref = hexref(x, [Lin(ord(ch)) for ch in pre[k0:]] + [x.init(o, len(pre) + i) for i in range(n)] + [Lin(ord(ch)) for ch in suf])
        rv = rint(x.I, s, s.retval, 8)
        if any(e[0] in ("ff", "sscanf") for e in s.events):
            # delegated to a conversion that knows hexadecimal: nothing to check here
            return None
        if ref is None:
            return expect_int(x, rv, ZERO, "result for malformed text")
        r = expect_int(x, rv, Lin(1), "result for well-formed text")
        if r:
            return r
        digits, e = ref
        want = fpmul(digits, (Fraction(2) ** e * (-1 if pre.startswith("-") else 1), {}))
        v = x.I.read(s, out, ZERO, 8 if isd else 4, "f", 64 if isd else 32, x.I.log(s, out))
        if v is UNDEF or v is None or not s.mem.get(out.id):
            return "value|the value is not stored"
        if not isinstance(v, Opq):
            return ("value has an unexpected form %r" % (v,),)
        w = 64 if isd else 32
        for _ in range(2000):
            try:
                fprnd(digits, w, s.st)
                wv = fprnd(want, w, s.st)
                break
            except Infinite:
                return None
            except Inexact as ex:
                y = min(ex.args[0].t)
                x.eq(Lin(0, {y: 1}), s.st.bounds(y)[0])
        for q in (digits, want):
            z, den = fpnorm(s.st, q)
            if z.isconst() and not representable(Fraction(z.c, den), w):
                return None          # the number needs rounding: not decided here
        try:
            got = fpval(v.key, s.st)
        except Infinite:
            return "value|the value read is not finite, but the number written is"
        except Inexact as ex:
            y = min(ex.args[0].t)
            x.eq(Lin(0, {y: 1}), s.st.bounds(y)[0])
            return ("rounding not followed",)
        except NonLinear as ex:
            return ("value not expressible: %s" % ex,)
        d = fpadd(got, fpmul(want, (Fraction(-1), {})))
        e_, den = fpnorm(s.st, d)
        if x.eq(e_, 0):
            return None
        return "value|the value read differs from the number written by %r" % (e_,)
    return Case("%s %r+%d+%r" % (nm, pre, n, suf), nm, mk, spec)


# --- B: decimal reading is delegated with exactly the text ------------------------
def h_ff(I, s, a, ins):
    r = I.sym("end", 0, 1 << 40, "ret")
    f, l = a[0], a[1]
    s.events.append(("ff", f, l, a[2]))
    v = Opq(("read", len(s.events)))
    sz = 8 if "double" in (ins.get("f") or "") or "IdcE" in ins.get("f", "") or "IdE" in ins.get("f", "") else 4

    def ok(x):
        I.store(x, a[2], v, sz, ins.get("loc"))
        x.events.append(("ffok",))
    return MultiRet([(True, Agg([Ptr(f.obj, f.off + r), ZERO]), ok), (True, Agg([f, Lin(22)]), lambda x: x.events.append(("fffail",))), (True, Agg([Ptr(f.obj, f.off + r), Lin(34)]), lambda x: x.events.append(("fffail",)))])


def dec_case(nm, n, shape):
    isd = nm.endswith("_d")

    def mk(I):
        out = Obj("out", "result", 8 if isd else 4)
        o, ln = strobj(I, "text", n)

        def setup(s):
            s.st.add_ge(ln - len(shape))
            for i, ch in enumerate(shape):
                b = X(I, s).init(o, i)
                for c in ch[1:] if ch[0] == "^" else "":
                    s.st.add_ne(b - ord(c))
                if ch[0] != "^":
                    s.st.add_eq(b - ord(ch))
        return [Ptr(out, ZERO), Ptr(o, ZERO), ln], (out, o, ln), setup

    def spec(x, env, s):
        out, o, ln = env
        ev = [e for e in s.events if e[0] == "ff"]
        sg = 1 if x.eq(x.init(o, 0), 45) or x.eq(x.init(o, 0), 43) else 0
        hexa = x.ge(ln, sg + 2) and x.eq(x.init(o, sg), 48) and (x.eq(x.init(o, sg + 1), 120) or x.eq(x.init(o, sg + 1), 88))
        if hexa:
            return None     # case A
        if len(ev) != 1:
            return "the text is converted %d times, expected once" % len(ev)
        e = ev[0]
        if not samep(x, e[1], Ptr(o, ZERO)) or not samep(x, e[2], Ptr(o, ln)):
            return "the text converted is [%r,%r), expected all of it" % (e[1], e[2])
        if not samep(x, e[3], Ptr(out, ZERO)):
            return ("destination not identified",)
        ok = any(q[0] == "ffok" for q in s.events)
        return expect_int(x, rint(x.I, s, s.retval, 8), Lin(int(ok)), "result")
    return Case("%s text like %s" % (nm, shape), nm, mk, spec)


def first_case(nm, n, head=""):
    """the first real in a text: the span converted, and the position returned"""
    isd = nm.endswith("_d")

    def mk(I):
        out = Obj("out", "result", 8 if isd else 4)
        o, ln = strobj(I, "text", n)

        def setup(s):
            for i, ch in enumerate(head):
                if ch != "?":
                    s.st.add_eq(X(I, s).init(o, i) - ord(ch))
        return [Ptr(out, ZERO), Ptr(o, ZERO), ln], (out, o, ln), setup

    def spec(x, env, s):
        out, o, ln = env
        S = x.text(o, n)
        a, l = real_span(x, S)
        rv = rint(x.I, s, s.retval, 64)
        ev = [e for e in s.events if e[0] == "ff"]
        if not l:
            if ev:
                return "a text without a number is converted"
            return expect_int(x, rv, Lin(NPOS), "result for a text which does not begin with a real")
        sg = a + (1 if x.eq(S[a], 45) or x.eq(S[a], 43) else 0)
        if a + l >= sg + 2 and x.eq(S[sg], 48) and (x.eq(S[sg + 1], 120) or x.eq(S[sg + 1], 88)):
            if ev:
                return None
            return None if x.eq(rv, Lin(NPOS)) else expect_int(x, rv, Lin(a + l), "result")
        if len(ev) != 1:
            return "the text is converted %d times, expected once" % len(ev)
        if not samep(x, ev[0][1], Ptr(o, Lin(a))) or not samep(x, ev[0][2], Ptr(o, Lin(a + l))):
            return "the text converted is [%r,%r), expected [%d,%d)" % (ev[0][1], ev[0][2], a, a + l)
        ok = any(q[0] == "ffok" for q in s.events)
        return expect_int(x, rv, Lin(a + l if ok else NPOS), "result")
    return Case("%s/len %d%s" % (nm, n, head and "/text " + head), nm, mk, spec)


# --- C: writing ---------------------------------------------------------------------
def h_tc(I, s, a, ins):
    s.events.append(("tc", a[0], a[1], a[2], tuple(I.asint(s, z, 32) for z in a[3:])))
    return reals.h_std_to_chars(I, s, a, ins)


def cstr(I, s, p):
    """constant text at p, or None"""
    if not isinstance(p, Ptr):
        return None
    t = ""
    for i in range(64):
        if p.obj.kind == "global" and p.obj.bytes is not None:
            off = s.st.norm(p.off).c + i
            b = p.obj.bytes[off] if off < len(p.obj.bytes) else 0
        else:
            v = readbyte(I, s, p.obj, s.st.norm(p.off + i))
            v = s.st.norm(v) if v is not None else None
            if v is None or not v.isconst():
                return None
            b = v.c
        if b == 0:
            return t
        t += chr(b)
    return None


def h_snp(I, s, a, ins):
    f = cstr(I, s, a[2])
    loc = ins.get("loc")
    n = _u(I, s, a[1])
    if f is None:
        raise Unsupported("format text not constant")
    rest = list(a[3:])
    if any(isinstance(z, Opq) for z in rest):
        s.events.append(("print", a[0], n, f, rest))
        ret = I.sym("printed", 1, 1 << 20, "ret")
        if s.st.decide(("ge", -n)) is None:
            raise Split([("ge", -n), ("ge", n - 1)], "snprintf")
        if s.st.decide(("ge", -n)) is False:
            I.check(s, "callee-buffer", a[0], n, loc)
            s.mem[a[0].obj.id] = I.log(s, a[0].obj) + (("unkrange", s.st.norm(a[0].off), n),)
        s.events.append(("printed", ret))
        return ret
    # all arguments known: build the text
    out, i = "", 0
    while i < len(f):
        if f[i] != "%":
            out += f[i]
            i += 1
            continue
        c = f[i + 1]
        i += 2
        if c == "%":
            out += "%"
        elif c == "s":
            t = cstr(I, s, rest.pop(0))
            if t is None:
                raise Unsupported("snprintf string")
            out += t
        elif c in "dc":
            v = s.st.norm(I.asint(s, rest.pop(0), 32))
            if not v.isconst():
                raise Unsupported("snprintf number")
            z = v.c if v.c < (1 << 31) else v.c - (1 << 32)
            out += str(z) if c == "d" else chr(z & 255)
        else:
            raise Unsupported("snprintf conversion " + c)
    if not n.isconst() or n.c <= len(out):
        raise Unsupported("snprintf truncation")
    I.check(s, "callee-buffer", a[0], Lin(len(out) + 1), loc)
    for i, ch in enumerate(out + "\0"):
        I.store(s, Ptr(a[0].obj, s.st.norm(a[0].off + i)), Lin(ord(ch)), 1, loc)
    return Lin(len(out))


EXT = dict(MR)
EXT.update({"~fast_float::from_chars": h_ff, "~std::to_chars(char*, char*, float": h_tc, "~std::to_chars(char*, char*, double": h_tc, "snprintf": h_snp,
            "ldexp": h_ldexp(64), "ldexpf": h_ldexp(32), "scalbn": h_ldexp(64), "scalbnf": h_ldexp(32), "scalbln": h_ldexp(64), "scalblnf": h_ldexp(32)})
HEADF = [" ?1", "?1.5?", "-1?5e?2", "1.5e-3?", " \t+.5?", "0x1?p?3", "1e?0 ", "123456789?", "?12 34", "-?.?e", "inf?", "?nan", "1.5 ?", "0?1.", "-0x?.8 "]
NOTA = {"FLOAT": 0, "SCIENT": 1, "FLEX": 2, "HEXA": 3}
CONV = {"FLOAT": "f", "SCIENT": "e", "FLEX": "g", "HEXA": "a"}


def wr_case(nm, fname, prec, vals, tag, stdtc):
    isd = nm.endswith("_d")
    k = nm[1]
    effp = prec if k in "rxpq" else -1
    efff = fname if k in "rxp" else "FLOAT" if k == "q" else "FLEX"
    if vals is None:
        return None

    def mk(I):
        o, ln = strobj(I, "buf", None)
        v = Opq(("arg", "v"))
        p = Lin(prec % (1 << 32))
        return [Ptr(o, ZERO), ln, v, p, Lin(vals[NOTA[fname]])], (o, ln, v), None

    def spec(x, env, s):
        o, ln, v = env
        if s.status != "ret":
            return "does not return"
        if stdtc:
            ev = [e for e in s.events if e[0] == "tc"]
            if len(ev) != 1:
                return "the value is converted %d times, expected once" % len(ev)
            e = ev[0]
            neg = e[3].key != v.key
            if neg and not (isinstance(e[3], Opq) and e[3].key[0] == "fneg" and e[3].key[3][0] == v.key):
                return "value|the value converted is %r, expected the one given" % (e[3],)
            if neg and efff != "HEXA":
                return "value|the sign of the value is lost"
            if not e[4] or not x.eq(x.I.U(s, e[4][0], 32), vals[NOTA[efff]]):
                return "notation|the notation used is %r, expected %s" % (e[4][:1], efff)
            if effp == -1:
                if len(e[4]) != 1:
                    return "precision|a precision is used although none is given"
            elif len(e[4]) != 2 or not x.eq(x.I.U(s, e[4][1], 32), effp % (1 << 32)):
                return "precision|the precision used is %r, expected %d" % (e[4][1:], effp)
            if not samep(x, e[2], Ptr(o, ln)):
                return "the end of the room given to the conversion is %r" % (e[2],)
            pos = 0
            if efff == "HEXA":
                if not x.ge(ln, 3 + neg) or x.eq(e[1].off, ln):
                    return None     # no room: sizes are checked elsewhere
                w_ = 64 if isd else 32
                isneg = bool(x.ge(x.I.asint(s, v, w_), 1 << (w_ - 1)))
                if isneg != neg:
                    return "sign|the sign of a %s value is written after the prefix or dropped" % ("negative" if isneg else "positive")
                if neg or x.ge(e[1].off, 2):
                    want = ("-" if neg else "") + "0x"
                    pos = len(want)
                    for i, ch in enumerate(want):
                        b = readbyte(x.I, s, o, Lin(i))
                        if b is None or not x.eq(b, ord(ch)):
                            return "prefix|character %d is %r, expected '%s'" % (i, b, ch)
            if not x.eq(e[1].off, pos):
                if efff == "HEXA":
                    return None if not x.ge(ln, 4) else "start|the conversion starts at %r, expected %d" % (e[1].off, pos)
                return "start|the conversion starts at %r, expected %d" % (e[1].off, pos)
            return None
        ev = [e for e in s.events if e[0] == "print"]
        if not ev:
            return "the value is not converted"
        c = CONV[efff]
        ok = {"%" + ("" if effp == -1 else "." + q) + lm + c for lm in ("", "l" if isd else "") for q in ([str(effp)] + ([""] if effp == 0 else []))}
        for e in ev:
            if e[3] not in ok:
                return "notation|the value is printed with format '%s', expected one of %s" % (e[3], sorted(ok))
            g = e[4][0]
            if not (isinstance(g, Opq) and (g.key == v.key or g.key[0] == "fpext" and g.key[3][0] == v.key)):
                return "value|the value printed is %r" % (g,)
        if not samep(x, ev[0][1], Ptr(o, ZERO)) or not x.le(ev[0][2], ln):
            return "the text does not start at the start of the buffer"
        return None
    return Case("%s %s prec=%d %s" % (nm, fname, prec, tag), nm, mk, spec)


def go(m, c, r):
    I, fs = run_case(m, c, r, ext=EXT, aborts=True, opts={"fcmp": fcmp, "unroll_limit": 1200})
    memcheck(r, I, c.entry, objs=("text", "buf", "result"))


def fmtvals(m):
    """values of the notation constants"""
    m.gobj.clear()
    I = Interp(m)
    o = Obj("out", "result", 16)
    fs = I.start("fmts", [Ptr(o, ZERO)], None)
    s = fs[0]
    return [rint(I, s, I.read(s, o, Lin(4 * i), 4, "i", 32, I.log(s, o)), 32).c for i in range(4)]


todo = []
KEEP = ["std::align", "fast_float::from_chars", "std::to_chars", "snprintf"]
for tag, std, flags in (("c++17", "c++17", []), ("c++11", "c++11", [])):
    m = ck.ir("real_" + std.replace("+", "p"), SRC, std=std, flags=flags, keep=KEEP)
    if not m:
        continue
    vals = fmtvals(m)
    stdtc = std == "c++17"
    if not stdtc or T:
        pass
    for nm in ("rd_f", "rd_d") + (("rc_f", "rc_d") if stdtc else ()):
        for pre in ("0x", "-0x", "+0X", "-0X") if nm[1] == "d" and stdtc else ("0x", "-0X"):
            for n in range(0, (6 if T else 4) if nm == "rd_d" and stdtc else 3):
                for suf in SUFFIX if n <= 2 else ["", "p1", "p-2"]:
                    todo.append((m, hex_case(nm, pre, n, suf)))
        if stdtc:
            for suf in ODD + EXPS:
                for pre in ("0x", "-0x1", "0X.") if nm[1] == "d" else ("0x",):
                    todo.append((m, hex_case(nm, pre, 1, suf)))
            for p0, suf in LONG:
                for n in (1, 2) if T or nm == "rd_d" else (1,):
                    todo.append((m, hex_case(nm, "0x" + p0, n, suf)))
        for shape in (["^+-0"], ["0", "^xX"], ["-", "^0"], ["+", "^0"], ["-", "0", "^xX"], ["+", "0", "^xX"]):
            todo.append((m, dec_case(nm, None, shape)))
    for nm in ("rn_f", "rn_d", "rm_f", "rm_d") if stdtc else ("rn_f", "rn_d"):
        for n in range(0, (4 if nm == "rn_d" else 3) + T):
            todo.append((m, first_case(nm, n)))
        for h in HEADF:
            todo.append((m, first_case(nm, len(h), h)))
    for nm in ("rx_f", "rx_d"):
        for suf in ("", "p1", "p-200", "px"):
            todo.append((m, hex_case(nm, "-0x", 1, suf)))
        for shape in (["^+-0"], ["0", "^xX"], ["-", "^0"]):
            todo.append((m, dec_case(nm, None, shape)))
    for nm in [k + t for k in ("wr", "wx", "wt", "wa", "wb", "wp", "wq") for t in ("_f", "_d")]:
        for f in NOTA:
            for prec in ([-1, 0, 1, 2, 5, 17] if nm[1] in "rxpq" else [-1]):
                c = wr_case(nm, f, prec, vals, tag, stdtc)
                todo.append((m, c))
for m, c in todo:
    ck.task(c.name, lambda r, c=c, m=m: go(m, c, r))
ck.run()
ck.finish("a well-formed hexadecimal real is read as exactly the number written and a malformed one is refused; decimal text is handed to the conversion in full and its verdict returned; writing converts the value given with the notation and precision requested, hexadecimal with sign and prefix",
          "abstract interpretation of the real conversions: hexadecimal text with all characters symbolic, values as exact rational-linear terms over the digits; effect analysis of the calls to fast_float, std::to_chars and snprintf, for any text or buffer length; C++17 and C++11",
          ["fast_float, std::to_chars and snprintf convert correctly", "numbers which need rounding are not judged", "the exponent fits 16 bits"], {"cases": len(todo)})
