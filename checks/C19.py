"""reading the first value of a text, and sequences of values"""
import subcat, parsers
from subcat import *
from opaque import OQ, EXT, oqarg
from reals import *

ck = Check("C19")
T = ck.thorough
SRC = HDR + OQ + "".join("W size_t f_%s(const char *s, size_t n, %s *v) { return from_chars_first(csubstr(s, n), v); }\n" % (t, ct) for t, ct, w, sg in parsers.TYPES) + '''
W size_t f_ill(const char *s, size_t n, long long *v) { return from_chars_first(csubstr(s, n), v); }
W size_t f_ull(const char *s, size_t n, unsigned long long *v) { return from_chars_first(csubstr(s, n), v); }
W size_t f_ptr(const char *s, size_t n, void **v) { return from_chars_first(csubstr(s, n), v); }
W size_t f_bool(const char *s, size_t n, bool *v) { return from_chars_first(csubstr(s, n), v); }
W bool b_bool(const char *s, size_t n, bool *v) { return from_chars(csubstr(s, n), v); }
W size_t f_char(const char *s, size_t n, char *v) { return from_chars_first(csubstr(s, n), v); }
W bool b_char(const char *s, size_t n, char *v) { return from_chars(csubstr(s, n), v); }
W size_t f_csub(char *s, size_t n, csubstr *v) { return from_chars_first(substr(s, n), v); }
W bool b_csub(const char *s, size_t n, csubstr *v) { return from_chars(csubstr(s, n), v); }
W size_t f_sub(const char *s, size_t n, substr *v) { return from_chars_first(csubstr(s, n), v); }
W bool b_sub(const char *s, size_t n, substr *v) { return from_chars(csubstr(s, n), v); }
W size_t f_raw(const char *s, size_t n, void *d, size_t m, size_t al) { auto r = fmt::raw_wrapper(blob(d, m), al); return from_chars_first(csubstr(s, n), &r); }
W size_t fv_raw(const char *s, size_t n, void *d, size_t m, size_t al) { return from_chars_first(csubstr(s, n), fmt::raw(blob(d, m), al)); }
W bool b_raw(const char *s, size_t n, void *d, size_t m, size_t al) { return from_chars(csubstr(s, n), fmt::raw(blob(d, m), al)); }
W size_t f_rawi(const char *s, size_t n, int *d) { return from_chars_first(csubstr(s, n), fmt::raw(*d)); }
W bool b_rawi(const char *s, size_t n, int *d) { return from_chars(csubstr(s, n), fmt::raw(*d)); }
W size_t f_rawm(const char *s, size_t n, void *d) { return from_chars_first(csubstr(s, n), fmt::raw(blob(d, 5))); }
'''
refs = lambda k: ", ".join("Oq &a%d" % i for i in range(k))
names = lambda k, s=0: ", ".join("a%d" % i for i in range(s, k))
SEQ = []
for k in range(1, 5):
    SEQ.append(("u_uncat%d" % k, ["a%d" % i for i in range(k)], [0] * (k + 1), k))
    SRC += "W size_t u_uncat%d(const char *s, size_t n, %s) { return uncat(csubstr(s, n), %s); }\n" % (k, refs(k), names(k))
    order = []
    for i in range(1, k + 1):
        order += (["a0"] if i > 1 else []) + ["a%d" % i]
    SEQ.append(("u_uncatsep%d" % k, order, [0] * (len(order) + 1), k + 1))
    SRC += "W size_t u_uncatsep%d(const char *s, size_t n, %s) { return uncatsep(csubstr(s, n), %s); }\n" % (k, refs(k + 1), names(k + 1))
for i, (f, k) in enumerate([("{}", 1), ("a{}b", 1), ("{}{}", 2), ("{}-{}", 2), ("xx{}y{}zzz", 2), ("{}", 2), ("{}{}", 1), ("abc", 1), ("", 1), ("{{}}", 1), ("}{{}", 2), ("{}/{}/{}", 3), ("{a}", 1)]):
    parts, rest, order = [], f, []
    for j in range(k):
        q = rest.find("{}")
        if q < 0:
            break
        parts.append(q)
        order.append("a%d" % j)
        rest = rest[q + 2:]
    SEQ.append(("u_unfmt%d" % i, order, parts + [len(rest)], k))
    SRC += 'W size_t u_unfmt%d(const char *s, size_t n, %s) { return unformat(csubstr(s, n), "%s", %s); }\n' % (i, refs(k), f, names(k))
m = ck.ir("s", SRC, sources=["src/c4/format.cpp"], keep=["std::align"])


def sbuf(I, n, size):
    so, sn = strobj(I, "s", n)
    return so, sn, Obj("out", "v", size)


def intfirst(entry, w, sg, n, head=""):
    def mk(I):
        so, sn, out = sbuf(I, n, w // 8)

        def setup(s):
            for i, ch in enumerate(head):
                if ch != "?":
                    s.st.add_eq(X(I, s).init(so, i) - ord(ch))
        return [Ptr(so, ZERO), sn, Ptr(out, ZERO)], (so, out), setup

    def spec(x, env, s):
        so, out = env
        S = x.text(so, n)
        o, l = int_span(x, S, sg)
        ret = rint(x.I, s, s.retval, 64)
        want = None
        if l:
            b = S[o:o + l]
            if x.eq(b[0], 43):
                b = b[1:]
            g = parsers.number(x, b, sg)
            if g:
                v = parsers.value(x, b, g[0], g[2])
                want = None if v is None else v.scale(g[1])
        if want is None:
            return expect_int(x, ret, NPOS, "result for a text without a number")
        r = expect_int(x, ret, o + l, "number of characters read")
        if r:
            return r
        got = x.out(out, 0, "i", w // 8)
        if got is None:
            return "value left unset"
        return None if congruent(x, got, want, w) else "value is %r, expected %r modulo 2^%d" % (got, want, w)
    return Case("%s/len %d%s" % (entry, n, head and "/text '%s'" % head), entry, mk, spec)


LONG = ["12345678??", "-1234567?9?", "   \t  1?", "  -0x1234567??", "0x??", "0b101??", "0o17?5?", "+12?", "0000000000?1?", "\n\r +0X1?,", "1234567890123456789?", "00??", "  ??  5",
        "?        ", "0b1010101010101010101010101010101?", "12345,?", "123456789?,1"]
WORDS = [("false", 0), ("true", 1), ("False", 0), ("True", 1), ("FALSE", 0), ("TRUE", 1)]


def boolval(x, S):
    """0, 1 or None"""
    n = len(S)
    for wd, v in WORDS:
        if len(wd) == n and all(x.eq(S[i], ord(c)) for i, c in enumerate(wd)):
            return Lin(v)
    g = parsers.number(x, S, 1)
    if not g:
        return None
    v = parsers.value(x, S, g[0], g[2])
    if v is None:
        return None
    return Lin(0) if x.eq(x.I.U(x.s, v, 32), 0) else Lin(1)


def boolcase(entry, n, head=""):
    def mk(I):
        so, sn, out = sbuf(I, n, 1)

        def setup(s):
            for i, c in enumerate(head):
                if c != "?":
                    s.st.add_eq(X(I, s).init(so, i) - ord(c))
        return [Ptr(so, ZERO), sn, Ptr(out, ZERO)], (so, out), setup

    def spec(x, env, s):
        so, out = env
        S = x.text(so, n)
        if entry == "f_bool":
            o, l = nonempty(x, S)
            want = boolval(x, S[o:o + l]) if l else None
            ret = rint(x.I, s, s.retval, 64)
            r = expect_int(x, ret, NPOS if want is None else o + l, "number of characters read")
        else:
            want = boolval(x, S)
            r = expect_int(x, rint(x.I, s, s.retval, 1), 0 if want is None else 1, "success")
        if r or want is None:
            return r
        return expect_int(x, x.out(out, 0, "i", 1), want, "value")
    c = Case("%s/len %d%s" % (entry, n, "/" + head if head else ""), entry, mk, spec)

    def permitted(x, env):
        """reading a number must not start with '+'"""
        S = x.text(env[0], n)
        o, l = nonempty(x, S) if entry == "f_bool" else (0, n)
        return not l or not x.eq(S[o], 43)
    c.permitted = permitted
    return c


def charcase(entry):
    def mk(I):
        so, sn, out = sbuf(I, None, 1)
        return [Ptr(so, ZERO), sn, Ptr(out, ZERO)], (so, sn, out), None

    def spec(x, env, s):
        so, sn, out = env
        if entry == "f_char":
            ok = x.ge(sn, 1)
            r = expect_int(x, rint(x.I, s, s.retval, 64), 1 if ok else NPOS)
        else:
            ok = x.eq(sn, 1)
            r = expect_int(x, rint(x.I, s, s.retval, 1), 1 if ok else 0)
        if r or not ok:
            return r
        return expect_int(x, x.out(out, 0, "i", 1), x.init(so, 0), "value")
    return Case(entry, entry, mk, spec)


def csubcase(entry, n):
    def mk(I):
        so, sn, out = sbuf(I, n, 16)
        return [Ptr(so, ZERO), sn, Ptr(out, ZERO)], (so, sn, out), None

    def spec(x, env, s):
        so, sn, out = env
        if entry == "b_csub":
            return expect_int(x, rint(x.I, s, s.retval, 1), 1) or expect_view(x, x.out(out, 0, "p"), x.out(out, 8), so, 0, sn)
        o, l = nonempty(x, x.text(so, n))
        r = expect_int(x, rint(x.I, s, s.retval, 64), o + l if l else NPOS)
        if r or not l:
            return r
        return expect_view(x, x.out(out, 0, "p"), x.out(out, 8), so, o, l)
    return Case("%s/%s" % (entry, n), entry, mk, spec)


def subcase(entry, n):
    """reading characters into a destination of any size"""
    def mk(I):
        so, sn, out = sbuf(I, n, 16)
        d, dn = strobj(I, "d", None)

        def setup(s):
            s.mem[out.id] = (("st", Lin(0), 8, Ptr(d, ZERO), 64, None), ("st", Lin(8), 8, dn, 64, None))
        return [Ptr(so, ZERO), sn, Ptr(out, ZERO)], (so, sn, out, d, dn), setup

    def spec(x, env, s):
        so, sn, out, d, dn = env
        if entry == "b_sub":
            o, l = 0, n
            ok = x.ge(dn, l)
            r = expect_int(x, rint(x.I, s, s.retval, 1), 1 if ok else 0)
            if ok:
                r = r or expect_int(x, x.out(out, 8), l, "length of the destination")
        else:
            o, l = nonempty(x, x.text(so, n))
            ok = l and x.ge(dn, l)
            r = expect_int(x, rint(x.I, s, s.retval, 64), o + l if ok else NPOS)
        if r or not ok:
            return r
        for i in range(l):
            r = r or expect_int(x, x.cur(d, i), x.init(so, o + i), "character %d" % i)
        return r
    return Case("%s/len %d" % (entry, n), entry, mk, spec)


def h_align(I, s, a, ins):
    """std::align where the address modulo the alignment is known"""
    al, sz = I.U(s, I.asint(s, a[0], 64), 64), s.st.norm(I.U(s, I.asint(s, a[1], 64), 64))
    loc = ins.get("loc")
    p = I.load(s, a[2], 8, "p", 64, loc)
    sp = I.U(s, I.asint(s, I.load(s, a[3], 8, "i", 64, loc), 64), 64)
    al = s.st.norm(al)
    ad = s.st.norm(I.addr(s, p)) if isinstance(p, Ptr) else None
    if ad is None or not al.isconst() or any(q % al.c for q in ad.t.values()):
        raise Unsupported("std::align")
    pad = -ad.c % al.c
    q = Ptr(p.obj, s.st.norm(p.off + pad))

    def ok(x):
        I.store(x, a[2], q, 8, loc)
        I.store(x, a[3], x.st.norm(sp - pad), 8, loc)
    return MultiRet([(("ge", sp - sz - pad), q, ok), (("ge", sz + pad - sp - 1), NULL, lambda x: None)])


def rawcase(entry, al, res, k):
    """raw data of k bytes, read from text at an address which is res modulo the alignment"""
    def mk(I):
        so, sn = strobj(I, "s", None)
        so.addr = I.sym("address/64", 64, 1 << 40, "addr").scale(64) + res
        d, dn = strobj(I, "d", k)
        return [Ptr(so, ZERO), sn, Ptr(d, ZERO)] + ([Lin(k), Lin(al)] if entry.endswith("raw") else []), (so, sn, d), None

    def spec(x, env, s):
        so, sn, d = env
        pad = -res % al
        fits = x.ge(sn, pad + k)
        if s.status != "ret":
            return "refused, but the data are there" if fits else None
        w = 64 if entry[0] == "f" else 8
        rv = rint(x.I, s, s.retval, w)
        if not fits:
            return expect_int(x, rv, Lin(NPOS if w == 64 else 0), "result for a text too short")
        r = expect_int(x, rv, Lin(pad + k if w == 64 else 1), "result")
        for i in range(k):
            r = r or expect_int(x, x.cur(d, i), x.init(so, pad + i), "byte %d" % i)
        return r
    return Case("%s, %d bytes, alignment %d, address %d" % (entry, k, al, res), entry, mk, spec)


RAWX = dict(EXT)
RAWX["~std::align("] = h_align


def seqtask(name, order, lits, nargs):
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EXT)
        L = I.sym("len", 0, 1 << 40, "len")
        buf = Obj("buf", "text", L)
        ps = [oqarg(I, "a%d" % i) for i in range(nargs)]
        fs = I.start(name, [Ptr(buf, ZERO), L] + ps, None)
        r.stat("abstract_states", len(fs))
        if not fs:
            r.undecided(name, "no final state")
        for s in fs:
            if s.status != "ret":
                r.bad(name + ":noret", "does not return normally", "", describe(s))
                continue
            ev = [e for e in s.events if e[0] == "fromfirst"]
            pos = ZERO
            msg = None
            fail = False
            if [e[1] for e in ev] != order[:len(ev)]:
                msg = "arguments are read in the order %s, expected %s" % ([e[1] for e in ev], order)
            else:
                short = False
                for i, e in enumerate(ev):
                    _, nm, p, n, used, loc = e
                    pos = s.st.norm(pos + lits[i])
                    if fail:
                        msg = "argument %s is read although the previous conversion failed" % nm
                        break
                    if s.st.decide(("ge", pos - L - 1)) is True:
                        # literal text longer than what is left: an empty view must be given
                        if s.st.decide(("eq", n)) is not True:
                            msg = "argument %s is read from beyond the end of the text" % nm
                            break
                        short = True
                    elif not (s.st.decide(("eq", n - L + pos)) is True and (s.st.decide(("eq", n)) is True or isinstance(p, Ptr) and p.obj is buf and s.st.decide(("eq", p.off - pos)) is True)):
                        if short and s.st.decide(("eq", n)) is True:
                            pass
                        else:
                            msg = "argument %s is read from %r (%r characters), expected from position %r of the text" % (nm, p, n, pos)
                            break
                    if used is None:
                        fail = True
                    else:
                        pos = s.st.norm(pos + used)
                if msg is None and not fail and len(ev) < len(order):
                    msg = "only %d of %d arguments are read" % (len(ev), len(order))
            if msg is None:
                rv = rint(I, s, s.retval)
                want = Lin(NPOS) if fail else pos + lits[len(ev)]
                if s.st.decide(("eq", rv - want)) is not True:
                    msg = "returns %r, expected %r" % (rv, s.st.norm(want))
            if msg is None:
                r.good("sequence of reads")
            elif s.loops:
                r.undecided(name, msg)
            else:
                r.bad(name + ":seq", msg, "entry " + name, describe(s))
    return fn


def go(c, r, soft=False, **k):
    I, fs = run_case(m, c, r, **k)
    memcheck(r, I, c.entry, soft=soft, objs=("s", "d", "v"))


if m:
    big = dict(max_states=60000, max_steps=4000000)
    for t, ct, w, sg in parsers.TYPES + [("ill", "", 64, 1), ("ull", "", 64, 0), ("ptr", "", 64, 1)]:
        for n in range(0, 5 if not T else 6):
            c = intfirst("f_" + t, w, sg, n)
            ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
        for h in LONG:
            c = intfirst("f_" + t, w, sg, len(h), h)
            ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
    for en in ("b_bool", "f_bool"):
        for n in range(0, 4 if not T else 5):
            c = boolcase(en, n)
            ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
        for wd, v in WORDS:
            for i in range(len(wd)):
                h = wd[:i] + "?" + wd[i + 1:]
                for hh in ((h, " " + h, h + " x") if en == "f_bool" else (h, h + "x", " " + h)):
                    c = boolcase(en, len(hh), hh)
                    ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
    for en in ("f_char", "b_char"):
        ck.task(en, lambda r, en=en: go(charcase(en), r))
    ck.task("b_csub", lambda r: go(csubcase("b_csub", None), r))
    for n in range(0, 5 if not T else 7):
        ck.task("f_csub/%d" % n, lambda r, n=n: go(csubcase("f_csub", n), r))
        for en in ("b_sub", "f_sub"):
            ck.task("%s/%d" % (en, n), lambda r, en=en, n=n: go(subcase(en, n), r))
    for en, al, k in [(e, a, k) for e in ("f_raw", "fv_raw", "b_raw") for a in (1, 2, 4, 8, 16, 64) for k in (0, 1, 3, 4, 8)] + [("f_rawi", 4, 4), ("b_rawi", 4, 4), ("f_rawm", 16, 5)]:
        for res in range(al) if al < 64 else (0, 1, 31, 63):
            c = rawcase(en, al, res, k)
            ck.task(c.name, lambda r, c=c: go(c, r, ext=RAWX, aborts=True))
    for q in SEQ:
        ck.task(q[0], seqtask(*q))
    ck.run()
ck.finish("a first-value read returns the end position of the value and stores it, or npos when the text does not start (after blanks) with one; a sequence read hands each argument the text from where the previous one ended, in order, stops at the first failure with npos, and otherwise returns the total",
          "abstract interpretation of every from_chars_first overload on all short texts, and of uncat/uncatsep/unformat over opaque argument types and texts of any length",
          ["a user from_chars_first consumes at most the view it is given or returns npos", "text length below 2^40"], {"entries": 20 + len(SEQ)})
