from parsers import *

ck = Check("C15")
src = HDR + '''#include <c4/utf.hpp>
W size_t cp(uint8_t *b, size_t n, uint32_t code) { return decode_code_point(b, n, code); }
struct R { size_t n; char *p; };
W void cps(R *o, char *b, size_t n, const char *s, size_t sn) { auto v = decode_code_point(substr(b, n), csubstr(s, sn)); o->n = v.len; o->p = v.str; }
'''
m = ck.ir("u", src, sources=["src/c4/utf.cpp"])


def enc(x, c):
    I, s = x.I, x.s

    def low(e):
        return e - I.div(s, e, 64).scale(64)
    if x.le(c, 0x7f):
        return [c]
    a = I.div(s, c, 64)
    if x.le(c, 0x7ff):
        return [a + 0xc0, low(c) + 0x80]
    b = I.div(s, a, 64)
    if x.le(c, 0xffff):
        return [b + 0xe0, low(a) + 0x80, low(c) + 0x80]
    d = I.div(s, b, 64)
    if x.le(c, 0x10ffff):
        return [d + 0xf0, low(b) + 0x80, low(a) + 0x80, low(c) + 0x80]
    return []


def cpcase():
    def mk(I):
        b, bn = strobj(I, "buf", None)
        code = I.sym("code", 0, (1 << 32) - 1, "in")

        def setup(s):
            s.st.add_ge(bn - 4)
        return [Ptr(b, ZERO), bn, code], (b, code), setup

    def spec(x, env, s):
        b, code = env
        want = enc(x, code)
        r = expect_int(x, rint(x.I, s, s.retval, 64), len(want), "number of bytes")
        for i, w in enumerate(want):
            r = r or expect_int(x, x.cur(b, i), w, "byte %d" % i)
        return r
    return Case("decode_code_point", "cp", mk, spec)


def cpscase(n):
    def mk(I):
        b, bn = strobj(I, "buf", None)
        so, sn = strobj(I, "s", n)
        o = Obj("out", "o", 16)

        def setup(s):
            s.st.add_ge(bn - 4)
            x = X(I, s)
            s.st.add_ne(x.init(so, 0) - 48)
        return [Ptr(o, ZERO), Ptr(b, ZERO), bn, Ptr(so, ZERO), sn], (o, b, so), setup

    def spec(x, env, s):
        o, b, so = env
        v = value(x, x.text(so, n), 16, 0)
        if v is None:
            return None if s.status != "ret" else None     # not a hexadecimal number: reported through the error handler
        if s.status != "ret":
            return "noret|a valid code point is reported as an error"
        want = enc(x, v)
        r = expect_view(x, x.out(o, 8, "p"), x.out(o, 0), b, 0, len(want))
        for i, w in enumerate(want):
            r = r or expect_int(x, x.cur(b, i), w, "byte %d" % i)
        return r
    return Case("decode_code_point from %d hex digits" % n, "cps", mk, spec)


def go(c, r, **k):
    I, fs = run_case(m, c, r, **k)
    memcheck(r, I, c.entry)


if m:
    c = cpcase()
    ck.task(c.name, lambda r, c=c: go(c, r))
    for n in range(1, 5 if not ck.thorough else 7):
        c = cpscase(n)
        ck.task(c.name, lambda r, c=c: go(c, r, aborts=True, opts=dict(max_states=50000, max_steps=3000000)))
    ck.run()
ck.finish("every code point up to 0x10ffff is written as its UTF-8 encoding and the byte count is returned; larger values write nothing and return 0; at most four bytes are written",
          "abstract interpretation of decode_code_point for all 2^32 code values (one symbolic value, split by the code's own ranges) and for all hexadecimal strings up to the bound",
          ["buffer of at least four bytes (documented precondition)"], {"entries": 2})
