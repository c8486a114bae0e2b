from spec import *

ck = Check("C13")
ALPH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
src = HDR + '''#include <c4/base64.hpp>
W size_t enc(char *b, size_t n, const char *d, size_t m) { return base64_encode(substr(b, n), cblob(d, m)); }
W size_t encfmt(char *b, size_t n, const char *d, size_t m) { return to_chars(substr(b, n), fmt::base64(csubstr(d, m))); }
W size_t encfmtc(char *b, size_t n, const char *d, size_t m) { return to_chars(substr(b, n), fmt::cbase64(csubstr(d, m))); }
W size_t enc32(char *b, size_t n, uint32_t const *d, size_t m) { return to_chars(substr(b, n), fmt::cbase64(*d)); }
'''
m = ck.ir("e", src, sources=["src/c4/base64.cpp"])


def sextets(x, D):
    """list of sextet values / '=' for the bytes D"""
    I, s = x.I, x.s
    out = []
    for i in range(0, len(D), 3):
        t = D[i:i + 3]
        v = [t[0]] + (t[1:2] or [ZERO]) + (t[2:3] or [ZERO])
        h0 = I.div(s, v[0], 4)
        h1 = I.div(s, v[1], 16)
        h2 = I.div(s, v[2], 64)
        q = [h0, (v[0] - h0.scale(4)).scale(16) + h1, (v[1] - h1.scale(16)).scale(4) + h2, v[2] - h2.scale(64)]
        out += q[:len(t) + 1] + [None] * (3 - len(t))
    return out


def char_of(x, v):
    return Lin(61) if v is None else x.I.fnload(x.s, lambda i: ALPH[i] if 0 <= i < 64 else None, x.s.st.norm(v), 8, "alphabet")


def enc_case(entry, n, i):
    """every buffer length; output character i"""
    def mk(I):
        b, bn = strobj(I, "buf", None)
        d, dn = strobj(I, "data", n)
        return [Ptr(b, ZERO), bn, Ptr(d, ZERO), dn], (b, bn, d), None

    def spec(x, env, s):
        b, bn, d = env
        want = 4 * ((n + 2) // 3)
        r = expect_int(x, rint(x.I, s, s.retval, 64), want, "size")
        if r or i >= want or not x.gt(bn, i):
            return r
        sx = sextets(x, x.text(d, n))[i]
        return expect_int(x, x.cur(b, i), char_of(x, sx), "character %d" % i)
    return Case("%s/%d bytes/char %d" % (entry, n, i), entry, mk, spec)


def any_case(entry, n=None):
    """any amount of data: size returned, memory bounds (n: that amount)"""
    def mk(I):
        b, bn = strobj(I, "buf", None)
        d, dn = strobj(I, "data", n)
        return [Ptr(b, ZERO), bn, Ptr(d, ZERO), dn], (b, bn, d, dn), None

    def spec(x, env, s):
        b, bn, d, dn = env
        got = rint(x.I, s, s.retval, 64)
        q = x.I.div(s, dn + 2, 3)
        if x.eq(got, q.scale(4)):
            return None
        return "size|returns %r for %r bytes" % (x.s.st.norm(got), dn)
    return Case("%s/%s size" % (entry, "any" if n is None else "%#x" % n), entry, mk, spec)


def go(c, r, soft=False, **k):
    I, fs = run_case(m, c, r, **k)
    memcheck(r, I, c.entry, soft=soft)


if m:
    for en in ("enc", "encfmt", "encfmtc"):
        for n in range(0, 8 if not ck.thorough else 13):
            for i in range(4 * ((n + 2) // 3) or 1):
                c = enc_case(en, n, i)
                ck.task(c.name, lambda r, c=c: go(c, r))
        for n in (9, 10, 11, 12, 15, 16, 17, 24, 31, 32, 33, 48) + ((63, 64, 65, 96) if ck.thorough else ()):
            e = 4 * ((n + 2) // 3)
            for i in (0, e // 2, e - 4, e - 3, e - 2, e - 1):
                c = enc_case(en, n, i)
                ck.task(c.name, lambda r, c=c: go(c, r))
        for n in [None] + (WRAPS if en == "enc" and not Check.master else []):
            c = any_case(en, n)
            ck.task(c.name, lambda r, c=c: go(c, r, soft=True))
    for i in range(8):
        c = enc_case("enc32", 4, i)
        ck.task(c.name, lambda r, c=c: go(c, r))
    ck.run()
ck.finish("the output is the standard alphabet's character for each 6-bit group, then '=' padding to a multiple of four; the returned size is 4*ceil(n/3) whatever the buffer; nothing outside the buffer is written",
          "abstract interpretation of base64_encode: every data content up to the size bound with symbolic bytes and symbolic buffer length, compared per output character with the standard's definition (table entries by exhaustive case split); any data size for the returned size and memory bounds",
          ["little-endian host for multi-byte values", "data and buffer length below 2^40"], {"entries": 4})
