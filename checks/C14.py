from spec import *

ck = Check("C14")
ALPH = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
src = HDR + '''#include <c4/base64.hpp>
W size_t dec(const char *s, size_t n, char *d, size_t m) { return base64_decode(csubstr(s, n), blob(d, m)); }
W size_t decfmt(const char *s, size_t n, char *d, size_t m) { auto w = fmt::base64(substr(d, m)); return from_chars(csubstr(s, n), &w); }
W bool valid(const char *s, size_t n) { return base64_valid(csubstr(s, n)); }
'''
m = ck.ir("d", src, sources=["src/c4/base64.cpp"])
SEG = [(65, 90), (97, 122), (48, 57), (43, 43), (47, 47)]


def dec_case(entry, n, pad, i):
    """valid text of n characters, the last `pad` of them padding; decoded byte i"""
    def mk(I):
        d, dn = strobj(I, "data", None)
        so, sn = strobj(I, "s", n)
        sx = [I.sym("sextet%d" % j, 0, 63, "in") for j in range(n - pad)]

        def setup(s):
            lg = ()
            for j in range(n):
                want = I.fnload(s, lambda q: ALPH[q] if 0 <= q < 64 else None, sx[j], 8, "alphabet") if j < n - pad else Lin(61)
                lg += (("st", Lin(j), 1, want, 8, None),)
            s.mem[so.id] = lg
        return [Ptr(so, ZERO), sn, Ptr(d, ZERO), dn], (so, d, dn, sx), setup

    def spec(x, env, s):
        so, d, dn, sx = env
        total = n // 4 * 3 - pad
        r = expect_int(x, rint(x.I, s, s.retval, 64), total, "size")
        if r or i >= total or not x.gt(dn, i):
            return r
        g, k = divmod(i, 3)
        a, b = sx[4 * g + k], sx[4 * g + k + 1]
        lowbits = (6, 4, 2)[k]              # bits taken from a
        up = 1 << (8 - lowbits)
        ma = 1 << lowbits
        hi = a - x.I.div(s, a, ma).scale(ma) if lowbits < 6 else a
        want = hi.scale(up) + x.I.div(s, b, 1 << (6 - (8 - lowbits)))
        return expect_int(x, x.cur(d, i), want, "byte %d" % i)
    return Case("%s/%d characters/%d padding/byte %d" % (entry, n, pad, i), entry, mk, spec)


def size_case(entry, n, pad):
    """longer valid text: the returned size, for any destination size"""
    c = dec_case(entry, n, pad, n)
    c.name = "%s/%d characters/%d padding/size" % (entry, n, pad)
    return c


def len_case(entry, n):
    """text whose length is no multiple of four: an error"""
    def mk(I):
        so, sn = strobj(I, "s", n)
        d, dn = strobj(I, "data", None)

        def setup(s):
            s.mem[so.id] = tuple(("st", Lin(j), 1, Lin(65 + j), 8, None) for j in range(n))
        return [Ptr(so, ZERO), sn, Ptr(d, ZERO), dn], None, setup
    return Case("%s/length %d" % (entry, n), entry, mk, lambda x, env, s: None if s.status != "ret" else "length|accepts text whose length is no multiple of four")


def inalph(x, c):
    return any(x.inr(c, lo, hi) for lo, hi in SEG)


def valid_case(n, head=""):
    def mk(I):
        so, sn = strobj(I, "s", n)

        def setup(s):
            for i, ch in enumerate(head):
                s.st.add_eq(X(I, s).init(so, i) - ord(ch))
        return [Ptr(so, ZERO), sn], so, setup

    def spec(x, so, s):
        b = x.text(so, n)
        want = n % 4 == 0
        if want:
            e = n
            while e > 0 and n - e < 2 and x.eq(b[e - 1], 61):
                e -= 1
            want = all(inalph(x, c) for c in b[:e])
        return expect_int(x, rint(x.I, s, s.retval, 1), 1 if want else 0, "validity")
    return Case("valid/len %d%s" % (n, "/starts with " + head if head else ""), "valid", mk, spec)


def any_case(entry):
    def mk(I):
        so, sn = strobj(I, "s", None)
        d, dn = strobj(I, "data", None)
        q = I.sym("quartets", 0, 1 << 38, "in")

        def setup(s):
            s.st.add_eq(sn - q.scale(4))
        return [Ptr(so, ZERO), sn] + ([] if entry == "valid" else [Ptr(d, ZERO), dn]), None, setup
    return Case("%s/any length" % entry, entry, mk, lambda x, env, s: None)


def go(c, r, soft=False, **k):
    I, fs = run_case(m, c, r, **k)
    memcheck(r, I, c.entry, soft=soft, objs=("s", "data") if soft else None)


if m:
    for en in ("dec", "decfmt"):
        for n in (0, 4, 8) + ((12,) if ck.thorough else ()):
            for pad in (0, 1, 2) if n else (0,):
                for i in range(max(1, n // 4 * 3 - pad)):
                    c = dec_case(en, n, pad, i)
                    ck.task(c.name, lambda r, c=c: go(c, r))
        for n in (12, 16, 20, 24, 32, 40) + ((64, 68) if ck.thorough else ()):
            for pad in (0, 1, 2):
                for i in (None, 0, n // 4 * 3 - pad - 1, n // 8 * 3):
                    c = size_case(en, n, pad) if i is None else dec_case(en, n, pad, i)
                    ck.task(c.name, lambda r, c=c: go(c, r))
        for n in (1, 2, 3, 5, 6, 7):
            c = len_case(en, n)
            ck.task(c.name, lambda r, c=c: go(c, r, soft=True, aborts=True))
    big = dict(tabsplit=True, max_states=40000, max_steps=3000000)
    for n in range(0, 5):
        c = valid_case(n)
        ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
    for n, h in ((7, "AbC+"), (8, "aZ09+/"), (8, "abc"), (8, "abcdef"), (12, "aaaabbbbc"), (8, "ab==a"), (8, "abc=a"), (8, "ab=/ab"), (6, "aa"), (8, "aaaaa")):
        c = valid_case(n, h) if n - len(h) <= 4 else None
        if c:
            ck.task(c.name, lambda r, c=c: go(c, r, opts=big))
    for en in ("dec", "decfmt", "valid") if not Check.master else ():  # any text: not what decode's assertions permit
        c = any_case(en)
        ck.task(c.name, lambda r, c=c: go(c, r, soft=True))
    ck.run()
ck.finish("valid text decodes to exactly the bytes whose encoding it is, the returned size is 3*n/4 minus padding whatever the destination size, nothing is written outside it; base64_valid accepts exactly the texts of length 4k made of alphabet characters followed by at most two '='",
          "abstract interpretation of base64_decode with each character expressed as the alphabet table applied to a symbolic sextet (the two tables must compose to the identity), of base64_valid on strings up to the bound with arbitrary symbolic characters, and of both on any length for memory bounds",
          ["decode is given valid text (its documented precondition)", "lengths below 2^40"], {"entries": 3})
