from subcat import *

ck = Check("C11")
M = []


def mu(name, expr, ref, params="", pre=None, ret=None, plens=None):
    body = {None: expr + ";", "n": "o->n = " + expr + ";", "v": "auto v = %s; o->n = v.len; o->p = v.str;" % expr}[ret]
    M.append(E(name, None, ret, ref, params, pre=pre, body=body, plens=plens))


def upper(x, h):
    return h - 32 if x.inr(h, 97, 122) else h


def lower(x, h):
    return h + 32 if x.inr(h, 65, 90) else h


def rev(S, a, n):
    return S[:a] + S[a:a + n][::-1] + S[a + n:]


def copyf(S, P, a, num):
    num = min(len(S) - a if num == NPOS else num, len(P))
    return S[:a] + P[:num] + S[a + num:]


def repl(x, S, f, v, a):
    out, n = list(S[:a if a != NPOS else len(S)]), 0
    for h in S[len(out):]:
        if f(h):
            n += 1
            out.append(v)
        else:
            out.append(h)
    return out, n


def er(S, a, n):
    # the bytes behind the shortened string are not specified
    return S[:a] + S[a + n:] + [None] * n, (0, len(S) - n)


def two(sn, a, b):
    return [sn - a, sn - a - b]


def rng(sn, a, b):
    return [b - a, sn - b]


def a_or_npos(sn, a, b):
    return [] if a.isconst() and a.c == NPOS else [sn - a]


mu("toupper", "s.toupper()", lambda x, S, P, c, d, a, b: ([upper(x, h) for h in S], None))
mu("tolower", "s.tolower()", lambda x, S, P, c, d, a, b: ([lower(x, h) for h in S], None))
mu("fill", "s.fill(c)", lambda x, S, P, c, d, a, b: ([c] * len(S), None), "c")
mu("copy_from", "s.copy_from(p)", lambda x, S, P, c, d, a, b: (copyf(S, P, 0, NPOS), None), "p")
mu("copy_from_at", "s.copy_from(p, a)", lambda x, S, P, c, d, a, b: (copyf(S, P, a.c, NPOS), None), "pa", A_le)
mu("copy_from_n", "s.copy_from(p, a, b)", lambda x, S, P, c, d, a, b: (copyf(S, P, a.c, b.c), None), "pab", two)
mu("reverse", "s.reverse()", lambda x, S, P, c, d, a, b: (S[::-1], None))
mu("reverse_sub", "s.reverse_sub(a, b)", lambda x, S, P, c, d, a, b: (rev(S, a.c, b.c), None), "ab", two)
mu("reverse_range", "s.reverse_range(a, b)", lambda x, S, P, c, d, a, b: (rev(S, a.c, b.c - a.c), None), "ab", rng)
mu("erase", "s.erase(a, b)", lambda x, S, P, c, d, a, b: er(S, a.c, b.c), "ab", two, "v")
mu("erase_range", "s.erase_range(a, b)", lambda x, S, P, c, d, a, b: er(S, a.c, b.c - a.c), "ab", rng, "v")
mu("erase_sub", "s.erase(csubstr(sp + a, b))", lambda x, S, P, c, d, a, b: er(S, a.c, b.c), "ab", two, "v")
mu("replace_c", "s.replace(c, d)", lambda x, S, P, c, d, a, b: repl(x, S, lambda h: x.eq(h, c), d, 0), "cd", None, "n")
mu("replace_c_at", "s.replace(c, d, a)", lambda x, S, P, c, d, a, b: repl(x, S, lambda h: x.eq(h, c), d, a.c), "cda", a_or_npos, "n")
mu("replace_s", "s.replace(p, d)", lambda x, S, P, c, d, a, b: repl(x, S, lambda h: within_set(x, h, P), d, 0), "pd", None, "n")
mu("replace_s_at", "s.replace(p, d, a)", lambda x, S, P, c, d, a, b: repl(x, S, lambda h: within_set(x, h, P), d, a.c), "pda", a_or_npos, "n")
m = ck.ir("m", witness(M, "substr", "char"))
T = ck.thorough


def h_ctype(f):
    def h(I, s, a, ins):
        v = s.st.norm(I.S(s, I.asint(s, a[0], 32), 32))
        ok = s.st.prove(v + 1) and s.st.prove(Lin(255) - v)
        s.tags["ctype"] = s.tags.get("ctype", True) and ok
        lo, hi, d = (97, 122, -32) if f == "toupper" else (65, 90, 32)
        n = lambda x: None
        return MultiRet([(("ge", Lin(lo - 1) - v), v, n), (("ge", v - hi - 1), v, n), (("and", ("ge", v - lo), ("ge", Lin(hi) - v)), v + d, n)])
    return h


EXT = {"toupper": h_ctype("toupper"), "tolower": h_ctype("tolower")}


def mcase(k, n, pn, ab, head="", phead=""):
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        if s.tags.get("ctype") is False:
            return "ctype|a character value outside the range of unsigned char is passed to a <cctype> function"
        S = x.text(so, n)
        P = x.text(po, pn)
        want, ret = k.ref(x, S, P, c, d, a, b)
        assert len(want) == n
        r = None
        for i, w in enumerate(want):
            if w is not None:
                r = r or expect_int(x, x.cur(so, i), w, "character %d" % i)
        for i in range(pn):
            r = r or expect_int(x, x.cur(po, i), P[i], "source character %d" % i)
        if k.kind == "n":
            r = r or expect_int(x, x.out(out, 0), ret, "count")
        elif k.kind == "v":
            r = r or expect_view(x, x.out(out, 8, "p"), x.out(out, 0), so, ret[0], ret[1])
        return r
    return Case("%s/len %d/pattern %d/sizes %d,%d%s%s" % ((k.name, n, pn) + ab + (head and "/text " + show(head), phead and "/pattern " + show(phead))), "s_" + k.name, mkargs(k, n, pn, False, ab, head, phead), spec)


# replace_all into a separate destination
RA = HDR + '''
W size_t ra(const char *sp, size_t sn, const char *pp, size_t pn, const char *rp, size_t rn, char *dp, size_t dn) { return csubstr(sp, sn).replace_all(substr(dp, dn), csubstr(pp, pn), csubstr(rp, rn)); }
W size_t rap(const char *sp, size_t sn, const char *pp, size_t pn, const char *rp, size_t rn, char *dp, size_t dn, size_t pos) { return substr((char*)sp, sn).replace_all(substr(dp, dn), csubstr(pp, pn), csubstr(rp, rn), pos); }
'''
mra = ck.ir("ra", RA)


def rall(x, S, P, R, pos):
    out = list(S[:pos])
    i = pos
    while i < len(S):
        if eqat(x, S, i, P):
            out += R
            i += len(P)
        else:
            out.append(S[i])
            i += 1
    return out


def racase(n, pn, rn, dn, pos, head="", phead=""):
    def mk(I):
        so, sn = strobj(I, "s", n)
        po, pl = strobj(I, "p", pn)
        ro, rl = strobj(I, "r", rn)
        do, dl = strobj(I, "dst", dn)
        args = [Ptr(so, ZERO), sn, Ptr(po, ZERO), pl, Ptr(ro, ZERO), rl, Ptr(do, ZERO), dl]
        if pos is not None:
            args.append(Lin(pos))

        def setup(s):
            for o, h in ((so, head), (po, phead)):
                for i, ch in enumerate(h):
                    if ch != "\0":
                        s.st.add_eq(X(I, s).init(o, i) - ord(ch))
        return args, (so, po, ro, do, dl), setup

    def spec(x, env, s):
        so, po, ro, do, dl = env
        S, P, R = x.text(so, n), x.text(po, pn), x.text(ro, rn)
        want = rall(x, S, P, R, n if pos == NPOS else pos or 0)
        r = expect_int(x, rint(x.I, s, s.retval, 64), len(want), "required size")
        if not r and x.ge(dl, len(want)):
            for i, w in enumerate(want):
                r = r or expect_int(x, x.cur(do, i), w, "output character %d" % i)
        return r
    return Case("replace_all/len %d/pattern %d/replacement %d/dst %s/pos %s%s%s" % (n, pn, rn, dn, pos, head and "/text " + show(head), phead and "/pattern " + show(phead)), "ra" if pos is None else "rap", mk, spec)


def anylen(k):
    """strings of any length: memory bounds, and the characters that must not change"""
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        if k.kind == "v":
            return within(x, x.out(out, 8, "p"), x.out(out, 0), so, sn)
        if k.kind == "n":
            return None if x.le(x.out(out, 0), sn) else "count %r exceeds the length" % x.out(out, 0)
        return None
    kk = E(k.name, None, k.kind, None, k.params, pre=k.pre if k.pre is not a_or_npos else A_le)
    return Case(k.name + "/any length", "s_" + k.name, mkargs(kk, None, None), spec)


def ra_any(entry):
    def mk(I):
        so, sn = strobj(I, "s", None)
        po, pl = strobj(I, "p", None)
        ro, rl = strobj(I, "r", None)
        do, dl = strobj(I, "dst", None)
        pos = I.sym("pos", 0, NPOS, "in")

        def setup(s):
            s.st.add_ge(pl - 1)
            if entry == "rap":
                s.st.add_ge(sn - pos)
        return [Ptr(so, ZERO), sn, Ptr(po, ZERO), pl, Ptr(ro, ZERO), rl, Ptr(do, ZERO), dl] + ([pos] if entry == "rap" else []), None, setup
    return Case("replace_all/any length", entry, mk, lambda x, env, s: None)


def go(mod, c, r, soft=False, **k):
    I, fs = run_case(mod, c, r, **k)
    memcheck(r, I, c.entry, soft=soft)


if m:
    for k in M:
        for n in range(0, (5 if "p" in k.params else 7) + (2 if T else 0)):
            for pn in (k.plens or (0, 1, 3)) if "p" in k.params else (0,):
                if pn == 3 and n > 3 and k.name.startswith("replace") and not T:
                    continue
                for ab in sizes(k, n):
                    c = mcase(k, n, pn, ab)
                    ck.task(c.name, lambda r, c=c: go(m, c, r, ext=EXT))
    for k in M:
        for n in (9, 17, 33):
            for h in longtexts(n) if k.name.startswith("replace") or "upper" in k.name or "lower" in k.name else [""]:
                for ph in (["\0", "\0a", "aabca\0"] if k.name.startswith("replace") else ["\0" * 9]) if "p" in k.params else [""]:
                    if k.plens and len(ph) not in k.plens:
                        continue
                    for ab in someat(k, n):
                        c = mcase(k, n, len(ph), ab, h, ph)
                        ck.task(c.name, lambda r, c=c: go(m, c, r, ext=EXT))
    for k in M:
        if k.name.startswith("replace") and not T:
            continue       # nested search loop: bounded lengths only
        c = anylen(k)
        ck.task(c.name, lambda r, c=c: go(m, c, r, ext=EXT, soft=True, opts={"max_backs": 64, "max_outs": 400}))
if mra:
    for en in ("ra", "rap") if T else ():
        c = ra_any(en)
        ck.task(c.name, lambda r, c=c: go(mra, c, r, soft=True, opts={"max_backs": 64, "max_outs": 400}))
    for n in range(0, 5 + (1 if T else 0)):
        for pn in (1, 2):
            for rn in (0, 1, 2, 3):
                for dn in (None, 0, 3):
                    for pos in (None, 0, 1, n, NPOS):
                        if pos is None or pos == NPOS or pos <= n:
                            if dn is not None and pos not in (None, 1):
                                continue
                            c = racase(n, pn, rn, dn, pos)
                            ck.task(c.name, lambda r, c=c: go(mra, c, r))
    for n in (9, 17):
        for h in longtexts(n):
            for ph in ("\0", "b\0", "aaa\0", "cabab\0"):
                for rn in (0, 1, 9):
                    for dn in (None,) if n > 9 else (None, 9, 10):
                        for pos in (None, 8):
                            c = racase(n, len(ph), rn, dn, pos, h, ph)
                            ck.task(c.name, lambda r, c=c: go(mra, c, r))
ck.run()
ck.finish("after an in-place operation every character of the string, the returned count or view, and the read-only operands equal the reference result; replace_all returns the size of, and (when it fits) writes, exactly the text with all non-overlapping occurrences replaced",
          "abstract interpretation of every mutating operation on strings up to the length bound with symbolic characters; every memory access is also a bounds obligation",
          ["string lengths up to the bound", "C locale ctype tables", "documented preconditions (positions inside the string, non-empty pattern, no overlap of source and destination)"],
          {"operations": len(M) + 2})
