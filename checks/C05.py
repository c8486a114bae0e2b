from parsers import *

ck = Check("C05")
fam = family()
m = ck.ir("p", witness(fam))
LM = {"num": 5, "dec": 6, "hex": 4, "oct": 5, "bin": 10} if not ck.thorough else {"num": 7, "dec": 8, "hex": 6, "oct": 8, "bin": 14}


def bounded(nm, T, kind, n, shape=None):
    w = T[2]

    def mk(I):
        o, ln = strobj(I, "s", n)
        out = Obj("out", "v", w // 8)

        def setup(s):
            for i, c in enumerate(shape or ""):
                if c != "?":
                    s.st.add_eq(X(I, s).init(o, i) - ord(c))
        return [Ptr(o, ZERO), ln, Ptr(out, ZERO)], (o, out), setup

    def spec(x, env, s):
        o, out = env
        b = x.text(o, n)
        if kind == "num":
            g = number(x, b, T[3])
            want = None
            if g:
                v = value(x, b, g[0], g[2])
                want = None if v is None else v.scale(g[1])
        else:
            want = value(x, b, RADS[kind], 0)
        ok = rint(x.I, s, s.retval, 1)
        if want is None:
            return None if x.eq(ok, 0) else "accept|accepts a string that is not a number"
        if not x.eq(ok, 1):
            return "reject|rejects a well formed number"
        if shape and shape.count("?") == 1:
            x.const(b[shape.index("?")])
        got = x.out(out, 0, "i", w // 8)
        if got is None:
            return "unset|accepts but leaves the value unset"
        return None if congruent(x, got, want, w) else "value|value is %r, expected %r modulo 2^%d" % (got, want, w)
    c = Case("%s/len=%d%s" % (nm, n, "/" + shape if shape else ""), nm, mk, spec)
    if n and kind == "num" and T[3]:
        # "the string must not start with '+'"
        c.permitted = lambda x, env: not x.eq(x.init(env[0], 0), 43)
    return c


def shapes(T, kind):
    """long strings: everything fixed except a few positions, up to past the type's width"""
    w = T[2]
    ks = {"dec": ("", 10, "7"), "hex": ("0x", 16, "b"), "oct": ("0o", 8, "5"), "bin": ("0b", 2, "1")}
    out = []
    for rk, (pfx, radix, d) in ks.items():
        if kind not in ("num", rk):
            continue
        pfx = pfx if kind == "num" else ""
        D = 0
        while radix ** D < (1 << w):
            D += 1
        for sg in ("", "-") if kind == "num" and T[3] else ("",):
            for n in sorted({D, D + 1, 9, 17, 33} if not ck.thorough else {D - 1, D, D + 1, 9, 17, 33, 70}):
                for fill in (d, "0"):
                    b = fill * n
                    out.append(sg + pfx + b[:-2] + "??")
                    out.append(sg + pfx + "?" + b[1:])
                    out.append(sg + pfx + b[:n // 2] + "?" + b[n // 2 + 1:])
    return out


def unbounded(nm, T, kind):
    """strings of any length: the accumulating loop is checked as a recurrence"""
    w = T[2]

    def mk(I):
        o, ln = strobj(I, "s", None)
        out = Obj("out", "v", w // 8)
        return [Ptr(o, ZERO), ln, Ptr(out, ZERO)], (o, ln, out), None if kind == "num" else (lambda s: s.st.add_ge(ln - 1))

    def spec(x, env, s):
        I = x.I
        o, L, out = env
        ok = rint(I, s, s.retval, 1)
        for n in range(0, 4):
            if x.eq(L, n):
                break
        else:
            n = 4
        if kind == "num":
            g = number(x, [x.init(o, i) for i in range(n)], T[3])
        else:
            g = (RADS[kind], 1, 0)
        if g is None:
            return None if x.eq(ok, 0) else "accept|accepts a string that is not a number"
        radix, sign, i = g
        if x.s.st.norm(L).isconst():
            return None   # decided by the fixed-length cases
        if x.eq(ok, 0):
            for off, c in known_bytes(I, s, o):
                if s.st.decide(("ge", off - i)) is True and s.st.decide(("ge", L - off - 1)) is True and digit(x, c, radix) is None:
                    return None
            if havoc_constrained(s):
                return ("rejection depends on over-approximated loop state",)
            return "reject|rejects a number of unbounded length although no character is known to be wrong"
        got = x.out(out, 0, "i", w // 8)
        if got is None:
            return "unset|accepts but leaves the value unset"
        # which loop variable carries the value
        for sm in s.loops:
            for var, (iv, gv, vw) in sm.vars.items():
                if not isinstance(gv, Lin) or not isinstance(iv, Lin) or vw < w or gv.isconst():
                    continue
                if not (congr(s, got, gv.scale(sign), w)):
                    continue
                p0 = s.st.norm(L - sm.k)
                if not p0.isconst():
                    return ("the loop does not visit one character per iteration",)
                p0 = p0.c
                if p0 < i:
                    return ("digit loop starts inside the prefix",)
                for q in range(i, p0):
                    if not x.eq(x.init(o, q), 48):
                        return "value|skips character %d of the digits although it is not '0'" % q
                if not congr(s, iv, ZERO, w):
                    return "value|accumulation starts at %r" % iv
                for y, cv in sm.backs:
                    def g2(z):
                        zx = X(I, z)
                        c = zx.init(o, sm.k + p0)
                        d = digit(zx, c, radix)
                        if d is None:
                            return "accept|goes on after a character that is not a digit of radix %d" % radix
                        nv = cv[var]
                        if not isinstance(nv, Lin):
                            return ("accumulator form",)
                        if congruent(zx, nv, gv.scale(radix) + d, w):
                            return None
                        if set(h.id for h in havocs(z.st.norm(nv))) - set(gv.t):
                            return ("accumulator form",)
                        return "value|accumulates %r, expected %r" % (z.st.norm(nv), z.st.norm(gv.scale(radix) + d))
                    for z, msg in withsplit(I, y, g2):
                        if msg is not None:
                            return msg
                return None
        return ("no accumulating loop recognised",)
    c = Case("%s/any length" % nm, nm, mk, spec)
    if kind == "num" and T[3]:
        c.permitted = lambda x, env: not x.eq(x.init(env[0], 0), 43)
    return c


def congr(s, a, b, w):
    d = s.st.norm(a - b)
    return d.c % (1 << w) == 0 and all(c % (1 << w) == 0 for c in d.t.values())


if m:
    for nm, T, kind, body in fam:
        c = unbounded(nm, T, kind)
        ck.task(c.name, lambda r, c=c: run_case(m, c, r, opts={"max_backs": 64, "max_outs": 400}))

        def long(r, nm=nm, T=T, kind=kind):
            for sh in shapes(T, kind):
                lin.reset_syms()
                run_case(m, bounded(nm, T, kind, len(sh), sh), r)
        ck.task(nm + "/long", long)
    for nm, T, kind, body in fam:
        for n in range(0 if kind == "num" else 1, LM[kind] + 1):
            c = bounded(nm, T, kind, n)
            ck.task(c.name, lambda r, c=c: run_case(m, c, r))
    ck.run()
ck.finish("a string is accepted iff it is [-]digits, [-]0x.., [-]0o.. or [-]0b.. with at least one digit (no sign for unsigned types) and the stored value is the number modulo 2^w; for unbounded length every iteration of the accumulating loop must take one more digit d (value' = radix*value + d mod 2^w) and every rejection must rest on a character that is not a digit",
          "abstract interpretation of every integer parser for all 8 fixed-width types: all strings up to the length bound with symbolic characters compared with a reference grammar, plus strings of any length through the loop recurrence",
          ["string length below 2^40", "reads of a single radix require a non-empty string"],
          {"entries": len(fam), "exhaustive_string_length": LM})
