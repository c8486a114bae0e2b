import fmtw
from fmtw import *

ck = Check("C16")
ents = [e for e in fmtw.family()]
SUBS = []
refs = lambda k, s=0: ", ".join("Oq const& a%d" % i for i in range(s, k))
names = lambda k, s=0: ", ".join("a%d" % i for i in range(s, k))
extra = ""
for k in (1, 2, 3):
    SUBS.append(("w_catsub%d" % k, mk_oq(k)))
    extra += "W void %s(csubstr *out, char *b, size_t n, %s) { *out = cat_sub(substr(b, n), %s); }\n" % (SUBS[-1][0], refs(k), names(k))
    SUBS.append(("w_catsepsub%d" % k, mk_sep(k)))
    extra += "W void %s(csubstr *out, char *b, size_t n, %s) { *out = catsep_sub(substr(b, n), a0, %s); }\n" % (SUBS[-1][0], refs(k + 1), names(k + 1, 1))
SUBS.append(("w_formatsub", mk_fmt("a{}b{}", 2)))
extra += 'W void w_formatsub(csubstr *out, char *b, size_t n, Oq const& a0, Oq const& a1) { *out = format_sub(substr(b, n), "a{}b{}", a0, a1); }\n'
SUBS.append(("w_tocharssub", mk_oq(1)))
extra += 'W void w_tocharssub(csubstr *out, char *b, size_t n, Oq const& a0) { *out = to_chars_sub(substr(b, n), a0); }\n'
extra += 'W size_t w_symfmt1(char *b, size_t n, const char *f, size_t k, Oq const& a0) { return format(substr(b, n), csubstr(f, k), a0); }\n'
extra += 'W size_t w_symfmt2(char *b, size_t n, const char *f, size_t k, Oq const& a0, Oq const& a1) { return format(substr(b, n), csubstr(f, k), a0, a1); }\n'
m = ck.ir("fmt", fmtw.witness(ents) + extra)


def fmt_task(e):
    def fn(r):
        I, fs, total, segs, buf, blen = run_entry(m, e)
        r.stat("abstract_states", len(fs))
        if not fs:
            r.undecided(e.name, "no final state")
        for s0 in fs:
            if s0.status != "ret":
                r.bad(e.name + ":noret", "call does not return normally", where(s0.why[1] if isinstance(s0.why, tuple) else s0.why), describe(s0))
                continue

            def tot(s):
                t, sg = resolve(I, s, total, segs)
                if s.st.decide(("ge", t - blen - 1)) is None:
                    raise Split([("ge", t - blen - 1), ("ge", blen - t)])
                return t, sg
            for s, (t, sg) in withsplit(I, s0, tot):
                if s.st.decide(("ge", blen - t)) is not True:
                    continue
                seg_check(I, r, s, buf, ZERO, sg, e.name)
    return fn


def sub_task(name, mk):
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EXT)
        blen = I.sym("len", 0, 1 << 47, "len")
        buf = Obj("buf", "buf", blen)
        out = Obj("out", "result", 16)
        args, setup, total, segs = mk(I)

        fs = I.start(name, [Ptr(out, ZERO), Ptr(buf, ZERO), blen] + args, setup)
        if not fs:
            r.undecided(name, "no final state")

        def fit(s):
            f = s.st.decide(("ge", blen - total))
            if f is None:
                raise Split([("ge", blen - total), ("ge", total - blen - 1)])
            return f
        for s0 in fs:
            for s, fits in withsplit(I, s0, fit):
                if s.status != "ret":
                    if fits:
                        r.bad(name + ":noret", "call does not return although the text fits", where(s.why[1] if isinstance(s.why, tuple) else s.why), describe(s))
                    else:
                        r.good("too small a buffer is an error")
                    continue
                p = I.read(s, out, ZERO, 8, "p", 64, I.log(s, out))
                n = I.read(s, out, Lin(8), 8, "i", 64, I.log(s, out))
                at = isinstance(p, Ptr) and p.obj is buf and s.st.decide(("eq", p.off)) is True
                if not fits:
                    if not (at and s.st.decide(("ge", blen - n)) is True):
                        r.bad(name + ":small", "the text does not fit, and the returned view (%r,%r) is not inside the buffer" % (p, n), "entry " + name, describe(s))
                    else:
                        r.good("view inside the buffer")
                    continue
                if not (at and s.st.decide(("eq", n - total)) is True):
                    r.bad(name + ":view", "returned view is (%r,%r), expected the first %r chars of the buffer" % (p, n, total), "entry " + name, describe(s))
                    continue
                r.good("returned view")
                seg_check(I, r, s, buf, ZERO, segs, name)
    return fn


def symfmt_task(name, nargs):
    """arbitrary format string: pieces of it and the arguments alternate, each {} consumed once"""
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EXT)
        blen = I.sym("len", 0, 1 << 47, "len")
        buf = Obj("buf", "buf", blen)
        fl = I.sym("fmt.len", 0, 1 << 30, "len")
        f = Obj("buf", "fmt", fl)
        ps, ts = oqs(I, nargs)
        fs = I.start(name, [Ptr(buf, ZERO), blen, Ptr(f, ZERO), fl] + ps, None)
        r.stat("abstract_states", len(fs))
        bad = r.bad
        for s in fs:
            if s.status != "ret":
                r.bad(name + ":noret", "call does not return normally", "", describe(s))
                continue
            # reconstruct the output plan from the calls made on this path
            calls = [e for e in s.events if e[0] == "tochars"]
            order = [c[1] for c in calls]
            if order != ["a%d" % i for i in range(len(order))]:
                r.bad(name + ":order", "arguments are serialized in the order %s" % order, "entry " + name, describe(s))
                continue
            rv = rint(I, s, s.retval)
            used = ZERO
            for c in calls:
                used = used + ts[int(c[1][1:])].size
            want = fl - 2 * len(calls) + used
            if s.st.decide(("eq", rv - want)) is True:
                r.good("format size")
            else:
                (bad if not s.loops else lambda k, *a: r.undecided(k, a[0]))(name + ":size", "returned size %r differs from format text + arguments %r" % (rv, s.st.norm(want)), "entry " + name, describe(s))
            pos = ZERO
            fpos = ZERO
            okk = True
            # where each argument landed tells how much format text precedes it
            for i, c in enumerate(calls):
                b = c[2]
                if b.obj is NULLOBJ or s.st.decide(("ge", blen - rv)) is not True:
                    okk = False
                    break
                start = s.st.norm(b.off)
                piece = s.st.norm(start - pos)
                ok2 = s.st.decide(("ge", piece)) is True
                x = None
                if ok2:
                    for x, (c1, c2) in withsplit(I, s, lambda x: (readinit(I, x, f, fpos + piece), readinit(I, x, f, fpos + piece + 1))):
                        if not (x.st.decide(("eq", c1 - 123)) is True and x.st.decide(("eq", c2 - 125)) is True):
                            ok2 = False
                if not ok2:
                    (bad if not s.loops else lambda k, *a: r.undecided(k, a[0]))(name + ":place", "argument %d lands at %r, where the format text has no {} marker" % (i, start), "entry " + name, describe(s))
                    okk = False
                    break
                r.good("argument placement")
                seg_check(I, r, s, buf, pos, [(f, fpos, piece), (ts[i], ZERO, ts[i].size)], name)
                pos = s.st.norm(start + ts[i].size)
                fpos = s.st.norm(fpos + piece + 2)
            if okk and s.st.decide(("ge", blen - rv)) is True:
                seg_check(I, r, s, buf, pos, [(f, fpos, fl - fpos)], name)
    return fn


def shortfmt_task(name, nargs, n):
    """every format string of n characters, exactly"""
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EXT)
        I.max_backs, I.max_outs = 2000, 4000
        blen = I.sym("len", 0, 1 << 47, "len")
        buf = Obj("buf", "buf", blen)
        f = Obj("buf", "fmt", Lin(n))
        ps, ts = oqs(I, nargs)
        fs = I.start(name, [Ptr(buf, ZERO), blen, Ptr(f, ZERO), Lin(n)] + ps, None)
        r.stat("abstract_states", len(fs))

        def plan(s):
            def ch(i, c):
                e = readinit(I, s, f, Lin(i)) - ord(c)
                d = s.st.decide(("eq", e))
                if d is None:
                    raise Split([("eq", e), ("ne", e)], "format text")
                return d
            segs, i, a, b = [], 0, 0, 0
            while i < n:
                if a < nargs and i + 1 < n and ch(i, "{") and ch(i + 1, "}"):
                    segs += [(f, Lin(b), Lin(i - b)), (ts[a], ZERO, ts[a].size)]
                    a += 1
                    i += 2
                    b = i
                else:
                    i += 1
            segs.append((f, Lin(b), Lin(n - b)))
            tot = ZERO
            for g in segs:
                tot = tot + g[2]
            if s.st.decide(("ge", blen - tot)) is None:
                raise Split([("ge", blen - tot), ("ge", tot - blen - 1)], "fits")
            return segs, tot
        for s0 in fs:
            if s0.status != "ret":
                r.bad(name + ":noret", "call does not return normally", "", describe(s0))
                continue
            for s, (segs, tot) in withsplit(I, s0, plan):
                rv = rint(I, s, s.retval)
                if s.st.decide(("eq", rv - tot)) is True:
                    r.good("format size")
                elif soft(s, rv):
                    r.undecided(name, "returned size %r" % rv)
                else:
                    r.bad(name + ":size", "returned size %r, expected %r" % (rv, s.st.norm(tot)), "entry " + name, describe(s))
                if s.st.decide(("ge", blen - tot)) is True:
                    seg_check(I, r, s, buf, ZERO, segs, name)
    return fn


def readinit(I, s, o, off):
    return s.st.norm(I.U(s, I.asint(s, I.initial(s, o, s.st.norm(off), 1, "i", 8), 8), 8))


if m:
    for e in ents:
        ck.task(e.name, fmt_task(e))
    for n, mk in SUBS:
        ck.task(n, sub_task(n, mk))
    ck.task("w_symfmt1", symfmt_task("w_symfmt1", 1))
    ck.task("w_symfmt2", symfmt_task("w_symfmt2", 2))
    for k in (1, 2):
        for n in range(0, 6 if not ck.thorough else 9):
            ck.task("w_symfmt%d/%d" % (k, n), shortfmt_task("w_symfmt%d" % k, k, n))
ck.run()
ck.finish("on every path where the text fits, byte j of the output (j symbolic inside each piece) equals byte j of the corresponding argument text, separator or format-string piece, in argument order",
          "abstract interpretation of cat/catsep/format/to_chars over opaque argument types whose text has symbolic length; the buffer contents are compared piecewise at a symbolic position",
          ["user-provided to_chars obeys its contract", "at most 5 arguments; format strings: fixed catalogue plus every format string with 1 and 2 arguments"],
          {"entries": len(ents) + len(SUBS) + 2})
