"""resizing variants: the container ends up holding exactly the text"""
import fmtw
from fmtw import *

ck = Check("C17")
T = ck.thorough
refs = lambda k, s=0: "".join(", Oq const& a%d" % i for i in range(s, k))
names = lambda k, s=0: "".join(", a%d" % i for i in range(s, k))
SRC = fmtw.HDR + "#include <new>\n"
E = []      # name, mk, append, returns view
for k in range(0, 4):
    SRC += "W void r_cat%d(Cont *c%s) { catrs(c%s); }\n" % (k, refs(k), names(k))
    E.append(("r_cat%d" % k, mk_oq(k), False, False))
    SRC += "W void r_cata%d(csubstr *o, Cont *c%s) { *o = catrs_append(c%s); }\n" % (k, refs(k), names(k))
    E.append(("r_cata%d" % k, mk_oq(k), True, True))
    if k:
        SRC += "W void r_sep%d(Cont *c%s) { catseprs(c, a0%s); }\n" % (k, refs(k + 1), names(k + 1, 1))
        E.append(("r_sep%d" % k, mk_sep(k), False, False))
        SRC += "W void r_sepa%d(csubstr *o, Cont *c%s) { *o = catseprs_append(c, a0%s); }\n" % (k, refs(k + 1), names(k + 1, 1))
        E.append(("r_sepa%d" % k, mk_sep(k), True, True))
        SRC += "W void r_catv%d(Cont *c%s) { ::new (c) Cont(catrs<Cont>(%s)); }\n" % (k, refs(k), names(k)[2:])
        E.append(("r_catv%d" % k, mk_oq(k), False, False))
        SRC += "W void r_sepv%d(Cont *c%s) { ::new (c) Cont(catseprs<Cont>(a0%s)); }\n" % (k, refs(k + 1), names(k + 1, 1))
        E.append(("r_sepv%d" % k, mk_sep(k), False, False))
for i, (f, k) in enumerate([("", 1), ("{}", 1), ("a{}b", 1), ("{}{}", 2), ("x{}-{}y", 2), ("{}", 2), ("{}{}", 1), ("ab", 1)]):
    SRC += 'W void r_fmt%d(Cont *c%s) { formatrs(c, "%s"%s); }\n' % (i, refs(k), f, names(k))
    E.append(("r_fmt%d" % i, mk_fmt(f, k), False, False))
    SRC += 'W void r_fmta%d(csubstr *o, Cont *c%s) { *o = formatrs_append(c, "%s"%s); }\n' % (i, refs(k), f, names(k))
    E.append(("r_fmta%d" % i, mk_fmt(f, k), True, True))
    SRC += 'W void r_fmtv%d(Cont *c%s) { ::new (c) Cont(formatrs<Cont>("%s"%s)); }\n' % (i, refs(k), f, names(k))
    E.append(("r_fmtv%d" % i, mk_fmt(f, k), False, False))
m = ck.ir("rs", SRC)


def task(name, mk, append, view):
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EXT)
        I.unroll_first = 4
        args, setup, total, segs = mk(I)
        c = Obj("ext", "c", 8)
        out = Obj("out", "o", 16)
        pre = ([Ptr(out, ZERO)] if view else []) + [Ptr(c, ZERO)]
        fs = I.start(name, pre + args, setup)
        r.stat("abstract_states", len(fs))
        for s, loc in getattr(I, "stuck", [])[:2]:
            r.bad(name + ":loop", "keeps resizing and rewriting without end", where(loc), describe(s))
        if not fs and not getattr(I, "stuck", None):
            r.undecided(name, "no final state")
        for s in fs:
            if s.status != "ret":
                r.bad(name + ":noret", "call does not return normally", "", describe(s))
                continue
            k, nm, (o, n, n0) = cont_state(I, s, Ptr(c, ZERO))
            base = n0 if append else ZERO
            if s.st.decide(("eq", n - base - total)) is not True:
                msg = "the container ends up with %r characters, expected %r" % (s.st.norm(n), s.st.norm(base + total))
                r.undecided(name, msg) if soft(s, n) else r.bad(name + ":size", msg, "entry " + name, describe(s))
                continue
            r.good("container size")
            if append:
                o0 = I.memo_def.get(k)[0]
                seg_check(I, r, s, o, ZERO, [(o0, ZERO, n0)], name, "kept prefix")
            seg_check(I, r, s, o, base, segs, name)
            if view:
                p = I.read(s, out, ZERO, 8, "p", 64, I.log(s, out))
                ln = I.read(s, out, Lin(8), 8, "i", 64, I.log(s, out))
                ok = s.st.decide(("eq", rint(I, s, ln) - total)) is True and (s.st.decide(("eq", total)) is True or isinstance(p, Ptr) and p.obj is o and s.st.decide(("eq", p.off - base)) is True)
                if ok:
                    r.good("returned view")
                else:
                    r.bad(name + ":view", "returned view is (%r,%r), expected the %r appended characters of the container's current storage" % (p, ln, total), "entry " + name, describe(s))
        memcheck(r, I, name, MEMKINDS + ("callee-buffer",), soft=True)
    return fn


if m:
    for e in E:
        ck.task(e[0], task(*e))
    ck.run()
ck.finish("when the call returns, the container holds exactly the text (appending: its previous content followed by the text), the returned view is the appended part in the container's current storage, and no access goes to storage from before a resize or outside the container",
          "abstract interpretation of catrs/catseprs/formatrs (+_append, and value-returning forms) over an opaque container with symbolic initial size whose resize invalidates its storage, and opaque arguments with texts of symbolic length",
          ["user-provided to_chars obeys its contract", "resize(n) keeps the common prefix and makes size() n; storage may move"], {"entries": len(E)})
