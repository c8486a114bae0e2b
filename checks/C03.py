import writers, fmtw, spec, reals
from fmtw import *

ck = Check("C03")
fam = writers.family()
mi = ck.ir("ints", writers.witness(fam))
ents = fmtw.family()
mf = ck.ir("fmt", fmtw.witness(ents))


RAWSRC = fmtw.HDR + '''#include <c4/format.hpp>
W size_t w_raw(char *b, size_t n, const char *d, size_t m, size_t al) { return to_chars(substr(b, n), fmt::const_raw_wrapper(cblob(d, m), al)); }
W size_t w_rawi(char *b, size_t n, int const* d) { return to_chars(substr(b, n), fmt::craw(*d)); }
W size_t w_rawd(char *b, size_t n, double const* d) { return to_chars(substr(b, n), fmt::raw(*d)); }
'''
mr = ck.ir("raw", RAWSRC, sources=["src/c4/format.cpp"], keep=["std::align"])


def raw_case(entry, size, alg):
    """raw data: written at the first aligned place when it fits; otherwise a larger size that is enough"""
    def mk(I):
        b, bn = spec.strobj(I, "buf", None)
        d, dn = spec.strobj(I, "data", size)
        al = I.sym("alignment", 1, 1 << 20, "in") if alg is None else Lin(alg)
        a = [Ptr(b, ZERO), bn, Ptr(d, ZERO)] + ([dn, al] if size is None else [])
        return a, (b, bn, d, dn, al), None

    def sp(x, env, s):
        b, bn, d, dn, al = env
        pad = Lin.of(x.I.defsym(s, ("alignpad", b.id, ZERO.key, al.key), "alignment padding", 0, 1 << 47, "in"))
        got = rint(x.I, s, s.retval, 64)
        if x.ge(bn, pad + dn):
            r = spec.expect_int(x, got, pad + dn, "size")
            if r or not x.gt(dn, 0):
                return r
            j = Lin.of(x.I.defsym(s, ("position", "j"), "position in the data", 0, 1 << 47, "in"))
            s.st.add_ge(dn - 1 - j)
            return spec.expect_int(x, x.cur(b, pad + j), x.init(d, j), "byte")
        if not x.gt(got, bn):
            return "size|the returned size %r fits the buffer although the data was not written" % s.st.norm(got)
        if not x.ge(got, pad + dn):
            return "size|the returned size %r is not enough" % s.st.norm(got)
    return spec.Case(entry, entry, mk, sp)


def raw_task(c):
    def fn(r):
        I, fs = spec.run_case(mr, c, r, ext=reals.REAL)
        memcheck(r, I, c.entry, soft=True, objs=("buf", "data"))
    return fn


def written(I, s, buf):
    return [x for x in I.log(s, buf)]


def verdict(r, I, s, name, total, blen, buf, nowrite):
    if s.status != "ret":
        r.bad(name + ":noret", "call does not return normally (%s)" % s.status, where(s.why[1] if isinstance(s.why, tuple) else s.why), describe(s))
        return
    rv = rint(I, s, s.retval)
    d = s.st.decide(("eq", rv - total))
    if d is True:
        r.good("required size")
    elif soft(s, rv):
        r.undecided(name, "returned size %r over-approximated" % rv)
    else:
        r.bad(name + ":size", "returns %r but %r characters are needed" % (rv, s.st.norm(total)), "entry " + name, describe(s))
        return
    if nowrite and s.st.decide(("ge", total - blen - 1)) is True:
        w = written(I, s, buf)
        if w:
            loc = next((x[-1] for x in w if isinstance(x[-1], str)), None)
            r.bad("%s:partial-write:%s" % (name, fnkey(loc)), "writes into a buffer that is too small (no writes are promised)", where(loc), describe(s))
        else:
            r.good("no write when too small")


def int_task(w):
    def fn(r):
        for sign, n in writers.partitions(w.T, w.radix, w.neg):
            lin.reset_syms()
            mi.gobj.clear()
            I = Interp(mi)
            blen = I.sym("len", 0, 1 << 47, "len")
            buf = Obj("buf", "buf", blen)
            v, ds, cons = writers.setup_value(I, w.T, w.radix, sign, n)
            args = [Ptr(buf, ZERO), blen, v]
            nd = None
            if w.nd:
                nd = I.sym("num_digits", 0, 1 << 31, "in")
                args.append(nd)

            def setup(s):
                for c in cons:
                    s.st.add_ge(c)
            fs = I.start(w.name, args, setup)
            r.stat("abstract_states", len(fs))
            if not fs:
                r.undecided(w.name, "no final state")
            for s0 in fs:
                def tot(s):
                    if nd is None:
                        dg = Lin(n)
                    else:
                        d = s.st.decide(("ge", nd - n))
                        if d is None:
                            raise Split([("ge", nd - n), ("ge", Lin(n - 1) - nd)])
                        dg = nd if d else Lin(n)
                    t = dg + sign + len(w.prefix)
                    if s.st.decide(("ge", t - blen - 1)) is None:
                        raise Split([("ge", t - blen - 1), ("ge", blen - t)])
                    return t
                for s, t in withsplit(I, s0, tot):
                    verdict(r, I, s, w.name, t, blen, buf, w.nowrite)
    return fn


def fmt_task(e):
    def fn(r):
        I, fs, total, segs, buf, blen = run_entry(mf, e)
        r.stat("abstract_states", len(fs))
        if not fs:
            r.undecided(e.name, "no final state")
        for s0 in fs:
            def tot(s):
                t, sg = resolve(I, s, total, segs)
                if s.st.decide(("ge", t - blen - 1)) is None:
                    raise Split([("ge", t - blen - 1), ("ge", blen - t)])
                return t
            for s, t in withsplit(I, s0, tot):
                verdict(r, I, s, e.name, t, blen, buf, e.nowrite)
    return fn


if mi:
    for w in fam:
        ck.task(w.name, int_task(w))
if mf:
    for e in ents:
        if e.size:
            ck.task(e.name, fmt_task(e))
if mr:
    for en, sz, al in (("w_raw", None, None), ("w_rawi", 4, 4), ("w_rawd", 8, 8)):
        ck.task("raw/" + en, raw_task(raw_case(en, sz, al)))
ck.run()
ck.finish("on every path the returned size equals the number of characters the value needs (a function of the value alone, never of the buffer), and paths where that exceeds the buffer length perform no store for the conversions that promise so",
          "abstract interpretation of every serializer entry with symbolic value, buffer length, argument sizes and padding width; the returned linear form is compared with the required size",
          ["user-provided to_chars returns the size its value needs", "num_digits and alignment width below 2^31 / 2^40"],
          {"entries": len(fam) + len(ents)})
