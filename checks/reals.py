"""models of the standard real-number conversions and std::align, used to analyse the
wrappers around them"""
from opaque import *


def h_std_to_chars(I, s, a, ins):
    """[first,last) must be a range inside the buffer; writes a prefix of it or fails"""
    f, l = a[0], a[1]
    if not (isinstance(f, Ptr) and isinstance(l, Ptr) and f.obj is l.obj):
        raise Unsupported("to_chars range")
    n = s.st.norm(l.off - f.off)
    loc = ins.get("loc")
    d = s.st.decide(("ge", n))
    if d is None:
        raise Split([("ge", n), ("ge", -n - 1)], "to_chars range")
    if d is False:
        # inverted range: report as an access outside the buffer
        I.check(s, "callee-buffer", Ptr(f.obj, f.off), Lin(1) + f.obj.size, loc)
        raise Infeasible
    I.check(s, "callee-buffer", f, n, loc)
    m = I.sym("written", 1, 1 << 47, "ret")

    def wr(x):
        x.mem[f.obj.id] = I.log(x, f.obj) + (("unkrange", x.st.norm(f.off), n),)
    return MultiRet([(("ge", n - m), Agg([Ptr(f.obj, s.st.norm(f.off + m)), ZERO]), wr), (True, Agg([l, Lin(75)]), wr)])


def h_snprintf(I, s, a, ins):
    p = a[0]
    n = s.st.norm(I.U(s, I.asint(s, a[1], 64), 64))
    loc = ins.get("loc")
    z = s.st.decide(("ge", -n))
    if z is None:
        raise Split([("ge", -n), ("ge", n - 1)], "snprintf")
    ret = I.sym("printed", 1, 1 << 20, "ret")
    if z is not True:
        if not isinstance(p, Ptr):
            raise Unsupported("snprintf buffer")
        I.check(s, "callee-buffer", p, n, loc)
        s.mem[p.obj.id] = I.log(s, p.obj) + (("unkrange", s.st.norm(p.off), n),)
        if n.isconst() and n.c <= 64:
            return I.sym("printed", 1, n.c - 1, "ret")   # format strings: length asserted by the library
    return ret


def h_align(I, s, a, ins):
    """std::align(alignment, size, ptr&, space&)"""
    al = I.U(s, I.asint(s, a[0], 64), 64)
    sz = I.U(s, I.asint(s, a[1], 64), 64)
    loc = ins.get("loc")
    p = I.load(s, a[2], 8, "p", 64, loc)
    sp = I.U(s, I.asint(s, I.load(s, a[3], 8, "i", 64, loc), 64), 64)
    if not isinstance(p, Ptr):
        raise Unsupported("std::align pointer")
    key = ("alignpad", p.obj.id, s.st.norm(p.off).key, al.key)
    pad = Lin.of(I.defsym(s, key, "alignment padding", 0, 1 << 47, "in"))
    s.st.add_ge(al - 1 - pad)
    q = Ptr(p.obj, s.st.norm(p.off + pad))

    def ok(x):
        I.store(x, a[2], q, 8, loc)
        I.store(x, a[3], x.st.norm(sp - pad), 8, loc)
    return MultiRet([(("ge", sp - sz - pad), q, ok), (("ge", sz + pad - sp - 1), NULL, lambda x: None)])


REAL = {"~std::to_chars(char*, char*, float": h_std_to_chars, "~std::to_chars(char*, char*, double": h_std_to_chars,
        "snprintf": h_snprintf, "~std::align(": h_align}
