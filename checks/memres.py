"""models used for the memory resource checks"""
from spec import *
from spec import _l
import reals


def h_err(I, s, a, ins):
    s.events.append(("error", ins.get("loc")))
    return None


def h_align(I, s, a, ins):
    p = I.load(s, a[2], 8, "p", 64, ins.get("loc"))
    al = s.st.norm(I.U(s, I.asint(s, a[0], 64), 64))
    if s.st.decide(("eq", al - 1)) is None:
        raise Split([("eq", al - 1), ("ge", al - 2)], "alignment 1")
    r = reals.h_align(I, s, a, ins)
    q = r.alts[0][1]
    for x in [s]:
        x.events.append(("align", al, q.obj, q.off))
    return r


def h_guard(I, s, a, ins):
    return Lin(0) if any(e[0] == "guard" and e[1] is a[0].obj for e in s.events) else Lin(1)


def h_guarded(I, s, a, ins):
    s.events.append(("guard", a[0].obj))
    return None


def h_nop(I, s, a, ins):
    return ZERO


MR = {"~c4::handle_error(": h_err, "~std::align(": h_align, "__cxa_guard_acquire": h_guard, "__cxa_guard_release": h_guarded, "__cxa_atexit": h_nop, "__cxa_thread_atexit": h_nop}


def aligned(x, p, al):
    """True / message / (undecided,)"""
    st = x.s.st
    if st.decide(("eq", _l(al) - 1)) is True:
        return None
    for e in x.s.events:
        if e[0] == "align" and e[2] is p.obj and st.decide(("eq", e[1] - al)) is True and st.decide(("eq", e[3] - p.off)) is True:
            return None
    off = st.norm(p.off)
    if st.decide(("eq", off)) is True and st.decide(("eq", _l(al) - p.obj.align)) is True:
        return None
    for e in x.s.events:
        if e[0] == "align" and st.decide(("eq", e[1] - al)) is not True and st.decide(("eq", e[3] - p.off)) is True:
            return "block %r is aligned to %r, requested %r" % (p, e[1], al)
    if not any("alignment padding" in Sym.table[y].name for y in off.t):
        return "block %r is not aligned to %r" % (p, al)
    return ("alignment of %r not established" % p,)


# a memory resource whose calls are recorded: Src(id)
SRCRES = '''
extern "C" void *src_alloc(size_t id, size_t sz, size_t al);
extern "C" void *src_realloc(size_t id, void *p, size_t oldsz, size_t newsz, size_t al);
extern "C" void src_free(size_t id, void *p, size_t sz, size_t al);
struct Src : public c4::MemoryResource {
    size_t id;
    Src(size_t i) : id(i) {}
    void* do_allocate(size_t sz, size_t al, void*) override { return src_alloc(id, sz, al); }
    void* do_reallocate(void *p, size_t o, size_t n, size_t al) override { return src_realloc(id, p, o, n, al); }
    void do_deallocate(void *p, size_t sz, size_t al) override { src_free(id, p, sz, al); }
};
'''


def _u(I, s, v):
    return s.st.norm(I.U(s, I.asint(s, v, 64), 64))


def h_src_alloc(I, s, a, ins):
    n = _u(I, s, a[1])
    o = I.newobj("heap", "block", n, align=4096)
    s.events.append(("alloc", _u(I, s, a[0]), Ptr(o, ZERO), n, _u(I, s, a[2])))
    return Ptr(o, ZERO)


def h_src_realloc(I, s, a, ins):
    n = _u(I, s, a[3])
    o = I.newobj("heap", "moved block", n, align=4096)
    s.events.append(("realloc", _u(I, s, a[0]), a[1], _u(I, s, a[2]), Ptr(o, ZERO), n, _u(I, s, a[4])))
    return Ptr(o, ZERO)


def h_src_free(I, s, a, ins):
    s.events.append(("free", _u(I, s, a[0]), a[1], _u(I, s, a[2]), _u(I, s, a[3])))
    return None


SR = dict(MR, src_alloc=h_src_alloc, src_realloc=h_src_realloc, src_free=h_src_free)


def samep(x, p, q):
    return isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is q.obj and x.eq(p.off, q.off)


def balanced(x, s, live0=()):
    """every block obtained from a source goes back to it exactly once, with the same
    address, size and alignment; returns message or None"""
    live = []
    for e in s.events:
        if e[0] == "alloc":
            live.append((e[1], e[2], e[3], e[4]))
        elif e[0] in ("free", "realloc"):
            h = [q for q in live if samep(x, q[1], e[2])]
            if not h:
                return "free|memory %r is given back, which is not a block obtained and still held" % (e[2],)
            if not x.eq(h[0][0], e[1]):
                return "free|block %r is given back to another resource than the one it came from" % (e[2],)
            if not x.eq(h[0][2], e[3]):
                return "free|block %r of size %r is given back with size %r" % (e[2], h[0][2], e[3])
            if not x.eq(h[0][3], e[6] if e[0] == "realloc" else e[4]):
                return "free|block %r obtained with alignment %r is given back with alignment %r" % (e[2], h[0][3], e[6] if e[0] == "realloc" else e[4])
            live.remove(h[0])
            if e[0] == "realloc":
                live.append((e[1], e[4], e[5], e[6]))
    if live:
        return "leak|a block obtained is never given back: %r of size %r" % (live[0][1], live[0][2])
    return None
