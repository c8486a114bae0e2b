"""the linear memory resource: blocks in bounds, disjoint, aligned; reallocation keeps contents"""
from memres import *

ck = Check("C20")
T = ck.thorough
SRC = '''#include <c4/memory_resource.hpp>
using namespace c4;
#define W extern "C"
struct O { void *a, *b, *c, *r; size_t size, cap, slack; };
#define FIN o->size = m.size(); o->cap = m.capacity(); o->slack = m.slack();
W void l_alloc(O *o, char *mem, size_t size, size_t pos, size_t sz, size_t al) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->r = m.allocate(sz, al); FIN }
W void l_first(O *o, char *mem, size_t size, size_t sz, size_t al) { MemoryResourceLinear m(mem, size); o->r = m.allocate(sz, al); FIN }
W void l_re(O *o, char *mem, size_t size, size_t pos, size_t ol, size_t n, size_t al) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->b = m.allocate(ol, al); o->r = m.reallocate(o->b, ol, n, al); FIN }
W void l_rec(O *o, char *mem, size_t size, size_t pos, size_t ol, size_t n, size_t al, size_t c) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->b = m.allocate(ol, al); o->c = m.allocate(c, 1); o->r = m.reallocate(o->b, ol, n, al); FIN }
W void l_new(O *o, char *mem, size_t size, size_t pos, size_t n, size_t al) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->r = m.reallocate(nullptr, 0, n, al); FIN }
W void l_free(O *o, char *mem, size_t size, size_t pos, size_t sz, size_t al) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->b = m.allocate(8, 1); m.deallocate(o->b, 8, 1); o->r = m.allocate(sz, al); FIN }
W void l_clear(O *o, char *mem, size_t size, size_t pos, size_t sz, size_t al) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); m.clear(); o->r = m.allocate(sz, al); FIN }
W void l_rea(O *o, char *mem, size_t size, size_t pos, size_t ol, size_t n, size_t al, size_t c) { MemoryResourceLinear m(mem, size); o->a = m.allocate(pos, 1); o->b = m.allocate(ol, al); void *q = m.reallocate(o->b, ol, n, al); o->r = q; o->c = m.allocate(c, 1); FIN }
W void arr_alloc(O *o, size_t pos, size_t sz, size_t al) { MemoryResourceLinearArr<64> m; o->a = m.allocate(pos, 1); o->r = m.allocate(sz, al); o->b = m.m_arr; FIN }
'''
m = ck.ir("lin", SRC, sources=["src/c4/memory_resource.cpp", "src/c4/memory_util.cpp"], keep=["std::align"])
BIG = (1 << 64) - 1
ENT = {"l_alloc": "Pzr", "l_first": "r", "l_re": "PBr", "l_rec": "PBCr", "l_new": "Pr", "l_free": "Pr", "l_clear": "r", "l_rea": "Pr"}


def case(name):
    def mk(I):
        mo, size = strobj(I, "mem", None)
        out = Obj("out", "result", 56)
        pos = I.sym("pos", 1, 1 << 40, "in")
        sz = I.sym("sz", 1, BIG, "in")
        ol = I.sym("old", 1, 1 << 40, "in")
        c = I.sym("c", 1, 1 << 40, "in")
        al = I.sym("alignment", 1, 4096, "in")
        base = [Ptr(out, ZERO), Ptr(mo, ZERO), size]
        args = {"l_first": [sz, al], "l_re": [pos, ol, sz, al], "l_rec": [pos, ol, sz, al, c], "l_rea": [pos, ol, sz, al, c]}.get(name, [pos, sz, al])
        return base + args, (mo, size, out, pos, sz, ol, c, al), None

    def pad(x, mo, off, al):
        if x.eq(al, 1):
            return ZERO
        return Lin.of(x.I.defsym(x.s, ("alignpad", mo.id, x.s.st.norm(off).key, al.key), "alignment padding", 0, 1 << 47, "in"))

    def spec(x, env, s):
        mo, size, out, pos, sz, ol, c, al = env
        err = any(e[0] == "error" for e in s.events)
        # reference arena
        top = ZERO
        live = []

        def alloc(nm, n, a):
            nonlocal top
            p = pad(x, mo, top, a)
            off = top + p
            if not x.ge(size, off + n):
                return None
            top = off + n
            return off
        fits = True
        if name != "l_first":
            fits = alloc("a", pos, Lin(1)) is not None
        if fits and name in ("l_re", "l_rec", "l_rea"):
            b = alloc("b", ol, al)
            fits = b is not None
            if fits and name == "l_rec":
                fits = alloc("c", c, Lin(1)) is not None
            if fits:
                if x.le(sz, ol):
                    pass
                elif name != "l_rec" and x.ge(size, b + sz):
                    pass
                else:
                    t0 = top
                    fits = alloc("r", sz, al) is not None
            if fits and name == "l_rea":
                # a further block after the reallocation: not required to fit
                if err:
                    return None
        elif fits and name == "l_free":
            fits = alloc("b", Lin(8), Lin(1)) is not None
            fits = fits and alloc("r", sz, al) is not None
        elif fits:
            if name == "l_clear":
                top = ZERO
            fits = alloc("r", sz, al) is not None
        if err:
            if s.status == "ret":
                return "an error is raised but the call goes on"
            return "error|a request that fits is refused" if fits else None
        if s.status != "ret":
            return "does not return"
        R = x.out(out, 24, "p")
        if not isinstance(R, Ptr) or R.obj is not mo:
            return "block is %r, expected inside the memory given" % (R,)
        if not (x.ge(R.off) and x.ge(size - R.off, sz)):
            return "bounds|block [%r,+%r) is not inside the memory of size %r" % (R.off, sz, size)
        # a block reallocated in place keeps its alignment
        g = aligned(x, R, al)
        if g:
            return g
        others = []
        for ch, offs, n in (("P", 0, pos), ("C", 16, c)):
            if ch in ENT[name] or (name == "l_rea" and ch == "C"):
                q = x.out(out, offs, "p")
                if not isinstance(q, Ptr) or q.obj is not mo:
                    return "block is %r, expected inside the memory given" % (q,)
                others.append((q, n))
        for q, n in others:
            if not (x.ge(q.off) and x.ge(size, q.off + n)):
                return "bounds|block [%r,+%r) is not inside the memory" % (q.off, n)
            if not x.ge(R.off, q.off + n) and not x.ge(q.off, R.off + sz):
                return "overlap|block [%r,+%r) overlaps the live block [%r,+%r)" % (R.off, sz, q.off, n)
        u = x.out(out, 32)
        for q, n in others + [(R, sz)]:
            if not x.ge(u, q.off + n):
                return "size|used size %r is smaller than the end of a live block %r" % (u, q.off + n)
        if not x.le(u, size):
            return "size|used size %r exceeds the capacity" % u
        r = expect_int(x, x.out(out, 40), size, "capacity") or expect_int(x, x.out(out, 48), size - u, "slack")
        if r:
            return r
        # contents: only a moved block may be written
        if name in ("l_re", "l_rec", "l_rea"):
            B = x.out(out, 8, "p")
            keep = ol if x.le(ol, sz) else sz
            if x.I.log(s, mo) and not x.eq(B.off, R.off):
                j = x.I.sym("j", 0, 1 << 40, "in")
                y = s.copy()
                y.st.add_ge(keep - 1 - j)
                for z, (got, want) in withsplit(x.I, y, lambda z: (readbyte(x.I, z, mo, R.off + j), X(x.I, z).init(mo, B.off + j))):
                    if got is None or z.st.decide(("eq", got - want)) is not True:
                        return "contents|byte %r of the moved block is %r, expected %r" % (j, got, want)
            elif not x.eq(B.off, R.off):
                return "contents|the block moved but its contents were not copied"
        for q, n in others:
            j = x.I.sym("k", 0, 1 << 40, "in")
            y = s.copy()
            y.st.add_ge(n - 1 - j)
            for z, (got, want) in withsplit(x.I, y, lambda z: (readbyte(x.I, z, mo, q.off + j), X(x.I, z).init(mo, q.off + j))):
                if got is None or z.st.decide(("eq", got - want)) is not True:
                    return "contents|a live block is overwritten"
        return None
    return Case(name, name, mk, spec)


def arr_case():
    """a resource holding its own memory: blocks inside that array, refused exactly when they do not fit"""
    def mk(I):
        out = Obj("out", "result", 56)
        pos = I.sym("pos", 1, 1 << 40, "in")
        sz = I.sym("sz", 1, BIG, "in")
        al = I.sym("alignment", 1, 4096, "in")
        return [Ptr(out, ZERO), pos, sz, al], (out, pos, sz, al), None

    def spec(x, env, s):
        out, pos, sz, al = env
        if s.status != "ret":
            if not any(e[0] == "error" for e in s.events):
                return "does not return"
            if not x.le(pos, 64):
                return None
            if x.eq(al, 1):
                return "error|a request that fits is refused" if x.le(pos + sz, 64) else None
            ev = [e for e in s.events if e[0] == "align"]
            if not ev:
                return None if not x.le(pos + sz, 64) else "error|a request that fits is refused"
            return None
        A, R, B = x.out(out, 0, "p"), x.out(out, 24, "p"), x.out(out, 8, "p")
        for q in (A, R):
            if not isinstance(q, Ptr) or q.obj is not B.obj:
                return "block is %r, expected inside the resource's array" % (q,)
        if not (x.eq(A.off, B.off) and x.ge(R.off, A.off + pos) and x.ge(B.off + 64, R.off + sz) and x.ge(R.off + sz, R.off)):
            return "bounds|blocks [%r,+%r) [%r,+%r) are not disjoint inside the array [%r,+64)" % (A.off, pos, R.off, sz, B.off)
        r = aligned(x, R, al)
        if r:
            return r
        return expect_int(x, x.out(out, 32), R.off + sz - B.off, "size") or expect_int(x, x.out(out, 40), Lin(64), "capacity")
    return Case("arr_alloc", "arr_alloc", mk, spec)


def go(c, r):
    I, fs = run_case(m, c, r, ext=MR, aborts=True)
    memcheck(r, I, c.entry, objs=("mem", "result"))


if m:
    for nm in ENT:
        c = case(nm)
        ck.task(nm, lambda r, c=c: go(c, r))
    c = arr_case()
    ck.task("arr_alloc", lambda r, c=c: go(c, r))
    ck.run()
ck.finish("every block handed out by a linear memory resource lies inside its memory, is aligned as requested and disjoint from every other live block; a request is refused exactly when it does not fit; reallocation keeps the contents, and no call writes to another block",
          "abstract interpretation of MemoryResourceLinear (borrowed memory and in-object array) over its public interface, after an arbitrary earlier use of the arena (symbolic size, symbolic fill level), with symbolic request sizes up to 2^64-1 and symbolic alignment",
          ["std::align behaves as specified by the standard", "the error handler does not return (handle_error is [[noreturn]])", "memory given is smaller than 2^40 bytes"], {"entries": len(ENT) + 1})
