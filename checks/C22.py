"""typed allocators and aligned allocation"""
from memres import *

ck = Check("C22")
T = ck.thorough
HEAD = '''#include <c4/allocator.hpp>
#include <new>
using namespace c4;
#define W extern "C"
struct S24 { double a, b, c; };
struct alignas(32) S32 { char a[32]; };
''' + SRCRES


def h_src_realloc_c(I, s, a, ins):
    n, old = _u(I, s, a[3]), _u(I, s, a[2])
    d = s.st.decide(("ge", n - old))
    if d is None:
        raise Split([("ge", n - old), ("ge", old - n - 1)], "realloc")
    o = I.newobj("heap", "moved block", n, align=4096)
    I.do_copy(s, Ptr(o, ZERO), a[1], old if d else n, ins, "memcpy")
    s.events.append(("realloc", _u(I, s, a[0]), a[1], old, Ptr(o, ZERO), n, _u(I, s, a[4])))
    return Ptr(o, ZERO)


def h_memalign(I, s, a, ins):
    al, n = _u(I, s, a[1]), _u(I, s, a[2])
    o = I.newobj("heap", "block", n, align=1)
    p = Ptr(o, ZERO)

    def ok(x):
        I.store(x, a[0], p, 8, ins.get("loc"))
        x.events.append(("alloc", Lin(0), p, n, al))
    return MultiRet([(True, ZERO, ok), (True, Lin(12), lambda x: x.events.append(("nomem",)))])


def h_free(I, s, a, ins):
    s.events.append(("cfree", a[0]))
    return None


EXT = dict(SR, src_realloc=h_src_realloc_c, posix_memalign=h_memalign, free=h_free)
from memres import _u

# --- Allocator ----------------------------------------------------------------
TYS = [("c", "char", 1, 1), ("i", "int", 4, 4), ("s", "S24", 24, 8), ("v", "S32", 32, 32)]
AOPS = {
    "alloc": "o->p = a.allocate(n);", "alloca": "o->p = a.allocate(n, al);", "free": "a.deallocate((T*)p, n);", "freea": "a.deallocate((T*)p, n, al);",
    "re": "o->p = a.reallocate((T*)p, n, m);", "rea": "o->p = a.reallocate((T*)p, n, m, al);",
}
HOW = {
    "mr": "Allocator<T, MemRes> a(&A);", "mrg": "set_memory_resource(&A); Allocator<T, MemRes> a; set_memory_resource(&B);", "mrn": "set_memory_resource(&A); Allocator<T, MemRes> a((MemoryResource*)nullptr); set_memory_resource(&B);",
    "gl": "set_memory_resource(&B); Allocator<T> a; set_memory_resource(&A);", "reb": "Allocator<double, MemRes> b(&A); Allocator<T, MemRes> a(b.rebound<T>());", "cp": "Allocator<T, MemRes> b(&A), a(&B); a = b;",
    "sel": "Allocator<T, MemRes> b(&A); Allocator<T, MemRes> a = b.select_on_container_copy_construct(); set_memory_resource(&B);",
    "srb": "SmallAllocator<double, 1, 8, MemRes> b(&A); SmallAllocator<T, 1, alignof(T), MemRes> a0(b.template rebound<T>()); Allocator<T, MemRes> a(a0.resource());",
}


def src_alloc():
    t = HEAD + "struct O { void *p; };\n"
    names = []
    for ty in TYS:
        for h in HOW if ty[0] == "i" or T else ["mr", "gl"]:
            for op in AOPS:
                nm = "a_%s_%s_%s" % (ty[0], h, op)
                t += "W void %s(O *o, void *p, size_t n, size_t m, size_t al) { Src A(1), B(2); using T = %s; %s %s }\n" % (nm, ty[1], HOW[h], AOPS[op])
                names.append((nm, ty, h, op))
    return t, names


def alloc_case(nm, ty, h, op):
    def mk(I):
        out = Obj("out", "result", 8)
        n, mm = I.sym("n", 0, 1 << 40, "in"), I.sym("m", 0, 1 << 40, "in")
        al = I.sym("alignment", ty[3], 4096, "in")
        mo = I.newobj("heap", "given", n.scale(ty[2]), align=4096)
        return [Ptr(out, ZERO), Ptr(mo, ZERO), n, mm, al], (out, mo, n, mm, al), None

    def spec(x, env, s):
        out, mo, n, mm, al = env
        ev = [e for e in s.events if e[0] in ("alloc", "free", "realloc")]
        if len(ev) != 1:
            return "%d calls reach the memory resources, expected 1" % len(ev)
        e = ev[0]
        if e[0] != {"a": "alloc", "f": "free", "r": "realloc"}[op[0]] or not x.eq(e[1], 1):
            return "the call reaches the resource as '%s' of resource %r" % (e[0], e[1])
        want = al if op in ("alloca", "freea", "rea") else Lin(ty[3])
        if not x.eq(e[-1], want):
            return "alignment is %r, expected %r" % (e[-1], want)
        sz = n.scale(ty[2])
        if not x.eq(e[3], sz):
            return "size is %r, expected %r" % (e[3], sz)
        if op[0] in "fr" and not samep(x, e[2], Ptr(mo, ZERO)):
            return "the block passed on is %r" % (e[2],)
        if op[0] == "r" and not x.eq(e[5], mm.scale(ty[2])):
            return "new size is %r, expected %r" % (e[5], mm.scale(ty[2]))
        if op[0] in "ar" and not samep(x, x.out(out, 0, "p"), e[4] if op[0] == "r" else e[2]):
            return "the block returned is not the one obtained from the resource"
        return None
    return Case(nm, nm, mk, spec)


EQ = HEAD + '''
W bool q_eq(MemoryResource *r, MemoryResource *s) { Allocator<int, MemRes> a(r); Allocator<char, MemRes> b(s); return a == b; }
W bool q_ne(MemoryResource *r, MemoryResource *s) { Allocator<int, MemRes> a(r); Allocator<char, MemRes> b(s); return a != b; }
W bool q_geq(MemoryResource *r, MemoryResource *s) { set_memory_resource(r); Allocator<int> a; Allocator<char, MemRes> b(s); return a == b; }
'''


def eq_case(nm, same):
    def mk(I):
        a, b = Obj("buf", "left", 16), Obj("buf", "right", 16)
        return [Ptr(a, ZERO), Ptr(a if same else b, ZERO)], None, None

    def spec(x, env, s):
        want = same if nm != "q_ne" else not same
        return expect_int(x, x.I.asint(s, s.retval, 8), Lin(int(want)), "result")
    return Case("%s %s" % (nm, "same" if same else "different"), nm, mk, spec)


# --- SmallAllocator -------------------------------------------------------------
SMALL = [("i4", "int", 4, 4, 4), ("s3", "S24", 3, 24, 8), ("w8", "int", 8, 4, 16)]
SSEQ = []


def _gen(pre, n, live, nb):
    if pre:
        SSEQ.append((pre, tuple(live)))
    if n == 0:
        return
    _gen(pre + (("a", None),), n - 1, live + [nb], nb + 1)
    for k, b in enumerate(live):
        rest = live[:k] + live[k + 1:]
        _gen(pre + (("f", b),), n - 1, rest, nb)
        _gen(pre + (("r", b),), n - 1, rest + [nb], nb + 1)


_gen((), 4 if T else 3, [], 0)
if not T:
    SSEQ += [((("a", None), ("a", None), ("f", 0), ("a", None)), (1, 2)), ((("a", None), ("a", None), ("f", 1), ("a", None)), (0, 2)), ((("a", None), ("a", None), ("r", 0), ("a", None)), (1, 2, 3))]


def sname(q):
    return "".join(c + ("" if b is None else str(b)) for c, b in q)


def src_small():
    t = HEAD + "struct O { void *p[6]; void *arr; };\n"
    names = []
    for sm in SMALL:
        for q, live in SSEQ:
            nm = "k_%s_%s" % (sm[0], sname(q))
            t += "W void %s(O *o, char *mem, size_t n1, size_t n2, size_t n3, size_t n4) { Src A(1); using SA = SmallAllocator<%s, %d, %d, MemRes>; SA &a = *new ((void*)mem) SA(&A);\n" % (nm, sm[1], sm[2], sm[4])
            cnt = {}
            nb = 0
            for i, (ch, b) in enumerate(q):
                if ch == "a":
                    t += "  %s *b%d = a.allocate(n%d); o->p[%d] = b%d;\n" % (sm[1], nb, i + 1, nb, nb)
                    cnt[nb] = i + 1
                    nb += 1
                elif ch == "f":
                    t += "  a.deallocate(b%d, n%d);\n" % (b, cnt[b])
                else:
                    t += "  %s *b%d = a.reallocate(b%d, n%d, n%d); o->p[%d] = b%d;\n" % (sm[1], nb, b, cnt[b], i + 1, nb, nb)
                    cnt[nb] = i + 1
                    nb += 1
            t += "}\n"
            names.append((nm, sm, q, live))
    return t, names


def small_case(nm, sm, q, live):
    N, size, al = sm[2], sm[3], sm[4]

    def mk(I):
        out = Obj("out", "result", 56)
        # the allocator object itself; generous bound on its own size
        mo = Obj("buf", "allocator", N * size + 256, align=al)
        ns = [I.sym("n%d" % i, 0, 64, "in") for i in range(1, 5)]
        return [Ptr(out, ZERO), Ptr(mo, ZERO)] + ns, (out, mo, ns), None

    def spec(x, env, s):
        out, mo, ns = env
        if s.status != "ret":
            return "does not return"
        # history of the source
        held = []
        for e in s.events:
            if e[0] == "alloc":
                if not x.ge(e[4], al):
                    return "align|a block is requested with alignment %r, expected at least %d" % (e[4], al)
                held.append((e[2], e[3]))
            elif e[0] in ("free", "realloc"):
                h = [b for b in held if samep(x, b[0], e[2])]
                if not h:
                    return "free|memory %r is given back to the resource, which did not come from it or was given back before" % (e[2],)
                if not x.eq(h[0][1], e[3]):
                    return "free|block of size %r is given back with size %r" % (h[0][1], e[3])
                held.remove(h[0])
                if e[0] == "realloc":
                    held.append((e[4], e[5]))
        cnt, nb, origin = {}, 0, {}
        for i, (ch, b) in enumerate(q):
            if ch == "a":
                cnt[nb], origin[nb] = ns[i], nb
                nb += 1
            elif ch == "r":
                cnt[nb], origin[nb] = ns[i], b
                nb += 1
        blocks = []
        nheap = 0
        for b in live:
            p = x.out(out, 8 * b, "p")
            n = cnt[b].scale(size)
            if not isinstance(p, Ptr):
                return ("block is %r" % (p,),)
            if p.obj is mo:
                for v in range(0, N * size + 256, al):
                    if x.eq(p.off, v):
                        break
                else:
                    return "align|block at offset %r of the allocator is not aligned to %d" % (p.off, al)
                q0 = x.out(out, 0, "p")
                base = q0.off if isinstance(q0, Ptr) and q0.obj is mo else Lin(64)
                if not x.ge(base + N * size - p.off, n):
                    return "bounds|block [%r,+%r) exceeds the array of the allocator" % (p.off, n)
            else:
                h = [k for k in held if samep(x, k[0], p)]
                if not h:
                    return "live|a live block %r was given back to the resource" % (p,)
                if not x.eq(h[0][1], n):
                    return "size|a block of %r bytes has %r" % (n, h[0][1])
                nheap += 1
            blocks.append((b, p, n))
        if nheap != len(held):
            return "leak|%d blocks are held from the resource, but only %d are in use" % (len(held), nheap)
        for i in range(len(blocks)):
            for j in range(i):
                (_, p, n), (_, r, k) = blocks[i], blocks[j]
                if p.obj is r.obj and x.ge(n, 1) and x.ge(k, 1) and not x.ge(p.off, r.off + k) and not x.ge(r.off, p.off + n):
                    return "overlap|live blocks [%r,+%r) and [%r,+%r) overlap" % (p.off, n, r.off, k)
        # contents: byte j of a live block is the byte the first version of it had
        for b, p, n in blocks:
            keep, o = n, b
            while origin[o] != o:
                o = origin[o]
                k = cnt[o].scale(size)
                keep = k if x.le(k, keep) else keep
            p0 = x.out(out, 8 * o, "p")
            if not isinstance(p0, Ptr):
                return ("block is %r" % (p0,),)
            j = x.I.sym("j", 0, 1 << 20, "in")
            y = s.copy()
            try:
                y.st.add_ge(keep - 1 - j)
            except Infeasible:
                continue
            for z, (got, want) in withsplit(x.I, y, lambda z: (readbyte(x.I, z, p.obj, z.st.norm(p.off + j)), X(x.I, z).init(p0.obj, p0.off + j))):
                if got is None or z.st.decide(("eq", got - want)) is not True:
                    if got is not None and z.st.decide(("eq", got - want)) is None and havoc_constrained(z):
                        return ("contents not established",)
                    if feasible(z.st) is False:
                        continue
                    return "contents|byte %r of block %r is %r, expected %r" % (j, p, got, want)
        return None
    return Case("small %s: %s" % (sm[0], sname(q)), nm, mk, spec)


# --- aligned allocation ---------------------------------------------------------
AA = '''#include <c4/memory_resource.hpp>
using namespace c4;
#define W extern "C"
extern "C" void *f_alloc(size_t, size_t); extern "C" void f_free(void*); extern "C" void *f_re(void*, size_t, size_t, size_t);
W void *z_aalloc(size_t sz, size_t al) { return aalloc(sz, al); }
W void z_afree(void *p) { afree(p); }
W void *z_arealloc(void *p, size_t o, size_t n, size_t al) { return arealloc(p, o, n, al); }
W void *z_malloc(size_t sz, size_t al) { return get_memory_resource()->allocate(sz, al); }
W void z_mfree(void *p, size_t o, size_t al) { get_memory_resource()->deallocate(p, o, al); }
W void *z_mre(void *p, size_t o, size_t n, size_t al) { return get_memory_resource()->reallocate(p, o, n, al); }
W void *z_mallocD(size_t sz) { return get_memory_resource()->allocate(sz); }
W void z_mfreeD(void *p, size_t o) { get_memory_resource()->deallocate(p, o); }
W void *z_mreD(void *p, size_t o, size_t n) { return get_memory_resource()->reallocate(p, o, n); }
W void *y_aalloc(size_t sz, size_t al) { set_aalloc(f_alloc); return aalloc(sz, al); }
W void y_afree(void *p) { set_afree(f_free); afree(p); }
W void *y_arealloc(void *p, size_t o, size_t n, size_t al) { set_arealloc(f_re); return arealloc(p, o, n, al); }
W bool y_get() { set_aalloc(f_alloc); set_afree(f_free); set_arealloc(f_re); return get_aalloc() == f_alloc && get_afree() == f_free && get_arealloc() == f_re; }
'''


def h_fn(k):
    def h(I, s, a, ins):
        s.events.append((k,) + tuple(a))
        return None if k == "f_free" else I.fresh_of(s, "p", 64, k)
    return h


EXT.update(f_alloc=h_fn("f_alloc"), f_free=h_fn("f_free"), f_re=h_fn("f_re"))


def aa_case(nm, al):
    def mk(I):
        n, old = I.sym("n", 0, 1 << 40, "in"), I.sym("old", 0, 1 << 40, "in")
        mo = I.newobj("heap", "given", old, align=4096)
        P = Ptr(mo, ZERO)
        A = Lin(al)
        if nm[-1] == "D":
            return {"malloc": [n], "mfree": [P, old], "mre": [P, old, n]}[nm[2:-1]], (mo, n, old), None
        return {"aalloc": [n, A], "malloc": [n, A], "afree": [P], "mfree": [P, old, A], "arealloc": [P, old, n, A], "mre": [P, old, n, A], "get": []}[nm[2:]], (mo, n, old), None

    def spec(x, env, s):
        mo, n, old = env
        ev = [e for e in s.events if e[0] in ("alloc", "cfree", "f_alloc", "f_free", "f_re", "nomem")]
        k = nm[2:].rstrip("D")
        if k == "get":
            return expect_int(x, x.I.asint(s, s.retval, 8), Lin(1), "result")
        if nm[0] == "y":
            w = {"aalloc": "f_alloc", "afree": "f_free", "arealloc": "f_re"}[k]
            if len(ev) != 1 or ev[0][0] != w:
                return "the function set is not called once"
            want = {"aalloc": [n, Lin(al)], "afree": [Ptr(mo, ZERO)], "arealloc": [Ptr(mo, ZERO), old, n, Lin(al)]}[k]
            for g, wv in zip(ev[0][1:], want):
                if not (samep(x, g, wv) if isinstance(wv, Ptr) else isinstance(g, Lin) and x.eq(g, wv)):
                    return "the function set gets %r, expected %r" % (g, wv)
            return None
        P = Ptr(mo, ZERO)
        fr = [e for e in ev if e[0] == "cfree"]
        if any(e[0] == "nomem" for e in ev):
            if s.status == "ret":
                return "out of memory is not reported as an error"
            if any(samep(x, e[1], P) for e in fr):
                return "the block is freed although the reallocation fails"
            return None
        if s.status != "ret":
            return "does not return"
        al_ = [e for e in ev if e[0] == "alloc"]
        if k in ("afree", "mfree"):
            if al_ or len(fr) != 1 or not samep(x, fr[0][1], P):
                return "the block is not freed exactly once"
            return None
        R = s.retval
        if k in ("mre", "arealloc") and samep(x, R, P) and not al_ and not fr:
            return None if x.ge(old, n) else "size|a block of %r bytes is returned, expected %r" % (old, n)
        if len(al_) != 1 or not samep(x, R, al_[0][2]):
            return "the block returned is not the one allocated"
        if not x.eq(al_[0][3], n) and not x.ge(al_[0][3], n):
            return "size|a block of %r bytes is allocated, expected %r" % (al_[0][3], n)
        a = al_[0][4]
        if not a.isconst() or a.c % al or a.c % 8 or a.c & (a.c - 1):
            return "align|memory is allocated with alignment %r, expected at least %d and valid for the system" % (a, al)
        if k in ("malloc", "aalloc"):
            return "a block is freed" if fr else None
        if len(fr) != 1 or not samep(x, fr[0][1], P):
            return "free|the old block is not freed exactly once"
        keep = old if x.le(old, n) else n
        j = x.I.sym("j", 0, 1 << 40, "in")
        y = s.copy()
        try:
            y.st.add_ge(keep - 1 - j)
        except Infeasible:
            return None
        for z, (got, want) in withsplit(x.I, y, lambda z: (readbyte(x.I, z, R.obj, z.st.norm(R.off + j)), X(x.I, z).init(mo, j))):
            if got is None or z.st.decide(("eq", got - want)) is not True:
                return "contents|byte %r of the new block is %r, expected %r" % (j, got, want)
        return None
    return Case("%s al=%d" % (nm, al), nm, mk, spec)


def go(m, c, r, opts=None):
    I, fs = run_case(m, c, r, ext=EXT, aborts=True, opts=opts)
    memcheck(r, I, c.entry, objs=("allocator", "result", "given", "block", "moved block"))


SRCS = ["src/c4/memory_resource.cpp", "src/c4/memory_util.cpp"]
todo = []
t, names = src_alloc()
m = ck.ir("alloc", t, sources=SRCS, keep=["std::align"])
todo += [(m, alloc_case(*n), None) for n in names] if m else []
m = ck.ir("eq", EQ)
todo += [(m, eq_case(n, b), None) for n in ("q_eq", "q_ne", "q_geq") for b in (True, False)] if m else []
t, names = src_small()
m = ck.ir("small", t, sources=SRCS, keep=["std::align"])
todo += [(m, small_case(*n), None) for n in names] if m else []
m = ck.ir("aalloc", AA, sources=SRCS, keep=["std::align"])
if m:
    for al in (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096):
        for n in ("z_aalloc", "z_arealloc", "z_malloc", "z_mre", "y_aalloc", "y_arealloc"):
            todo.append((m, aa_case(n, al), {"ginit": True}))
    for n in ("z_afree", "z_mfree", "y_afree", "y_get"):
        todo.append((m, aa_case(n, 8), {"ginit": True}))
    for n in ("z_mallocD", "z_mreD", "z_mfreeD"):  # no alignment given: suited to every type
        todo.append((m, aa_case(n, 16), {"ginit": True}))
for mm, c, o in todo:
    ck.task(c.name, lambda r, c=c, m=mm, o=o: go(m, c, r, o))
ck.run()
ck.finish("every block an allocator hands out has the bytes and alignment requested, is disjoint from every other live block, keeps its contents across reallocation, and goes back to the resource it came from exactly once; out of memory is an error",
          "ownership analysis by abstract interpretation of Allocator, SmallAllocator and aalloc/arealloc/afree against recording models of the memory resource and of posix_memalign/free: every sequence of up to %d allocate/deallocate/reallocate calls with symbolic numbers of objects" % (4 if T else 3),
          ["number of objects times object size is representable", "the memory resource succeeds or does not return", "posix_memalign and free behave as specified"], {"cases": len(todo)})
