"""memory resources: owned chunks go back to their source, accounting is exact, scopes restore"""
from memres import *

ck = Check("C21")
T = ck.thorough
HEAD = '''#include <c4/memory_resource.hpp>
using namespace c4;
#define W extern "C"
''' + SRCRES

# --- single-chunk resources -------------------------------------------------
CTOR = {"d": "MemoryResourceLinear m(&A);", "o": "MemoryResourceLinear m((size_t)z0, &A);", "b": "MemoryResourceLinear m((void*)mem, (size_t)z0);",
        "D": "MemoryResourceLinear m;", "O": "MemoryResourceLinear m((size_t)z0);"}
OPS = {"a": "m.acquire((size_t)z%d);", "b": "m.acquire((void*)mem, (size_t)z%d);", "r": "m.release();", "c": "m.clear();", "p": "o->p = m.allocate(z%d, 1);"}
SEQ = [""]
for k in range(1, 4 if T else 3):
    SEQ += [q + c for q in SEQ if len(q) == k - 1 for c in OPS]
SEQ += ["aaa", "abr", "apa", "bra", "pcp", "rar", "aba"] if not T else []


def src_chunks():
    t = HEAD + '''struct O { void *p; void const *mem; size_t cap, size; };
'''
    names = []
    for c in CTOR:
        for q in SEQ:
            nm = "k_%s_%s" % (c, q or "none")
            t += "W void %s(O *o, char *mem, size_t z0, size_t z1, size_t z2, size_t z3) { Src A(1), B(2); ScopedMemoryResource sc(&A); %s set_memory_resource(&B);\n" % (nm, CTOR[c])
            for i, ch in enumerate(q):
                t += "  " + (OPS[ch] % (i + 1) if "%d" in OPS[ch] else OPS[ch]) + "\n"
            t += "  o->mem = m.mem(); o->cap = m.capacity(); o->size = m.size(); set_memory_resource(&A); }\n"
            names.append((nm, c, q))
    return t, names


def chunk_case(nm, c, q):
    def mk(I):
        out = Obj("out", "result", 32)
        mo, size = strobj(I, "mem", None)
        zs = [I.sym("z%d" % i, 1, 1 << 40, "in") for i in range(4)]
        return [Ptr(out, ZERO), Ptr(mo, ZERO)] + zs, (out, mo, zs), None

    def spec(x, env, s):
        out, mo, zs = env
        got = [e for e in s.events if e[0] in ("alloc", "free", "realloc")]
        allocs = [e for e in got if e[0] == "alloc"]
        # reference
        na, cap, pos, cur = 0, ZERO, ZERO, None
        steps = [("a" if c in "oO" else "b" if c == "b" else "n", 0)] + [(ch, i + 1) for i, ch in enumerate(q)]
        err = False
        for ch, i in steps:
            if ch == "a":
                if len(allocs) <= na:
                    return "the memory for an owned chunk is not obtained from the source"
                e = allocs[na]
                if not x.eq(e[1], 1):
                    return "source|the chunk is obtained from another resource than the one in force when the object was made"
                if not x.eq(e[3], zs[i]):
                    return "source|the chunk obtained has size %r, expected %r" % (e[3], zs[i])
                if not x.ge(e[4], 16):
                    return "source|the chunk obtained has alignment %r, expected that of max_align_t" % (e[4],)
                na += 1
                cap, pos, cur = zs[i], ZERO, e[2]
            elif ch == "b":
                cap, pos, cur = zs[i], ZERO, Ptr(mo, ZERO)
            elif ch == "r":
                cap, pos, cur = ZERO, ZERO, None
            elif ch == "c":
                pos = ZERO
            elif ch == "p":
                if not x.ge(cap, pos + zs[i]):
                    err = True
                    break
                pos = pos + zs[i]
        if err:
            return None if s.status != "ret" else "a request that does not fit is granted"
        if s.status != "ret":
            return "does not return"
        if len(allocs) != na:
            return "source|%d chunks are obtained from the source, expected %d" % (len(allocs), na)
        r = balanced(x, s)
        if r:
            return r
        M = x.out(out, 8, "p")
        if cur is None:
            if not (isinstance(M, Ptr) and M.obj is None or M is NULL or x_isnull(x, M)):
                return "mem() is %r after release, expected null" % (M,)
        elif not samep(x, M, cur):
            return "mem() is %r, expected %r" % (M, cur)
        return expect_int(x, x.out(out, 16), cap, "capacity()") or expect_int(x, x.out(out, 24), pos, "size()")
    return Case("chunk %s: %s" % (c, q or "none"), nm, mk, spec)


def x_isnull(x, p):
    try:
        return x.I.isnull(x.s, p) is True
    except Exception:
        return p == NULL


# --- accounting -------------------------------------------------------------
#  a: allocate block; f: free the oldest live block; r: reallocate the oldest live block
CSEQ = []
for k in range(1, 5 if T else 4):
    def gen(pre, n, live):
        if n == 0:
            CSEQ.append(pre)
            return
        gen(pre + "a", n - 1, live + 1)
        if live:
            gen(pre + "f", n - 1, live - 1)
            gen(pre + "r", n - 1, live)
    gen("", k, 0)


def src_counts():
    t = HEAD + "struct O { AllocationCounts c; MemoryResource *r; void *p[4]; };\n"
    names = []
    for how in "me":   # member resource given / global
        for q in CSEQ:
            nm = "n_%s_%s" % (how, q)
            t += "W void %s(O *o, size_t z1, size_t z2, size_t z3, size_t z4, size_t al) { Src A(1), B(2); ScopedMemoryResource sc(&A); %s set_memory_resource(&B); MemoryResource &m = mc;\n" % (nm, "MemoryResourceCounts mc(&A);" if how == "m" else "MemoryResourceCounts mc;")
            live = []
            nb = 0
            for i, ch in enumerate(q):
                if ch == "a":
                    t += "  void *b%d = m.allocate(z%d, al);\n" % (nb, i + 1)
                    live.append((nb, i + 1))
                    nb += 1
                elif ch == "f":
                    b, z = live.pop(0)
                    t += "  m.deallocate(b%d, z%d, al);\n" % (b, z)
                else:
                    b, z = live.pop(0)
                    t += "  void *b%d = m.reallocate(b%d, z%d, z%d, al);\n" % (nb, b, z, i + 1)
                    live.append((nb, i + 1))
                    nb += 1
            for j, (b, z) in enumerate(live):
                t += "  o->p[%d] = b%d;\n" % (j, b)
            t += "  o->c = mc.counts(); o->r = mc.resource(); }\n"
            names.append((nm, how, q, [b for b, z in live]))
    return t, names


def count_case(nm, how, q, liveb):
    def mk(I):
        out = Obj("out", "result", 48 + 8 + 32)
        zs = [I.sym("z%d" % i, 0, 1 << 40, "in") for i in range(1, 5)]
        al = I.sym("alignment", 1, 4096, "in")
        return [Ptr(out, ZERO)] + zs + [al], (out, zs, al), None

    def spec(x, env, s):
        out, zs, al = env
        ev = [e for e in s.events if e[0] in ("alloc", "free", "realloc")]
        if len(ev) != len(q):
            return "forward|%d calls reach the resource, expected %d" % (len(ev), len(q))
        ca = Lin(0)
        cs = Lin(0)
        ta, ts, ma, ms = Lin(0), Lin(0), Lin(0), Lin(0)
        live = []
        ptrs = []
        for i, ch in enumerate(q):
            e = ev[i]
            if e[0] != {"a": "alloc", "f": "free", "r": "realloc"}[ch] or not x.eq(e[1], 1):
                return "forward|call %d is not forwarded to the resource as it is" % (i + 1)
            if not x.eq(e[-1], al):
                return "forward|alignment %r becomes %r" % (al, e[-1])
            if ch == "a":
                if not x.eq(e[3], zs[i]):
                    return "forward|size %r becomes %r" % (zs[i], e[3])
                live.append((e[2], zs[i]))
                ptrs.append(e[2])
                ca, cs, ta, ts = ca + 1, cs + zs[i], ta + 1, ts + zs[i]
            else:
                p, z = live.pop(0)
                if not samep(x, e[2], p) or not x.eq(e[3], z):
                    return "forward|block (%r, %r) becomes (%r, %r)" % (p, z, e[2], e[3])
                ca, cs = ca - 1, cs - z
                if ch == "r":
                    if not x.eq(e[5], zs[i]):
                        return "forward|size %r becomes %r" % (zs[i], e[5])
                    live.append((e[4], zs[i]))
                    ptrs.append(e[4])
                    ca, cs, ta, ts = ca + 1, cs + zs[i], ta + 1, ts + zs[i]
            if ch != "f":
                if x.ge(ca, ma):
                    ma = ca
                if x.ge(cs, ms):
                    ms = cs
        for i, (w, v) in enumerate((("curr.allocs", ca), ("curr.size", cs), ("total.allocs", ta), ("total.size", ts), ("max.allocs", ma), ("max.size", ms))):
            r = expect_int(x, x.out(out, 8 * i), v, w)
            if r:
                return r
        for j, b in enumerate(liveb):
            if not samep(x, x.out(out, 56 + 8 * j, "p"), ptrs[b]):
                return "result|the block returned is %r, expected %r" % (x.out(out, 56 + 8 * j, "p"), ptrs[b])
        return None
    return Case("counts %s: %s" % (how, q), nm, mk, spec)


AR = HEAD + '''
W void ar_add(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *b) { *o = *a + *b; }
W void ar_sub(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *b) { *o = *a - *b; }
W void ar_upd(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *b) { AllocationCounts c(*a); c.update(*b); *o = c; }
W void ar_clr(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *) { AllocationCounts c(*a); c.clear_counts(); *o = c; }
W void ar_new(AllocationCounts *o, AllocationCounts const *, AllocationCounts const *) { AllocationCounts c; *o = c; }
W void ar_anull(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *) { AllocationCounts c(*a); c.add_counts(nullptr, 7); *o = c; }
W void ar_rnull(AllocationCounts *o, AllocationCounts const *a, AllocationCounts const *) { AllocationCounts c(*a); c.rem_counts(nullptr, 7); *o = c; }
W void ar_max(AllocationCounts::Item *o, AllocationCounts::Item const *a, AllocationCounts::Item const *b) { *o = a->max(*b); }
'''


def ar_case(nm):
    def mk(I):
        n = 2 if nm == "ar_max" else 6
        out, a, b = Obj("out", "result", 8 * n), Obj("in", "left", 8 * n), Obj("in", "right", 8 * n)
        av = [I.sym("a%d" % i, -(1 << 40), 1 << 40, "in") for i in range(n)]
        bv = [I.sym("b%d" % i, -(1 << 40), 1 << 40, "in") for i in range(n)]

        def setup(s):
            for i in range(n):
                I.store(s, Ptr(a, Lin(8 * i)), av[i], 8, None)
                I.store(s, Ptr(b, Lin(8 * i)), bv[i], 8, None)
        return [Ptr(out, ZERO), Ptr(a, ZERO), Ptr(b, ZERO)], (out, av, bv), setup

    def spec(x, env, s):
        out, av, bv = env
        for i in range(len(av)):
            a, b = av[i], bv[i]
            w = {"ar_add": a + b, "ar_upd": a + b, "ar_sub": a - b, "ar_clr": ZERO, "ar_new": ZERO, "ar_anull": a, "ar_rnull": a}.get(nm)
            if w is None:
                w = a if x.ge(a, b) else b
            g = x.out(out, 8 * i)
            if isinstance(g, Lin) and x.eq(g, w):
                continue
            r = expect_sint(x, g, w, "field %d" % i)
            if r:
                return r
        return None
    return Case(nm, nm, mk, spec)


def expect_sint(x, g, w, what):
    if g is None:
        return "%s is left unset" % what
    g = x.I.S(x.s, g, 64)
    return None if x.eq(g, w) else "%s is %r, expected %r" % (what, g, w)


# --- scopes -------------------------------------------------------------------
SC = HEAD + '''
struct O { MemoryResource *r[6]; MemoryResource *e[6]; };
W void s_plain(O *o) { Src A(1), B(2), C(3); set_memory_resource(&A); o->r[0] = get_memory_resource(); { ScopedMemoryResource s(&B); o->r[1] = get_memory_resource(); { ScopedMemoryResource t(&C); o->r[2] = get_memory_resource(); } o->r[3] = get_memory_resource(); } o->r[4] = get_memory_resource();
  o->e[0] = &A; o->e[1] = &B; o->e[2] = &C; o->e[3] = &B; o->e[4] = &A; o->r[5] = o->e[5] = &A; }
W void s_counts(O *o) { Src A(1), B(2), C(3); set_memory_resource(&A); { ScopedMemoryResourceCounts s; o->r[0] = get_memory_resource(); o->e[0] = &s.mr; o->r[1] = s.mr.resource(); o->e[1] = &A; { ScopedMemoryResourceCounts t(&C); o->r[2] = get_memory_resource(); o->e[2] = &t.mr; o->r[3] = t.mr.resource(); o->e[3] = &C; } o->r[4] = get_memory_resource(); o->e[4] = &s.mr; } o->r[5] = get_memory_resource(); o->e[5] = &A; }
W void s_mixed(O *o) { Src A(1), B(2), C(3); set_memory_resource(&A); { ScopedMemoryResource s(&B); { ScopedMemoryResourceCounts t; o->r[0] = t.mr.resource(); o->e[0] = &B; { ScopedMemoryResource u(&C); o->r[1] = get_memory_resource(); o->e[1] = &C; } o->r[2] = get_memory_resource(); o->e[2] = &t.mr; } o->r[3] = get_memory_resource(); o->e[3] = &B; } o->r[4] = get_memory_resource(); o->e[4] = &A; o->r[5] = o->e[5] = &A; }
W void s_set(O *o) { Src A(1), B(2), C(3); set_memory_resource(&A); { ScopedMemoryResource s(&B); set_memory_resource(&C); o->r[0] = get_memory_resource(); o->e[0] = &C; } o->r[1] = get_memory_resource(); o->e[1] = &A; { ScopedMemoryResourceCounts s(&B); set_memory_resource(&C); } o->r[2] = get_memory_resource(); o->e[2] = &A; for(int i = 3; i < 6; ++i) o->r[i] = o->e[i] = &A; }
W void s_use(O *o, size_t z, size_t al) { Src A(1), B(2); set_memory_resource(&A); { ScopedMemoryResource s(&B); void *p = get_memory_resource()->allocate(z, al); get_memory_resource()->deallocate(p, z, al); } void *p = get_memory_resource()->allocate(z, al); get_memory_resource()->deallocate(p, z, al); for(int i = 0; i < 6; ++i) o->r[i] = o->e[i] = &A; }

W void s_der(O *o, size_t z, size_t al, size_t y) { Src A(1), B(2); set_memory_resource(&A); { detail::DerivedMemoryResource dd(&B); MemoryResource &d = dd; void *p = d.allocate(z, al); o->r[0] = (MemoryResource*)p; p = d.reallocate(p, z, y, al); o->e[0] = (MemoryResource*)p; d.deallocate(p, y, al); } }
W void s_derd(O *o, size_t z, size_t al, size_t y) { Src A(1), B(2); set_memory_resource(&A); { detail::DerivedMemoryResource dd; set_memory_resource(&B); MemoryResource &d = dd; void *p = d.allocate(z, al); o->r[0] = (MemoryResource*)p; p = d.reallocate(p, z, y, al); o->e[0] = (MemoryResource*)p; d.deallocate(p, y, al); } }
W MemoryResource** s_tls() { return &detail::get_memory_resource(); }
'''


def tls_case():
    def spec(x, env, s):
        v = s.retval
        if not isinstance(v, Ptr):
            return ("storage of the resource in force not identified",)
        if v.obj.id not in x.I.tls:
            return "the resource in force is kept in storage shared between threads (%r)" % (v.obj,)
        return None
    return Case("s_tls", "s_tls", lambda I: ([], None, None), spec)


def scope_case(nm):
    def mk(I):
        out = Obj("out", "result", 96)
        a = [Ptr(out, ZERO)]
        z = al = None
        if nm == "s_use":
            z, al = I.sym("z", 1, 1 << 40, "in"), I.sym("alignment", 1, 4096, "in")
            a += [z, al]
        return a, (out, z, al), None

    def spec(x, env, s):
        out, z, al = env
        for i in range(6):
            g, w = x.out(out, 8 * i, "p"), x.out(out, 48 + 8 * i, "p")
            if not samep(x, g, w):
                return "at point %d the resource in force is %r, expected %r" % (i, g, w)
        if nm == "s_use":
            ev = [e for e in s.events if e[0] in ("alloc", "free")]
            for e, (k, i) in zip(ev, (("alloc", 2), ("free", 2), ("alloc", 1), ("free", 1))):
                if e[0] != k or not x.eq(e[1], i) or not x.eq(e[3], z) or not x.eq(e[4], al):
                    return "call %r does not reach resource %d" % (e[0], i)
            if len(ev) != 4:
                return "%d calls reach the resources, expected 4" % len(ev)
            return balanced(x, s)
        return None
    return Case(nm, nm, mk, spec)


def derived_case(nm, rid):
    """a resource that obtains its memory from another hands every call on, unchanged"""
    def mk(I):
        out = Obj("out", "result", 96)
        z, y, al = I.sym("z", 1, 1 << 40, "in"), I.sym("y", 1, 1 << 40, "in"), I.sym("alignment", 1, 4096, "in")
        return [Ptr(out, ZERO), z, al, y], (out, z, al, y), None

    def spec(x, env, s):
        out, z, al, y = env
        ev = [e for e in s.events if e[0] in ("alloc", "free", "realloc")]
        if [e[0] for e in ev] != ["alloc", "realloc", "free"]:
            return "the calls reaching the resource are %s, expected alloc, realloc, free" % [e[0] for e in ev]
        for e in ev:
            if not x.eq(e[1], rid):
                return "call %r does not reach resource %d" % (e[0], rid)
        a, q, f = ev
        if not samep(x, x.out(out, 0, "p"), a[2]) or not samep(x, x.out(out, 48, "p"), q[4]):
            return "the block returned is not the one obtained"
        for g, w in ((a[3], z), (a[4], al), (q[3], z), (q[5], y), (q[6], al), (f[3], y), (f[4], al)):
            if not x.eq(g, w):
                return "a size or alignment is changed: %r, expected %r" % (g, w)
        return balanced(x, s)
    return Case(nm, nm, mk, spec)


def go(m, c, r):
    I, fs = run_case(m, c, r, ext=SR, aborts=True)
    memcheck(r, I, c.entry, objs=("mem", "result", "left", "right"))


SRCS = ["src/c4/memory_resource.cpp", "src/c4/memory_util.cpp"]
ncase = 0
t, names = src_chunks()
m = ck.ir("chunk", t, sources=SRCS, keep=["std::align"])
todo = [(m, chunk_case(*n)) for n in names] if m else []
t, names = src_counts()
m = ck.ir("count", t, sources=SRCS, keep=["std::align"])
todo += [(m, count_case(*n)) for n in names] if m else []
m = ck.ir("arith", AR)
todo += [(m, ar_case(n)) for n in ("ar_add", "ar_sub", "ar_upd", "ar_clr", "ar_new", "ar_anull", "ar_rnull", "ar_max")] if m else []
m = ck.ir("scope", SC, sources=SRCS, keep=["std::align"])
todo += [(m, scope_case(n)) for n in ("s_plain", "s_counts", "s_mixed", "s_set", "s_use")] + [(m, tls_case()), (m, derived_case("s_der", 2)), (m, derived_case("s_derd", 1))] if m else []
for mm, c in todo:
    ck.task(c.name, lambda r, c=c, m=mm: go(m, c, r))
ck.run()
ck.finish("every chunk obtained from a source is given back to it exactly once with its address, size and alignment, borrowed memory never is; counts equal the allocations made; leaving a scope puts back the resource in force before it",
          "ownership and effect analysis by abstract interpretation of the library code against a recording source resource, for every sequence of up to %d resource operations (construct, acquire, release, clear, allocate) and up to %d counted operations, sizes and alignments symbolic" % (3 if T else 2, 4 if T else 3),
          ["the source resource succeeds or does not return", "std::align behaves as specified"], {"cases": len(todo)})
