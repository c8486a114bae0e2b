"""objects in raw memory: each constructed, assigned, moved and destroyed exactly as asked, in every position"""
from memres import *
import itertools

ck = Check("C25")
T = ck.thorough
PRE = '''#include <new>
#include <c4/ctor_dtor.hpp>
#include <c4/allocator.hpp>
using namespace c4;
#define W extern "C"
struct NT {
    char d[3];
    NT() noexcept; NT(NT const&) noexcept; NT(NT &&) noexcept; NT(int, long) noexcept;
    NT& operator=(NT const&) noexcept; NT& operator=(NT&&) noexcept; ~NT() noexcept;
};
struct P { short a; char b; };            // trivial
struct D { int a = 7; char b = 9; };      // trivially copyable, not trivially constructible
struct Q { int a; Q(int x, long y) : a(x + int(y)) {} Q(Q const&) = default; Q& operator=(Q const&) = default; };
'''
FN = '''
W void cn_TG(U *d, U *s, IX n, IX r, IX p) { construct_n(d, n); }
W void c1_TG(U *d, U *s, IX n, IX r, IX p) { construct(d); }
W void ccn_TG(U *d, U *s, IX n, IX r, IX p) { copy_construct_n(d, (U const*)s, n); }
W void cc1_TG(U *d, U *s, IX n, IX r, IX p) { copy_construct(d, (U const*)s); }
W void cca_TG(U *d, U *s, IX n, IX r, IX p) { copy_construct<U, 3>(*(U(*)[3])d, *(U const(*)[3])s); }
W void cvn_TG(U *d, U *s, IX n, IX r, IX p) { copy_construct_n(d, *(U const*)s, n); }
W void cv1_TG(U *d, U *s, IX n, IX r, IX p) { copy_construct(d, *(U const*)s); }
W void can_TG(U *d, U *s, IX n, IX r, IX p) { copy_assign_n(d, (U const*)s, n); }
W void ca1_TG(U *d, U *s, IX n, IX r, IX p) { copy_assign(d, (U const*)s); }
W void caa_TG(U *d, U *s, IX n, IX r, IX p) { copy_assign<U, 3>(*(U(*)[3])d, *(U const(*)[3])s); }
W void avn_TG(U *d, U *s, IX n, IX r, IX p) { copy_assign_n(d, *(U const*)s, n); }
W void av1_TG(U *d, U *s, IX n, IX r, IX p) { copy_assign(d, *(U const*)s); }
W void mcn_TG(U *d, U *s, IX n, IX r, IX p) { move_construct_n(d, s, n); }
W void mc1_TG(U *d, U *s, IX n, IX r, IX p) { move_construct(d, s); }
W void man_TG(U *d, U *s, IX n, IX r, IX p) { move_assign_n(d, s, n); }
W void ma1_TG(U *d, U *s, IX n, IX r, IX p) { move_assign(d, s); }
W void dn_TG(U *d, U *s, IX n, IX r, IX p) { destroy_n(d, n); }
W void d1_TG(U *d, U *s, IX n, IX r, IX p) { destroy(d); }
W void mr_TG(U *d, U *s, IX n, IX r, IX p) { make_room(d, n, r); }
W void mrp_TG(U *d, U *s, IX n, IX r, IX p) { make_room(d, (IX)(n + r), n, p, r); }
W void mrs_TG(U *d, U *s, IX n, IX r, IX p) { make_room(d, (U const*)s, n, r, p); }
W void mrd_TG(U *d, U *s, IX n, IX r, IX p) { make_room(d, (IX)(n + r), (U const*)s, n, r, p); }
W void dr_TG(U *d, U *s, IX n, IX r, IX p) { destroy_room(d, n, r); }
W void drs_TG(U *d, U *s, IX n, IX r, IX p) { destroy_room(d, (U const*)s, n, r, p); }
'''
ARGN = '''
W void can2_TG(U *d, U *s, IX n, IX r, IX p) { construct_n(d, n, 5, 6L); }
W void ca2_TG(U *d, U *s, IX n, IX r, IX p) { construct(d, 5, 6L); }
W void fmv_TG(U *d, U *s, IX n, IX r, IX p) { construct(d, (U &&)*s); }
W void fcp_TG(U *d, U *s, IX n, IX r, IX p) { construct(d, (U const&)*s); }
W void fmn_TG(U *d, U *s, IX n, IX r, IX p) { construct_n(d, n, (U &&)*s); }
'''
# the same operations through an allocator
ALN = '''
W void A_cn_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.construct_n(d, n); }
W void A_c1_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.construct(d); }
W void A_dn_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.destroy_n(d, n); }
W void A_d1_TG(U *d, U *s, IX n, IX r, IX p) { SmallAllocator<U, 4, alignof(U), MemRes> a((MemoryResource*)(void*)s); a.destroy(d); }
'''
ALA = '''
W void A_can2_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.construct_n(d, n, 5, 6L); }
W void A_ca2_TG(U *d, U *s, IX n, IX r, IX p) { SmallAllocator<U, 4, alignof(U), MemRes> a((MemoryResource*)(void*)s); a.construct(d, 5, 6L); }
W void A_fmv_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.construct(d, (U &&)*s); }
W void A_fcp_TG(U *d, U *s, IX n, IX r, IX p) { Allocator<U, MemRes> a((MemoryResource*)(void*)s); a.construct(d, (U const&)*s); }
'''
# types which take the memory resource of the allocator
USES = '''
struct AA { char d[3]; using allocator_type = MemoryResource*; AA(std::allocator_arg_t, MemoryResource*, int, long) noexcept; ~AA() noexcept; };
struct AB { char d[3]; using allocator_type = MemoryResource*; AB(int, long, MemoryResource*) noexcept; ~AB() noexcept; };
W void U_aa1(AA *d, MemoryResource *r, size_t n) { Allocator<AA, MemRes> a(r); a.construct(d, 5, 6L); }
W void U_aan(AA *d, MemoryResource *r, size_t n) { Allocator<AA, MemRes> a(r); a.construct_n(d, n, 5, 6L); }
W void U_ab1(AB *d, MemoryResource *r, size_t n) { Allocator<AB, MemRes> a(r); a.construct(d, 5, 6L); }
W void U_abn(AB *d, MemoryResource *r, size_t n) { Allocator<AB, MemRes> a(r); a.construct_n(d, n, 5, 6L); }
'''
#       type, size, kind
TYPES = {"nt": ("NT", 3), "i32": ("int", 4), "u8": ("unsigned char", 1), "p": ("P", 4), "dd": ("D", 8), "q": ("Q", 4)}
FIELDS = {"i32": [(0, 4)], "u8": [(0, 1)], "p": [(0, 2), (2, 1)], "dd": [(0, 4), (4, 1)], "q": [(0, 4)]}
IXS = {"z": "size_t", "i": "int", "b": "unsigned char", "h": "short"}
INST = [("nt", "z"), ("nt", "i"), ("i32", "z"), ("i32", "i"), ("u8", "z"), ("p", "z"), ("p", "b"), ("dd", "z"), ("dd", "h"), ("nt", "b"), ("q", "z")]
IXW = {"z": 64, "i": 32, "b": 8, "h": 16}
FNS = [l.split("(")[0].split()[-1][:-3] for l in FN.strip().splitlines()]


def src():
    t = PRE
    for ty, ix in INST:
        tg = ty + ix
        body = FN
        if ty == "q":
            body = "\n".join(l for l in FN.splitlines() if " cn_" not in l and " c1_" not in l)
        if ix in "bh":
            body = "\n".join(l for l in body.splitlines() if " mrp_" not in l)    # not instantiable
        if ty in ("nt", "q"):
            body += ARGN
        if ix == "z" and ty in ("nt", "i32"):
            body += ALN.replace("<U", "<" + TYPES[ty][0]).replace("(U)", "(%s)" % TYPES[ty][0])
        if ix == "z" and ty in ("nt", "q"):
            body += ALA.replace("<U", "<" + TYPES[ty][0]).replace("(U)", "(%s)" % TYPES[ty][0])
        t += body.replace("IX", IXS[ix]).replace("(U &&)", "(%s&&)" % TYPES[ty][0]).replace("U ", TYPES[ty][0] + " ").replace("U(", TYPES[ty][0] + "(").replace("<U,", "<" + TYPES[ty][0] + ",").replace("TG", tg)
    return t + USES


def rec(kind):
    def h(I, s, a, ins):
        s.events.append(("nt", kind, a[0], a[1] if len(a) > 1 else None, tuple(a[1:])))
        return a[0] if kind in ("cpa", "mva") else None
    return h


EXT = dict(MR)
EXT.update({"_ZN2NTC1Ev": rec("ctor"), "_ZN2NTC2Ev": rec("ctor"), "_ZN2NTC1ERKS_": rec("cpc"), "_ZN2NTC2ERKS_": rec("cpc"), "_ZN2NTC1EOS_": rec("mvc"), "_ZN2NTC2EOS_": rec("mvc"),
            "_ZN2NTaSERKS_": rec("cpa"), "_ZN2NTaSEOS_": rec("mva"), "_ZN2NTD1Ev": rec("dtor"), "_ZN2NTD2Ev": rec("dtor"), "_ZN2NTC1Eil": rec("args"), "_ZN2NTC2Eil": rec("args")})
for nm in ("AAC1ESt15allocator_arg_tPN2c414MemoryResourceEil", "AAC2ESt15allocator_arg_tPN2c414MemoryResourceEil", "ABC1EilPN2c414MemoryResourceE", "ABC2EilPN2c414MemoryResourceE"):
    EXT["_ZN2" + nm] = rec("args")


def ucons(entry, n):
    """types that use the allocator's resource get it, with the arguments, once per element"""
    def mk(I):
        d, mr = Obj("buf", "dst", 3 * n), Obj("buf", "resource", 64)
        return [Ptr(d, ZERO), Ptr(mr, ZERO), Lin(n)], (d, mr), None

    def spec(x, env, s):
        d, mr = env
        if s.status != "ret":
            return "noret|does not return"
        seen = []
        for e in s.events:
            if e[0] == "nt":
                q, a = e[2], e[4]
                o = s.st.norm(q.off)
                if not isinstance(q, Ptr) or q.obj is not d or not o.isconst():
                    return "place|construction at %r" % q
                seen.append(o.c)
                if not any(isinstance(y, Ptr) and y.obj is mr and s.st.norm(y.off) == ZERO for y in a):
                    return "resource|the object is not given the allocator's memory resource"
                if [s.st.norm(y).c for y in a if isinstance(y, Lin)][-2:] != [5, 6]:
                    return "arguments|the constructor arguments are not those given"
        if sorted(seen) != [3 * i for i in range(n)]:
            return "count|objects constructed at offsets %s" % seen
    return Case("%s/%d" % (entry, n), entry, mk, spec)


# cells: list over the destination/source arrays; value ("d",i)/("s",i) = initial object, "def", "arg", None = raw, ("moved",v)
def expected(fn, n, r, p):
    """(initially live d, initially live s, destination size, wanted final d cells {i: value}, s must stay)"""
    S = lambda i: ("s", i)
    one = lambda v: {0: v}
    many = lambda f: {i: f(i) for i in range(n)}
    if fn == "cn":
        return 0, 0, n, many(lambda i: "def"), True
    if fn == "c1":
        return 0, 0, 1, one("def"), True
    if fn == "can2":
        return 0, 0, n, many(lambda i: "arg"), True
    if fn == "ca2":
        return 0, 0, 1, one("arg"), True
    if fn in ("ccn", "mcn"):
        return 0, n, n, many(S), fn == "ccn"
    if fn in ("cc1", "mc1", "fmv", "fcp"):
        return 0, 1, 1, one(S(0)), fn in ("cc1", "fcp")
    if fn == "cca":
        return 0, 3, 3, {i: S(i) for i in range(3)}, True
    if fn in ("cvn", "fmn"):
        return 0, 1, n, many(lambda i: S(0)), True
    if fn == "cv1":
        return 0, 1, 1, one(S(0)), True
    if fn in ("can", "man"):
        return n, n, n, many(S), fn == "can"
    if fn in ("ca1", "ma1"):
        return 1, 1, 1, one(S(0)), fn == "ca1"
    if fn == "caa":
        return 3, 3, 3, {i: S(i) for i in range(3)}, True
    if fn == "avn":
        return n, 1, n, many(lambda i: S(0)), True
    if fn == "av1":
        return 1, 1, 1, one(S(0)), True
    if fn == "dn":
        return n, 0, n, many(lambda i: None), True
    if fn == "d1":
        return 1, 0, 1, one(None), True
    if fn == "mr":
        return n, 0, n + r, {i + r: ("d", i) for i in range(n)}, True
    if fn == "mrp":
        w = {i: ("d", i) for i in range(p)}
        w.update({i + r: ("d", i) for i in range(p, n)})
        return n, 0, n + r, w, True
    if fn in ("mrs", "mrd"):
        w = {i: S(i) for i in range(p)}
        w.update({i + r: S(i) for i in range(p, n)})
        return 0, n, n + r, w, False
    if fn == "dr":
        w = {i: ("d", i + r) for i in range(n - r)}
        if r == n:
            w = {i: None for i in range(n)}
        return n, 0, n, w, True
    if fn == "drs":
        w = {i: S(i) for i in range(p)}
        w.update({i: S(i + r) for i in range(p, n - r)})
        return 0, n, n, w, False
    raise KeyError(fn)


def legal(fn, n, r, p):
    if fn in ("mr",):
        return p == 0
    if fn == "mrp":
        return p <= n
    if fn in ("mrs", "mrd"):
        return p < n or (p == 0 and n == 0)
    if fn == "dr":
        return r <= n and p == 0
    if fn == "drs":
        return p < n and p + r <= n
    if fn in ("c1", "cc1", "cca", "cv1", "ca1", "caa", "av1", "mc1", "ma1", "d1", "ca2", "fmv", "fcp"):
        return n == 1 and r == 0 and p == 0
    return r == 0 and p == 0


def case(fn, ty, ix, n, r, p, pre=""):
    es = TYPES[ty][1]
    ld, ls, dsz, want, skeep = expected(fn, n, r, p)
    ssz = max(ls, 0)
    nm = pre + "%s_%s%s" % (fn, ty, ix)
    single = fn in ("c1", "cc1", "cca", "cv1", "ca1", "caa", "av1", "mc1", "ma1", "d1", "ca2", "fmv", "fcp")

    def mk(I):
        d = Obj("buf", "dst", dsz * es)
        s = Obj("buf", "src", ssz * es)
        k = lambda v: Lin(v)
        return [Ptr(d, ZERO), Ptr(s, ZERO), k(n), k(r), k(p)], (d, s), None

    def spec_nt(x, env, s):
        d, so = env
        st = {}
        for i in range(dsz):
            st[("d", i)] = ("d", i) if i < ld else None
        for i in range(ssz):
            st[("s", i)] = ("s", i) if i < ls else None

        def cell(q):
            if not isinstance(q, Ptr) or q.obj not in (d, so):
                return None
            o = s.st.norm(q.off)
            if not o.isconst() or o.c % es:
                return None
            k = ("d" if q.obj is d else "s", o.c // es)
            return k if k in st else None
        for e in s.events:
            if e[0] != "nt":
                if e[0] in ("memcpy", "memmove", "memset"):
                    return "raw|objects of a non-trivial type are copied or set as raw memory"
                continue
            _, kind, q, sp, args = e
            if kind in ("cpc", "cpa") and fn in ("mc1", "mcn", "ma1", "man", "mr", "mrp", "dr", "fmv"):
                return "copy|an object to be moved is copied"
            c = cell(q)
            if c is None:
                return "place|%s at %r, which is not an element of the arrays" % (kind, q)
            v = None
            if kind in ("cpc", "mvc", "cpa", "mva"):
                sc = cell(sp)
                if sc is None:
                    return "place|%s from %r, which is not an element of the arrays" % (kind, sp)
                v = st[sc]
                if v is None or v == "moved":
                    return "dead|%s reads element %s%d, which is not a live object" % (kind, sc[0], sc[1])
                if sc == c:
                    return "self|element %s%d is assigned or constructed from itself" % sc
            if kind in ("ctor", "cpc", "mvc", "args"):
                if st[c] not in (None, "moved"):
                    return "twice|an object is constructed over the live object %s%d" % c
                if kind == "args":
                    a = [x.I.asint(s, z, 64) for z in args]
                    if not (x.eq(x.I.U(s, a[0], 32), 5) and x.eq(a[1], 6)):
                        return "args|constructor arguments are not those given"
                st[c] = {"ctor": "def", "args": "arg"}.get(kind, v)
            elif kind in ("cpa", "mva"):
                if st[c] is None:
                    return "dead|assignment to element %s%d, which is not constructed" % c
                st[c] = v
            else:
                if st[c] is None:
                    return "twice|element %s%d is destroyed although it is not alive" % c
                st[c] = None
            if kind in ("mvc", "mva"):
                st[sc] = "moved"
        for i, v in want.items():
            if st[("d", i)] != v:
                return "result|element %d of the destination is %s, expected %s" % (i, st[("d", i)], v)
        for i in range(ssz):
            if skeep and st[("s", i)] != (("s", i) if i < ls else None):
                return "source|element %d of the source is changed" % i
        return None

    def same(x, s, o, off, sz, wo, woff):
        """field of o equals the initial field of wo; by field, or else byte by byte"""
        I = x.I
        g = I.read(s, o, Lin(off), sz, "i", 8 * sz, I.log(s, o))
        w = I.read(s, wo, Lin(woff), sz, "i", 8 * sz, ())
        if isinstance(g, Lin) and isinstance(w, Lin) and s.st.norm(g - w) == ZERO:
            return True
        for b in range(sz):
            g = readbyte(I, s, o, Lin(off + b))
            if g is None or isinstance(g, (Opq, Ptr)) or not x.eq(I.U(s, g, 8), I.U(s, x.init(wo, woff + b), 8)):
                return False
        return True

    def spec_tr(x, env, s):
        d, so = env
        if s.status != "ret":
            return "does not return"
        for i in range(dsz):
            if i not in want:
                continue
            v = want[i]
            if v is None:
                v = ("d", i)
            for f, (fo, fs) in enumerate(FIELDS[ty]):
                if isinstance(v, tuple):
                    if not same(x, s, d, i * es + fo, fs, d if v[0] == "d" else so, v[1] * es + fo):
                        return "result|element %d does not have the value expected (%s)" % (i, v)
                    continue
                w = {"arg": 11, "def": {"dd": (7, 9)}.get(ty, (0, 0))[f]}[v]
                g = x.I.read(s, d, Lin(i * es + fo), fs, "i", 8 * fs, x.I.log(s, d))
                if g is UNDEF or g is None:
                    return "result|element %d is not set" % i
                if not isinstance(g, Lin):
                    return ("element value has an unexpected form",)
                if not x.eq(x.I.U(s, g, 8 * fs), w):
                    return "result|element %d is %r, expected %d" % (i, s.st.norm(g), w)
        for i in range(ssz):
            for fo, fs in FIELDS[ty]:
                if not same(x, s, so, i * es + fo, fs, so, i * es + fo):
                    return "source|the source is changed"
        return None
    return Case("%s n=%d room=%d pos=%d" % (nm, n, r, p), nm, mk, spec_nt if ty == "nt" else spec_tr)


def ucase(fn, ty, ix):
    """any number of elements: element j for a symbolic j"""
    es = TYPES[ty][1]
    nm = "%s_%s%s" % (fn, ty, ix)
    hi = {"z": 1 << 40, "i": (1 << 28), "b": 255, "h": 32767}[ix]

    def mk(I):
        n = I.sym("n", 0, hi, "in")
        r = I.sym("room", 0, hi, "in") if fn in ("mr", "mrp", "mrs", "mrd", "dr", "drs") else ZERO
        p = I.sym("pos", 0, hi, "in") if fn in ("mrp", "mrs", "mrd", "drs") else ZERO
        dn = n + r if fn in ("mr", "mrp", "mrs", "mrd") else n
        d = Obj("buf", "dst", dn * es)
        s_ = Obj("buf", "src", Lin(es) if fn in ("cvn", "avn") else n * es)

        def setup(s):
            if fn in ("mr", "mrp", "mrs", "mrd"):
                s.st.add_ge(Lin(hi) - n - r)
            if fn == "mrp":
                s.st.add_ge(n - p)
            if fn in ("mrs", "mrd"):
                s.st.add_ge(n - p - 1)
            if fn == "dr":
                s.st.add_ge(n - r)
            if fn == "drs":
                s.st.add_ge(n - r - p)
                s.st.add_ge(n - p - 1)
        return [Ptr(d, ZERO), Ptr(s_, ZERO), n, r, p], (d, s_, n, r, p), setup

    def spec(x, env, s):
        d, so, n, r, p = env
        if s.status != "ret":
            return "does not return"
        if not x.ge(n, 1):
            return None
        I = x.I
        nel = n + r if fn in ("mr", "mrp", "mrs", "mrd") else n - r if fn in ("dr", "drs") else n
        if not x.ge(nel, 1):
            return None
        # regions: (first element, end, source object, source element as a function of j)
        if fn == "mr":
            regs = [(r, n + r, d, lambda j: j - r)]
        elif fn in ("mrp", "mrs", "mrd"):
            o = d if fn == "mrp" else so
            regs = [(ZERO, p, o, lambda j: j), (p + r, n + r, o, lambda j: j - r)]
        elif fn == "dr":
            regs = [(ZERO, n - r, d, lambda j: j + r)]
        elif fn == "drs":
            regs = [(ZERO, p, so, lambda j: j), (p, n - r, so, lambda j: j + r)]
        elif fn == "cn":
            regs = [(ZERO, n, None, None)]
        elif fn == "dn":
            regs = [(ZERO, n, d, lambda j: j)]
        elif fn in ("cvn", "avn"):
            regs = [(ZERO, n, so, lambda j: ZERO)]
        else:
            regs = [(ZERO, n, so, lambda j: j)]
        for lo, e, o, f in regs:
            for b in range(es):
                if ty == "p" and b == 3 or ty == "dd" and b > 4:
                    continue
                j = I.sym("j", 0, 1 << 41, "in")
                y = s.copy()
                y.st.add_ge(j - lo)
                y.st.add_ge(e - 1 - j)
                if y.st.bot if hasattr(y.st, "bot") else feasible(y.st) is False:
                    continue

                def rd(z):
                    g = readbyte(I, z, d, j * es + b)
                    if o is None:
                        w = Lin({0: 7, 4: 9}.get(b, 0)) if ty == "dd" else ZERO
                    else:
                        w = X(I, z).init(o, f(j) * es + b)
                    if isinstance(g, Lin):
                        # bytes of an element copied as a whole
                        return (True, g) if X(I, z).eq(I.U(z, g, 8), I.U(z, w, 8)) else (False, g)
                    return (g is None and "unset" or g, g)
                for z, (ok, g) in withsplit(I, y, rd):
                    if ok is True:
                        continue
                    if not isinstance(g, Lin):
                        return ("element value has an unexpected form",)
                    if havoc_constrained(z) or z.loops:
                        return ("element not decided",)
                    return "result|byte %d of element j is %r for %r <= j < %r" % (b, g, lo, e)
        return None
    return Case("%s any number" % nm, nm, mk, spec)


def go(m, c, r):
    I, fs = run_case(m, c, r, ext=EXT, aborts=True)
    memcheck(r, I, c.entry, objs=("dst", "src"))


ms = [("c++11", [])]
if T:
    ms.append(("c++17", []))
N = 5 if T else 4
R = 4 if T else 3
todo = []
for std, flags in ms:
    m = ck.ir("obj_" + std.replace("+", "p"), src(), std=std, flags=flags, debug=False)
    if not m:
        continue
    for ty, ix in INST:
        for fn in FNS + (["can2", "ca2", "fmv", "fcp", "fmn"] if ty in ("nt", "q") else []):
            if ty == "q" and fn in ("cn", "c1") or ix in "bh" and fn == "mrp":
                continue
            for n, r_, p in itertools.product(range(N + 1), range(R + 1), range(N + 1)):
                if legal(fn, n, r_, p):
                    todo.append((m, case(fn, ty, ix, n, r_, p)))
            if ty not in ("nt", "q") and fn in ("cn", "ccn", "mcn", "can", "man", "cvn", "avn", "dn", "mr", "mrp", "mrs", "mrd", "dr", "drs") \
                    and not (fn in ("cvn", "avn") and TYPES[ty][1] > 1 or fn in ("cn", "dr") and ty == "dd"):
                todo.append((m, ucase(fn, ty, ix)))
    for ty, fns in (("nt", ("cn", "c1", "dn", "d1", "can2", "ca2", "fmv", "fcp")), ("i32", ("cn", "c1", "dn", "d1")), ("q", ("can2", "ca2", "fmv", "fcp"))):
        for fn in fns:
            for n in range(N + 1):
                if legal(fn, n, 0, 0):
                    todo.append((m, case(fn, ty, "z", n, 0, 0, "A_")))
    for en in ("U_aa1", "U_ab1", "U_aan", "U_abn"):
        for n in range(N + 1) if en[-1] == "n" else (1,):
            todo.append((m, ucons(en, n)))
by = {}
for m, c in todo:
    by.setdefault(c.entry, []).append((m, c))
for e, l in by.items():
    def f(r, l=l):
        for m, c in l:
            go(m, c, r)
    ck.task(e, f)
ck.run()
ck.finish("each object is constructed, copied, moved, assigned or destroyed exactly as asked, in each position, with no object constructed over a live one, destroyed twice, or used after destruction; making and removing room keeps every remaining object in order",
          "typestate analysis of the elements (raw, live, moved from) over the calls of the element type's special members in the compiled IR, for all counts, rooms and positions up to a bound; abstract interpretation of the byte contents for trivial types with any number of elements",
          ["element operations do not throw", "counts up to %d for non-trivial types" % N], {"cases": len(todo)})
