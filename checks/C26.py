"""bit, mask, power, hash and memory utilities compute their definition for every value"""
from memres import *
import itertools

ck = Check("C26")
T = ck.thorough
PRE = '''#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <type_traits>
#include <utility>
#include <new>
#include <limits>
#include <c4/memory_util.hpp>
#include <c4/szconv.hpp>
#include <c4/blob.hpp>
#include <c4/hash.hpp>
#include <c4/char_traits.hpp>
using namespace c4;
#define W extern "C"
'''
UT = {"u8": ("uint8_t", 8), "u16": ("uint16_t", 16), "u32": ("uint32_t", 32), "u64": ("uint64_t", 64), "ul": ("unsigned long long", 64)}
IT = {"i8": ("int8_t", 8), "i16": ("int16_t", 16), "i32": ("int32_t", 32), "i64": ("int64_t", 64)}
ALL = dict(UT)
ALL.update(IT)
SGN = {k: k[0] == "i" for k in ALL}
TP = '''
struct E1 {}; struct E2 {}; struct A { int a; }; struct B_ { short b; char c; };
template<class F, class S> void tp(F const& f, S const& s, void **o) { static char m[64]; auto *p = new (m) tight_pair<F, S>(f, s); o[0] = p; o[1] = (void*)&p->first(); o[2] = (void*)&p->second(); auto const& c = *p; o[3] = (void*)&c.first(); o[4] = (void*)&c.second(); ((size_t*)o)[5] = sizeof(*p); }
W void tp_gen(A const *f, B_ const *s, void **o) { tp(*f, *s, o); }
W void tp_same(A const *f, A const *s, void **o) { tp(*f, *s, o); }
W void tp_fe(E1 const *f, B_ const *s, void **o) { tp(*f, *s, o); }
W void tp_se(A const *f, E2 const *s, void **o) { tp(*f, *s, o); }
W void tp_be(E1 const *f, E2 const *s, void **o) { tp(*f, *s, o); }
W void tp_sme(E1 const *f, E1 const *s, void **o) { tp(*f, *s, o); }
W void tp_int(int const *f, B_ const *s, void **o) { tp(*f, *s, o); }
W void td_gen(A *f, B_ *s) { tight_pair<A, B_> p; *f = p.first(); *s = p.second(); }
W void td_same(A *f, A *s) { tight_pair<A, A> p; *f = p.first(); *s = p.second(); }
W void td_fe(A *f, B_ *s) { tight_pair<E1, B_> p; *s = p.second(); }
W void td_se(A *f, B_ *s) { tight_pair<A, E1> p; *f = p.first(); }
'''
todo = []


def simple(fn, mk, spec, name=None):
    return Case(name or fn, fn, mk, spec)


def ret_is(want, w=32):
    def spec(x, env, s):
        if s.status != "ret":
            return "does not return"
        return expect_int(x, rint(x.I, s, s.retval, w), want(x, env) if callable(want) else Lin(want))
    return spec


def bits_src():
    t = ""
    for k, (ty, w) in UT.items():
        t += "W unsigned lsb_%s(%s v) { return lsb(v); }\nW unsigned msb_%s(%s v) { return msb(v); }\n" % (k, ty, k, ty)
        t += "W %s cm_%s(%s a, %s b) { return contiguous_mask(a, b); }\n" % (ty, k, ty, ty)
    return t


def bits_cases(m, tag):
    for k, (ty, w) in UT.items():
        for b in range(w):
            def mk(I, b=b, w=w):
                v = Lin(1 << b)
                if b + 1 < w:
                    v = v + I.sym("high", 0, (1 << (w - 1 - b)) - 1, "in") * (1 << (b + 1))
                return [v], None, None
            todo.append((m, Case("lsb_%s %s lowest bit %d" % (k, tag, b), "lsb_" + k, mk, ret_is(b))))

            def mk(I, b=b):
                v = Lin(1 << b)
                if b:
                    v = v + I.sym("low", 0, (1 << b) - 1, "in")
                return [v], None, None
            todo.append((m, Case("msb_%s %s highest bit %d" % (k, tag, b), "msb_" + k, mk, ret_is(b))))
        for a in range(w + 1) if T or w < 64 else (0, 1, 7, 31, 32, 33, 62, 63, 64):
            def mk(I, a=a, w=w):
                return [Lin(a), I.sym("last", a, w, "in")], None, None

            def spec(x, env, s, a=a, w=w):
                if s.status != "ret":
                    return "does not return"
                return None
            for b in range(a, w + 1) if T or w < 64 else sorted({a, min(w, a + 1), (a + w) // 2, w - 1 if w > a else w, w}):
                todo.append((m, Case("cm_%s %s [%d,%d)" % (k, tag, a, b), "cm_" + k, lambda I, a=a, b=b: ([Lin(a), Lin(b)], None, None), ret_is((1 << b) - (1 << a), w))))


# --- compile-time variants: the constants the compiler computed -------------------------
def const_src():
    t, exp = "", []
    for k, (ty, w) in UT.items():
        items = []
        if k == "ul":
            continue
        for b in range(w):
            for v in {1 << b, (1 << w) - (1 << b), (1 << b) | (1 << (w - 1))}:
                items.append(("lsb11<%s, %s(%dULL)>::value" % (ty, ty, v), (v & -v).bit_length() - 1))
            for v in {1 << b, (2 << b) - 1, (1 << b) | 1}:
                items.append(("msb11<%s, %s(%dULL)>::value" % (ty, ty, v), v.bit_length() - 1))
        for a in range(0, w + 1):
            for b in sorted({a, min(w, a + 1), (a + w) // 2, w}):
                if a < w or a == b and a < w:
                    items.append(("contiguous_mask11<%s, %s(%d), %s(%d)>::value" % (ty, ty, a, ty, b), (1 << b) - (1 << a)))
        t += "W void k_%s(uint64_t *o) {\n" % k + "".join("o[%d] = (uint64_t)(%s);\n" % (i, e) for i, (e, _) in enumerate(items)) + "}\n"
        exp.append(("k_" + k, items))
    return t, exp


def const_case(fn, items):
    def mk(I):
        o = Obj("out", "result", 8 * len(items))
        return [Ptr(o, ZERO)], o, None

    def spec(x, o, s):
        for i, (e, v) in enumerate(items):
            g = rint(x.I, s, x.I.read(s, o, Lin(8 * i), 8, "i", 64, x.I.log(s, o)), 64)
            if not x.eq(g, v):
                return "%s|%s is %r, expected %d" % (e.split("<")[0][:20], e, g, v)
        return None
    return Case(fn, fn, mk, spec)


# --- powers ------------------------------------------------------------------------------
def ipow_src():
    t = ""
    for b in ("u8", "i32", "i64", "u32"):
        for e in ("i8", "u8", "i32", "u32", "i64"):
            t += "W %s ipow_%s_%s(%s b, %s e) { return ipow(b, e); }\n" % (ALL[b][0], b, e, ALL[b][0], ALL[e][0])
    for e in ("i8", "u8", "i64"):
        for bv, q in (("2", "2"), ("3", "3"), ("-1", "m1"), ("1", "1")):
            t += "W int64_t ipt_%s_%s(int64_t, %s e) { return ipow<int64_t, %s>(e); }\n" % (q, e, ALL[e][0], bv)
            t += "W int64_t ipb_%s_%s(int64_t, %s e) { return ipow<int64_t, int, %s>(e); }\n" % (q, e, ALL[e][0], bv)
    return t


def ipow_val(b, e, w, sg):
    if e >= 0:
        r = b ** e
    else:
        r = 1 if b == 1 else (1 if e % 2 == 0 else -1) if b == -1 else 0
    return r


def ipow_cases(m):
    for b in ("u8", "i32", "i64", "u32"):
        bw = ALL[b][1]
        for e in ("i8", "u8", "i32", "u32", "i64"):
            for bv in ([1, 2, 3, 10] + ([-1, -2] if SGN[b] else [])):
                es = list(range(0, 8)) + [15, 31, 62, 63, 127] + ([-1, -2, -3, -128, -127] if SGN[e] else [200, 255])
                for ev in es:
                    v = ipow_val(bv, ev, bw, SGN[b])
                    lo, hi = (-(1 << (bw - 1)), (1 << (bw - 1)) - 1) if SGN[b] else (0, (1 << bw) - 1)
                    if not lo <= v <= hi:
                        continue
                    fn = "ipow_%s_%s" % (b, e)
                    todo.append((m, Case("%s %d^%d" % (fn, bv, ev), fn, lambda I, bv=bv, ev=ev, bw=bw, ew=ALL[e][1]: ([Lin(bv % (1 << bw)), Lin(ev % (1 << ew))], None, None), ret_is(v % (1 << bw), bw))))
    for e in ("i8", "u8", "i64"):
        for bv, q in ((2, "2"), (3, "3"), (-1, "m1"), (1, "1")):
            for pre in ("ipt", "ipb"):
                for ev in list(range(0, 6)) + [31, 39] + ([-1, -2, -3, -128] if SGN[e] else [255]):
                    v = ipow_val(bv, ev, 64, True)
                    if abs(v) >= 1 << 63:
                        continue
                    fn = "%s_%s_%s" % (pre, q, e)
                    todo.append((m, Case("%s %d^%d" % (fn, bv, ev), fn, lambda I, ev=ev, ew=ALL[e][1]: ([ZERO, Lin(ev % (1 << ew))], None, None), ret_is(v % (1 << 64), 64))))


# --- memory -------------------------------------------------------------------------------
MEM = '''
W void mz_v(void *p, size_t n) { mem_zero(p, n); }
W void mz_i(int *p, size_t n) { mem_zero(p, n); }
W void mz_1(long *p, size_t) { mem_zero(p); }
W bool ov(const char *a, const char *b, size_t na, size_t nb) { return mem_overlaps(a, b, na, nb); }
W bool al_d(void *, long *p, size_t) { return is_aligned(p); }
W bool al_n(void *, char *p, size_t n) { return is_aligned(p, n); }
W void rep(char *d, const char *p, size_t np, size_t n) { mem_repeat(d, p, np, n); }
W void bl_vp(void *p, size_t n, void *o) { blob b(p, n); memcpy(o, &b, sizeof(b)); }
W void bl_cp(void const *p, size_t n, void *o) { cblob b(p, n); memcpy(o, &b, sizeof(b)); }
W void bl_ip(int *p, size_t n, void *o) { blob b(p, n); memcpy(o, &b, sizeof(b)); }
W void bl_var(long *p, size_t n, void *o) { blob b(*p); memcpy(o, &b, sizeof(b)); }
W void bl_as(long *p, size_t n, void *o) { blob b; b = *p; memcpy(o, &b, sizeof(b)); }
W void bl_arr(short *p, size_t n, void *o) { blob b(*(short(*)[5])p); memcpy(o, &b, sizeof(b)); }
W void bl_asr(short *p, size_t n, void *o) { blob b; b = *(short(*)[5])p; memcpy(o, &b, sizeof(b)); }
W void bl_cv(void *p, size_t n, void *o) { blob b(p, n); cblob c(b); memcpy(o, &c, sizeof(c)); }
W void bl_ca(void *p, size_t n, void *o) { blob b(p, n); cblob c; cblob &d = (c = b); memcpy(o, &d, sizeof(d)); }
W void bl_cm(void *p, size_t n, void *o) { blob b(p, n); cblob c; cblob &d = (c = (blob&&)b); memcpy(o, &d, sizeof(d)); }
W size_t hb(const char *p, size_t n) { return hash_bytes(p, n); }
W size_t hb2(const char *p, size_t n, size_t k) { fnv1a_t<64> h; h.update(p, k); h.update(p + k, n - k); return h.digest(); }
W uint32_t hb32(const char *p, size_t n) { fnv1a_t<32> h; h.update(p, n); return h.digest(); }
W size_t hba(const char *p, size_t n) { return hash_bytes(*(const char(*)[3])p); }
'''


def fnv(bs, w):
    h, p = {64: (14695981039346656037, 1099511628211), 32: (2166136261, 16777619)}[w]
    for b in bs:
        h = (h ^ b) * p % (1 << w)
    return h


def mem_cases(m):
    for fn, es, one in (("mz_v", 1, 0), ("mz_i", 4, 0), ("mz_1", 8, 1)):
        def mk(I, es=es, one=one):
            n = Lin(1) if one else I.sym("n", 0, 1 << 40, "in")
            o = Obj("buf", "buf", n * es)
            return [Ptr(o, ZERO), n], (o, n * es), None

        def spec(x, env, s):
            o, n = env
            if s.status != "ret":
                return "does not return"
            if not x.ge(n, 1):
                return None
            j = x.I.sym("j", 0, 1 << 42, "in")
            y = s.copy()
            y.st.add_ge(n - 1 - j)
            for z, g in withsplit(x.I, y, lambda z: readbyte(x.I, z, o, j)):
                if not isinstance(g, Lin) or z.st.decide(("eq", g)) is not True:
                    return "byte j is %r, expected 0" % (g,)
            return None
        todo.append((m, Case(fn, fn, mk, spec)))

    def mk(I):
        o = Obj("buf", "buf", I.sym("len", 0, 1 << 40, "len"))
        a, b, na, nb = [I.sym(q, 0, 1 << 39, "in") for q in ("a", "b", "na", "nb")]

        def setup(s):
            s.st.add_ge(o.size - a - na)
            s.st.add_ge(o.size - b - nb)
            s.st.add_ge(na - 1)
            s.st.add_ge(nb - 1)
        return [Ptr(o, a), Ptr(o, b), na, nb], (a, b, na, nb), setup

    def spec(x, env, s):
        a, b, na, nb = env
        if s.status != "ret":
            return "does not return"
        w = x.ge(b + nb, a + 1) and x.ge(a + na, b + 1)
        return expect_int(x, rint(x.I, s, s.retval, 8), Lin(int(bool(w))))
    todo.append((m, Case("mem_overlaps", "ov", mk, spec)))
    for fn, als in (("al_d", [8]), ("al_n", [1, 2, 4, 8, 16, 32, 64, 4096])):
        for al in als:
            for rem in sorted({0, 1, al // 2, al - 1}):
                if rem >= al:
                    continue

                def mk(I, al=al, rem=rem):
                    q = I.sym("q", 0, 1 << 40, "in")
                    return [NULL, Opq(("inttoptr", (q * al + rem).key)), Lin(al)], None, None
                todo.append((m, Case("%s alignment %d remainder %d" % (fn, al, rem), fn, mk, ret_is(int(rem == 0), 8))))
    for np_ in range(1, 5 if T else 4):
        for n in range(0, 12 if T else 8):
            def mk(I, np_=np_, n=n):
                d, p = Obj("buf", "dst", np_ * n), Obj("buf", "pattern", np_)
                return [Ptr(d, ZERO), Ptr(p, ZERO), Lin(np_), Lin(n)], (d, p), None

            def spec(x, env, s, np_=np_, n=n):
                d, p = env
                if s.status != "ret":
                    return "does not return"
                for i in range(np_ * n):
                    g = readbyte(x.I, s, d, Lin(i))
                    if not isinstance(g, Lin) or not x.eq(g, x.init(p, i % np_)):
                        return "byte %d is %r, expected byte %d of the pattern" % (i, g, i % np_)
                return None
            todo.append((m, Case("mem_repeat pattern %d times %d" % (np_, n), "rep", mk, spec)))
    for fn, sz in (("bl_vp", None), ("bl_cp", None), ("bl_ip", 4), ("bl_var", 8), ("bl_as", 8), ("bl_arr", 10), ("bl_asr", 10), ("bl_cv", None), ("bl_ca", None), ("bl_cm", None)):
        def mk(I, fn=fn):
            n = I.sym("n", 0, 1 << 40, "in")
            o, out = Obj("buf", "buf", 1 << 43), Obj("out", "result", 16)
            return [Ptr(o, ZERO), n, Ptr(out, ZERO)], (o, n, out), None

        def spec(x, env, s, fn=fn, sz=sz):
            o, n, out = env
            if s.status != "ret":
                return "does not return normally"
            p = x.I.read(s, out, ZERO, 8, "p", 64, x.I.log(s, out))
            l = rint(x.I, s, x.I.read(s, out, Lin(8), 8, "i", 64, x.I.log(s, out)), 64)
            if not samep(x, p, Ptr(o, ZERO)):
                return "pointer|the blob starts at %r" % (p,)
            return expect_int(x, l, n if sz is None else n * 4 if fn == "bl_ip" else Lin(sz), "size in bytes")
        todo.append((m, Case(fn, fn, mk, spec)))
    TX = [b"", b"a", b"ab", b"\x00\xff", b"abc", b"foobar", bytes(range(120, 140))]
    for fn, w in (("hb", 64), ("hb32", 32), ("hb2", 64), ("hba", 64)):
        for t in TX:
            for k in ([0, 1, len(t)] if fn == "hb2" else [0]):
                if k > len(t) or fn == "hba" and len(t) != 3 or fn == "hba" and not t:
                    continue

                def mk(I, t=t, k=k, fn=fn):
                    o = Obj("buf", "text", len(t))
                    last = None

                    def setup(s):
                        for i, ch in enumerate(t[:-1]):
                            s.st.add_eq(X(I, s).init(o, i) - ch)
                    return [Ptr(o, ZERO), Lin(len(t))] + ([Lin(k)] if fn == "hb2" else []), o, setup

                def spec(x, o, s, t=t, w=w):
                    if s.status != "ret":
                        return "does not return"
                    g = rint(x.I, s, s.retval, w)
                    if not t:
                        return expect_int(x, g, Lin(fnv(t, w)))
                    # every value of the last byte
                    for v in (0, 1, 2, 4, 8, 16, 32, 64, 128, 255, 0xa5):
                        y = s.copy()
                        y.st.add_eq(X(x.I, y).init(o, len(t) - 1) - v)
                        if feasible(y.st) is False:
                            continue
                        q = x.I.U(y, y.st.norm(g), w)
                        if not isinstance(q, Lin) or not y.st.norm(q).isconst():
                            return ("hash not decided",)
                        if y.st.norm(q).c != fnv(t[:-1] + bytes([v]), w):
                            return "hash of %r is %d, expected %d" % (t[:-1] + bytes([v]), y.st.norm(q).c, fnv(t[:-1] + bytes([v]), w))
                    return None
                todo.append((m, Case("%s %r %d" % (fn, t, k), fn, mk, spec)))


# --- pairs --------------------------------------------------------------------------------
def tp_cases(m):
    SZ = {"tp_gen": (4, 4, 8), "tp_same": (4, 4, 8), "tp_fe": (0, 4, 4), "tp_se": (4, 0, 4), "tp_be": (0, 0, 1), "tp_sme": (0, 0, 1), "tp_int": (4, 4, 8)}
    FL = {4: None}
    for fn, (a, b, tot) in SZ.items():
        def mk(I, a=a, b=b):
            f, s_, out = Obj("buf", "first", max(a, 1)), Obj("buf", "second", max(b, 1)), Obj("out", "result", 48)
            return [Ptr(f, ZERO), Ptr(s_, ZERO), Ptr(out, ZERO)], (f, s_, out), None

        def spec(x, env, s, fn=fn, a=a, b=b, tot=tot):
            f, s_, out = env
            if s.status != "ret":
                return "does not return"
            R = lambda k: x.I.read(s, out, Lin(8 * k), 8, "p", 64, x.I.log(s, out))
            p, q1, q2, c1, c2 = [R(k) for k in range(5)]
            if any(not isinstance(z, Ptr) or z.obj is not p.obj for z in (p, q1, q2, c1, c2)):
                return ("pointers of an unexpected form",)
            if not samep(x, q1, c1) or not samep(x, q2, c2):
                return "const|the const and non-const accessors denote different members"
            sz = rint(x.I, s, x.I.read(s, out, Lin(40), 8, "i", 64, x.I.log(s, out)), 64)
            if not x.eq(sz, tot):
                return "size|the pair takes %r bytes, expected %d" % (sz, tot)
            for z, n in ((q1, a), (q2, b)):
                if not (x.ge(z.off, p.off) and x.le(z.off + n, p.off + tot)):
                    return "bounds|a member lies outside the pair"
            if a and b and not x.ge(q2.off, q1.off + a) and not x.ge(q1.off, q2.off + b):
                return "overlap|the members overlap"
            for z, n, o in ((q1, a, f), (q2, b, s_)):
                if not n:
                    continue
                flds = [(0, 4)] if o is f or fn == "tp_same" else [(0, 2), (2, 1)]
                for fo, fs in flds:
                    g = x.I.read(s, z.obj, z.off + fo, fs, "i", 8 * fs, x.I.log(s, z.obj))
                    w = x.I.read(s, o, Lin(fo), fs, "i", 8 * fs, ())
                    if not isinstance(g, Lin) or not isinstance(w, Lin):
                        return ("member value of an unexpected form",)
                    if s.st.norm(g - w) != ZERO:
                        bs = [readbyte(x.I, s, z.obj, z.off + fo + i) for i in range(fs)]
                        if any(not isinstance(bb, Lin) or not x.eq(bb, x.init(o, fo + i)) for i, bb in enumerate(bs)):
                            return "value|member of %s does not have the value given" % o.name
            return None
        todo.append((m, Case(fn, fn, mk, spec)))
    for fn in ("td_gen", "td_same", "td_fe", "td_se"):
        def mk(I):
            f, s_ = Obj("out", "first", 4), Obj("out", "second", 4)
            return [Ptr(f, ZERO), Ptr(s_, ZERO)], (f, s_), None

        def spec(x, env, s, fn=fn):
            f, s_ = env
            if s.status != "ret":
                return "does not return"
            for o, use, flds in ((f, fn != "td_fe", [(0, 4)]), (s_, fn != "td_se", [(0, 4)] if fn == "td_same" else [(0, 2), (2, 1)])):
                for fo, fs in flds if use else ():
                    g = x.I.read(s, o, Lin(fo), fs, "i", 8 * fs, x.I.log(s, o))
                    if g is UNDEF or g is None:
                        return "unset|the %s member is left unset by default construction" % o.name
                    if not isinstance(g, Lin):
                        return ("unexpected form",)
                    if not x.eq(g, 0):
                        if g.t and all(Sym.table[y].kind == "havoc" for y in s.st.norm(g).t):
                            return "unset|the %s member is left unset by default construction" % o.name
                        return "value|the %s member is %r, expected 0" % (o.name, g)
            return None
        todo.append((m, Case(fn, fn, mk, spec)))


# --- size conversion ------------------------------------------------------------------------
def sz_src():
    t = ""
    for a, b in itertools.product(ALL, ALL):
        if a == "ul" or b == "ul":
            continue
        t += "W %s sz_%s_%s(%s v) { return szconv<%s>(v); }\n" % (ALL[b][0], a, b, ALL[a][0], ALL[b][0])
    return t


def sz_cases(m):
    for a, b in itertools.product(ALL, ALL):
        if a == "ul" or b == "ul":
            continue
        aw, bw = ALL[a][1], ALL[b][1]
        fn = "sz_%s_%s" % (a, b)
        amax = (1 << (aw - SGN[a])) - 1
        bmax = (1 << (bw - SGN[b])) - 1

        def mk(I, aw=aw, amax=amax):
            v = I.sym("v", 0, amax, "in")
            return [v], v, None

        def spec(x, v, s, bw=bw, bmax=bmax):
            err = any(e[0] == "error" for e in s.events)
            fits = x.le(v, bmax)
            if err:
                return "refused|a size that fits is refused" if fits else None
            if s.status != "ret":
                return "does not return"
            if not fits:
                return "overflow|a size that does not fit is converted without an error"
            return expect_int(x, rint(x.I, s, s.retval, bw), v)
        todo.append((m, Case(fn, fn, mk, spec)))


# --- characters needed for a number of bytes ------------------------------------------------
NC = [(c, t) for c in ("char", "wchar_t") for t in ("u8", "u16", "u32", "u64", "i32", "i64") if t in ALL]


def nc_src():
    return "".join("W %s nc_%s_%s(%s v) { return num_needed_chars<%s>(v); }\n" % (ALL[t][0], c, t, ALL[t][0], c) for c, t in NC)


def nc_cases(m):
    for c, t in NC:
        fn, sz, w = "nc_%s_%s" % (c, t), 1 if c == "char" else 4, ALL[t][1]

        def mk(I, t=t, w=w):
            v = I.sym("v", 0, (1 << (w - SGN[t])) - 1, "in")
            return [v], v, None

        def spec(x, v, s, sz=sz, w=w):
            if s.status != "ret":
                return "does not return"
            d = rint(x.I, s, s.retval, w).scale(sz) - v
            return None if x.ge(d, 0) and x.le(d, sz - 1) else "chars|the characters returned do not hold the bytes, or are more than needed"
        todo.append((m, Case(fn, fn, mk, spec)))


def go(m, c, r):
    I, fs = run_case(m, c, r, ext=MR, aborts=True, opts={"unroll_limit": 300})
    memcheck(r, I, c.entry, objs=("buf", "dst", "pattern", "result", "text", "first", "second"))


NOB = '''
#ifdef __has_builtin
#undef __has_builtin
#endif
#define __has_builtin(x) 0
'''
m1 = ck.ir("util", PRE + bits_src() + ipow_src() + MEM + TP + nc_src(), std="c++17", sources=["src/c4/memory_util.cpp"])
if m1:
    bits_cases(m1, "")
    ipow_cases(m1)
    mem_cases(m1)
    tp_cases(m1)
    nc_cases(m1)
cs, exp = const_src()
try:
    mc = compile_ir(ck.pid, "const", PRE + cs, std="c++11", flags=["-ftemplate-depth=2000"])
    for fn, items in exp:
        todo.append((mc, const_case(fn, items)))
except CompileError as e:
    if m1:
        # the header itself is usable (first witness), the compile-time variants are not
        err = [l for l in str(e).splitlines() if "error:" in l] or [""]
        ck.res.bad("const:compile", "lsb11, msb11 or contiguous_mask11 cannot be instantiated for arguments in range: " + err[0][-200:], "memory_util.hpp", "")
    else:
        ck.res.undecided("compile:const", str(e)[-300:])
hdr, rest = PRE.split("#include <c4/memory_util.hpp>")
m2 = ck.ir("fallback", hdr + NOB + "#include <c4/memory_util.hpp>" + rest + bits_src(), std="c++17", flags=["-Wno-builtin-macro-redefined"])
if m2:
    bits_cases(m2, "(portable)")
m3 = ck.ir("szconv", PRE + sz_src(), std="c++17", flags=["-DC4_USE_XASSERT"], debug=True)
if m3:
    sz_cases(m3)
by = {}
for m, c in todo:
    by.setdefault((id(m), c.entry), []).append((m, c))
for (i, e), l in by.items():
    def f(r, l=l):
        for m, c in l:
            go(m, c, r)
    ck.task(e, f)
ck.run()
ck.finish("lowest/highest set bit, bit masks, powers, hashes, zeroing, repetition, overlap and alignment tests, blobs, tight pairs and size conversions give their mathematical definition for every argument in range",
          "abstract interpretation of the compiled IR with symbolic words (partitioned by the position of the deciding bit), sizes and offsets; constants computed by the compiler for the compile-time variants; both the intrinsic and the portable bit scans",
          ["bases and exponents of powers, and hashed texts but the last byte, are taken from a list"], {"cases": len(todo)})
