"""enum symbols and bitmasks: text and value map to each other exactly"""
from memres import *
import itertools

ck = Check("C27")
T = ck.thorough
SRC = '''#include <c4/bitmask.hpp>
using namespace c4;
#define W extern "C"
typedef enum : unsigned { BM_NONE = 0, BM_AB = 3, BM_A = 1, BM_B = 2, BM_C2 = 8 } BM;
enum class SC : unsigned char { NIL = 0, S_X = 1, S_Y = 2, S_XY = 3, S_HI = 128 };
typedef enum { PE_Q = -1, PE_R = 5, PE_RR = 7, PE_S = 7 } PE;
namespace c4 {
template<> EnumSymbols<BM> const esyms<BM>() { static const EnumSymbols<BM>::Sym s[] = {{BM_NONE, "BM_NONE"}, {BM_AB, "BM_AB"}, {BM_A, "BM_A"}, {BM_B, "BM_B"}, {BM_C2, "BM_C2"}}; return EnumSymbols<BM>(s); }
template<> size_t eoffs_pfx<BM>() { return 3; }
template<> EnumSymbols<SC> const esyms<SC>() { static const EnumSymbols<SC>::Sym s[] = {{SC::S_X, "T::S_X"}, {SC::S_Y, "T::S_Y"}, {SC::S_XY, "T::S_XY"}, {SC::S_HI, "T::S_HI"}}; return EnumSymbols<SC>(s); }
template<> size_t eoffs_cls<SC>() { return 3; }
template<> size_t eoffs_pfx<SC>() { return 5; }
template<> EnumSymbols<PE> const esyms<PE>() { static const EnumSymbols<PE>::Sym s[] = {{PE_Q, "Q"}, {PE_RR, "RR"}, {PE_R, "R"}, {PE_S, "S"}}; return EnumSymbols<PE>(s); }
}
'''
PER = '''
W EnumSymbols<E>::Sym const* fv_TG(E v) { return esyms<E>().find(v); }
W EnumSymbols<E>::Sym const* fs_TG(const char *s, size_t n) { return esyms<E>().find(s, n); }
W EnumSymbols<E>::Sym const* fz_TG(const char *s, size_t n) { return esyms<E>().find(s); }
W EnumSymbols<E>::Sym const* gv_TG(E v) { return esyms<E>().get(v); }
W EnumSymbols<E>::Sym const* gs_TG(const char *s, size_t n) { return esyms<E>().get(s, n); }
W EnumSymbols<E>::Sym const* gz_TG(const char *s, size_t n) { return esyms<E>().get(s); }
W EnumSymbols<E>::Sym const* ix_TG(size_t i) { return &esyms<E>()[i]; }
W EnumSymbols<E>::Sym const* bg_TG() { return esyms<E>().begin(); }
W EnumSymbols<E>::Sym const* en_TG() { return esyms<E>().end(); }
W size_t sz_TG() { return esyms<E>().size(); }
W E s2e_TG(const char *s, size_t n) { return str2e<E>(s); }
W const char* e2s_TG(E v, int) { return e2str(v); }
W const char* e2o_TG(E v, int o) { return e2stroffs(v, (EnumOffsetType)o); }
W const char* e2d_TG(E v, int o) { return e2stroffs(v); }
W const char* sno_TG(size_t i, int o) { return esyms<E>()[i].name_offs((EnumOffsetType)o); }
W size_t eo_TG(int o) { return eoffs<E>((EnumOffsetType)o); }
'''
BMS = '''
struct Str { int x; }; Str& operator<<(Str&, char) noexcept; Str& operator<<(Str&, const char*) noexcept;
W size_t b2s_TG(IT bits, char *s, size_t n, int o) { return bm2str<E>(bits, s, n, (EnumOffsetType)o); }
W size_t b2d_TG(IT bits, char *s, size_t n, int o) { return bm2str<E>(bits, s, n); }
W void b2t_TG(IT bits, Str *s, int o) { bm2stream<E>(*s, bits, (EnumOffsetType)o); }
W IT s2b_TG(const char *s, size_t n) { return str2bm<E>(s, n); }
W IT s2z_TG(const char *s, size_t n) { return str2bm<E>(s); }
'''
BMSC = '''
W size_t c2s_TG(IT bits, char *s, size_t n, int o) { return bm2str<E>((E)bits, s, n, (EnumOffsetType)o); }
W void c2t_TG(IT bits, Str *s, int o) { bm2stream<E>(*s, (E)bits, (EnumOffsetType)o); }
'''
EN = {"bm": ("BM", "unsigned", 32, [(0, "BM_NONE"), (3, "BM_AB"), (1, "BM_A"), (2, "BM_B"), (8, "BM_C2")], 0, 3),
      "sc": ("SC", "unsigned char", 8, [(1, "T::S_X"), (2, "T::S_Y"), (3, "T::S_XY"), (128, "T::S_HI")], 3, 5),
      "pe": ("PE", "int", 32, [((1 << 32) - 1, "Q"), (7, "RR"), (5, "R"), (7, "S")], 0, 0)}
for tg, (e, it, w, syms, c, p) in EN.items():
    b = PER
    if tg != "pe":
        b += BMS if tg == "bm" else BMS.replace(BMS.strip().splitlines()[0], "")
    if tg == "sc":
        b += BMSC
    SRC += b.replace("<E>", "<%s>" % e).replace("W E ", "W %s " % e).replace("(E ", "(%s " % e).replace("(E)", "(%s)" % e).replace("IT ", it + " ").replace("TG", tg)


# --- string functions ------------------------------------------------------------------
def _cmp(I, s, a, b, n, loc):
    i = 0
    while True:
        if n is not None:
            d = s.st.decide(("ge", n - 1 - i))
            if d is None:
                raise Split([("ge", n - 1 - i), ("ge", Lin(i) - n)], "strncmp length")
            if not d:
                return ZERO
        ca = I.U(s, I.asint(s, I.load(s, Ptr(a.obj, s.st.norm(a.off + i)), 1, "i", 8, loc), 8), 8)
        cb = I.U(s, I.asint(s, I.load(s, Ptr(b.obj, s.st.norm(b.off + i)), 1, "i", 8, loc), 8), 8)
        d = s.st.decide(("eq", ca - cb))
        if d is None:
            raise Split([("eq", ca - cb), ("ge", ca - cb - 1), ("ge", cb - ca - 1)], "strcmp")
        if not d:
            d = s.st.decide(("ge", ca - cb))
            if d is None:
                raise Split([("ge", ca - cb - 1), ("ge", cb - ca - 1)], "strcmp")
            return Lin(1 if d else (1 << 32) - 1)
        z = s.st.decide(("eq", ca))
        if z is None:
            raise Split([("eq", ca), ("ge", ca - 1)], "strcmp end")
        if z:
            return ZERO
        i += 1
        if i > 100:
            raise Unsupported("strcmp")


def h_strcmp(I, s, a, ins):
    return _cmp(I, s, a[0], a[1], None, ins.get("loc"))


def h_strncmp(I, s, a, ins):
    return _cmp(I, s, a[0], a[1], I.U(s, I.asint(s, a[2], 64), 64), ins.get("loc"))


def h_strlen(I, s, a, ins):
    p = a[0]
    i = 0
    while i < 100:
        c = I.U(s, I.asint(s, I.load(s, Ptr(p.obj, s.st.norm(p.off + i)), 1, "i", 8, ins.get("loc")), 8), 8)
        z = s.st.decide(("eq", c))
        if z is None:
            raise Split([("eq", c), ("ge", c - 1)], "strlen")
        if z:
            return Lin(i)
        i += 1
    raise Unsupported("strlen")


def h_strncpy(I, s, a, ins):
    n = s.st.norm(I.U(s, I.asint(s, a[2], 64), 64))
    if not n.isconst():
        raise Unsupported("strncpy")
    end = False
    for i in range(n.c):
        c = ZERO if end else I.asint(s, I.load(s, Ptr(a[1].obj, s.st.norm(a[1].off + i)), 1, "i", 8, ins.get("loc")), 8)
        if not end and s.st.norm(c) == ZERO:
            end = True
        I.store(s, Ptr(a[0].obj, s.st.norm(a[0].off + i)), c, 1, ins.get("loc"))
    return a[0]


def gtext(I, s, p):
    """constant text at p"""
    t = ""
    for i in range(64):
        c = s.st.norm(I.asint(s, I.load(s, Ptr(p.obj, s.st.norm(p.off + i)), 1, "i", 8, None), 8))
        if not c.isconst():
            return None
        if c.c == 0:
            return t
        t += chr(c.c)
    return None


def h_outc(I, s, a, ins):
    c = s.st.norm(I.asint(s, a[1], 8))
    s.events.append(("out", chr(c.c & 255) if c.isconst() else None))
    return a[0]


def h_outs(I, s, a, ins):
    s.events.append(("out", gtext(I, s, a[1])))
    return a[0]


EXT = dict(MR)
EXT.update({"strcmp": h_strcmp, "strncmp": h_strncmp, "strlen": h_strlen, "strncpy": h_strncpy, "_ZlsR3Strc": h_outc, "_ZlsR3StrPKc": h_outs})


def err(s):
    return any(e[0] == "error" for e in s.events)


def symtab(I, s, tg):
    """(object, offset) of the first symbol"""
    return None


def idx_of(x, s, p, tg):
    """index of the symbol p points to, by the object's own contents; None if null"""
    if p is NULL or (isinstance(p, Ptr) and p.obj is NULLOBJ):
        return -1
    if not isinstance(p, Ptr):
        return None
    o = s.st.norm(p.off)
    if not o.isconst() or o.c % 16:
        return None
    return o.c // 16


def names(tg):
    """all texts by which each symbol is known"""
    e, it, w, syms, c, p = EN[tg]
    r = []
    for v, n in syms:
        l = [n]
        for o in (c, p or c):
            if o and n[o:] not in l:
                l.append(n[o:])
        r.append((v, l))
    return r


def texteq(x, o, n, t, at=0):
    """bytes [at, at+n) of o equal t"""
    if n != len(t):
        return False
    for i, ch in enumerate(t):
        if not x.eq(x.init(o, at + i), ord(ch)):
            return False
    return True


def find_case(fn, tg, n):
    z = fn[1] == "z" or fn == "s2e"

    def mk(I):
        o = Obj("buf", "text", n + (1 if z else 0))

        def setup(s):
            x = X(I, s)
            for i in range(n):
                s.st.add_ne(x.init(o, i))
            if z:
                s.st.add_eq(x.init(o, n))
        return [Ptr(o, ZERO), Lin(n)], o, setup

    def spec(x, o, s):
        want = -1
        for i, (v, l) in enumerate(names(tg)):
            if any(texteq(x, o, n, t) for t in l):
                want = i
                break
        must = fn[0] == "g" or fn == "s2e"
        if must and want < 0:
            return None if err(s) else "unknown|text that is no symbol is accepted"
        if err(s):
            return "refused|the name of symbol %d is refused" % want
        if s.status != "ret":
            return "does not return"
        if fn == "s2e":
            return expect_int(x, rint(x.I, s, s.retval, EN[tg][2]), Lin(EN[tg][3][want][0]))
        k = idx_of(x, s, s.retval, tg)
        if k is None:
            return ("result of an unexpected form",)
        if k != want:
            return "found|symbol %d is found, expected %d" % (k, want)
        return None
    return Case("%s_%s text of length %d" % (fn, tg, n), "%s_%s" % (fn, tg), mk, spec)


def val_case(fn, tg):
    e, it, w, syms, c, p = EN[tg]

    def mk(I):
        v = I.sym("v", 0, (1 << w) - 1, "in")
        return [v], v, None

    def spec(x, v, s):
        want = -1
        for i, (k, n) in enumerate(syms):
            if x.eq(v, k):
                want = i
                break
        if fn == "gv" and want < 0:
            return None if err(s) else "unknown|a value that is no symbol is accepted"
        if err(s):
            return "refused|the value of symbol %d is refused" % want
        if s.status != "ret":
            return "does not return"
        k = idx_of(x, s, s.retval, tg)
        if k is None:
            return ("result of an unexpected form",)
        if k != want:
            return "found|symbol %d is found, expected %d" % (k, want)
        return None
    return Case("%s_%s" % (fn, tg), "%s_%s" % (fn, tg), mk, spec)


def str_case(fn, tg, off):
    e, it, w, syms, c, p = EN[tg]

    def mk(I):
        v = I.sym("v", 0, (1 << w) - 1 if fn != "sno" else (1 << 40), "in")
        return [v, Lin(off)], v, None

    def spec(x, v, s):
        want = None
        for i, (k, n) in enumerate(syms):
            if x.eq(v, k if fn != "sno" else i):
                want = n
                break
        if want is None:
            return None if err(s) else "unknown|a value that is no symbol is accepted"
        if err(s):
            return "refused|the value of symbol %s is refused" % want
        if s.status != "ret":
            return "does not return"
        of = 0 if fn == "e2s" else (0, c, p or c)[2 if fn == "e2d" else off]
        if not isinstance(s.retval, Ptr):
            return ("result of an unexpected form",)
        t = gtext(x.I, s, s.retval)
        if t != want[of:]:
            return "text|the name is '%s', expected '%s'" % (t, want[of:])
        return None
    return Case("%s_%s offset %d" % (fn, tg, off), "%s_%s" % (fn, tg), mk, spec)


def misc_cases(tg):
    e, it, w, syms, c, p = EN[tg]
    n = len(syms)

    def one(fn, args, chk, mkargs=None):
        def mk(I):
            a = mkargs(I) if mkargs else args
            return list(a), a, None
        return Case("%s_%s %r" % (fn, tg, args), "%s_%s" % (fn, tg), mk, chk)

    def ix(x, a, s):
        i = a[0]
        if not x.le(i, n - 1):
            return None if err(s) else "range|an index out of range is accepted"
        if err(s):
            return "refused|an index in range is refused"
        for k in range(n):
            if x.eq(i, k):
                g = idx_of(x, s, s.retval, tg)
                return None if g == k else "index|symbol %r is returned, expected %d" % (g, k)
        return None
    yield one("ix", (), ix, lambda I: (I.sym("i", 0, (1 << 64) - 1, "in"),))
    yield one("bg", (), lambda x, a, s: None if idx_of(x, s, s.retval, tg) == 0 else "begin|begin() is not the first symbol")
    yield one("en", (), lambda x, a, s: None if idx_of(x, s, s.retval, tg) == n else "end|end() is not past the last symbol")
    yield one("sz", (), lambda x, a, s: expect_int(x, rint(x.I, s, s.retval, 64), Lin(n)))
    for o in range(3):
        yield one("eo", (Lin(o),), lambda x, a, s, o=o: "refused|valid offset type refused" if err(s) else expect_int(x, rint(x.I, s, s.retval, 64), Lin((0, c, p or c)[o])))


# --- bitmasks --------------------------------------------------------------------------
def bmtext(x, bits, tg, off, up):
    """names covering the bits, in table order (up) or in reverse; None if some bit is in no symbol"""
    e, it, w, syms, c, p = EN[tg]
    of = (0, c, p or c)[off]
    rem = bits
    l = []
    for v, n in reversed(syms):
        if v and rem & v == v:
            l.append(n[of:])
            rem &= ~v
    if rem:
        return None, l
    if not l:
        z = [n[of:] for v, n in syms if v == 0]
        l = z[:1] or ["0"]
    return l[::-1] if up else l, l


def b2s_case(fn, tg, off, size):
    """size: None -> query; int -> buffer of that many bytes"""
    e, it, w, syms, c, p = EN[tg]

    def mk(I):
        v = I.sym("bits", 0, 15 if tg == "bm" else 255, "in")
        o = Obj("buf", "buf", size or 0)
        return [v, Ptr(o, ZERO) if size is not None else NULL, Lin(size or 0), Lin(off)], (v, o), None

    def spec(x, env, s):
        v, o = env
        for k in range(16 if tg == "bm" else 256):
            if k and tg == "sc" and k & 0x7c and not err(s):
                continue
            if s.st.decide(("eq", v - k)) is False:
                continue
            if not x.eq(v, k):
                continue
            of = 2 if fn == "b2d" else off
            l, _ = bmtext(x, k, tg, of, True)
            if l is None:
                return None if err(s) else "unknown|bits that are in no symbol are dropped"
            t = "|".join(l)
            fits = size is None or size >= len(t) + 1
            if not fits:
                return None if err(s) else "size|a text that does not fit is accepted"
            if err(s):
                return "refused|bits %d are refused" % k
            if s.status != "ret":
                return "does not return"
            r = expect_int(x, rint(x.I, s, s.retval, 64), Lin(len(t) + 1), "size")
            if r or size is None:
                return r
            for i, ch in enumerate(t + "\0"):
                g = readbyte(x.I, s, o, Lin(i))
                if not isinstance(g, Lin) or not x.eq(x.I.U(s, g, 8), ord(ch)):
                    return "text|character %d of the text of bits %d is %r, expected %r" % (i, k, g, ch)
            return None
        return None
    return Case("%s_%s offset %d buffer %s" % (fn, tg, off, size), "%s_%s" % (fn, tg), mk, spec)


def b2t_case(fn, tg, off):
    e, it, w, syms, c, p = EN[tg]

    def mk(I):
        v = I.sym("bits", 0, 15 if tg == "bm" else 255, "in")
        o = Obj("out", "stream", 4)
        return [v, Ptr(o, ZERO), Lin(off)], (v, o), None

    def spec(x, env, s):
        v, o = env
        if s.status != "ret":
            return "does not return"
        out = [q[1] for q in s.events if q[0] == "out"]
        if any(q is None for q in out):
            return ("text of an unexpected form",)
        for k in range(16 if tg == "bm" else 256):
            if s.st.decide(("eq", v - k)) is False or tg == "sc" and k & 0x7c:
                continue
            if not x.eq(v, k):
                continue
            l, got = bmtext(x, k, tg, off, False)
            if l is None:
                return None     # bits in no symbol
            t = "|".join(l)
            if "".join(out) != t:
                return "text|the text of bits %d is '%s', expected '%s'" % (k, "".join(out), t)
            return None
        return None
    return Case("%s_%s offset %d" % (fn, tg, off), "%s_%s" % (fn, tg), mk, spec)


def s2b_ref(x, o, n, tg):
    """value, or None for malformed text"""
    e, it, w, syms, c, p = EN[tg]
    B = lambda i: x.init(o, i)
    m = n
    for i in range(n):
        if x.eq(B(i), 0):
            m = i
            nul = True
            break
    else:
        nul = False
    # tokens
    toks, st = [], 0
    for i in range(m):
        if x.eq(B(i), 124):
            toks.append((st, i))
            st = i + 1
    toks.append((st, m))
    sp = lambda i: x.eq(B(i), 32) or x.eq(B(i), 58)
    val = ZERO
    for a, b in toks:
        while a < b and sp(a):
            a += 1
        while b > a and x.eq(B(b - 1), 32):
            b -= 1
        if a == b:
            if len(toks) == 1 and not nul:
                return 0
            return None
        v = None
        for k, l in names(tg):
            if any(texteq(x, o, b - a, t, a) for t in l):
                v = k
                break
        if v is None:
            # number
            dig = lambda q: x.ge(q, 48) and x.le(q, 57)
            v, base, i = 0, 10, a
            if b - a > 2 and x.eq(B(a), 48) and (x.eq(B(a + 1), 120) or x.eq(B(a + 1), 88)):
                base, i = 16, a + 2
            for j in range(i, b):
                q = B(j)
                if dig(q):
                    d = 48
                elif base == 16 and x.ge(q, 97) and x.le(q, 102):
                    d = 87
                elif base == 16 and x.ge(q, 65) and x.le(q, 70):
                    d = 55
                else:
                    return None
                for k in range(base):
                    if x.eq(q, d + k):
                        v = v * base + k
                        break
        val = val | v if isinstance(val, int) else v
    return val


def s2b_case(fn, tg, n, head=""):
    z = fn == "s2z"
    e, it, w, syms, c, p = EN[tg]

    def mk(I):
        o = Obj("buf", "text", n + (1 if z else 0))

        def setup(s):
            x = X(I, s)
            for i, ch in enumerate(head):
                s.st.add_eq(x.init(o, i) - ord(ch))
            if z:
                for i in range(len(head), n):
                    s.st.add_ne(x.init(o, i))
                s.st.add_eq(x.init(o, n))
        return [Ptr(o, ZERO), Lin(n)], o, setup

    def spec(x, o, s):
        v = s2b_ref(x, o, n, tg)
        if v is None:
            return None if err(s) else "malformed|malformed text is accepted"
        if err(s):
            return "refused|well-formed text is refused"
        if s.status != "ret":
            return "does not return"
        return expect_int(x, rint(x.I, s, s.retval, w), Lin(v % (1 << w)))
    return Case("%s_%s %r+%d" % (fn, tg, head, n - len(head)), "%s_%s" % (fn, tg), mk, spec)


def go(m, c, r):
    I, fs = run_case(m, c, r, ext=EXT, aborts=True, opts={"unroll_limit": 300})
    memcheck(r, I, c.entry, objs=("text", "buf", "stream"))


todo = []
m = ck.ir("enum", SRC, std="c++17", keep=["strcmp", "strncmp", "strlen", "strncpy"])
if m:
    for tg in EN:
        e, it, w, syms, c, p = EN[tg]
        mx = max(len(n) for _, n in syms)
        for fn in ("fs", "fz", "gs", "gz", "s2e"):
            for n in range(0, mx + 2):
                todo.append(find_case(fn, tg, n))
        for fn in ("fv", "gv"):
            todo.append(val_case(fn, tg))
        for fn in ("e2s", "e2o", "e2d", "sno"):
            for o in range(3):
                todo.append(str_case(fn, tg, o))
        todo += misc_cases(tg)
        if tg == "pe":
            continue
        for o in range(3):
            full = len("|".join(n for _, n in syms)) + 1
            for size in [None] + list(range(1, full + 1) if T else [1, 2, 3, 4, 5, 6, 7, 8, 12, 13, full]):
                todo.append(b2s_case("b2s", tg, o, size))
                if tg == "sc":
                    todo.append(b2s_case("c2s", tg, o, size))
            todo.append(b2t_case("b2t", tg, o))
            if tg == "sc":
                todo.append(b2t_case("c2t", tg, o))
        todo.append(b2s_case("b2d", tg, 0, None))
        todo.append(b2s_case("b2d", tg, 0, full))
        for n in range(0, 4 if T else 3):
            todo.append(s2b_case("s2b", tg, n))
            todo.append(s2b_case("s2z", tg, n))
        for head in (["BM_", "BM_A", "AB|", "C2|", "A |", "B||", "|", "0x", "0x1", "1|", "12", "A| ", "BM_AB|0x", "NONE|", "C2 |BM_", "1 ", "A:", "A\0", "C", "BM_C"] if tg == "bm" else
                     ["T::S_", "S_", "S_X|", "XY|S_", "T::S_X", "T::", "HI|0x", "::S_", "Y| ", "HI"]):
            for k in range(0, 3 if T or len(head) < 5 else 2):
                todo.append(s2b_case("s2b", tg, len(head) + k, head))
for c in todo:
    ck.task(c.name, lambda r, c=c: go(m, c, r))
ck.run()
ck.finish("looking up an enum symbol by value or by name (with or without its prefix) finds exactly the first symbol with that value or name; names and offsets are as declared; bitmask text lists symbols covering exactly the bits, is refused when it does not fit, and well-formed bitmask text is read as exactly its bits while malformed text is an error",
          "abstract interpretation of the compiled IR over three symbol tables: values and texts symbolic, every path compared with a reference; loops unrolled over the tables",
          ["three symbol tables: prefix, class and prefix, none; texts up to the longest name for lookups; bitmask texts of a few free characters after given beginnings", "bm2stream with bits that are in no symbol is not specified"], {"cases": len(todo)})
