"""Reference-specification harness: an entry is analysed for every input of a given
shape (string lengths fixed per case, contents symbolic); each final abstract state is
compared with a Python reference evaluated over the same symbolic inputs.  The reference
asks questions about the inputs through X, which case-splits the state until every
question has one answer, so comparisons are exact."""
from common import *

NPOS = (1 << 64) - 1
HDR = '''#include <c4/substr.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/std/std.hpp>
#include <c4/span.hpp>
#include <c4/hash.hpp>
#include <c4/memory_util.hpp>
using namespace c4;
#define W extern "C"
'''
EMPTY = "any-empty-view"


class X:
    """questions about a state"""

    def __init__(self, I, s):
        self.I = I
        self.s = s

    def simp(self, e):
        return self.I.retab(self.s, e)

    def unpick(self, e):
        """an undecided question about table values: split on the table's argument"""
        for y in e.t:
            sy = Sym.table[y]
            if sy.kind == "tab" and sy.info[2][0] == "tab":
                for q in sy.info[2][2]:
                    v = self.s.st.norm(Lin(0, {q: 1}))
                    lo, hi = self.s.st.rng(v)
                    if lo < hi:
                        mid = (lo + hi) // 2
                        raise Split([("ge", Lin(mid) - v), ("ge", v - mid - 1)], "table argument")

    def ge(self, a, b=0):
        e = self.simp(_l(a) - _l(b))
        r = self.s.st.decide(("ge", e))
        if r is None:
            self.unpick(e)
            raise Split([("ge", e), ("ge", -e - 1)], "spec")
        return r

    def gt(self, a, b=0):
        return self.ge(a, _l(b) + 1)

    def le(self, a, b=0):
        return self.ge(b, a)

    def lt(self, a, b=0):
        return self.ge(b, _l(a) + 1)

    def eq(self, a, b=0):
        e = self.simp(_l(a) - _l(b))
        r = self.s.st.decide(("eq", e))
        if r is None:
            self.unpick(e)
            raise Split([("eq", e), ("ne", e)], "spec")
        return r

    def inr(self, a, lo, hi):
        return self.ge(a, lo) and self.le(a, hi)

    def isin(self, a, chars):
        return any(self.eq(a, ord(c) if isinstance(c, str) else c) for c in chars)

    def const(self, a):
        lo, hi = self.s.st.rng(self.s.st.norm(_l(a)))
        while lo < hi:
            mid = (lo + hi) // 2
            if self.ge(a, mid + 1):
                lo = mid + 1
            else:
                hi = mid
            l2, h2 = self.s.st.rng(self.s.st.norm(_l(a)))
            lo, hi = max(lo, l2), min(hi, h2)
        return lo

    def init(self, o, off):
        return self.s.st.norm(self.I.U(self.s, self.I.asint(self.s, self.I.initial(self.s, o, self.s.st.norm(_l(off)), 1, "i", 8), 8), 8))

    def cur(self, o, off):
        return readbyte(self.I, self.s, o, self.s.st.norm(_l(off)))

    def text(self, o, n):
        return [self.init(o, i) for i in range(n)]

    def out(self, o, idx, kind="i", size=8):
        v = self.I.read(self.s, o, Lin(idx), size, kind, 8 * size, self.I.log(self.s, o))
        if v is UNDEF:
            return None
        if kind == "i":
            return rint(self.I, self.s, v, 8 * size)
        return v


def _l(a):
    return a if isinstance(a, Lin) else Lin(a)


def congruent(x, a, b, w):
    """a == b modulo 2^w"""
    d = x.s.st.norm(_l(a) - _l(b))
    if d.c % (1 << w) == 0 and all(c % (1 << w) == 0 for c in d.t.values()):
        return True
    return x.eq(x.I.U(x.s, d, w), 0)


class Case:
    """inputs of one analysis: mk(I) -> (args, env, setup)"""

    def __init__(self, name, entry, mk, spec, key=None):
        self.name = name
        self.entry = entry
        self.mk = mk
        self.spec = spec
        self.key = key or entry


# sizes whose low bits are a small number: a size kept in a narrower type shows at once
WRAPS = [(1 << b) + d for b in (8, 16, 32) for d in (0, 1, 2, 3)] + [1 << 31, (1 << 31) + 1]


def strobj(I, name, n, kind="buf"):
    """n: int -> string of that length; None -> symbolic length"""
    if n is None:
        n = I.sym("len(%s)" % name, 0, 1 << 40, "len")
    else:
        n = Lin(n)
    return Obj(kind, name, n), n


def run_case(m, c, r, ext=None, aborts=False, opts=None, loopaware=False):
    """analyse and compare; the spec callable gets (x, env) and returns None when the
    state is right, or a message"""
    m.gobj.clear()
    I = Interp(m, ext=dict(ext or {}))
    I.max_backs = 2000
    I.max_outs = 4000
    for k, v in (opts or {}).items():
        setattr(I, k, v)
    args, env, setup = c.mk(I)
    fs = I.start(c.entry, args, setup)
    r.stat("abstract_states", len(fs))
    r.stat("ir_steps", I.steps)
    if not fs:
        r.undecided(c.name, "no final state")
    nbad = 0
    for s0 in fs:
        if s0.status != "ret" and not aborts and soft(s0):
            r.undecided(c.name, "may not return, on a path through over-approximated state, at " + where(s0.why[1] if isinstance(s0.why, tuple) else s0.why))
            continue
        if s0.status != "ret" and not aborts and feasible(s0.st) is False:
            r.good("unreachable")
            continue
        if s0.status != "ret" and not aborts and getattr(c, "permitted", None):
            # with assertions enabled: inputs outside the documented precondition may be refused
            s0 = next((s for s, ok in withsplit(I, s0, lambda s: c.permitted(X(I, s), env)) if ok), None)
            if s0 is None:
                r.good("refused input")
                continue
        if s0.status != "ret" and not aborts:
            r.bad(c.key + ":noret", "%s does not return normally" % c.name, where(s0.why[1] if isinstance(s0.why, tuple) else s0.why), describe(s0))
            continue

        def f(s):
            return c.spec(X(I, s), env, s)
        try:
            for s, msg in withsplit(I, s0, f):
                if msg is None:
                    r.good("state matches the reference")
                elif isinstance(msg, tuple):
                    r.undecided(c.name, msg[0])
                elif (s.loops and not loopaware) or havoc_constrained(s):
                    r.undecided(c.name, "not decided on a path through over-approximated state: " + msg)
                elif feasible(s.st) is False:
                    r.good("unreachable")
                else:
                    nbad += 1
                    if nbad <= 3:
                        kk, mm = (msg.split("|", 1) if "|" in msg[:24] else ("", msg))
                        r.bad(c.key + (":" + kk if kk else ""), "%s: %s" % (c.name, mm), "entry " + c.entry, describe(s))
        except Unsupported as e:
            r.undecided(c.name, str(e))
    return I, fs


def refold(x, e):
    """evaluate uninterpreted bit operations whose operands have become constants"""
    for _ in range(8):
        e = x.s.st.norm(e)
        for y, k in e.t.items():
            f = Sym.table[y].info
            if isinstance(f, tuple) and len(f) == 5 and f[0] == "fun" and f[1] in ("and", "or", "xor"):
                a, b = [x.s.st.norm(refold(x, Lin(q[0], dict(q[1])))) for q in f[2:4]]
                if a.isconst() and b.isconst():
                    v = {"and": a.c & b.c, "or": a.c | b.c, "xor": a.c ^ b.c}[f[1]]
                    e = e - Lin(0, {y: k}) + v * k
                    break
        else:
            return e
    return e


def expect_int(x, got, want, what="result"):
    if got is None:
        return "%s is left unset, expected %r" % (what, want)
    if isinstance(got, (Ptr, Opq)):
        return ("%s has an unexpected form %r" % (what, got),)
    if isinstance(got, Lin):
        got = refold(x, got)
    if x.eq(got, want):
        return None
    return "%s is %r, expected %r" % (what, x.s.st.norm(_l(got)), x.s.st.norm(_l(want)))


def expect_view(x, p, n, obj, off, length, what="view"):
    """p,n: observed pointer and length; expected [off, off+length) of obj"""
    if n is None or p is None:
        return "%s is left unset" % what
    if not x.eq(n, length):
        return "%s has length %r, expected %r" % (what, n, x.s.st.norm(_l(length)))
    if x.eq(length, 0):
        return None
    if not isinstance(p, Ptr) or p.obj is not obj:
        return "%s points to %r, expected into %s" % (what, p, obj.name)
    if not x.eq(p.off, off):
        return "%s starts at %r, expected %r" % (what, x.s.st.norm(p.off), x.s.st.norm(_l(off)))
    return None


def within(x, p, n, obj, total, what="view"):
    """the view lies inside [0,total) of obj (or is empty null)"""
    if n is None or p is None:
        return "%s is left unset" % what
    if isinstance(p, Ptr) and p.obj is NULLOBJ:
        return None if x.eq(n, 0) else "%s is null with length %r" % (what, n)
    if not isinstance(p, Ptr) or p.obj is not obj:
        return "%s points to %r, expected into %s" % (what, p, obj.name)
    if not (x.ge(p.off) and x.ge(total, p.off)):
        return "%s starts at %r, outside [0,%r]" % (what, x.s.st.norm(p.off), total)
    if not x.ge(_l(total) - p.off, n):
        return "%s [%r,+%r) extends past the end %r" % (what, x.s.st.norm(p.off), n, total)
    return None


_STR = "~std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"


def _fld(I, s, p, off, kind):
    return I.read(s, p.obj, s.st.norm(p.off + off), 8, kind, 64, I.log(s, p.obj))


def _str_data(I, s, a, ins):
    return _fld(I, s, a[0], 0, "p")


def _str_size(I, s, a, ins):
    return _fld(I, s, a[0], 8, "i")


def _str_at(I, s, a, ins):
    p = _fld(I, s, a[0], 0, "p")
    return Ptr(p.obj, s.st.norm(p.off + I.U(s, I.asint(s, a[1], 64), 64)))


def _str_empty(I, s, a, ins):
    n = s.st.norm(I.U(s, I.asint(s, _fld(I, s, a[0], 8, "i"), 64), 64))
    return MultiRet([(("eq", n), Lin(1), lambda x: None), (("ge", n - 1), Lin(0), lambda x: None)])


# accessors of a std::string given by its libstdc++ layout {pointer, size, ...}
STDSTRING = {_STR + "data(": _str_data, _STR + "c_str(": _str_data, _STR + "begin(": _str_data, _STR + "size(": _str_size, _STR + "length(": _str_size,
             _STR + "operator[](": _str_at, _STR + "front(": _str_data, _STR + "empty(": _str_empty}


def known_bytes(I, s, o):
    """(offset, symbol) of the initial bytes of o that were looked at"""
    return [(off, Lin.of(y)) for off, y in I.memo_char.get(("idx", o.id, 1, 8), [])]
