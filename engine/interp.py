"""Abstract interpreter over the exported LLVM IR.

Abstract values: linear forms modulo 2^w over bounded symbols, pointers as
(object, linear offset), branch conditions, opaque terms.  Undecided branches
partition the abstract state (trace partitioning); loops whose trip count is not
decided by the intervals are summarised: header values are replaced by
(init + delta*k) or havoc symbols, constrained by the largest inductive subset of
a template of linear invariants (fixpoint), and one generic iteration is analysed.
No concrete execution, no SMT/SAT."""

import math
import json
import struct
from lin import *

M64 = 1 << 64


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Split(Exception):
    def __init__(self, alts, why=""):
        self.alts = alts
        self.why = why


class LostForm(Exception):
    def __init__(self, var):
        self.var = var


class B:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return "B(%r)" % (self.c,)


class Opq:
    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return "Opq%r" % (self.key,)

    def __eq__(self, o):
        return isinstance(o, Opq) and o.key == self.key

    def __hash__(self):
        return hash(self.key)


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Agg%r" % (self.e,)


class Obj:
    """memory object"""
    __slots__ = ("id", "kind", "name", "size", "bytes", "rel", "const", "addr", "align", "bytewise")
    n = 0

    def __init__(self, kind, name, size, bytes_=None, rel=None, const=False, align=1):
        Obj.n += 1
        self.id = Obj.n
        self.kind = kind
        self.name = name
        self.size = size if not isinstance(size, int) else Lin(size)
        self.bytes = bytes_
        self.rel = rel
        self.const = const
        self.addr = None
        self.align = align

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s[%r]" % (self.obj.name if self.obj else "null", self.off)


NULLOBJ = Obj("null", "null", 0)
NULL = Ptr(NULLOBJ, ZERO)


class Frame:
    __slots__ = ("fn", "env", "bb", "prev", "ip", "ret", "over", "tmp")

    def __init__(self, fn):
        self.fn = fn
        self.env = {}
        self.bb = 0
        self.prev = None
        self.ip = 0
        self.ret = None
        self.over = None

    def copy(self):
        f = Frame(self.fn)
        f.env = dict(self.env)
        f.bb = self.bb
        f.prev = self.prev
        f.ip = self.ip
        f.ret = self.ret
        f.over = self.over
        return f


class State:
    __slots__ = ("st", "frames", "mem", "events", "retval", "status", "loops", "why", "cache", "tags", "exactloss")

    def __init__(self):
        self.st = Store()
        self.frames = []
        self.mem = {}      # obj id -> tuple-list of log entries
        self.events = []
        self.retval = None
        self.status = "run"
        self.loops = []    # summaries traversed
        self.why = None
        self.tags = {}
        self.exactloss = []

    def copy(self):
        s = State()
        s.st = self.st.copy()
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.events = list(self.events)
        s.retval = self.retval
        s.status = self.status
        s.loops = list(self.loops)
        s.why = self.why
        s.tags = dict(self.tags)
        s.exactloss = list(self.exactloss)
        return s

    @property
    def top(self):
        return self.frames[-1]


class Fn:
    def __init__(self, name, d):
        self.name = name
        self.dem = d["dem"]
        self.d = d
        self.decl = d.get("decl", False)
        self.args = d["args"]
        if not self.decl:
            self.blocks = d["blocks"]
            self._loops()

    def defs(self):
        if self._defs is None:
            self._defs = {i["id"]: i for b in self.blocks for i in b if "id" in i}
        return self._defs

    _defs = None

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t["op"]
        if op == "br":
            return [t["t"]] + ([t["f"]] if "c" in t else [])
        if op == "switch":
            return [t["d"]] + [c[1] for c in t["cases"]]
        if op == "invoke":
            return [t["t"], t["uw"]]
        return []

    def _loops(self):
        n = len(self.blocks)
        succ = [self.succs(b) for b in range(n)]
        # dominators (simple iterative)
        order = []
        seen = set()
        stack = [(0, iter(succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while num[a] > num[c]:
                                    a = idom[a]
                                while num[c] > num[a]:
                                    c = idom[c]
                            new = a
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while b != a and b != 0:
                b = idom[b]
            return a == b
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl.extend(preds[x])
        self.loops = loops
        self.rpo = rpo
        self.preds = preds


class Module:
    def __init__(self, path_or_dict):
        d = path_or_dict if isinstance(path_or_dict, dict) else json.load(open(path_or_dict))
        self.d = d
        self.fns = {}
        self.globs = {}
        self.gobj = {}

    def fn(self, name):
        f = self.fns.get(name)
        if f is None:
            if name not in self.d["functions"]:
                raise Unsupported("no function %s" % name)
            f = Fn(name, self.d["functions"][name])
            self.fns[name] = f
        return f

    def gobject(self, name):
        o = self.gobj.get(name)
        if o is None:
            g = self.d["globals"][name]
            o = Obj("global", name, g["sz"], g.get("bytes"), {r["o"]: r["v"] for r in g.get("rel", [])}, g["const"])
            self.gobj[name] = o
        return o


def fpconst(k):
    """python value of a floating point constant term, or None"""
    if not (isinstance(k, tuple) and len(k) == 3 and k[0] == "fp" and k[2] in ("float", "double")):
        return None
    b = int(k[1])
    return struct.unpack("<f", struct.pack("<I", b))[0] if k[2] == "float" else struct.unpack("<d", struct.pack("<Q", b))[0]


def fpmake(v, w):
    """constant term: v rounded to the type of width w"""
    if w == 32:
        try:
            b = struct.pack("<f", v)
        except OverflowError:
            b = struct.pack("<f", math.copysign(math.inf, v))
        return ("fp", str(struct.unpack("<I", b)[0]), "float")
    return ("fp", str(struct.unpack("<Q", struct.pack("<d", v))[0]), "double")


def fpfold(op, w, ks):
    """result of an operation on constants (double rounding is harmless for these)"""
    if w not in (32, 64):
        return None
    if op in ("sitofp", "uitofp"):
        k = ks[0]
        return fpmake(float(k[0]), w) if isinstance(k, tuple) and len(k) == 2 and k[1] == () and isinstance(k[0], int) and 0 <= k[0] < 1 << 24 else None
    vs = [fpconst(k) for k in ks]
    if any(v is None or v != v or v in (math.inf, -math.inf) for v in vs):
        return None
    try:
        if op == "fadd":
            r = vs[0] + vs[1]
        elif op == "fsub":
            r = vs[0] - vs[1]
        elif op == "fmul":
            r = vs[0] * vs[1]
        elif op == "fdiv" and vs[1] != 0:
            r = vs[0] / vs[1]
        elif op == "fneg":
            r = -vs[0]
        elif op in ("fpext", "fptrunc"):
            r = vs[0]
        else:
            return None
    except OverflowError:
        return None
    return fpmake(r, w)


class Oblig:
    __slots__ = ("kind", "ok", "obj", "off", "size", "loc", "state", "cond", "note")

    def __init__(self, kind, ok, obj, off, size, loc, state, note=""):
        self.kind = kind
        self.ok = ok
        self.obj = obj
        self.off = off
        self.size = size
        self.loc = loc
        self.state = state
        self.note = note


class LoopSummary:
    __slots__ = ("fn", "header", "k", "vars", "invs", "backs", "loc", "entry", "terminating", "writes", "events")


def shortloc(loc):
    if not loc:
        return "?"
    p = loc.split(" < ")[0]
    i = p.find("/src/c4/")
    return p[i + 1:] if i >= 0 else p


class Interp:
    def __init__(self, mod, ext=None, max_states=6000, max_steps=400000):
        self.m = mod
        self.ext = ext or {}
        self.oblig = []
        self.memo_char = {}
        self.apart = True    # distinct objects do not overlap
        self.ginit = False   # start from the static initial values of mutable globals
        self.fcmp = None   # decides comparisons of floating point terms
        self.tls = set()   # objects reached as thread-local storage
        self.memo_tab = {}
        self.memo_def = {}
        self.opqbits = {}
        self.max_states = max_states
        self.max_steps = max_steps
        self.steps = 0
        self.nstates = 0
        self.finals = []
        self.record_ok = True
        self.cmplog = None
        self.summaries = []
        self.check_arith = False
        self.unroll_limit = 80
        self.max_backs = 64
        self.tabsplit = False
        self.brops = {}
        self.softdec = set()
        self.partops = {}      # decided comparisons within undecided compound exits
        self.partund = set()
        self.max_outs = 400
        self.nforks = 0
        self.fnseen = set()
        self.instseen = set()

    # ------------------------------------------------------------ symbols
    def sym(self, name, lo, hi, kind, info=None):
        return Lin.of(Sym(name, lo, hi, kind, info))

    def defsym(self, s, key, name, lo, hi, kind="def", exact=False, info=None):
        y = self.memo_def.get(key)
        if y is None:
            y = Sym(name, lo, hi, kind, info)
            self.memo_def[key] = y
        return y

    # ------------------------------------------------------------ numeric helpers
    def reduce(self, s, e, w):
        """drop terms that are multiples of 2^w"""
        e = s.st.norm(e)
        m = 1 << w
        t = {}
        ch = False
        for y, k in e.t.items():
            if k % m == 0:
                ch = True
                continue
            if abs(k) > m and w >= 16 and abs(k - (k + m // 2) // m * m) <= 8:
                ch = True
                k -= (k + m // 2) // m * m
            t[y] = k
        c = e.c
        if not t:
            return Lin(c % m)
        return Lin(c, t) if ch else e

    def canon(self, s, e, w, lo, hi):
        """representative of e mod 2^w lying in [lo,hi], hi-lo+1==2^w"""
        e = self.reduce(s, e, w)
        m = 1 << w
        if not e.t:
            return Lin((e.c - lo) % m + lo)
        a, b = s.st.rng(e)
        if a >= lo and b <= hi:
            return e
        k1 = (a - lo) // m
        k2 = (b - lo) // m
        if k1 == k2:
            return e - k1 * m
        # refine with relational facts
        st = s.st
        while k1 < k2 and k2 - k1 <= 8:
            if st.prove(e - (lo + (k1 + 1) * m)):
                k1 += 1
            elif st.prove(Lin(lo + k2 * m - 1) - e):
                k2 -= 1
            else:
                break
        if k1 == k2:
            return e - k1 * m
        if k2 - k1 <= 2:
            # split at a boundary
            bd = lo + (k1 + 1) * m
            if k1 < 0 <= lo and bd <= lo and lo <= hi and (k1 + 1) < k2:
                bd = lo
            raise Split([("ge", e - bd), ("ge", Lin(bd - 1) - e)], "wrap")
        e2 = self.try_expand(s, e) if all(abs(c) & (abs(c) - 1) == 0 for c in e.t.values()) else None
        if e2 is not None:
            return self.canon(s, e2, w, lo, hi)
        q = self.div(s, e - lo, m, all(abs(c) & (abs(c) - 1) == 0 for c in e.t.values()))
        return e - q.scale(m)

    def U(self, s, e, w):
        return self.canon(s, e, w, 0, (1 << w) - 1)

    def S(self, s, e, w):
        return self.canon(s, e, w, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def try_expand(self, s, e):
        """expand some non-bit symbol of e to bits; returns new Lin or None"""
        for y in e.t:
            if self.expand(s, y):
                return s.st.norm(e)
        return None

    def expand(self, s, y):
        sy = Sym.table[y]
        if sy.kind not in ("in", "char", "tab", "ret"):
            return False
        lo, hi = s.st.bounds(y)
        if lo == hi:
            return False
        base = min(0, sy.lo)
        n = (sy.hi - base).bit_length()
        if n <= 1 or n > 64:
            return False
        key = ("bits", y)
        bits = self.memo_def.get(key)
        if bits is None:
            bits = [Sym("%s.b%d" % (sy.name, i), 0, 1, "bit") for i in range(n)]
            self.memo_def[key] = bits
        e = Lin(base, {b.id: 1 << i for i, b in enumerate(bits)}) - Lin(0, {y: 1})
        # eliminate y in favour of the bits
        val = e + Lin(0, {y: 1})
        st = s.st
        if y in st.sub:
            return False
        b = st.bounds(y)
        st.sub[y] = val
        st._rewrite()
        st.add_ge(val - b[0])
        st.add_ge(Lin(b[1]) - val)
        return True

    def div(self, s, e, c, expand=True):
        """floor(e / c) for canonical e, c>0 const"""
        if c == 1:
            return e
        e = s.st.norm(e)
        q = {}
        r = {}
        for y, k in e.t.items():
            if k % c == 0:
                q[y] = k // c
            elif abs(k) > c and c >= 1 << 16 and abs(k - (k + c // 2) // c * c) <= 8:
                q[y] = (k + c // 2) // c
                r[y] = k - q[y] * c
            else:
                r[y] = k
        R = Lin(0, r)
        lo, hi = s.st.rng(R)
        m1 = (lo + e.c) // c
        m2 = (hi + e.c) // c
        if m1 == m2:
            return Lin(m1, q)
        cc = e.c // c
        R1 = Lin(e.c - cc * c, r)
        if s.st.prove(R1) and s.st.prove(Lin(c - 1) - R1):
            return Lin(cc, q)
        if expand and c & (c - 1) == 0:
            for y in r:
                if self.expand(s, y):
                    return self.div(s, e, c)
        # split a term's coefficient: k = c*a + b with smaller b
        t2 = {}
        ch = False
        for y, k in r.items():
            a = k // c
            if a and k > 0:
                q[y] = q.get(y, 0) + a
                ch = True
                k -= a * c
            if k:
                t2[y] = k
        if ch:
            return self.div(s, Lin(e.c, t2), c, expand) + Lin(0, q)
        cc = e.c // c
        R = Lin(e.c - cc * c, r)
        # relational refinement
        lo, hi = s.st.rng(R)
        if s.st.prove(R) and s.st.prove(Lin(c - 1) - R):
            return Lin(cc, q)
        y = self.defsym(s, ("div", R.key, c), "(%r)/%d" % (R, c), lo // c, hi // c)
        st = s.st
        st.b.setdefault(y.id, (lo // c, hi // c))
        D = Lin.of(y)
        for con in (R - D.scale(c), D.scale(c) + (c - 1) - R):
            if con not in st.cons:
                st.cons.append(con)
                st.memo = {}
        return Lin(cc, q) + D

    def mod(self, s, e, c):
        return e - self.div(s, e, c).scale(c)

    def support(self, s, e):
        """mask of possibly-set bits of a canonical non-negative e, or None"""
        lo0, hi0 = s.st.rng(e)
        hull = ((1 << hi0.bit_length()) - 1) if lo0 >= 0 else None
        if e.c < 0:
            return hull
        masks = [e.c] if e.c else []
        for y, k in e.t.items():
            lo, hi = s.st.bounds(y)
            if k < 0 or lo < 0:
                return hull
            p = (k & -k).bit_length() - 1
            top = (k * hi).bit_length()
            mk = ((1 << top) - 1) & ~((1 << p) - 1)
            if lo == 0 and hi == 1:
                mk = k
            masks.append(mk)
        u = 0
        for mk in masks:
            if u & mk:
                # not disjoint -> conservative hull
                lo2 = min((x & -x).bit_length() - 1 for x in masks if x)
                _, hi2 = s.st.rng(e)
                return ((1 << hi2.bit_length()) - 1) & ~((1 << lo2) - 1)
            u |= mk
        return u

    def bitform(self, s, e, w):
        """express canonical e as const + sum of distinct single bits, or None; may expand"""
        for _ in range(80):
            e = s.st.norm(e)
            bad = None
            for y, k in e.t.items():
                lo, hi = s.st.bounds(y)
                if not (lo == 0 and hi == 1 and k > 0 and k & (k - 1) == 0):
                    bad = y
                    break
            if bad is None:
                break
            sy = Sym.table[bad]
            if not self.expand(s, bad):
                return None
        ks = list(e.t.values())
        if len(set(ks)) != len(ks) or e.c < 0:
            return None
        tot = 0
        for k in ks:
            tot |= k
        if tot & e.c:
            return None
        return e

    def land(self, s, a, b, w):
        a = self.U(s, a, w)
        b = self.U(s, b, w)
        if a.isconst():
            a, b = b, a
        if b.isconst():
            mask = b.c
            if mask == 0:
                return ZERO
            if mask == (1 << w) - 1:
                return a
            sup = self.support(s, a)
            if sup is not None:
                if sup & ~mask == 0:
                    return a
                if sup & mask == 0:
                    return ZERO
            if a.isconst():
                return Lin(a.c & mask)
            res = ZERO
            p = 0
            x = mask
            while x:
                tz = (x & -x).bit_length() - 1
                p += tz
                x >>= tz
                n = ((x + 1) & -(x + 1)).bit_length() - 1
                x >>= n
                f = self.div(s, a, 1 << p)
                if p + n < w:
                    f = f - self.div(s, f, 1 << n).scale(1 << n)
                res = res + f.scale(1 << p)
                p += n
            return res
        sa = self.support(s, a)
        sb = self.support(s, b)
        if sa is not None and sb is not None and sa & sb == 0:
            return ZERO
        if s.st.norm(a - b) == ZERO:
            return a
        return self.bitop(s, "and", a, b, w)

    def bitop(self, s, op, a, b, w):
        fa = self.bitform(s, a, w)
        fb = self.bitform(s, b, w) if fa is not None else None
        if fb is not None:
            fa = s.st.norm(fa)
            res = Lin(0)
            pa = {k: y for y, k in fa.t.items()}
            pb = {k: y for y, k in fb.t.items()}
            ok = True
            c = 0
            t = {}
            for i in range(w):
                k = 1 << i
                xa = pa.get(k, 1 if fa.c & k else 0)
                xb = pb.get(k, 1 if fb.c & k else 0)
                ya = k in pa
                yb = k in pb
                if not ya and not yb:
                    v = {"and": xa & xb, "or": xa | xb, "xor": xa ^ xb}[op]
                    c += v * k
                elif ya and yb:
                    if xa == xb:
                        if op != "xor":
                            t[xa] = t.get(xa, 0) + k
                    else:
                        ok = False
                        break
                else:
                    y, cc = (xa, xb) if ya else (xb, xa)
                    if op == "and":
                        if cc:
                            t[y] = t.get(y, 0) + k
                    elif op == "or":
                        if cc:
                            c += k
                        else:
                            t[y] = t.get(y, 0) + k
                    else:
                        if cc:
                            c += k
                            t[y] = t.get(y, 0) - k
                        else:
                            t[y] = t.get(y, 0) + k
            if ok:
                return Lin(c, {y: k for y, k in t.items() if k})
        key = (op,) + tuple(sorted((a.key, b.key))) + (w,)
        la, ha = s.st.rng(a)
        lb, hb = s.st.rng(b)
        if op == "and":
            hi = min(ha, hb)
        else:
            hi = (1 << max(ha.bit_length(), hb.bit_length())) - 1
        y = self.defsym(s, key, "%s(%r,%r)" % (op, a, b), 0, hi, "havoc", info=("fun",) + key)
        return Lin.of(y)

    def lor(self, s, a, b, w):
        a = self.U(s, a, w)
        b = self.U(s, b, w)
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        sa = self.support(s, a)
        sb = self.support(s, b)
        if sa is not None and sb is not None and sa & sb == 0:
            return a + b
        if s.st.norm(a - b) == ZERO:
            return a
        for u, v in ((a, b), (b, a)):
            # u is a multiple of 2^p and v < 2^p: disjoint bits
            g = u.c
            for c in u.t.values():
                g = math.gcd(g, c)
            g &= -g
            lo, hi = s.st.rng(v)
            if g > 1 and (lo >= 0 and hi < g or
                          s.st.prove(v) and s.st.prove(Lin(g - 1) - v)):
                return u + v
        return self.bitop(s, "or", a, b, w)

    def lxor(self, s, a, b, w):
        a = self.U(s, a, w)
        b = self.U(s, b, w)
        if a == ZERO:
            return b
        if b == ZERO:
            return a
        full = (1 << w) - 1
        if b.isconst() and b.c == full:
            return Lin(full) - a
        if a.isconst() and a.c == full:
            return Lin(full) - b
        if s.st.norm(a - b) == ZERO:
            return ZERO
        sa = self.support(s, a)
        sb = self.support(s, b)
        if sa is not None and sb is not None and sa & sb == 0:
            return a + b
        return self.bitop(s, "xor", a, b, w)

    def concretize(self, s, e, limit=70):
        e = s.st.norm(e)
        if e.isconst():
            return e.c
        lo, hi = s.st.rng(e)
        if hi - lo > limit:
            return None
        mid = (lo + hi) // 2
        raise Split([("ge", Lin(mid) - e), ("ge", e - mid - 1)], "concretize")

    # ------------------------------------------------------------ values
    def const(self, s, c):
        k = c["k"]
        if k == "i":
            v = int(c["v"])
            if c["w"] == 1:
                return B(v == 1)
            return Lin(v)
        if k == "null":
            return NULL
        if k == "g":
            return Ptr(self.m.gobject(c["n"]), Lin(c["o"]))
        if k in ("undef", "poison"):
            return UNDEF
        if k == "f":
            return Opq(("fp", c["v"], c["t"]))
        if k == "fn":
            return Ptr(self.fnobj(c["n"]), ZERO)
        if k == "agg":
            return Agg([self.const(s, x) for x in c["e"]])
        if k == "md":
            return UNDEF
        raise Unsupported("constant %r" % (c,))

    def fnobj(self, n):
        o = self.m.gobj.get(("fn", n))
        if o is None:
            o = Obj("fn", n, 1)
            self.m.gobj[("fn", n)] = o
        return o

    def val(self, s, v):
        if isinstance(v, int):
            return s.frames[-1].env[v]
        return self.const(s, v)

    def asint(self, s, v, w):
        """value as Lin"""
        if isinstance(v, Lin):
            return v
        if isinstance(v, B):
            d = s.st.decide(v.c)
            if d is None:
                raise Split(self.alts(v.c), "bool")
            return Lin(1 if d else 0)
        if v is UNDEF:
            return self.sym("undef", 0, (1 << w) - 1, "havoc")
        if isinstance(v, Opq):
            if isinstance(v.key, tuple) and v.key[0] == "inttoptr" and w == 64:
                c, ts = v.key[1]
                return Lin(c, dict(ts))
            y = self.defsym(s, ("opqint", v.key, w), "opq", 0, (1 << w) - 1, "in" if v.key[0] == "arg" else "havoc")
            self.opqbits[y.id] = (v.key, w)
            return Lin.of(y)
        if isinstance(v, Ptr):
            return self.addr(s, v)
        raise Unsupported("asint %r" % (v,))

    def asbool(self, s, v):
        if isinstance(v, B):
            return v.c
        if isinstance(v, Lin):
            e = self.U(s, v, 1)
            return ("ge", e - 1)
        if v is UNDEF:
            y = self.sym("undefb", 0, 1, "havoc")
            return ("ge", y - 1)
        if isinstance(v, Opq):
            y = self.defsym(s, ("opqb", v.key), "opqb", 0, 1, "havoc")
            return ("ge", Lin.of(y) - 1)
        raise Unsupported("asbool %r" % (v,))

    def alts(self, c):
        """exhaustive exclusive alternatives (conjunctive) for c / not c"""
        return [x for x in self.dnf(c) + self.dnf(neg(c))]

    def dnf(self, c):
        if c is True or c is False:
            return [c] if c else []
        if c[0] in ("ge", "eq", "ne"):
            return [c]
        if c[0] == "not":
            return self.dnf(neg(c[1]))
        if c[0] == "and":
            return [c_and(a, b) for a in self.dnf(c[1]) for b in self.dnf(c[2])]
        if c[0] == "or":
            return self.dnf(c[1]) + [c_and(a, b) for a in self.dnf(neg(c[1])) for b in self.dnf(c[2])]
        raise AssertionError

    def addr(self, s, p):
        if p.obj is NULLOBJ:
            return p.off
        if p.obj.addr is None:
            al = p.obj.align or 1
            if al > 1:
                q = Sym("addr(%s)/%d" % (p.obj.name, al), 4096 // al + 1, (1 << 47) // al, "addr")
                p.obj.addr = Lin.of(q).scale(al)
            else:
                p.obj.addr = self.sym("addr(%s)" % p.obj.name, 4096, 1 << 47, "addr")
        return p.obj.addr + p.off

    # ------------------------------------------------------------ memory
    def newobj(self, kind, name, size, **kw):
        return Obj(kind, name, size, **kw)

    def check(self, s, kind, p, size, loc):
        """bounds obligation for access of `size` (Lin) bytes at p"""
        if not isinstance(p, Ptr):
            if isinstance(p, Opq):
                self.oblig.append(Oblig(kind, None, None, None, size, loc, s, "access through unknown pointer %r" % (p,)))
                return False
            raise Unsupported("access via %r at %s" % (p, shortloc(loc)))
        o = p.obj
        st = s.st
        if st.decide(("ge", -size)) is True:
            return True
        if o is NULLOBJ:
            # feasible only if size can be > 0
            self.oblig.append(Oblig(kind, False, o, p.off, size, loc, s.copy(), "null dereference"))
            raise Infeasible
        if o.const and (kind in ("store", "memset") or kind.endswith("-dst")):
            self.oblig.append(Oblig("store-const", False, o, p.off, size, loc, s.copy(), "store to constant object"))
        if o.size is None:
            return True
        c1 = ("ge", p.off)
        c2 = ("ge", o.size - p.off - size)
        ok = st.decide(c1) is True and st.decide(c2) is True
        if ok:
            self.oblig.append(Oblig(kind, True, o, None, None, loc, None))
            return True
        self.oblig.append(Oblig(kind, False, o, p.off, size, loc, s.copy()))
        # continue under the assumption it was in range
        st.assume(c1)
        st.assume(c2)
        return False

    def log(self, s, o):
        return s.mem.get(o.id, ())

    def store(self, s, p, v, size, loc, w=None):
        self.check(s, "store", p, Lin(size), loc)
        if not isinstance(p, Ptr):
            return
        o = p.obj
        off = s.st.norm(p.off)
        lg = self.log(s, o)
        if off.isconst() and o.kind != "buf":
            # drop older exact cell
            lg = tuple(x for x in lg if not (x[0] == "st" and x[1].isconst() and x[1].c == off.c and x[2] == size) )
        s.mem[o.id] = lg + (("st", off, size, v, w, loc),)

    def load(self, s, p, size, kind, w, loc):
        self.check(s, "load", p, Lin(size), loc)
        if not isinstance(p, Ptr):
            return self.fresh_of(s, kind, w, "load?")
        return self.read(s, p.obj, s.st.norm(p.off), size, kind, w, self.log(s, p.obj))

    def fresh_of(self, s, kind, w, name, k="havoc"):
        if kind == "i":
            if w == 1:
                return B(("ge", self.sym(name, 0, 1, k) - 1))
            return self.sym(name, 0, (1 << w) - 1, k)
        if kind == "p":
            return Opq(("ptr", name, len(Sym.table), self.sym("p", 0, 1, "havoc").key))
        if kind == "f":
            return Opq(("f", name, self.sym("p", 0, 1, "havoc").key))
        if kind == "v":
            return None
        return Opq(("x", name, self.sym("p", 0, 1, "havoc").key))

    def conv(self, s, v, size, kind, w, ow):
        """reinterpret stored value v for a load of kind/w"""
        if kind == "i":
            if isinstance(v, Lin):
                return B(self.asbool(s, v)) if w == 1 else v
            if isinstance(v, B):
                return v if w == 1 else self.asint(s, v, w)
            if v is UNDEF:
                return UNDEF
            if isinstance(v, Ptr):
                return self.addr(s, v)
            if isinstance(v, Opq):
                return self.asint(s, v, w) if w > 1 else B(self.asbool(s, v))
        if kind == "p":
            if isinstance(v, (Ptr, Opq)) or v is UNDEF:
                return v
            if isinstance(v, Lin):
                e = s.st.norm(v)
                if e == ZERO:
                    return NULL
                return Opq(("inttoptr", e.key))
        if kind == "f":
            if isinstance(v, Opq):
                return v
            if isinstance(v, Lin):
                e = self.U(s, v, w)
                if e.c == 0 and len(e.t) == 1:
                    (y, q), = e.t.items()
                    k = self.opqbits.get(y)
                    if q == 1 and k and k[1] == w:
                        return Opq(k[0])
                return Opq(("bits", v.key, w))
            return v
        if kind == "a" or kind == "x":
            return v
        raise Unsupported("conv %r to %s%d" % (v, kind, w))

    def read(self, s, o, off, size, kind, w, lg):
        st = s.st
        i = len(lg)
        while i > 0:
            i -= 1
            x = lg[i]
            if x[0] == "st":
                d = st.norm(off - x[1])
                if d.isconst():
                    if d.c == 0 and x[2] == size:
                        return self.conv(s, x[3], size, kind, w, x[4])
                    if d.c >= x[2] or d.c + size <= 0:
                        continue
                    if d.c >= 0 and d.c + size <= x[2]:
                        # sub-read of a bigger store (little endian)
                        v = x[3]
                        if v is UNDEF:
                            return UNDEF
                        if isinstance(v, Agg):
                            raise Unsupported("sub-read of aggregate")
                        e = self.U(s, self.asint(s, v, 8 * x[2]), 8 * x[2])
                        e = self.div(s, e, 1 << (8 * d.c))
                        e = self.canon(s, e, 8 * size, 0, (1 << (8 * size)) - 1)
                        return self.conv(s, e, size, kind, w, None)
                    # partial overlap: assemble bytes
                    if kind == "i" and size > 1 and size <= 16:
                        r = ZERO
                        for j in range(size):
                            b = self.read(s, o, off + j, 1, "i", 8, lg)
                            r = r + self.U(s, self.asint(s, b, 8), 8).scale(1 << (8 * j))
                        return r
                    return self.fresh_of(s, kind, w, "partial")
                # symbolic distance
                if st.decide(("ge", d - x[2])) is True or st.decide(("ge", -d - size)) is True:
                    continue
                if st.decide(("eq", d)) is True and x[2] == size:
                    return self.conv(s, x[3], size, kind, w, x[4])
                if size == 1 and x[2] == 1:
                    raise Split([("eq", d), ("ge", d - 1), ("ge", -d - 1)], "alias")
                raise Split([("ge", d - x[2]), ("ge", -d - size), c_and(("ge", Lin(x[2] - 1) - d), ("ge", d + size - 1))]
                            if st.decide(c_and(("ge", Lin(x[2] - 1) - d), ("ge", d + size - 1))) is not True else [], "alias")
            elif x[0] in ("set", "copy", "unkrange"):
                woff, wlen = x[1], x[2]
                d = off - woff
                if st.decide(("ge", -wlen)) is True or st.decide(("ge", d - wlen)) is True or st.decide(("ge", -d - size)) is True:
                    continue
                inside = c_and(("ge", d), ("ge", wlen - d - size))
                dec = st.decide(inside)
                if dec is True:
                    if x[0] == "set":
                        b = self.U(s, x[3], 8)
                        r = ZERO
                        for j in range(size):
                            r = r + b.scale(1 << (8 * j))
                        return self.conv(s, r, size, kind, w, None)
                    if x[0] == "copy":
                        return self.read(s, x[3], st.norm(x[4] + d), size, kind, w, x[5])
                    return self.fresh_of(s, kind, w, "havocmem")
                if size == 1:
                    raise Split([("ge", -d - 1), ("ge", d - wlen), inside], "aliascopy")
                # assemble from bytes
                if kind == "i":
                    r = ZERO
                    for j in range(size):
                        b = self.read(s, o, off + j, 1, "i", 8, lg)
                        r = r + self.U(s, self.asint(s, b, 8), 8).scale(1 << (8 * j))
                    return self.conv(s, r, size, kind, w, None)
                return self.fresh_of(s, kind, w, "partialcopy")
            elif x[0] == "map":
                woff, wlen, o0, c, sz, v, ks = x[1:]
                d = off - woff
                if st.decide(("ge", -wlen)) is True or st.decide(("ge", d - wlen)) is True or st.decide(("ge", -d - size)) is True:
                    continue
                inside = c_and(("ge", d), ("ge", wlen - d - size))
                dec = st.decide(inside)
                if dec is True:
                    if sz == 1 and size == 1:
                        j = (off - o0) if c > 0 else (o0 - off)
                        return self.conv(s, self.subst_k(s, v, ks, st.norm(j)), 1, kind, w, None)
                    if sz == 1 and kind == "i" and size <= 8:
                        r = ZERO
                        for jj in range(size):
                            b = self.read(s, o, off + jj, 1, "i", 8, lg)
                            r = r + self.U(s, self.asint(s, b, 8), 8).scale(1 << (8 * jj))
                        return self.conv(s, r, size, kind, w, None)
                    dd = st.norm((off - o0).scale(1 if c > 0 else -1))
                    if sz == size and all(q % sz == 0 for q in dd.t.values()) and dd.c % sz == 0:
                        j = Lin(dd.c // sz, {a: q // sz for a, q in dd.t.items()})
                        return self.conv(s, self.subst_k(s, v, ks, j), size, kind, w, None)
                    return self.fresh_of(s, kind, w, "havocmap")
                if size == 1:
                    raise Split([("ge", -d - 1), ("ge", d - wlen), inside], "aliasmap")
                return self.fresh_of(s, kind, w, "partialmap")
            elif x[0] == "unk":
                return self.fresh_of(s, kind, w, "unkmem")
            else:
                raise AssertionError(x[0])
        return self.initial(s, o, off, size, kind, w)

    def initial(self, s, o, off, size, kind, w):
        if o.kind == "alloca":
            return UNDEF
        if o.kind == "global" and o.bytes is not None and (o.const or self.ginit):
            return self.tabload(s, o, off, size, kind, w)
        if kind == "i":
            if size > 1 and getattr(o, "bytewise", False) and w == 8 * size:
                r = ZERO
                for j in range(size):
                    r = r + self.initial(s, o, s.st.norm(off + j), 1, "i", 8).scale(1 << (8 * j))
                return r
            key = ("mem", o.id, off.key, size, w)
            y = self.memo_char.get(key)
            if y is None:
                hi = (1 << w) - 1
                if o.kind == "buf" and size == 1:
                    nm = "%s[%r]" % (o.name, off)
                else:
                    nm = "%s@%r:%d" % (o.name, off, size)
                y = Sym(nm, 0, hi, "char", (o, off, size))
                self.memo_char[key] = y
                self.memo_char.setdefault(("idx", o.id, size, w), []).append((off, y))
            # congruence: equal offsets denote the same byte
            lst = self.memo_char[("idx", o.id, size, w)]
            if len(lst) > 1:
                st = s.st
                cst = not off.t
                for off2, y2 in lst:
                    if y2 is y or (cst and not off2.t):
                        continue
                    if st.norm(off2 - off) == ZERO:
                        e = st.norm(Lin.of(y2) - Lin.of(y))
                        if e.t or e.c:
                            st.add_eq(e)
            return B(("ge", Lin.of(y) - 1)) if w == 1 else Lin.of(y)
        key = ("mem", o.id, off.key, size, kind)
        y = self.memo_char.get(key)
        if y is None:
            y = Opq(("init",) + key)
            self.memo_char[key] = y
        return y

    def tabbytes(self, o, off, size):
        v = 0
        for j in range(size):
            b = o.bytes[off + j]
            if b < 0:
                return None
            v |= b << (8 * j)
        return v

    def tabload(self, s, o, off, size, kind, w):
        st = s.st
        if off.isconst():
            if off.c in o.rel:
                return self.const(s, o.rel[off.c])
            if kind == "p":
                if self.tabbytes(o, off.c, size) == 0:
                    return NULL
                raise Unsupported("ptr const load")
            v = self.tabbytes(o, off.c, size)
            if v is None:
                return UNDEF
            if kind == "f":
                return Opq(("fpbits", v, w))
            return B(v & 1 == 1) if w == 1 else Lin(v)
        if kind != "i":
            e = self.concretize(s, off)
            if e is None:
                raise Unsupported("symbolic non-int table load")
        n = len(o.bytes)
        tab = {}
        return self.fnload(s, lambda i: self.tabbytes(o, i, size) if 0 <= i and i + size <= n else None, off, w, o.name)

    def fnload(self, s, f, off, w, name):
        """value of the finite function f at linear form off"""
        st = s.st
        off = st.norm(off)
        if off.isconst():
            return Lin(f(off.c))
        off = self.retab(s, off)
        if off.isconst():
            return Lin(f(off.c))
        syms = list(off.t)
        if len(syms) == 1 and Sym.table[syms[0]].kind == "tab" and Sym.table[syms[0]].info[2][0] == "tab":
            # composition of finite functions
            _, pts, us = Sym.table[syms[0]].info[2]
            m = {}
            k = off.t[syms[0]]
            for tt, v in pts:
                if self.inbox(st, us, tt):
                    m[tt] = v * k + off.c
            return self.fnload_pts(s, [(tt, f(c)) for tt, c in m.items()], us, name)
        dom = 1
        for y in syms:
            b = st.bounds(y)
            dom *= b[1] - b[0] + 1
            if dom > 70000:
                break
        lo, hi = st.rng(off)
        if dom <= 70000:
            pts = [(off.c, ())]
            for y in syms:
                b = st.bounds(y)
                k = off.t[y]
                pts = [(c + k * v, t + (v,)) for c, t in pts for v in range(b[0], b[1] + 1)]
            return self.fnload_pts(s, [(t, f(c)) for c, t in pts], syms, name)
        else:
            if hi - lo > 5000:
                return self.sym("bigtab", 0, (1 << w) - 1, "havoc")
            vals = [(i, f(i)) for i in range(lo, hi + 1)]
            vals = [(i, v) for i, v in vals if v is not None]
            vs = tuple(v for _, v in vals)
            if not vs:
                raise Infeasible
            if len(set(vs)) == 1:
                return Lin(vs[0])
            key = ("tab1", tuple(vals), off.key)
        y = self.memo_tab.get(key)
        if y is None:
            y = Sym("tab%s(%r)" % ("" if not name else "", off), min(vs), max(vs), "tab", ("tab", off, key))
            self.memo_tab[key] = y
        return Lin.of(y)

    def inbox(self, st, us, tt):
        for q, z in zip(us, tt):
            lo, hi = st.rng(st.norm(Lin(0, {q: 1})))
            if not lo <= z <= hi:
                return False
        return True

    def fnload_pts(self, s, vals, syms, name):
        """finite function given by its points over syms"""
        st = s.st
        if True:
            vals = [(t, v) for t, v in vals if v is not None]
            if not vals:
                raise Infeasible
            # affine fit over the symbols
            m = {t: v for t, v in vals}
            t0 = vals[0][0]
            v0 = vals[0][1]
            coef = []
            ok = True
            for i, y in enumerate(syms):
                b = st.bounds(y)
                c = None
                for d in (1, -1):
                    t1 = t0[:i] + (t0[i] + d,) + t0[i + 1:]
                    if t1 in m:
                        c = (m[t1] - v0) * d
                        break
                if c is None:
                    c = 0
                coef.append(c)
            for t, v in vals:
                x = v0
                for i in range(len(syms)):
                    x += coef[i] * (t[i] - t0[i])
                if x != v:
                    ok = False
                    break
            if ok:
                c0 = v0 - sum(coef[i] * t0[i] for i in range(len(syms)))
                return Lin(c0, {y: coef[i] for i, y in enumerate(syms) if coef[i]})
            if self.tabsplit and len(syms) == 1 and len(vals) <= 300:
                # split at the boundaries of the affine segments of the table
                segs = []
                i = 0
                while i < len(vals):
                    j = i + 1
                    while j < len(vals) and vals[j][0][0] == vals[j - 1][0][0] + 1:
                        if j > i + 1 and vals[j][1] - vals[j - 1][1] != vals[i + 1][1] - vals[i][1]:
                            break
                        j += 1
                    if j == i + 2 and j < len(vals) and vals[j][0][0] == vals[j - 1][0][0] + 1:
                        j = i + 1
                    segs.append((vals[i][0][0], vals[j - 1][0][0]))
                    i = j
                if len(segs) <= 40:
                    v = Lin(0, {syms[0]: 1})
                    raise Split([("and", ("ge", v - lo), ("ge", Lin(hi) - v)) for lo, hi in segs], "table")
            vs = tuple(v for t, v in vals)
            key = ("tab", tuple((t, v) for t, v in vals), tuple(syms))
        y = self.memo_tab.get(key)
        if y is None:
            y = Sym("tab(%s)" % ",".join(Sym.table[q].name for q in syms), min(vs), max(vs), "tab", ("tab", None, key))
            self.memo_tab[key] = y
        return Lin.of(y)

    def tabvals(self, s, e):
        """set of possible values of a form over a single table symbol, else None"""
        if len(e.t) != 1:
            return None
        (y, k), = e.t.items()
        sy = Sym.table[y]
        if sy.kind != "tab" or sy.info[2][0] != "tab":
            return None
        _, pts, us = sy.info[2]
        return set(e.c + k * v for tt, v in pts if self.inbox(s.st, us, tt))

    def retab(self, s, e):
        """re-evaluate table symbols under the current bounds of their arguments"""
        st = s.st
        e = st.norm(e)
        for _ in range(4):
            ch = False
            for y, k in list(e.t.items()):
                sy = Sym.table[y]
                if sy.kind != "tab" or sy.info[2][0] != "tab":
                    continue
                _, pts, us = sy.info[2]
                cur = [(tt, v) for tt, v in pts if self.inbox(st, us, tt)]
                b = st.rng(st.norm(Lin(0, {y: 1})))
                cur = [(tt, v) for tt, v in cur if b[0] <= v <= b[1]]
                if not cur:
                    raise Infeasible
                if len(cur) < len(pts):
                    v = self.fnload_pts(s, cur, us, "")
                    if v.t != {y: 1} or v.c:
                        e = e - Lin(0, {y: k}) + v.scale(k)
                        ch = True
            if not ch:
                break
            e = st.norm(e)
        return e

    # ------------------------------------------------------------ running
    def start(self, fname, args, setup=None):
        """args: list of values; returns list of final states"""
        f = self.m.fn(fname)
        if f.decl:
            raise Unsupported("entry %s has no body" % fname)
        s = State()
        fr = Frame(f)
        if len(args) != len(f.args):
            raise Unsupported("arity %s" % fname)
        for a, v in zip(f.args, args):
            fr.env[a["id"]] = v
        s.frames.append(fr)
        self.fnseen.add(fname)
        if setup:
            try:
                setup(s)
            except Infeasible:
                return []
        outs = self.run([s], None, 0)
        return [x for k, x in outs]

    def run(self, work, loop, depth):
        """execute states until terminal / loop back / loop exit.
        returns list of (kind, state), kind in done/back/exit"""
        out = []
        work = list(work)
        while work:
            s = work.pop()
            try:
                r = self.step_block(s, loop, depth)
            except Infeasible:
                continue
            for k, x in r:
                if k == "go":
                    work.append(x)
                else:
                    out.append((k, x))
            if len(out) + len(work) > self.max_states:
                raise Budget("too many states")
        return out

    def goto(self, s, tgt, loop, depth):
        """transition of the top frame to block tgt"""
        fr = s.frames[-1]
        src = fr.bb
        fr.prev = src
        fr.bb = tgt
        fr.ip = 0
        fr.over = None
        return self.arrive(s, loop, depth)

    def arrive(self, s, loop, depth):
        """classify a state that just jumped to the start of a block"""
        fr = s.frames[-1]
        tgt, src = fr.bb, fr.prev
        if loop is not None and len(s.frames) == depth:
            if tgt == loop[0]:
                return [("back", s)]
            if tgt not in loop[1]:
                return [("exit", s)]
        if tgt in fr.fn.loops and src not in fr.fn.loops[tgt]:
            res = []
            for k, y in self.handle_loop(s, tgt):
                if k == "exit":
                    res.extend(self.arrive(y, loop, depth))
                else:
                    res.append((k, y))
            return res
        return [("go", s)]

    def fork(self, s, alts):
        res = []
        for c in alts:
            if c is False:
                continue
            x = s.copy()
            try:
                x.st.assume(c)
            except Infeasible:
                continue
            res.append(x)
        self.nforks += 1
        return res

    def step_block(self, s, loop, depth):
        fr = s.frames[-1]
        blk = fr.fn.blocks[fr.bb]
        if fr.ip == 0 and fr.prev is not None:
            # phis in parallel
            new = {}
            n = 0
            for ins in blk:
                if ins["op"] != "phi":
                    break
                n += 1
                if fr.over is not None and ins["id"] in fr.over:
                    new[ins["id"]] = fr.over[ins["id"]]
                    continue
                for pb, v in ins["in"]:
                    if pb == fr.prev:
                        new[ins["id"]] = self.val(s, v)
                        break
                else:
                    raise Unsupported("phi without incoming")
            fr.env.update(new)
            fr.ip = n
        while True:
            ins = blk[fr.ip]
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("too many steps")
            self.instseen.add(id(ins))
            try:
                r = self.exec(s, fr, ins, loop, depth)
            except Split as sp:
                fs = self.fork(s, sp.alts)
                return [("go", x) for x in fs]
            if r is not None:
                return r
            fr.ip += 1

    # ------------------------------------------------------------ instructions
    def exec(self, s, fr, ins, loop, depth):
        op = ins["op"]
        h = getattr(self, "i_" + op, None)
        if h is None:
            if ins.get("tk") == "f" or ins.get("otk") == "f":
                fr.env[ins["id"]] = self.fpop(s, ins)
                return None
            raise Unsupported("opcode %s at %s" % (op, shortloc(ins.get("loc"))))
        return h(s, fr, ins, loop, depth)

    def fpop(self, s, ins):
        args = [self.val(s, a) for a in ins.get("a", [])]
        ks = []
        for a in args:
            if isinstance(a, Lin):
                ks.append(s.st.norm(a).key)
            elif isinstance(a, Opq):
                ks.append(a.key)
            else:
                ks.append(repr(a))
        key = (ins["op"], ins.get("pred"), ins["w"], tuple(ks))
        if ins["op"] == "fcmp" and self.fcmp is not None:
            c = self.fcmp(s, ins.get("pred"), ks)
            if c is not None:
                return B(c)
        f = fpfold(ins["op"], ins["w"], ks) if ins["tk"] == "f" else None
        if f is not None:
            return Opq(f)
        if ins["tk"] == "i":
            hi = (1 << ins["w"]) - 1
            y = Lin.of(self.defsym(s, ("fp",) + key, "fp_%s" % ins["op"], 0, hi, "havoc"))
            return B(("ge", y - 1)) if ins["w"] == 1 else y
        return Opq(key)

    def binop(self, s, ins):
        w = ins["w"]
        a = self.val(s, ins["a"][0])
        b = self.val(s, ins["a"][1])
        return a, b, w

    def i_add(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        fr.env[ins["id"]] = s.st.norm(self.asint(s, a, w) + self.asint(s, b, w))
        self.arith(s, ins, "add", a, b, w)

    def i_sub(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        fr.env[ins["id"]] = s.st.norm(self.asint(s, a, w) - self.asint(s, b, w))
        self.arith(s, ins, "sub", a, b, w)

    def arith(self, s, ins, op, a, b, w):
        if not self.check_arith or not ins.get("nsw"):
            return
        a = self.S(s, self.asint(s, a, w), w)
        b = self.S(s, self.asint(s, b, w), w)
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        else:
            a = s.st.norm(a)
            b = s.st.norm(b)
            if a.isconst():
                r = b.scale(a.c)
            elif b.isconst():
                r = a.scale(b.c)
            else:
                return
        lim = 1 << (w - 1)
        ok = s.st.decide(("ge", r + lim)) is True and s.st.decide(("ge", Lin(lim - 1) - r)) is True
        self.oblig.append(Oblig("arith", ok, None, r, None, ins.get("loc"), None if ok else s.copy(), "signed overflow in %s" % op))

    def i_mul(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        self.arith(s, ins, "mul", a, b, w)
        a = s.st.norm(self.asint(s, a, w))
        b = s.st.norm(self.asint(s, b, w))
        if a.isconst():
            a, b = b, a
        if b.isconst():
            c = b.c
            if c >= 1 << (w - 1):
                c -= 1 << w
            r = a.scale(c)
        else:
            ua = self.U(s, a, w)
            ub = self.U(s, b, w)
            # one factor 0/1: split
            for x, y in ((ua, ub), (ub, ua)):
                lo, hi = s.st.rng(x)
                if hi - lo <= 1:
                    self.concretize(s, x)
            k = tuple(sorted((ua.key, ub.key)))
            la, ha = s.st.rng(ua)
            lb, hb = s.st.rng(ub)
            if ha * hb < (1 << w):
                y = self.defsym(s, ("mul", k), "(%r)*(%r)" % (ua, ub), 0, ha * hb, "def", info=("mul", ua, ub))
                s.st.b.setdefault(y.id, (la * lb, ha * hb))
            else:
                y = self.defsym(s, ("mulw", k, w), "mulw(%r,%r)" % (ua, ub), 0, (1 << w) - 1, "havoc", info=("mulw", ua, ub))
            r = Lin.of(y)
        fr.env[ins["id"]] = r

    def i_udiv(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        a = self.U(s, self.asint(s, a, w), w)
        b = self.U(s, self.asint(s, b, w), w)
        fr.env[ins["id"]] = self.udivrem(s, a, b, w, ins)[0]

    def i_urem(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        a = self.U(s, self.asint(s, a, w), w)
        b = self.U(s, self.asint(s, b, w), w)
        fr.env[ins["id"]] = self.udivrem(s, a, b, w, ins)[1]

    def udivrem(self, s, a, b, w, ins):
        b = s.st.norm(b)
        if b.isconst():
            if b.c == 0:
                self.oblig.append(Oblig("arith", False, None, None, None, ins.get("loc"), s.copy(), "division by zero"))
                raise Infeasible
            q = self.div(s, a, b.c)
            return q, a - q.scale(b.c)
        lo, hi = s.st.rng(b)
        if hi - lo <= 70:
            self.concretize(s, b)
        if s.st.decide(("ge", b - 1)) is not True:
            self.oblig.append(Oblig("arith", False, None, None, None, ins.get("loc"), s.copy(), "possible division by zero"))
            s.st.add_ge(b - 1)
        q = Lin.of(self.defsym(s, ("udiv", a.key, b.key), "(%r)/(%r)" % (a, b), 0, s.st.rng(a)[1], "havoc", info=("udiv", a, b)))
        r = Lin.of(self.defsym(s, ("urem", a.key, b.key), "(%r)%%(%r)" % (a, b), 0, s.st.rng(a)[1], "havoc", info=("urem", a, b)))
        s.st.add_ge(b - r - 1)
        s.st.add_ge(a - q)
        s.st.add_ge(a - r)
        return q, r

    def i_sdiv(self, s, fr, ins, loop, depth):
        fr.env[ins["id"]] = self.sdivrem(s, ins)[0]

    def i_srem(self, s, fr, ins, loop, depth):
        fr.env[ins["id"]] = self.sdivrem(s, ins)[1]

    def sdivrem(self, s, ins):
        a, b, w = self.binop(s, ins)
        a = self.S(s, self.asint(s, a, w), w)
        b = s.st.norm(self.S(s, self.asint(s, b, w), w))
        if not b.isconst():
            lo, hi = s.st.rng(b)
            if hi - lo <= 70:
                self.concretize(s, b)
            d = s.st.decide(("ge", b - 1))
            if d is None:
                raise Split([("ge", b - 1), ("eq", b), ("ge", -b - 1)], "sdiv")
            da = s.st.decide(("ge", a))
            if da is None:
                raise Split([("ge", a), ("ge", -a - 1)], "sdiv")
            if d and da:
                return self.udivrem(s, a, b, w, ins)
            q = Lin.of(self.defsym(s, ("sdiv", a.key, b.key), "sdiv", -(1 << (w - 1)), (1 << (w - 1)) - 1, "havoc"))
            r = Lin.of(self.defsym(s, ("srem", a.key, b.key), "srem", -(1 << (w - 1)), (1 << (w - 1)) - 1, "havoc"))
            return q, r
        if b.c == 0:
            self.oblig.append(Oblig("arith", False, None, None, None, ins.get("loc"), s.copy(), "division by zero"))
            raise Infeasible
        d = s.st.decide(("ge", a))
        if d is None:
            raise Split([("ge", a), ("ge", -a - 1)], "sdiv")
        c = b.c
        if self.check_arith and c == -1:
            ok = s.st.decide(("ge", a + (1 << (w - 1)) - 1)) is True
            self.oblig.append(Oblig("arith", ok, None, a, None, ins.get("loc"), None if ok else s.copy(), "signed overflow in division"))
        if d:
            q = self.div(s, a, abs(c))
        else:
            q = -self.div(s, -a, abs(c))
        if c < 0:
            q = -q
        return q, a - q.scale(c)

    def i_and(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        if w == 1:
            fr.env[ins["id"]] = B(c_and(self.asbool(s, a), self.asbool(s, b)))
        else:
            fr.env[ins["id"]] = self.land(s, self.asint(s, a, w), self.asint(s, b, w), w)

    def i_or(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        if w == 1:
            fr.env[ins["id"]] = B(c_or(self.asbool(s, a), self.asbool(s, b)))
        else:
            fr.env[ins["id"]] = self.lor(s, self.asint(s, a, w), self.asint(s, b, w), w)

    def i_xor(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        if w == 1:
            ca, cb = self.asbool(s, a), self.asbool(s, b)
            if cb is True:
                r = neg(ca)
            elif cb is False:
                r = ca
            elif ca is True:
                r = neg(cb)
            elif ca is False:
                r = cb
            else:
                r = c_or(c_and(ca, neg(cb)), c_and(neg(ca), cb))
            fr.env[ins["id"]] = B(r)
        else:
            fr.env[ins["id"]] = self.lxor(s, self.asint(s, a, w), self.asint(s, b, w), w)

    def shamt(self, s, b, w, ins):
        b = self.U(s, b, w)
        b = s.st.norm(b)
        if not b.isconst():
            lo, hi = s.st.rng(b)
            if self.check_arith or hi >= w:
                ok = s.st.decide(("ge", Lin(w - 1) - b)) is True
                if not ok:
                    self.oblig.append(Oblig("arith", False, None, b, None, ins.get("loc"), s.copy(), "shift amount out of range"))
                    s.st.add_ge(Lin(w - 1) - b)
            self.concretize(s, b)
        elif b.c >= w:
            self.oblig.append(Oblig("arith", False, None, b, None, ins.get("loc"), s.copy(), "shift amount out of range"))
            raise Infeasible
        return s.st.norm(b).c

    def i_shl(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        n = self.shamt(s, self.asint(s, b, w), w, ins)
        fr.env[ins["id"]] = self.reduce(s, self.asint(s, a, w).scale(1 << n), w)

    def i_lshr(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        n = self.shamt(s, self.asint(s, b, w), w, ins)
        fr.env[ins["id"]] = self.div(s, self.U(s, self.asint(s, a, w), w), 1 << n)

    def i_ashr(self, s, fr, ins, loop, depth):
        a, b, w = self.binop(s, ins)
        n = self.shamt(s, self.asint(s, b, w), w, ins)
        fr.env[ins["id"]] = self.div(s, self.S(s, self.asint(s, a, w), w), 1 << n)

    def i_trunc(self, s, fr, ins, loop, depth):
        a = self.val(s, ins["a"][0])
        e = self.asint(s, a, ins["ow"])
        if ins["w"] == 1:
            u = self.U(s, e, ins["ow"])
            lo, hi = s.st.rng(s.st.norm(u))
            if hi > 1:
                u = self.mod(s, u, 2)
            fr.env[ins["id"]] = B(("ge", u - 1))
        else:
            fr.env[ins["id"]] = self.reduce(s, e, ins["w"])

    def i_zext(self, s, fr, ins, loop, depth):
        a = self.val(s, ins["a"][0])
        if ins["ow"] == 1:
            fr.env[ins["id"]] = self.asint(s, a, 1)
        else:
            fr.env[ins["id"]] = self.U(s, self.asint(s, a, ins["ow"]), ins["ow"])

    def i_sext(self, s, fr, ins, loop, depth):
        a = self.val(s, ins["a"][0])
        if ins["ow"] == 1:
            fr.env[ins["id"]] = -self.asint(s, a, 1)
        else:
            fr.env[ins["id"]] = self.S(s, self.asint(s, a, ins["ow"]), ins["ow"])

    def i_freeze(self, s, fr, ins, loop, depth):
        fr.env[ins["id"]] = self.val(s, ins["a"][0])

    def i_bitcast(self, s, fr, ins, loop, depth):
        v = self.val(s, ins["a"][0])
        fr.env[ins["id"]] = self.conv(s, v, ins["w"] // 8, ins["tk"], ins["w"], None)

    def i_ptrtoint(self, s, fr, ins, loop, depth):
        v = self.val(s, ins["a"][0])
        if isinstance(v, Ptr):
            fr.env[ins["id"]] = self.addr(s, v)
        else:
            fr.env[ins["id"]] = self.asint(s, v, 64)

    def i_inttoptr(self, s, fr, ins, loop, depth):
        v = s.st.norm(self.asint(s, self.val(s, ins["a"][0]), ins["ow"]))
        if v == ZERO:
            fr.env[ins["id"]] = NULL
            return
        # address of a known object?
        for o in self.known_objs(s):
            if o.addr is not None:
                base = s.st.norm(o.addr)
                if all(v.t.get(y) == k for y, k in base.t.items()) and base.t:
                    fr.env[ins["id"]] = Ptr(o, v - base)
                    return
        fr.env[ins["id"]] = Opq(("inttoptr", v.key))

    def known_objs(self, s):
        seen = {}
        for f in s.frames:
            for v in f.env.values():
                if isinstance(v, Ptr):
                    seen[v.obj.id] = v.obj
        return seen.values()

    def i_extractvalue(self, s, fr, ins, loop, depth):
        v = self.val(s, ins["a"][0])
        for i in ins["idx"]:
            if v is UNDEF:
                break
            if isinstance(v, Opq):
                v = self.opqfield(s, v, i, ins)
                continue
            v = v.e[i]
        fr.env[ins["id"]] = v

    def opqfield(self, s, v, i, ins):
        key = ("fld", v.key, i)
        if ins["tk"] == "i":
            y = self.defsym(s, key + (ins["w"],), "fld%d" % i, 0, (1 << ins["w"]) - 1, "ret")
            return B(("ge", Lin.of(y) - 1)) if ins["w"] == 1 else Lin.of(y)
        return Opq(key)

    def i_insertvalue(self, s, fr, ins, loop, depth):
        v = self.val(s, ins["a"][0])
        x = self.val(s, ins["a"][1])

        def put(v, idx):
            if not idx:
                return x
            i = idx[0]
            e = list(v.e) if isinstance(v, Agg) else []
            while len(e) <= i:
                e.append(UNDEF)
            e[i] = put(e[i], idx[1:])
            return Agg(e)
        fr.env[ins["id"]] = put(v, ins["idx"])

    PRED = {"eq": 1, "ne": 1}

    def cmpint(self, s, pred, a, b, w):
        if pred in ("eq", "ne"):
            d = self.reduce(s, a - b, w)
            d = s.st.norm(d)
            m = 1 << w
            lo, hi = s.st.rng(d)
            k1 = -((-lo) // m)
            k2 = hi // m
            st = s.st
            while k1 <= k2 and k2 - k1 <= 6:
                # remove impossible extreme multiples using relational facts
                if st.prove(d - (k1 * m + 1)):
                    k1 += 1
                elif st.prove(Lin(k2 * m - 1) - d):
                    k2 -= 1
                else:
                    break
            if k1 > k2:
                return pred == "ne"
            if k1 == k2:
                e = d - k1 * m
                vs = self.tabvals(s, e)
                if vs is not None and 0 not in vs:
                    return pred == "ne"
                c = ("eq", e) if pred == "eq" else ("ne", e)
                if self.cmplog is not None:
                    self.cmplog.append(e)
                return c
            ua = self.U(s, a, w)
            ub = self.U(s, b, w)
            e = s.st.norm(ua - ub)
            if self.cmplog is not None:
                self.cmplog.append(e)
            return (pred, e)
        if pred[0] == "u":
            ua = self.U(s, a, w)
            ub = self.U(s, b, w)
        else:
            ua = self.S(s, a, w)
            ub = self.S(s, b, w)
        p = pred[1:]
        if self.cmplog is not None:
            self.cmplog.append(s.st.norm(ua - ub))
        if p == "lt":
            return ("ge", s.st.norm(ub - ua - 1))
        if p == "le":
            return ("ge", s.st.norm(ub - ua))
        if p == "gt":
            return ("ge", s.st.norm(ua - ub - 1))
        return ("ge", s.st.norm(ua - ub))

    def i_icmp(self, s, fr, ins, loop, depth):
        a = self.val(s, ins["a"][0])
        b = self.val(s, ins["a"][1])
        w = ins["ow"]
        pred = ins["pred"]
        if ins["otk"] == "p":
            fr.env[ins["id"]] = B(self.cmpptr(s, pred, a, b))
            return
        if ins["otk"] != "i":
            raise Unsupported("icmp on %s" % ins["otk"])
        if w == 1:
            ca, cb = self.asbool(s, a), self.asbool(s, b)
            if cb is True or cb is False:
                eq = ca if cb else neg(ca)
            elif ca is True or ca is False:
                eq = cb if ca else neg(cb)
            else:
                eq = c_or(c_and(ca, cb), c_and(neg(ca), neg(cb)))
            if pred == "eq":
                fr.env[ins["id"]] = B(eq)
                return
            if pred == "ne":
                fr.env[ins["id"]] = B(neg(eq))
                return
            a = self.asint(s, a, 1)
            b = self.asint(s, b, 1)
        c = self.cmpint(s, pred, self.asint(s, a, w), self.asint(s, b, w), w)
        fr.env[ins["id"]] = B(c)

    def cmpptr(self, s, pred, a, b):
        if a is UNDEF or b is UNDEF:
            return ("ge", self.sym("undefcmp", 0, 1, "havoc") - 1)
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj:
                d = s.st.norm(a.off - b.off)
                if self.cmplog is not None:
                    self.cmplog.append(d)
                return {"eq": ("eq", d), "ne": ("ne", d), "ult": ("ge", -d - 1), "ule": ("ge", -d), "ugt": ("ge", d - 1), "uge": ("ge", d),
                        "slt": ("ge", -d - 1), "sle": ("ge", -d), "sgt": ("ge", d - 1), "sge": ("ge", d)}[pred]
            if a.obj is NULLOBJ or b.obj is NULLOBJ:
                if pred in ("eq", "ne"):
                    return pred == "ne"
            if pred in ("eq", "ne") and (a.obj.kind in ("alloca", "global", "fn") or b.obj.kind in ("alloca", "global", "fn")):
                return pred == "ne"
            c = self.cmpint(s, pred, self.addr(s, a), self.addr(s, b), 64)
            if self.apart and a.obj.size is not None and b.obj.size is not None and s.st.decide(c) is None:
                # distinct objects occupy disjoint ranges
                x, y = self.addr(s, Ptr(a.obj, ZERO)), self.addr(s, Ptr(b.obj, ZERO))
                c1, c2 = ("ge", y - x - a.obj.size), ("ge", x - y - b.obj.size)
                if s.st.decide(c1) is None and s.st.decide(c2) is None:
                    raise Split([c1, c2], "objects apart")
            return c
        # opaque
        if pred in ("eq", "ne") and isinstance(a, Opq) and isinstance(b, Opq) and a == b:
            return pred == "eq"
        ka = a.key if isinstance(a, Opq) else (a.obj.id, s.st.norm(a.off).key)
        kb = b.key if isinstance(b, Opq) else (b.obj.id, s.st.norm(b.off).key)
        if pred in ("eq", "ne"):
            k1, k2 = (ka, kb) if repr(ka) < repr(kb) else (kb, ka)
            y = self.defsym(s, ("ptreq", k1, k2), "ptreq", 0, 1, "ret")
            c = ("ge", Lin.of(y) - 1)
            return c if pred == "eq" else neg(c)
        la = Lin.of(self.defsym(s, ("ptraddr", ka), "paddr", 0, 1 << 47, "addr")) if isinstance(a, Opq) else self.addr(s, a)
        lb = Lin.of(self.defsym(s, ("ptraddr", kb), "paddr", 0, 1 << 47, "addr")) if isinstance(b, Opq) else self.addr(s, b)
        return self.cmpint(s, pred, la, lb, 64)

    def i_fcmp(self, s, fr, ins, loop, depth):
        fr.env[ins["id"]] = self.fpop(s, ins)

    def i_select(self, s, fr, ins, loop, depth):
        c = self.asbool(s, self.val(s, ins["a"][0]))
        d = s.st.decide(c)
        if d is None:
            a = self.val(s, ins["a"][1])
            b = self.val(s, ins["a"][2])
            if ins["w"] == 1 and ins["tk"] == "i":
                ca, cb = self.asbool(s, a), self.asbool(s, b)
                fr.env[ins["id"]] = B(c_or(c_and(c, ca), c_and(neg(c), cb)))
                return
            if isinstance(a, Lin) and isinstance(b, Lin) and s.st.norm(a - b) == ZERO:
                fr.env[ins["id"]] = a
                return
            raise Split(self.alts(c), "select")
        fr.env[ins["id"]] = self.val(s, ins["a"][1 if d else 2])

    def i_getelementptr(self, s, fr, ins, loop, depth):
        if ins.get("unk"):
            raise Unsupported("gep")
        p = self.val(s, ins["base"])
        off = Lin(ins["co"])
        for v, sc, w in ins["vo"]:
            e = self.asint(s, self.val(s, v), w)
            e = self.S(s, e, w)
            off = off + e.scale(sc)
        if isinstance(p, Ptr):
            fr.env[ins["id"]] = Ptr(p.obj, s.st.norm(p.off + off))
        elif isinstance(p, Opq):
            off = s.st.norm(off)
            if off == ZERO:
                fr.env[ins["id"]] = p
            elif p.key[0] == "gep":
                fr.env[ins["id"]] = Opq(("gep", p.key[1], s.st.norm(Lin(p.key[2][0], dict(p.key[2][1])) + off).key))
            else:
                fr.env[ins["id"]] = Opq(("gep", p.key, off.key))
        elif p is UNDEF:
            fr.env[ins["id"]] = UNDEF
        else:
            raise Unsupported("gep on %r" % (p,))

    def i_alloca(self, s, fr, ins, loop, depth):
        n = self.asint(s, self.val(s, ins["n"]), 64)
        n = s.st.norm(n)
        if not n.isconst():
            raise Unsupported("vla")
        o = self.newobj("alloca", "alloca%d@%s" % (ins["id"], fr.fn.name), ins["sz"] * n.c, align=ins.get("al", 1))
        fr.env[ins["id"]] = Ptr(o, ZERO)

    def deref(self, s, p):
        """hook: turn an opaque pointer into an object"""
        return p

    def i_load(self, s, fr, ins, loop, depth):
        p = self.val(s, ins["p"])
        if isinstance(p, Opq):
            p = self.lazyobj(s, p)
        fr.env[ins["id"]] = self.load(s, p, ins["sz"], ins["tk"], ins["w"], ins.get("loc"))

    def i_store(self, s, fr, ins, loop, depth):
        p = self.val(s, ins["p"])
        if isinstance(p, Opq):
            p = self.lazyobj(s, p)
        v = self.val(s, ins["v"])
        self.store(s, p, v, ins["sz"], ins.get("loc"), ins["vw"])
        self.on_store(s, p, v, ins)

    def on_store(self, s, p, v, ins):
        pass

    def lazyobj(self, s, p):
        """opaque pointer -> object of unknown size (memory outside the analysed objects)"""
        key = p.key
        off = ZERO
        if key[0] == "gep":
            off = Lin(key[2][0], dict(key[2][1]))
            key = key[1]
        o = self.m.gobj.get(("lazy", key))
        if o is None:
            o = Obj("ext", "ext%d" % len(self.m.gobj), 0)
            o.size = None
            self.m.gobj[("lazy", key)] = o
        return Ptr(o, off)

    def i_br(self, s, fr, ins, loop, depth):
        if "c" not in ins:
            return self.goto(s, ins["t"], loop, depth)
        c = self.asbool(s, self.val(s, ins["c"]))
        d = s.st.decide(c)
        if d is not None:
            s.tags["lastdec"] = (fr.bb, True)
            if self.und is not None:
                df = fr.fn.defs().get(ins["c"]) if isinstance(ins["c"], int) else None
                if df is not None and df["op"] == "icmp":
                    try:
                        vs = tuple(repr(self.val(s, q)) for q in df["a"])
                    except KeyError:
                        vs = None
                    self.brops.setdefault((fr.fn.name, fr.bb), set()).add(vs)
            if self.und is not None and c is not True and c is not False:
                out = []
                cond_lins(c, out)
                if any(Sym.table[y].kind == "char" for e in out for y in e.t):
                    # data, not loop control: does not make the loop bounded
                    self.softdec.add((fr.fn.name, fr.bb))
            return self.goto(s, ins["t"] if d else ins["f"], loop, depth)
        res = []
        if ins["t"] == ins["f"]:
            return self.goto(s, ins["t"], loop, depth)
        self.note_undecided(s, fr)
        if self.und is not None:
            self.note_parts(s, fr, ins["c"])
        for cc, tgt in ((c, ins["t"]), (neg(c), ins["f"])):
            for alt in self.dnf(cc):
                x = s.copy()
                try:
                    x.st.assume(alt)
                    res.extend(self.goto(x, tgt, loop, depth))
                except Infeasible:
                    continue
        self.nforks += 1
        return res

    def note_undecided(self, s, fr):
        if self.und is not None:
            self.und.add((fr.fn.name, fr.bb))

    def cond_parts(self, fn, cid, depth=0):
        """comparisons of a compound branch condition (a && b evaluated without a branch)"""
        df = fn.defs().get(cid) if isinstance(cid, int) else None
        if df is None or depth > 4:
            return []
        if df["op"] == "icmp":
            return [df["id"]] if depth else []
        if df["op"] in ("and", "or", "select", "xor"):
            out = []
            for q in ([df["c"]] if "c" in df else []) + list(df.get("a", ())) + [df[k] for k in ("t", "f") if k in df and df["op"] == "select"]:
                out += self.cond_parts(fn, q, depth + 1)
            return out
        return []

    def note_parts(self, s, fr, cid):
        for q in self.cond_parts(fr.fn, cid):
            key = (fr.fn.name, fr.bb, q)
            try:
                c = self.asbool(s, self.val(s, q))
                d = s.st.decide(c)
                vs = tuple(repr(self.val(s, z)) for z in fr.fn.defs()[q]["a"])
            except KeyError:
                continue
            if d is None:
                self.partund.add(key)
            else:
                out = []
                if c is not True and c is not False:
                    cond_lins(c, out)
                if any(Sym.table[y].kind == "char" for e in out for y in e.t):
                    self.partund.add(key)
                self.partops.setdefault(key, set()).add(vs)

    und = None

    def i_switch(self, s, fr, ins, loop, depth):
        v = self.asint(s, self.val(s, ins["c"]), 64)
        res = []
        w = None
        rest = []
        x = s
        runs = []
        for cv, tgt in sorted(ins["cases"], key=lambda q: int(q[0]["v"])):
            n = int(cv["v"])
            if runs and runs[-1][1] + 1 == n and runs[-1][2] == tgt:
                runs[-1][1] = n
            else:
                runs.append([n, n, tgt])
            w = cv["w"]
        if runs and runs[0][0] >= 0 and runs[-1][1] < 1 << (w - 1) and any(b - a >= 2 for a, b, t in runs):
            # runs of consecutive values with the same target: as ranges
            for a, b, tgt in runs:
                nx = None
                for op, k in (("uge", a), ("ule", b)):
                    c = self.cmpint(x, op, v, Lin(k), w)
                    d = x.st.decide(c)
                    if d is None:
                        y = x.copy()
                        try:
                            y.st.assume(neg(c))
                            if op == "uge":
                                res.extend(self.goto(y, ins["d"], loop, depth))
                            else:
                                nx = y
                        except Infeasible:
                            pass
                        try:
                            x.st.assume(c)
                        except Infeasible:
                            x = None
                            break
                    elif d is False:
                        if op == "uge":
                            res.extend(self.goto(x, ins["d"], loop, depth))
                            return res
                        nx, x = x, None
                        break
                if x is not None:
                    res.extend(self.goto(x, tgt, loop, depth))
                x = nx
                if x is None:
                    return res
            res.extend(self.goto(x, ins["d"], loop, depth))
            return res
        for cv, tgt in ins["cases"]:
            w = cv["w"]
            c = self.cmpint(x, "eq", v, Lin(int(cv["v"])), w)
            d = x.st.decide(c)
            if d is True:
                res.extend(self.goto(x, tgt, loop, depth))
                return res
            if d is False:
                continue
            y = x.copy()
            try:
                y.st.assume(c)
                res.extend(self.goto(y, tgt, loop, depth))
            except Infeasible:
                pass
            try:
                x.st.assume(neg(c))
            except Infeasible:
                return res
        res.extend(self.goto(x, ins["d"], loop, depth))
        return res

    def i_unreachable(self, s, fr, ins, loop, depth):
        s.status = "unreachable"
        s.why = ins.get("loc")
        return [("done", s)]

    def i_ret(self, s, fr, ins, loop, depth):
        v = self.val(s, ins["a"][0]) if ins.get("a") else None
        s.frames.pop()
        if not s.frames:
            s.retval = v
            s.status = "ret"
            return [("done", s)]
        caller = s.frames[-1]
        ci = caller.fn.blocks[caller.bb][caller.ip]
        if "id" in ci:
            caller.env[ci["id"]] = v
        if ci["op"] == "invoke":
            return self.goto(s, ci["t"], loop, depth)
        caller.ip += 1
        return [("go", s)]

    def i_invoke(self, s, fr, ins, loop, depth):
        return self.i_call(s, fr, ins, loop, depth)

    def i_landingpad(self, s, fr, ins, loop, depth):
        fr.env[ins["id"]] = Opq(("lp",))

    def i_resume(self, s, fr, ins, loop, depth):
        s.status = "unwind"
        return [("done", s)]

    def i_call(self, s, fr, ins, loop, depth):
        name = ins.get("f")
        args = [self.val(s, a) for a in ins["args"]]
        if name is None:
            fp = self.val(s, ins["fp"]) if not (isinstance(ins.get("fp"), dict) and ins["fp"].get("k") in ("unk",)) else None
            if isinstance(fp, Ptr) and fp.obj.kind == "fn":
                name = fp.obj.name
            else:
                r = self.indirect(s, fp, args, ins)
                return self.finish_call(s, fr, ins, r, loop, depth)
        if name.startswith("llvm."):
            return self.finish_call(s, fr, ins, self.intrinsic(s, name, args, ins), loop, depth)
        d = self.m.d["functions"].get(name)
        dem = d["dem"] if d else name
        h = self.find_ext(name, dem)
        if h is not None:
            r = h(self, s, args, ins)
            return self.finish_call(s, fr, ins, r, loop, depth)
        if d is not None and not d.get("decl"):
            f = self.m.fn(name)
            if len(s.frames) > 40:
                raise Budget("call depth")
            self.fnseen.add(name)
            nf = Frame(f)
            for a, v in zip(f.args, args):
                if a.get("byval"):
                    o = self.newobj("alloca", "byval", a["byval"])
                    if isinstance(v, Ptr):
                        s.mem[o.id] = (("copy", ZERO, Lin(a["byval"]), v.obj, v.off, self.log(s, v.obj)),)
                    v = Ptr(o, ZERO)
                nf.env[a["id"]] = v
            s.frames.append(nf)
            return [("go", s)]
        r = self.external(s, name, dem, args, ins)
        return self.finish_call(s, fr, ins, r, loop, depth)

    def finish_call(self, s, fr, ins, r, loop, depth):
        if r is STOP:
            return [("done", s)]
        if ins.get("noret"):
            s.status = "noreturn"
            s.why = (ins.get("f"), ins.get("loc"))
            return [("done", s)]
        if isinstance(r, MultiRet):
            res = []
            for cond, v, eff in r.alts:
                for alt in self.dnf(cond):
                    x = s.copy()
                    try:
                        x.st.assume(alt)
                        if eff:
                            eff(x)
                    except Infeasible:
                        continue
                    xf = x.frames[-1]
                    if "id" in ins:
                        xf.env[ins["id"]] = v
                    if ins["op"] == "invoke":
                        res.extend(self.goto(x, ins["t"], loop, depth))
                    else:
                        xf.ip += 1
                        res.append(("go", x))
            return res
        if "id" in ins:
            fr.env[ins["id"]] = r
        if ins["op"] == "invoke":
            return self.goto(s, ins["t"], loop, depth)
        return None

    def find_ext(self, name, dem):
        h = self.ext.get(name)
        if h is not None:
            return h
        for k, h in self.ext.items():
            if k and k[0] == "~" and dem.startswith(k[1:]):
                return h
        return None

    def indirect(self, s, fp, args, ins):
        s.events.append(("icall", fp, args, ins.get("loc")))
        return self.fresh_of(s, ins["tk"], ins["w"], "icall", "ret")

    def external(self, s, name, dem, args, ins):
        h = STD_EXT.get(name)
        if h is not None:
            return h(self, s, args, ins)
        for k, h in STD_EXT_PFX:
            if dem.startswith(k):
                return h(self, s, args, ins)
        return self.opaque_call(s, name, dem, args, ins)

    def opaque_call(self, s, name, dem, args, ins):
        s.events.append(("call", dem, args, ins.get("loc")))
        for a in args:
            if isinstance(a, Ptr) and a.obj.kind in ("alloca", "buf", "heap", "global", "out") and not a.obj.const:
                s.mem[a.obj.id] = self.log(s, a.obj) + (("unk",),)
        return self.fresh_of(s, ins["tk"], ins["w"], "ret_" + name, "ret")

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, s, name, args, ins):
        w = ins["w"]
        n = name.split(".")
        k = n[1]
        if k in ("expect", "launder", "ssa", "annotation", "ptr") :
            return args[0]
        if k in ("assume", "dbg", "lifetime", "experimental", "donothing", "prefetch", "va_start", "va_end", "invariant"):
            if k in ("va_start", "va_end"):
                return None
            return None
        if k in ("memcpy", "memmove"):
            self.do_copy(s, args[0], args[1], self.U(s, self.asint(s, args[2], 64), 64), ins, k)
            return None
        if k == "memset":
            self.do_set(s, args[0], self.asint(s, args[1], 8), self.U(s, self.asint(s, args[2], 64), 64), ins)
            return None
        if k in ("umin", "umax", "smin", "smax"):
            a = self.asint(s, args[0], w)
            b = self.asint(s, args[1], w)
            c = self.cmpint(s, ("ult" if k[0] == "u" else "slt"), a, b, w)
            d = s.st.decide(c)
            if d is None:
                raise Split(self.alts(c), "minmax")
            return (a if d else b) if k.endswith("min") else (b if d else a)
        if k == "abs":
            a = self.S(s, self.asint(s, args[0], w), w)
            d = s.st.decide(("ge", a))
            if d is None:
                raise Split([("ge", a), ("ge", -a - 1)], "abs")
            return a if d else -a
        if k in ("ctlz", "cttz"):
            a = s.st.norm(self.U(s, self.asint(s, args[0], w), w))
            if a.isconst():
                if a.c == 0:
                    return Lin(w)
                return Lin(w - a.c.bit_length()) if k == "ctlz" else Lin((a.c & -a.c).bit_length() - 1)
            lo, hi = s.st.rng(a)
            if k == "ctlz":
                if lo.bit_length() == hi.bit_length():
                    return Lin(w - lo.bit_length())
                bl = (lo.bit_length() + hi.bit_length()) // 2
                bd = 1 << bl
                raise Split([("ge", a - bd), ("ge", Lin(bd - 1) - a)], "ctlz")
            f = self.bitform(s, a, w)
            if f is None:
                return self.sym("cttz", 0, w, "havoc")
            f = s.st.norm(f)
            for i in range(w):
                if f.c >> i & 1:
                    return Lin(i)
                for y, kk in f.t.items():
                    if kk == 1 << i:
                        raise Split([("ge", Lin(0, {y: 1}) - 1), ("ge", Lin(0, {y: -1}))], "cttz")
            return Lin(w)
        if k in ("uadd", "usub", "umul", "sadd", "ssub", "smul") and n[2] == "with":
            iw = int(n[4][1:])
            a = self.asint(s, args[0], iw)
            b = self.asint(s, args[1], iw)
            sg = k[0] == "s"
            a = self.S(s, a, iw) if sg else self.U(s, a, iw)
            b = self.S(s, b, iw) if sg else self.U(s, b, iw)
            a = s.st.norm(a)
            b = s.st.norm(b)
            if k[1:] == "add":
                r = a + b
            elif k[1:] == "sub":
                r = a - b
            else:
                if a.isconst():
                    r = b.scale(a.c)
                elif b.isconst():
                    r = a.scale(b.c)
                else:
                    y = self.sym("mulov", 0, 1, "havoc")
                    return Agg([self.sym("mulres", 0, (1 << iw) - 1, "havoc"), B(("ge", y - 1))])
            lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if sg else (0, (1 << iw) - 1)
            ov = c_or(("ge", Lin(lo - 1) - r), ("ge", r - hi - 1))
            return Agg([r, B(ov)])
        if k in ("fshl", "fshr"):
            a = self.U(s, self.asint(s, args[0], w), w)
            b = self.U(s, self.asint(s, args[1], w), w)
            sh = s.st.norm(self.asint(s, args[2], w))
            if sh.isconst():
                n_ = sh.c % w
                if k == "fshr":
                    n_ = (w - n_) % w
                if n_ == 0:
                    return a if k == "fshl" else b
                hi_ = self.reduce(s, a.scale(1 << n_), w)
                lo_ = self.div(s, b, 1 << (w - n_))
                return self.lor(s, hi_, lo_, w)
        if k == "ctpop":
            a = self.U(s, self.asint(s, args[0], w), w)
            f = self.bitform(s, a, w)
            if f is not None:
                f = s.st.norm(f)
                return Lin(bin(f.c).count("1"), {y: 1 for y in f.t})
        if k == "is" and n[2] == "constant":
            return B(False)
        if k == "objectsize":
            return Lin((1 << w) - 1)
        if k == "trap":
            s.status = "trap"
            return STOP
        if k == "threadlocal":
            if isinstance(args[0], Ptr):
                self.tls.add(args[0].obj.id)
            return args[0]
        if ins["tk"] == "f" or ins.get("tk") == "i":
            ks = tuple(a.key if isinstance(a, (Lin, Opq)) else repr(a) for a in args)
            if ins["tk"] == "f":
                return Opq((name, ks))
        raise Unsupported("intrinsic %s" % name)

    def do_copy(self, s, d, r, n, ins, kind):
        loc = ins.get("loc")
        n = s.st.norm(n)
        if n == ZERO:
            return
        z = s.st.decide(("ge", -n))
        if z is None and (not isinstance(d, Ptr) or not isinstance(r, Ptr) or d.obj is NULLOBJ or r.obj is NULLOBJ):
            raise Split([("ge", -n), ("ge", n - 1)], "copylen")
        if z is True:
            return
        if isinstance(d, Opq):
            d = self.lazyobj(s, d)
        if isinstance(r, Opq):
            r = self.lazyobj(s, r)
        self.check(s, kind + "-src", r, n, loc)
        self.check(s, kind + "-dst", d, n, loc)
        if kind == "memcpy" and d.obj is r.obj and d.obj.kind != "ext":
            # overlap obligation (identical range is tolerated by all implementations, and clang itself relies on that)
            dd = s.st.norm(d.off - r.off)
            ok = dd == ZERO or s.st.decide(("ge", dd - n)) is True or s.st.decide(("ge", -dd - n)) is True
            self.oblig.append(Oblig("memcpy-overlap", ok, d.obj, d.off, n, loc, None if ok else s.copy(), "memcpy with possibly overlapping ranges"))
        s.events.append((kind, d, r, n, loc))
        src = self.log(s, r.obj)
        dst = self.log(s, d.obj)
        if n.isconst() and d.obj.kind != "buf" and r.obj.kind != "buf" and d.off.isconst():
            # struct copy: drop overwritten cells
            dst = tuple(x for x in dst if not (x[0] == "st" and x[1].isconst() and x[1].c >= d.off.c and x[1].c + x[2] <= d.off.c + n.c))
        s.mem[d.obj.id] = dst + (("copy", d.off, n, r.obj, r.off, src, loc),)
        self.on_copy(s, d, r, n, ins)

    def on_copy(self, s, d, r, n, ins):
        pass

    def do_set(self, s, d, v, n, ins):
        loc = ins.get("loc")
        n = s.st.norm(n)
        if n == ZERO:
            return
        z = s.st.decide(("ge", -n))
        if z is None and (not isinstance(d, Ptr) or d.obj is NULLOBJ):
            raise Split([("ge", -n), ("ge", n - 1)], "setlen")
        if z is True:
            return
        if isinstance(d, Opq):
            d = self.lazyobj(s, d)
        self.check(s, "memset", d, n, loc)
        s.events.append(("memset", d, v, n, loc))
        s.mem[d.obj.id] = self.log(s, d.obj) + (("set", d.off, n, v, loc),)

    # ------------------------------------------------------------ loops
    def handle_loop(self, s, H):
        fr = s.frames[-1]
        body = fr.fn.loops[H]
        loop = (H, body)
        depth = len(s.frames)
        nob = len(self.oblig)
        # ---- phase 1: unrolling while the intervals decide the exits
        cur = [s.copy()]
        outs = []
        ok = True
        it = 0
        undec_hist = []
        saved_und = self.und
        try:
            while cur:
                it += 1
                self.und = set()
                backs = []
                for x in cur:
                    r = self.run([x], loop, depth)
                    for k, y in r:
                        if k == "back":
                            backs.append(y)
                        else:
                            outs.append((k, y))
                allund = {b for f, b in self.und if f == fr.fn.name and b in body}
                und = {b for b in allund if any(t not in body for t in fr.fn.succs(b))}
                if und and backs:
                    undec_hist.append(allund)
                    # is there an exit test that is always decided?
                    bounded = self.bounded_exit(fr.fn, body, undec_hist)
                    if not bounded and len(undec_hist) >= 2:
                        ok = False
                        break
                if it > self.unroll_limit or len(backs) > self.max_backs or len(outs) > self.max_outs:
                    ok = False
                    break
                for y in backs:
                    y.frames[-1].over = None
                cur = backs
        except Budget:
            ok = False
        finally:
            if saved_und is not None and self.und is not None:
                saved_und |= self.und
            self.und = saved_und
        if ok:
            return outs
        del self.oblig[nob:]
        outs = self.summarise(s, loop, depth)
        return outs

    def bounded_exit(self, fn, body, hist):
        """some exiting branch of the loop was never undecided so far and is not constant"""
        und = set()
        for h in hist:
            und |= h
        def good(b):
            # a test that changes from iteration to iteration, and was always decided
            if len(hist) >= 3 and len(self.brops.get((fn.name, b), hist)) < len(hist):
                return False
            return b not in und and (fn.name, b) not in self.softdec
        for b in body:
            t = fn.blocks[b][-1]
            if t["op"] in ("br", "switch") and any(x not in body for x in fn.succs(b)):
                if t["op"] == "br" and "c" in t and isinstance(t["c"], dict):
                    continue
                if t["op"] == "br" and "c" in t and b in und:
                    for q in self.cond_parts(fn, t["c"]):
                        key = (fn.name, b, q)
                        if key in self.partops and key not in self.partund and (len(hist) < 3 or len(self.partops[key]) >= len(hist) - 1):
                            return True
                    # short-circuit condition: a constant arrives from the block of its first part
                    df = fn.defs().get(t["c"]) if isinstance(t["c"], int) else None
                    if df is not None and df["op"] == "phi" and not self.is_error_exit(fn, b, body):
                        for pb, v in df["in"]:
                            if isinstance(v, dict) and pb in body and "c" in fn.blocks[pb][-1] and (fn.name, pb) in self.brops and good(pb):
                                return True
                # only exits that lead somewhere ordinary count
                if good(b) and not self.is_error_exit(fn, b, body):
                    return True
        return False

    def is_error_exit(self, fn, b, body):
        for x in fn.succs(b):
            if x not in body:
                t = fn.blocks[x][-1]
                if t["op"] != "unreachable":
                    return False
        return True

    def widen_val(self, s, name, v, w, kind):
        if isinstance(v, Lin):
            return self.sym(name, 0, (1 << (w or 64)) - 1, "havoc")
        if isinstance(v, B):
            return B(("ge", self.sym(name, 0, 1, "havoc") - 1))
        if isinstance(v, Ptr):
            return Ptr(v.obj, self.sym(name + ".off", -(1 << 48), 1 << 48, "havoc"))
        if isinstance(v, Opq):
            return Opq(("hv", name, self.sym("p", 0, 1, "havoc").key))
        if v is UNDEF:
            return UNDEF
        raise Unsupported("widen %r" % (v,))

    def summarise(self, s, loop, depth):
        nodelta = set()
        nob = len(self.oblig)
        nsum = len(self.summaries)
        while True:
            try:
                return self.summarise1(s, loop, depth, nodelta)
            except LostForm as e:
                del self.oblig[nob:]
                del self.summaries[nsum:]
                if e.var in nodelta:
                    raise Unsupported("loop delta not preserved")
                nodelta.add(e.var)

    def summarise1(self, s, loop, depth, nodelta, nopatt=False):
        H, body = loop
        fr = s.frames[-1]
        fn = fr.fn
        phis = [i for i in fn.blocks[H] if i["op"] == "phi"]
        init = {}
        for p in phis:
            for pb, v in p["in"]:
                if pb == fr.prev:
                    init[p["id"]] = self.val(s, v)
        kinds = {p["id"]: (p["tk"], p["w"]) for p in phis}
        memvars = {}    # (objid, off, size) -> initial value
        memunk = set()  # obj ids with symbolic writes
        patt = {}       # obj id -> [(offset at k=0, stride, size)] when all writes are affine in k
        ks0 = [None]
        nob = len(self.oblig)
        nsum = len(self.summaries)
        objs = {}

        def generic(vals, memvals, unk, cons):
            x = s.copy()
            f = x.frames[-1]
            f.over = dict(vals)
            for (oid, off, size), v in memvals.items():
                o, w = objs[(oid, off, size)]
                lg = tuple(z for z in x.mem.get(oid, ()) if not (z[0] == "st" and z[1].isconst() and z[1].c == off and z[2] == size))
                x.mem[oid] = lg + (("st", Lin(off), size, v, w, None),)
            for oid in unk:
                pats = patt.get(oid)
                if pats is None:
                    x.mem[oid] = x.mem.get(oid, ()) + (("unk",),)
                else:
                    for pi, (o0, c, sz) in enumerate(pats):
                        if c > 0:
                            ent = ("unkrange", o0, k.scale(c) if c == sz else k.scale(c) + ZERO, ("pat", oid, pi, ks0[0]))
                        else:
                            ent = ("unkrange", o0 + sz + k.scale(c), k.scale(-c), ("pat", oid, pi, ks0[0]))
                        x.mem[oid] = x.mem.get(oid, ()) + (ent,)
            for c in cons:
                x.st.add_ge(c)
            return x

        def once(x):
            r = self.run([x], loop, depth)
            return [y for k, y in r if k == "back"], [(k, y) for k, y in r if k != "back"]

        def backvals(y):
            f = y.frames[-1]
            res = {}
            for p in phis:
                for pb, v in p["in"]:
                    if pb == f.prev:
                        res[p["id"]] = self.val(y, v)
            return res

        # discover loop-carried variables with fully generic header
        vals = {p["id"]: self.widen_val(s, "h%d" % p["id"], init[p["id"]], p["w"], p["tk"]) for p in phis}
        saved_log = self.cmplog
        for rnd in range(6):
            memvals = {k: self.widen_val(s, "m%s" % (k,), v, objs[k][1], None) for k, v in memvars.items()}
            try:
                x = generic(vals, memvals, memunk, [])
            except Infeasible:
                return []
            backs, _ = once(x)
            del self.oblig[nob:]
            del self.summaries[nsum:]
            changed = False
            for y in backs:
                for oid, lg in y.mem.items():
                    base = s.mem.get(oid, ())
                    if lg is base or lg == base:
                        continue
                    gl = x.mem.get(oid, ())
                    if lg == gl:
                        continue
                    o = self.objof(y, oid)
                    if oid not in s.mem and not self.reaches(s, oid):
                        continue   # object created inside the loop
                    if o is not None and o.kind != "buf":
                        # constant-offset cells?
                        ok = True
                        for z in lg:
                            if z in gl or z in base:
                                continue
                            if z[0] == "st" and z[1].isconst():
                                key = (oid, z[1].c, z[2])
                                if key not in memvars:
                                    objs[key] = (o, z[4])
                                    try:
                                        iv = self.read(s, o, z[1], z[2], "p" if isinstance(z[3], (Ptr,)) else ("i" if isinstance(z[3], (Lin, B)) else "x"), z[4] or 8 * z[2], base)
                                    except Split:
                                        iv = UNDEF
                                    memvars[key] = iv
                                    changed = True
                            else:
                                ok = False
                        if ok:
                            continue
                    if oid not in memunk:
                        memunk.add(oid)
                        changed = True
                # pointer phis changing object
                bv = backvals(y)
                for pid, v in bv.items():
                    iv = init[pid]
                    if isinstance(iv, Ptr) and (not isinstance(v, Ptr) or v.obj is not iv.obj):
                        if not isinstance(vals[pid], Opq):
                            vals[pid] = Opq(("hvp", pid, self.sym("p", 0, 1, "havoc").key))
                            changed = True
                    elif isinstance(iv, Lin) and isinstance(v, (Ptr, Opq)):
                        raise Unsupported("phi kind change")
            if not changed:
                break
        memvals = {k: self.widen_val(s, "m%s" % (k,), v, objs[k][1], None) for k, v in memvars.items()}

        # ---- classify
        def lin_of(v):
            if isinstance(v, Lin):
                return v
            if isinstance(v, Ptr):
                return v.off
            return None

        def memread(y, key):
            o, w = objs[key]
            iv = memvars[key]
            kd = "p" if isinstance(iv, (Ptr, Opq)) else "i"
            return self.read(y, o, Lin(key[1]), key[2], kd, w or 8 * key[2], y.mem.get(key[0], ()))

        gx = generic(vals, memvals, memunk, [])
        backs, _ = once(gx)
        del self.oblig[nob:]
        del self.summaries[nsum:]
        allv = {("p", pid): (init[pid], vals[pid], kinds[pid][1]) for pid in vals}
        allv.update({("m",) + k: (memvars[k], memvals[k], objs[k][1] or 8 * k[2]) for k in memvars})

        def curval(y, var):
            if var[0] == "p":
                return backvals(y)[var[1]]
            try:
                return memread(y, var[1:])
            except Split:
                return UNDEF

        deltas = {}
        for var, (iv, hv, w) in allv.items():
            h = lin_of(hv)
            i0 = lin_of(iv)
            if h is None or i0 is None or isinstance(hv, Opq):
                continue
            ds = set()
            good = True
            for y in backs:
                v = lin_of(curval(y, var))
                if v is None:
                    good = False
                    break
                d = y.st.norm(v - h)
                if isinstance(hv, Lin):
                    d = Lin((d.c + (1 << (w - 1))) % (1 << w) - (1 << (w - 1)), d.t) if not d.t else d
                if d.isconst():
                    ds.add(d.c)
                else:
                    lo, hi = y.st.rng(d)
                    if hi - lo > 1 << 20 or (set(h.t) & set(d.t)):
                        good = False
                        break
                    ds.add(lo)
                    ds.add(hi)
            if good and ds and var not in nodelta:
                deltas[var] = (min(ds), max(ds))
        k = self.sym("k%d" % len(Sym.table), 0, 1 << 62, "k")
        gen = {}
        cons = []
        for var, (iv, hv, w) in allv.items():
            if var in deltas:
                lo, hi = deltas[var]
                i0 = lin_of(iv)
                if lo == hi:
                    e = i0 + k.scale(lo)
                    gen[var] = (Ptr(hv.obj, e) if isinstance(hv, Ptr) else e)
                else:
                    h = self.sym("v%s_%d" % (str(var[1])[:12], len(Sym.table)), -(1 << 70), 1 << 70, "havoc")
                    gen[var] = (Ptr(hv.obj, h) if isinstance(hv, Ptr) else h)
                    cons.append(h - i0 - k.scale(lo))
                    cons.append(i0 + k.scale(hi) - h)
            else:
                gen[var] = hv
        memg = {var[1:]: v for var, v in gen.items() if var[0] == "m"}
        valg = {var[1]: v for var, v in gen.items() if var[0] == "p"}

        # ---- candidate invariants
        self.cmplog = []
        try:
            gx = generic(valg, memg, memunk, cons)
            backs, _ = once(gx)
        except (Infeasible, Budget):
            backs = []
        ks0[0] = list(k.t)[0]
        if backs and not nopatt:
            for oid in memunk:
                ps = self.write_patterns(s, gx, backs, oid, ks0[0])
                if ps:
                    patt[oid] = ps
        cands = []
        seen = set()
        log = self.cmplog
        self.cmplog = saved_log
        if saved_log is not None:
            saved_log.extend(log)
        del self.oblig[nob:]
        del self.summaries[nsum:]
        loopsyms = set()
        for v in list(gen.values()) + [k]:
            e = lin_of(v) if not isinstance(v, B) else None
            if e is not None:
                loopsyms |= set(e.t)
        base_syms_max = max([k.key[1][0][0]] + [0])

        def add(e):
            e = s.st.norm(e)
            if not e.t or e.key in seen:
                return
            # only symbols meaningful at the header: existing before the loop or loop symbols
            for y in e.t:
                if y > base_syms_max and y not in loopsyms:
                    return
            if not (set(e.t) & loopsyms):
                return
            seen.add(e.key)
            cands.append(e)
        for e in log:
            for m in (0, M64, -M64):
                ck = e.t.get(list(k.t)[0], 0)
                for d in (0, 1, -1):
                    add(e + (d + m))
                    add(-e + (d + m))
                if abs(ck) > 1:
                    # the guard of the previous iteration
                    add(e - ck + m)
                    add(-e + ck + m)
                if not any(abs(c) >= (1 << 60) for c in [e.c]):
                    break
        vlist = [(var, lin_of(v), lin_of(allv[var][0])) for var, v in gen.items() if lin_of(v) is not None and lin_of(allv[var][0]) is not None]
        for i in range(len(vlist)):
            for j in range(i + 1, len(vlist)):
                d = (vlist[i][1] - vlist[j][1]) - (vlist[i][2] - vlist[j][2])
                add(d)
                add(-d)
        for var, e, i0 in vlist:
            if var not in deltas:
                w = allv[var][2]
                add(e - i0)
                add(i0 - e)
        # entry filter
        ks = list(k.t)[0]

        def at_entry(e):
            # substitute loop symbols by initial values
            r = Lin(e.c)
            for y, c in e.t.items():
                if y == ks:
                    continue
                rep = None
                for var, v in gen.items():
                    le = lin_of(v)
                    if le is not None and len(le.t) == 1 and le.c == 0 and list(le.t.items())[0] == (y, 1):
                        rep = lin_of(allv[var][0])
                        break
                if rep is None and y in loopsyms and y != ks and y > base_syms_max:
                    return None
                r = r + (rep.scale(c) if rep is not None else Lin(0, {y: c}))
            return r
        keep = []
        for e in cands:
            r = at_entry(e)
            if r is not None and s.st.decide(("ge", r)) is True:
                keep.append(e)
        if len(keep) > 60:
            keep = keep[:60]

        def after(e, y, cv):
            # value of e at the next header visit
            r = Lin(e.c)
            for sy, c in e.t.items():
                if sy == ks:
                    r = r + (k + 1).scale(c)
                    continue
                rep = None
                for var, v in gen.items():
                    le = lin_of(v)
                    if le is not None and len(le.t) == 1 and le.c == 0 and list(le.t.items())[0] == (sy, 1):
                        rep = lin_of(cv[var])
                        if rep is None:
                            return None
                        if var not in deltas and not isinstance(v, Ptr):
                            # the symbol stands for the canonical value: no wrap allowed
                            top = (1 << allv[var][2]) - 1
                            if y.st.decide(("ge", rep)) is not True or y.st.decide(("ge", Lin(top) - rep)) is not True:
                                return None
                        break
                r = r + (rep.scale(c) if rep is not None else Lin(0, {sy: c}))
            return r
        final = None
        for rnd in range(16):
            del self.oblig[nob:]
            del self.summaries[nsum:]
            try:
                gx = generic(valg, memg, memunk, cons + keep)
            except Infeasible:
                return []
            backs, outs = once(gx)
            if patt:
                again = False
                for oid in list(patt):
                    ps = self.write_patterns(s, gx, backs, oid, ks0[0])
                    if ps is None or any(q not in patt[oid] for q in ps):
                        if ps is None or len(patt[oid]) + len(ps) > 12:
                            del patt[oid]
                        else:
                            patt[oid] = patt[oid] + [q for q in ps if q not in patt[oid]]
                        again = True
                if again:
                    continue
            drop = set()
            cvs = [{var: curval(y, var) for var in gen} for y in backs]
            for y, cv in zip(backs, cvs):
                for e in keep:
                    if e.key in drop:
                        continue
                    r = after(e, y, cv)
                    if r is None or y.st.decide(("ge", r)) is not True:
                        drop.add(e.key)
                # the generic form itself must be preserved
                for var, v in gen.items():
                    if var in deltas:
                        lo, hi = deltas[var]
                        le = lin_of(v)
                        nv = lin_of(cv[var])
                        if nv is None:
                            raise LostForm(var)
                        d = y.st.norm(nv - le)
                        w = allv[var][2]
                        if not d.t:
                            c = d.c
                            if isinstance(v, Lin) and not (lo <= c <= hi):
                                m = 1 << w
                                c = (c - lo) % m + lo
                            if lo <= c <= hi:
                                continue
                        if y.st.decide(("ge", d - lo)) is True and y.st.decide(("ge", Lin(hi) - d)) is True:
                            continue
                        raise LostForm(var)
            if not drop:
                final = (gx, backs, outs, cvs)
                break
            keep = [e for e in keep if e.key not in drop]
        if final is None:
            raise Budget("invariant fixpoint did not converge")
        gx, backs, outs, cvs = final
        sm = LoopSummary()
        sm.fn = fn
        sm.header = H
        sm.k = k
        sm.vars = {var: (allv[var][0], gen[var], allv[var][2]) for var in gen}
        sm.invs = keep
        sm.backs = list(zip(backs, cvs))
        sm.entry = s
        sm.loc = next((i.get("loc") for i in fn.blocks[H] if i.get("loc")), None)
        sm.terminating = any(e.t.get(ks, 0) < 0 and not any(Sym.table[y].kind == "havoc" for y in e.t) for e in keep) or not backs
        sm.writes = dict(patt)
        self.summaries.append(sm)
        # loops that write one k-determined value per iteration become array maps
        maps = {}
        for oid, ps in patt.items():
            for pi, (o0, c, sz) in enumerate(ps):
                v = self.map_value(s, gx, backs, oid, (o0, c, sz), ks0[0])
                if v is not None:
                    maps[("pat", oid, pi, ks0[0])] = (o0, c, sz, v)
        for kd, y in outs:
            y.loops.append(sm)
            for oid in patt:
                lg = y.mem.get(oid, ())
                if any(z[0] == "unkrange" and len(z) > 3 and z[3] in maps for z in lg):
                    y.mem[oid] = tuple((("map", z[1], z[2]) + maps[z[3]] + (ks0[0],)) if z[0] == "unkrange" and len(z) > 3 and z[3] in maps else z for z in lg)
        return outs

    def write_patterns(self, s, gx, backs, oid, ks):
        """affine-in-k write offsets of one generic iteration, or None"""
        ps = []
        late = []
        gl = gx.mem.get(oid, ())
        for y in backs:
            lg = y.mem.get(oid, ())
            if lg[:len(gl)] != gl:
                return None
            for z in lg[len(gl):]:
                if z[0] != "st":
                    return None
                off = y.st.norm(z[1])
                c = off.t.get(ks, 0)
                if c == 0:
                    b = y.st.bounds(ks)
                    if b[0] != b[1]:
                        return None
                    late.append((y, off, z[2]))
                    continue
                if abs(c) < z[2]:
                    return None
                rest = Lin(off.c, {a: b for a, b in off.t.items() if a != ks})
                if any(a > ks or Sym.table[a].kind == "havoc" for a in rest.t):
                    return None
                q = (rest, c, z[2])
                if q not in ps:
                    ps.append(q)
        for y, off, sz in late:
            if not any(sz == s2 and y.st.norm(off - o0 - Lin(0, {ks: c})) == ZERO for o0, c, s2 in ps):
                return None
        return ps

    def map_value(self, s, gx, backs, oid, pat, ks):
        """the value written at iteration k, as a form over k and initial bytes; None if not uniform"""
        o0, c, sz = pat
        if abs(c) != sz:
            return None
        val = None
        gl = gx.mem.get(oid, ())
        got = []
        for y in backs:
            lg = y.mem.get(oid, ())
            mine = None
            for z in lg[len(gl):]:
                off = y.st.norm(z[1])
                if z[2] == sz and y.st.norm(off - o0 - Lin(0, {ks: c})) == ZERO:
                    mine = z[3]
            if not isinstance(mine, Lin):
                return None
            got.append((y, mine))
        for y, mine in got:
            bad = False
            for a in mine.t:
                sy = Sym.table[a]
                if a > ks and sy.kind != "char":
                    bad = True
                if sy.kind == "char" and sy.info is not None and any(b > ks for b in sy.info[1].t):
                    bad = True
            if not bad and (val is None or ks in mine.t):
                val = mine
        if val is None:
            return None
        for y, mine in got:
            if y.st.norm(val - mine) != ZERO:
                return None
        return val

    def subst_k(self, s, v, ks, j):
        r = Lin(v.c)
        for a, b in v.t.items():
            if a == ks:
                r = r + j.scale(b)
                continue
            sy = Sym.table[a]
            if sy.kind == "char" and sy.info is not None and ks in sy.info[1].t:
                o2, off2, sz2 = sy.info
                x = self.initial(s, o2, s.st.norm(self.subst_k(s, off2, ks, j)), sz2, "i", 8 * sz2)
                r = r + self.asint(s, x, 8 * sz2).scale(b)
                continue
            r = r + Lin(0, {a: b})
        return r

    def objof(self, y, oid):
        return OBJ_BY_ID.get(oid)

    def reaches(self, s, oid):
        for f in s.frames:
            for v in f.env.values():
                if isinstance(v, Ptr) and v.obj.id == oid:
                    return True
        o = OBJ_BY_ID.get(oid)
        return o is not None and o.kind in ("global", "buf", "ext", "heap", "out")


OBJ_BY_ID = {}
_oi = Obj.__init__


def _obj_init(self, *a, **k):
    _oi(self, *a, **k)
    OBJ_BY_ID[self.id] = self


Obj.__init__ = _obj_init


class _Stop:
    pass


STOP = _Stop()


class MultiRet:
    def __init__(self, alts):
        self.alts = alts


# ---------------------------------------------------------------- libc models
def ext_memcpy(I, s, a, ins):
    I.do_copy(s, a[0], a[1], I.U(s, I.asint(s, a[2], 64), 64), ins, "memcpy")
    return a[0]


def ext_memmove(I, s, a, ins):
    I.do_copy(s, a[0], a[1], I.U(s, I.asint(s, a[2], 64), 64), ins, "memmove")
    return a[0]


def ext_memset(I, s, a, ins):
    I.do_set(s, a[0], I.asint(s, a[1], 32), I.U(s, I.asint(s, a[2], 64), 64), ins)
    return a[0]


def ext_memcmp(I, s, a, ins):
    n = s.st.norm(I.U(s, I.asint(s, a[2], 64), 64))
    p, q = a[0], a[1]
    z = s.st.decide(("ge", -n))
    if z is None and not (isinstance(p, Ptr) and isinstance(q, Ptr) and p.obj is not NULLOBJ and q.obj is not NULLOBJ):
        raise Split([("ge", -n), ("ge", n - 1)], "memcmp")
    if z is True:
        return ZERO
    if isinstance(p, Opq):
        p = I.lazyobj(s, p)
    if isinstance(q, Opq):
        q = I.lazyobj(s, q)
    I.check(s, "memcmp", p, n, ins.get("loc"))
    I.check(s, "memcmp", q, n, ins.get("loc"))
    kp = (p.obj.id, s.st.norm(p.off).key)
    kq = (q.obj.id, s.st.norm(q.off).key)
    if kp == kq:
        return ZERO
    s.events.append(("memcmp", p, q, n, ins.get("loc")))
    if not n.t and n.c <= 64 and p.obj is not NULLOBJ and q.obj is not NULLOBJ:
        # exact: find the first differing byte
        for i in range(n.c):
            u = I.read(s, p.obj, s.st.norm(p.off + i), 1, "i", 8, I.log(s, p.obj))
            v = I.read(s, q.obj, s.st.norm(q.off + i), 1, "i", 8, I.log(s, q.obj))
            if u is UNDEF or v is UNDEF:
                break
            u = I.U(s, I.asint(s, u, 8), 8)
            v = I.U(s, I.asint(s, v, 8), 8)
            d = s.st.norm(u - v)
            c = s.st.decide(("ge", d))
            if c is None:
                raise Split([("ge", d), ("ge", -d - 1)], "memcmp byte")
            e = s.st.decide(("eq", d))
            if e is None:
                raise Split([("eq", d), ("ne", d)], "memcmp byte")
            if e is not True:
                y = I.defsym(s, ("memcmp", kp, kq, n.key, i, c), "memcmp(%r,%r,%r)" % (p, q, n), *((1, 255) if c else (-255, -1)), "ret")
                return Lin.of(y)
        else:
            return ZERO
    if kp <= kq:
        y = I.defsym(s, ("memcmp", kp, kq, n.key), "memcmp(%r,%r,%r)" % (p, q, n), -255, 255, "ret", info=("memcmp", p, q, n))
        return Lin.of(y)
    y = I.defsym(s, ("memcmp", kq, kp, n.key), "memcmp(%r,%r,%r)" % (q, p, n), -255, 255, "ret", info=("memcmp", q, p, n))
    return -Lin.of(y)


def ext_strlen(I, s, a, ins):
    p = a[0]
    if isinstance(p, Ptr) and p.obj.bytes is not None and p.obj.const:
        off = s.st.norm(p.off)
        if off.isconst():
            b = p.obj.bytes
            n = 0
            while off.c + n < len(b) and b[off.c + n] != 0:
                n += 1
            return Lin(n)
    key = p.key if isinstance(p, Opq) else (p.obj.id, s.st.norm(p.off).key)
    y = I.defsym(s, ("strlen", key), "strlen(%r)" % (p,), 0, 1 << 47, "len", info=("strlen", p))
    s.events.append(("strlen", p, Lin.of(y), ins.get("loc")))
    if isinstance(p, Ptr) and p.obj.size is not None:
        s.st.add_ge(p.obj.size - p.off - Lin.of(y) - 1)
    return Lin.of(y)


def ext_memchr(I, s, a, ins):
    p = a[0]
    n = s.st.norm(I.U(s, I.asint(s, a[2], 64), 64))
    if s.st.decide(("ge", -n)) is True:
        return NULL
    if not isinstance(p, Ptr):
        return I.fresh_of(s, "p", 64, "memchr")
    I.check(s, "memchr", p, n, ins.get("loc"))
    c = I.asint(s, a[1], 32)
    i = I.sym("memchr.i", 0, 1 << 47, "ret", ("memchr", p, c, n))
    return MultiRet([(True, NULL, lambda x: x.events.append(("memchr-miss", p, c, n, ins.get("loc")))),
                     (("ge", n - i - 1), Ptr(p.obj, s.st.norm(p.off + i)), lambda x: x.events.append(("memchr-hit", p, c, n, i, ins.get("loc"))))])


def ext_malloc(I, s, a, ins):
    n = I.U(s, I.asint(s, a[0], 64), 64)
    o = I.newobj("heap", "malloc", n, align=16)
    s.events.append(("malloc", o, n, ins.get("loc")))
    return Ptr(o, ZERO)


def ext_free(I, s, a, ins):
    s.events.append(("free", a[0], ins.get("loc")))
    return None


STD_EXT = {
    "memcpy": ext_memcpy, "memmove": ext_memmove, "memset": ext_memset, "memcmp": ext_memcmp, "bcmp": ext_memcmp,
    "strlen": ext_strlen, "memchr": ext_memchr, "malloc": ext_malloc, "free": ext_free,
}
def ext_str_data(I, s, a, ins):
    return I.load(s, a[0] if isinstance(a[0], Ptr) else I.lazyobj(s, a[0]), 8, "p", 64, ins.get("loc"))


def ext_str_size(I, s, a, ins):
    p = a[0] if isinstance(a[0], Ptr) else I.lazyobj(s, a[0])
    return I.load(s, Ptr(p.obj, p.off + 8), 8, "i", 64, ins.get("loc"))


_STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::"
STD_EXT_PFX = [(_STR + "data()", ext_str_data), (_STR + "c_str()", ext_str_data), (_STR + "size()", ext_str_size), (_STR + "length()", ext_str_size)]
