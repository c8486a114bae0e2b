"""Linear forms over bounded integer symbols, and the constraint store of one
abstract state (intervals + linear inequalities + disequalities + solved
equalities).  Entailment is decided by goal-directed elimination over the
stored inequalities; no external solver is involved."""

from math import gcd

INF = 1 << 200


class Sym:
    __slots__ = ("id", "name", "lo", "hi", "kind", "info")
    _n = 0
    table = []

    def __init__(self, name, lo, hi, kind, info=None):
        self.id = len(Sym.table)
        Sym.table.append(self)
        self.name = name
        self.lo = lo
        self.hi = hi
        self.kind = kind
        self.info = info

    def __repr__(self):
        return self.name


def reset_syms():
    Sym.table = []


class Lin:
    __slots__ = ("c", "t", "_k")

    def __init__(self, c, t=None):
        self.c = c
        self.t = t if t is not None else {}
        self._k = None

    @staticmethod
    def of(sym):
        return Lin(0, {sym.id: 1})

    @property
    def key(self):
        if self._k is None:
            self._k = (self.c, tuple(sorted(self.t.items())))
        return self._k

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Lin) and self.key == o.key

    def isconst(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c + o, self.t)
        if not o.t:
            return Lin(self.c + o.c, self.t)
        if not self.t:
            return Lin(self.c + o.c, o.t)
        t = dict(self.t)
        for s, k in o.t.items():
            n = t.get(s, 0) + k
            if n:
                t[s] = n
            else:
                t.pop(s, None)
        return Lin(self.c + o.c, t)

    __radd__ = __add__

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c - o, self.t)
        return self + o.scale(-1)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, k):
        if k == 0:
            return Lin(0)
        if k == 1:
            return self
        return Lin(self.c * k, {s: c * k for s, c in self.t.items()})

    __mul__ = scale
    __rmul__ = scale

    def __repr__(self):
        out = []
        for s, k in sorted(self.t.items()):
            n = Sym.table[s].name
            out.append(("+" if k > 0 else "-") + (n if abs(k) == 1 else "%d*%s" % (abs(k), n)))
        if self.c or not out:
            out.append(("+" if self.c >= 0 else "-") + str(abs(self.c)))
        r = "".join(out)
        return r[1:] if r.startswith("+") else r


ZERO = Lin(0)
ONE = Lin(1)


class Infeasible(Exception):
    pass


class Store:
    """Constraint store: conjunction of facts over symbols."""
    __slots__ = ("b", "cons", "idx", "ne", "sub", "memo")

    def __init__(self, o=None):
        if o is None:
            self.b = {}      # sym id -> (lo,hi)
            self.cons = []   # Lin >= 0
            self.ne = []     # Lin != 0
            self.sub = {}    # sym id -> Lin
        else:
            self.b = dict(o.b)
            self.cons = list(o.cons)
            self.ne = list(o.ne)
            self.sub = dict(o.sub)
        self.memo = {}

    def copy(self):
        return Store(self)

    # ---- basic
    def bounds(self, s):
        b = self.b.get(s)
        if b is None:
            y = Sym.table[s]
            return (y.lo, y.hi)
        return b

    def norm(self, e):
        t = e.t
        if not t:
            return e
        sub = self.sub
        b = self.b
        need = False
        for s in t:
            if s in sub:
                need = True
                break
            x = b.get(s)
            if x is not None and x[0] == x[1]:
                need = True
                break
        if not need:
            return e
        r = Lin(e.c, {})
        acc = {}
        c = e.c
        for s, k in t.items():
            if s in sub:
                x = sub[s]
                c += k * x.c
                for s2, k2 in x.t.items():
                    acc[s2] = acc.get(s2, 0) + k * k2
            else:
                acc[s] = acc.get(s, 0) + k
        c2 = {}
        again = False
        for s, k in acc.items():
            if not k:
                continue
            x = b.get(s)
            if x is not None and x[0] == x[1]:
                c += k * x[0]
            else:
                if s in sub:
                    again = True
                c2[s] = k
        r = Lin(c, c2)
        return self.norm(r) if again else r

    def rng(self, e):
        lo = hi = e.c
        for s, k in e.t.items():
            b = self.bounds(s)
            if k > 0:
                lo += k * b[0]
                hi += k * b[1]
            else:
                lo += k * b[1]
                hi += k * b[0]
        return lo, hi

    def range(self, e):
        e = self.norm(e)
        return self.rng(e)

    # ---- entailment
    def prove(self, e, depth=5):
        """is e >= 0 implied?"""
        e = self.norm(e)
        lo, hi = self.rng(e)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        k = (e.key, len(self.cons), len(self.sub))
        r = self.memo.get(k)
        if r is None:
            r = self._prove(e, depth, set(), [400])
            self.memo[k] = r
        return r

    def _prove(self, e, depth, seen, fuel):
        lo, hi = self.rng(e)
        if lo >= 0:
            return True
        if depth == 0 or not e.t:
            return False
        if e.key in seen:
            return False
        seen.add(e.key)
        cands = []
        for c in self.cons:
            best = None
            for s, k in c.t.items():
                ek = e.t.get(s)
                if ek is None or (ek > 0) != (k > 0):
                    continue
                a = abs(k)
                b = abs(ek)
                g = gcd(a, b)
                a //= g
                b //= g
                e2 = e.scale(a) - c.scale(b)
                l2, _ = self.rng(e2)
                if l2 >= 0:
                    return True
                sc = (len(e2.t), -l2 if l2 > -INF else INF)
                if best is None or sc < best[0]:
                    best = (sc, e2)
            if best is not None:
                cands.append(best)
        if depth == 1:
            return False
        cands.sort(key=lambda x: x[0])
        for _, e2 in cands:
            fuel[0] -= 1
            if fuel[0] < 0:
                return False
            # gcd tightening
            g = 0
            for k in e2.t.values():
                g = gcd(g, k)
            if g > 1:
                e2 = Lin(e2.c // g, {s: k // g for s, k in e2.t.items()})
            if self._prove(e2, depth - 1, seen, fuel):
                return True
        return False

    def decide(self, cond):
        """True/False/None for an atomic or compound condition."""
        if cond is True or cond is False:
            return cond
        op = cond[0]
        if op == "ge":
            if self.prove(cond[1]):
                return True
            if self.prove(-cond[1] - 1):
                return False
            return None
        if op == "eq" or op == "ne":
            r = self._deceq(cond[1])
            if r is None:
                return None
            return r if op == "eq" else (not r)
        if op == "and":
            a = self.decide(cond[1])
            if a is False:
                return False
            b = self.decide(cond[2])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if op == "or":
            a = self.decide(cond[1])
            if a is True:
                return True
            b = self.decide(cond[2])
            if b is True:
                return True
            if a is False and b is False:
                return False
            return None
        if op == "not":
            a = self.decide(cond[1])
            return None if a is None else (not a)
        raise AssertionError(op)

    def _deceq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.c == 0
        lo, hi = self.rng(e)
        if lo > 0 or hi < 0:
            return False
        g = 0
        for k in e.t.values():
            g = gcd(g, k)
        if g > 1 and e.c % g:
            return False
        for n in self.ne:
            if n == e or (-n) == e:
                return False
        if self.prove(e - 1) or self.prove(-e - 1):
            return False
        if self.prove(e) and self.prove(-e):
            return True
        return None

    # ---- assumption
    def assume(self, cond):
        """add a condition; may raise Infeasible; returns list of residual alternative
        conditions if disjunctive (caller must split)."""
        if cond is True:
            return
        if cond is False:
            raise Infeasible
        op = cond[0]
        if op == "ge":
            self.add_ge(cond[1])
        elif op == "eq":
            self.add_eq(cond[1])
        elif op == "ne":
            self.add_ne(cond[1])
        elif op == "and":
            self.assume(cond[1])
            self.assume(cond[2])
        elif op == "not":
            self.assume(neg(cond[1]))
        elif op == "or":
            raise AssertionError("assume(or) must be split by the caller")
        else:
            raise AssertionError(op)

    def add_ge(self, e):
        e = self.norm(e)
        lo, hi = self.rng(e)
        if hi < 0:
            raise Infeasible
        if lo >= 0:
            return
        g = 0
        for k in e.t.values():
            g = gcd(g, k)
        if g > 1:
            e = Lin(e.c // g, {s: k // g for s, k in e.t.items()})
        if self._prove(-e - 1, 4, set(), [200]):
            raise Infeasible
        if self._prove(e, 2, set(), [50]):
            # redundant; still tighten bounds
            self._tighten([e])
            return
        # opposite inequality present -> equality
        if (-e) in self.cons:
            self.cons.remove(-e)
            self.add_eq(e)
            return
        if len(e.t) > 1:
            self.cons.append(e)
        self._tighten([e])
        self._recheck_ne()

    def _tighten(self, work):
        n = 0
        work = list(work)
        while work and n < 120:
            e = work.pop()
            n += 1
            lo, hi = self.rng(e)
            if hi < 0:
                raise Infeasible
            chg = False
            for s, k in e.t.items():
                b = self.bounds(s)
                rest_hi = hi - (k * b[1] if k > 0 else k * b[0])
                # k*s >= -rest_hi
                if k > 0:
                    nl = -(rest_hi // k)
                    if nl > b[0]:
                        if nl > b[1]:
                            raise Infeasible
                        self.b[s] = (nl, b[1])
                        self.memo = {}
                        chg = True
                        work.extend(c for c in self.cons if s in c.t and c is not e)
                        lo, hi = self.rng(e)
                else:
                    nh = rest_hi // (-k)
                    if nh < b[1]:
                        if nh < b[0]:
                            raise Infeasible
                        self.b[s] = (b[0], nh)
                        self.memo = {}
                        chg = True
                        work.extend(c for c in self.cons if s in c.t and c is not e)
                        lo, hi = self.rng(e)

            if chg and len(e.t) > 1:
                work.append(e)

    def _recheck_ne(self):
        if not self.ne:
            return
        ne = self.ne
        self.ne = []
        for n in ne:
            self.add_ne(n)

    def add_ne(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c == 0:
                raise Infeasible
            return
        lo, hi = self.rng(e)
        if lo > 0 or hi < 0:
            return
        if lo == 0 or self._prove(e, 3, set(), [80]):
            self.add_ge(e - 1)
            return
        if hi == 0 or self._prove(-e, 3, set(), [80]):
            self.add_ge(-e - 1)
            return
        # single symbol at an endpoint is covered above
        if e not in self.ne and (-e) not in self.ne:
            self.ne.append(e)
            self.memo = {}

    def add_eq(self, e):
        e = self.norm(e)
        if not e.t:
            if e.c:
                raise Infeasible
            return
        lo, hi = self.rng(e)
        if lo > 0 or hi < 0:
            raise Infeasible
        for n in self.ne:
            if n == e or (-n) == e:
                raise Infeasible
        g = 0
        for k in e.t.values():
            g = gcd(g, k)
        if e.c % g:
            raise Infeasible
        if g > 1:
            e = Lin(e.c // g, {s: k // g for s, k in e.t.items()})
        if self._prove(-e - 1, 4, set(), [200]) or self._prove(e - 1, 4, set(), [200]):
            raise Infeasible
        if len(e.t) == 1:
            (s, k), = e.t.items()
            v = -e.c // k
            b = self.bounds(s)
            if v < b[0] or v > b[1]:
                raise Infeasible
            self.b[s] = (v, v)
            self._rewrite()
            return
        # choose a unit symbol to eliminate: most recently created first
        units = [s for s, k in e.t.items() if abs(k) == 1]
        if not units:
            for x in (e, -e):
                if x not in self.cons:
                    self.cons.append(x)
            self.memo = {}
            self._tighten([e, -e])
            return
        s = max(units, key=lambda i: (_rank(Sym.table[i].kind), i))
        k = e.t[s]
        rest = Lin(e.c, {x: y for x, y in e.t.items() if x != s})
        val = rest.scale(-k)  # k*s + rest = 0 -> s = -rest/k ; k=+-1
        b = self.bounds(s)
        self.sub[s] = val
        self._rewrite()
        self.add_ge(val - b[0])
        if b[1] < INF:
            self.add_ge(Lin(b[1]) - val)

    def _rewrite(self):
        self.memo = {}
        cons = self.cons
        self.cons = []
        seen = set()
        pend = []
        for c in cons:
            n = self.norm(c)
            if not n.t:
                if n.c < 0:
                    raise Infeasible
                continue
            if n.key in seen:
                continue
            seen.add(n.key)
            if n is c:
                self.cons.append(c)
            else:
                if self.rng(n)[1] < 0:
                    raise Infeasible
                if len(n.t) > 1:
                    self.cons.append(n)
                pend.append(n)
        if pend:
            self._tighten(pend)
        self._recheck_ne()


_RANK = {"in": 0, "char": 1, "len": 0, "ret": 1, "k": 2, "havoc": 3, "def": 3}


def feasible(st, fuel=3000):
    """is the conjunction of linear facts of a store satisfiable over the integers: True (a
    valuation exists), False (none), None (not determined).  Bound propagation and
    enumeration; used to discard abstract states that denote no execution."""
    cons = []
    for e in st.cons:
        e = st.norm(e)
        if e.t:
            cons.append((e.c, list(e.t.items()), True))
        elif e.c < 0:
            return False
    for y, x in st.sub.items():
        e = st.norm(x)
        lo, hi = st.bounds(y)
        if e.t:
            cons.append((e.c - lo, list(e.t.items()), True))
            cons.append((hi - e.c, [(v, -k) for v, k in e.t.items()], True))
    for e in st.ne:
        e = st.norm(e)
        if e.t:
            cons.append((e.c, list(e.t.items()), False))
        elif e.c == 0:
            return False
    vs = {v for _, t, _ in cons for v, _ in t}
    dom = {v: st.bounds(v) for v in vs}
    left = [fuel]

    def prop(d):
        for _ in range(40):
            chg = False
            for c, t, ge in cons:
                hi = c
                for v, k in t:
                    hi += k * d[v][1 if k > 0 else 0]
                if not ge:
                    if hi == 0 and all(d[v][0] == d[v][1] for v, _ in t):
                        return False
                    continue
                if hi < 0:
                    return False
                for v, k in t:
                    lo_, hi_ = d[v]
                    if k > 0:
                        r = hi - k * hi_
                        n = -(r // k)
                        if n > lo_:
                            if n > hi_:
                                return False
                            d[v] = (n, hi_)
                            chg = True
                    else:
                        r = hi - k * lo_
                        n = r // (-k)
                        if n < hi_:
                            if n < lo_:
                                return False
                            d[v] = (lo_, n)
                            chg = True
            if not chg:
                return True
        return True

    def go(d):
        left[0] -= 1
        if left[0] < 0:
            return None
        if not prop(d):
            return False
        fr = [v for v in d if d[v][0] < d[v][1]]
        if not fr:
            return True
        v = min(fr, key=lambda v: d[v][1] - d[v][0])
        lo, hi = d[v]
        parts = [(lo, lo), (hi, hi)] + ([(lo + 1, hi - 1)] if hi - lo > 1 else [])
        unk = False
        for q in parts:
            d2 = dict(d)
            d2[v] = q
            r = go(d2)
            if r:
                return True
            if r is None:
                unk = True
        return None if unk else False
    try:
        return go(dict(dom))
    except RecursionError:
        return None


def _rank(kind):
    return _RANK.get(kind, 2)


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    op = c[0]
    if op == "ge":
        return ("ge", -c[1] - 1)
    if op == "eq":
        return ("ne", c[1])
    if op == "ne":
        return ("eq", c[1])
    if op == "and":
        return c_or(neg(c[1]), neg(c[2]))
    if op == "or":
        return c_and(neg(c[1]), neg(c[2]))
    if op == "not":
        return c[1]
    raise AssertionError(op)


def c_and(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ("and", a, b)


def c_or(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ("or", a, b)


def cond_lins(c, out):
    if c is True or c is False:
        return out
    if c[0] in ("ge", "eq", "ne"):
        out.append(c[1])
    else:
        for x in c[1:]:
            cond_lins(x, out)
    return out
