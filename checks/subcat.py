"""catalogue of substr operations with reference definitions.
Reference functions take (x, S, P, c, a, b): S and P are lists of symbolic bytes,
c a symbolic byte, a and b symbolic sizes; x answers questions about them."""
from spec import *

WS = " \n\r\t"
DELIM = " \n])},;\r\t\0"
NONE = NPOS


def within_set(x, ch, P):
    return any(x.eq(ch, p) for p in P)


def eqat(x, S, i, P):
    return i + len(P) <= len(S) and all(x.eq(S[i + j], p) for j, p in enumerate(P))


def rfind(x, S, P, a):
    i = a
    while i + len(P) <= len(S):
        if eqat(x, S, i, P):
            return i
        i += 1
    return NPOS


def first_where(x, S, a, f):
    for i in range(a, len(S)):
        if f(S[i]):
            return i
    return NPOS


def last_where(x, S, a, f):
    n = len(S) if a == NPOS else a
    for i in range(n - 1, -1, -1):
        if f(S[i]):
            return i
    return NPOS


def sz(x, a, n):
    """concrete value of a size argument known to be <= n or npos"""
    if x.gt(a, n):
        return NPOS
    return x.const(a)


class E:
    def __init__(self, name, expr, kind, ref, params="", pre=None, lens=None, plens=None, body=None, key=None, unb=True):
        self.name = name
        self.expr = expr
        self.kind = kind
        self.ref = ref
        self.params = params      # subset of "pcab"
        self.pre = pre            # list of facts over (sn, a, b): callable -> list of linear >= 0
        self.lens = lens
        self.plens = plens
        self.body = body
        self.unb = unb


def tl(x, S, f):
    i = first_where(x, S, 0, lambda q: not f(q))
    return (0, 0) if i == NPOS else (i, len(S) - i)


def tr(x, S, f):
    i = last_where(x, S, NPOS, lambda q: not f(q))
    return (0, 0) if i == NPOS else (0, i + 1)


def tlr(x, S, f):
    o, n = tl(x, S, f)
    o2, n2 = tr(x, S[o:o + n], f)
    return (o, n2)


def A_le(sn, a, b):
    return [sn - a]


def A_lt(sn, a, b):
    return [sn - a - 1]


CAT = []


def e(*a, **k):
    CAT.append(E(*a, **k))


def cnt(x, S, P, a):
    n = 0
    i = rfind(x, S, P, a)
    while i != NPOS:
        n += 1
        if i >= len(S):
            break
        i = rfind(x, S, P, i + max(1, len(P)))
    return n


def q(v):
    return [Lin(ord(z)) for z in v]


# --- searches
e("find_c", "s.find(c)", "n", lambda x, S, P, c, a, b: first_where(x, S, 0, lambda h: x.eq(h, c)), "c")
e("find_c_at", "s.find(c, a)", "n", lambda x, S, P, c, a, b: first_where(x, S, sz(x, a, len(S)), lambda h: x.eq(h, c)), "ca", A_le)
e("find_s", "s.find(p)", "n", lambda x, S, P, c, a, b: rfind(x, S, P, 0), "p")
e("find_s_at", "s.find(p, a)", "n", lambda x, S, P, c, a, b: rfind(x, S, P, sz(x, a, len(S))), "pa", A_le)
e("first_of_c", "s.first_of(c)", "n", lambda x, S, P, c, a, b: first_where(x, S, 0, lambda h: x.eq(h, c)), "c")
e("first_of_c_at", "s.first_of(c, a)", "n", lambda x, S, P, c, a, b: first_where(x, S, sz(x, a, len(S)), lambda h: x.eq(h, c)), "ca", A_le)
e("first_of_s", "s.first_of(p)", "n", lambda x, S, P, c, a, b: first_where(x, S, 0, lambda h: within_set(x, h, P)), "p")
e("first_of_s_at", "s.first_of(p, a)", "n", lambda x, S, P, c, a, b: first_where(x, S, sz(x, a, len(S)), lambda h: within_set(x, h, P)), "pa", A_le)
e("last_of_c", "s.last_of(c)", "n", lambda x, S, P, c, a, b: last_where(x, S, NPOS, lambda h: x.eq(h, c)), "c")
e("last_of_c_at", "s.last_of(c, a)", "n", lambda x, S, P, c, a, b: last_where(x, S, sz(x, a, len(S)), lambda h: x.eq(h, c)), "ca", A_le)
e("last_of_s", "s.last_of(p)", "n", lambda x, S, P, c, a, b: last_where(x, S, NPOS, lambda h: within_set(x, h, P)), "p")
e("last_of_s_at", "s.last_of(p, a)", "n", lambda x, S, P, c, a, b: last_where(x, S, sz(x, a, len(S)), lambda h: within_set(x, h, P)), "pa", A_le)
e("first_not_of_c", "s.first_not_of(c)", "n", lambda x, S, P, c, a, b: first_where(x, S, 0, lambda h: not x.eq(h, c)), "c")
e("first_not_of_c_at", "s.first_not_of(c, a)", "n", lambda x, S, P, c, a, b: first_where(x, S, sz(x, a, len(S)), lambda h: not x.eq(h, c)), "ca", A_le)
e("first_not_of_s", "s.first_not_of(p)", "n", lambda x, S, P, c, a, b: first_where(x, S, 0, lambda h: not within_set(x, h, P)), "p")
e("first_not_of_s_at", "s.first_not_of(p, a)", "n", lambda x, S, P, c, a, b: first_where(x, S, sz(x, a, len(S)), lambda h: not within_set(x, h, P)), "pa", A_le)
e("last_not_of_c", "s.last_not_of(c)", "n", lambda x, S, P, c, a, b: last_where(x, S, NPOS, lambda h: not x.eq(h, c)), "c")
e("last_not_of_c_at", "s.last_not_of(c, a)", "n", lambda x, S, P, c, a, b: last_where(x, S, sz(x, a, len(S)), lambda h: not x.eq(h, c)), "ca", A_le)
e("last_not_of_s", "s.last_not_of(p)", "n", lambda x, S, P, c, a, b: last_where(x, S, NPOS, lambda h: not within_set(x, h, P)), "p")
e("last_not_of_s_at", "s.last_not_of(p, a)", "n", lambda x, S, P, c, a, b: last_where(x, S, sz(x, a, len(S)), lambda h: not within_set(x, h, P)), "pa", A_le)
e("count_c", "s.count(c)", "n", lambda x, S, P, c, a, b: cnt(x, S, [c], 0), "c")
e("count_c_at", "s.count(c, a)", "n", lambda x, S, P, c, a, b: cnt(x, S, [c], sz(x, a, len(S))), "ca", A_le)
e("count_s", "s.count(p)", "n", lambda x, S, P, c, a, b: cnt(x, S, P, 0), "p")
e("count_s_at", "s.count(p, a)", "n", lambda x, S, P, c, a, b: cnt(x, S, P, sz(x, a, len(S))), "pa", A_le)
e("select_c", "s.select(c, a)", "v", lambda x, S, P, c, a, b: (lambda i: (0, 0) if i == NPOS else (i, 1))(first_where(x, S, sz(x, a, len(S)), lambda h: x.eq(h, c))), "ca", A_le)
e("select_s", "s.select(p, a)", "v", lambda x, S, P, c, a, b: (lambda i: (0, 0) if i == NPOS else (i, len(P)))(rfind(x, S, P, sz(x, a, len(S)))), "pa", A_le)
# --- tips
e("begins_with_c", "s.begins_with(c)", "b", lambda x, S, P, c, a, b: bool(S) and x.eq(S[0], c), "c")
e("begins_with_cn", "s.begins_with(c, a)", "b", lambda x, S, P, c, a, b: x.le(a, len(S)) and all(x.eq(h, c) for h in S[:x.const(a)]), "ca")
e("begins_with_s", "s.begins_with(p)", "b", lambda x, S, P, c, a, b: eqat(x, S, 0, P), "p")
e("begins_with_any", "s.begins_with_any(p)", "b", lambda x, S, P, c, a, b: bool(S) and within_set(x, S[0], P), "p")
e("ends_with_c", "s.ends_with(c)", "b", lambda x, S, P, c, a, b: bool(S) and x.eq(S[-1], c), "c")
e("ends_with_cn", "s.ends_with(c, a)", "b", lambda x, S, P, c, a, b: x.le(a, len(S)) and all(x.eq(h, c) for h in S[len(S) - x.const(a):]), "ca")
e("ends_with_s", "s.ends_with(p)", "b", lambda x, S, P, c, a, b: len(P) <= len(S) and eqat(x, S, len(S) - len(P), P), "p")
e("ends_with_any", "s.ends_with_any(p)", "b", lambda x, S, P, c, a, b: bool(S) and within_set(x, S[-1], P), "p")
e("triml_c", "s.triml(c)", "v", lambda x, S, P, c, a, b: tl(x, S, lambda h: x.eq(h, c)), "c")
e("trimr_c", "s.trimr(c)", "v", lambda x, S, P, c, a, b: tr(x, S, lambda h: x.eq(h, c)), "c")
e("trim_c", "s.trim(c)", "v", lambda x, S, P, c, a, b: tlr(x, S, lambda h: x.eq(h, c)), "c")
e("triml_s", "s.triml(p)", "v", lambda x, S, P, c, a, b: tl(x, S, lambda h: within_set(x, h, P)), "p")
e("trimr_s", "s.trimr(p)", "v", lambda x, S, P, c, a, b: tr(x, S, lambda h: within_set(x, h, P)), "p")
e("trim_s", "s.trim(p)", "v", lambda x, S, P, c, a, b: tlr(x, S, lambda h: within_set(x, h, P)), "p")
e("stripl", "s.stripl(p)", "v", lambda x, S, P, c, a, b: (len(P), len(S) - len(P)) if eqat(x, S, 0, P) else (0, len(S)), "p")
e("stripr", "s.stripr(p)", "v", lambda x, S, P, c, a, b: (0, len(S) - len(P)) if len(P) <= len(S) and eqat(x, S, len(S) - len(P), P) else (0, len(S)), "p")


def pair_range(x, S, P, c, a, b):
    o, cl = c, x.cl
    i = first_where(x, S, 0, lambda h: x.eq(h, o))
    if i == NPOS:
        return (0, 0)
    j = first_where(x, S, i + 1, lambda h: x.eq(h, cl))
    return (0, 0) if j == NPOS else (i, j + 1 - i)


def pair_nested(x, S, P, c, a, b):
    o, cl = c, x.cl
    i = first_where(x, S, 0, lambda h: x.eq(h, o))
    if i == NPOS:
        return (0, 0)
    depth = 0
    for j in range(i + 1, len(S)):
        if x.eq(S[j], o):
            depth += 1
        elif x.eq(S[j], cl):
            if depth == 0:
                return (i, j + 1 - i)
            depth -= 1
    return (0, 0)


def pair_esc(x, S, P, c, a, b):
    i = first_where(x, S, 0, lambda h: x.eq(h, c))
    if i == NPOS:
        return (0, 0)
    for j in range(i + 1, len(S)):
        if x.eq(S[j], c) and not x.eq(S[j - 1], x.cl):
            return (i, j + 1 - i)
    return (0, 0)


e("pair_range", "s.pair_range(c, d)", "v", pair_range, "cd")
e("pair_range_nested", "s.pair_range_nested(c, d)", "v", pair_nested, "cd")
e("pair_range_esc", "s.pair_range_esc(c, d)", "v", pair_esc, "cd")


def unquoted(x, S, P, c, a, b):
    n = len(S)
    if n >= 2 and not x.eq(S[n - 2], 92):
        for qc in (39, 34):
            if x.eq(S[0], qc) and x.eq(S[n - 1], qc):
                return (1, n - 2)
    return (0, n)


e("unquoted", "s.unquoted()", "v", unquoted, "")
# --- splitting


def pop_right(x, S, c, skip):
    n = len(S)
    is_ = lambda h: x.eq(h, c)
    if n == 0:
        return (0, 0)
    pos = last_where(x, S, NPOS, is_)
    if pos == NPOS:
        return (0, n)
    if pos + 1 < n:
        return (pos + 1, n - pos - 1)
    if not skip:
        return (n, 0)
    pp = last_where(x, S, NPOS, lambda h: not is_(h))
    if pp == NPOS:
        return (0, 0)
    p0 = last_where(x, S, pp, is_)
    return (0, n) if p0 == NPOS else (p0 + 1, n - p0 - 1)


def pop_left(x, S, c, skip):
    n = len(S)
    is_ = lambda h: x.eq(h, c)
    if n == 0:
        return (0, 0)
    pos = first_where(x, S, 0, is_)
    if pos == NPOS:
        return (0, n)
    if pos > 0:
        return (0, pos)
    if not skip:
        return (0, 0)
    pp = first_where(x, S, 0, lambda h: not is_(h))
    if pp == NPOS:
        return (0, 0)
    p0 = first_where(x, S, pp, is_)
    return (0, n) if p0 == NPOS else (0, p0)


def gpop_left(x, S, c, skip):
    n = len(S)
    o, ln = pop_right(x, S, c, skip)
    if n == 1 and ln == 0:
        o = 0
    end = o
    if end and x.eq(S[end - 1], c):
        if skip:
            while end and x.eq(S[end - 1], c):
                end -= 1
        else:
            end -= 1
    return (0, end)


def gpop_right(x, S, c, skip):
    n = len(S)
    o, ln = pop_left(x, S, c, skip)
    beg = o + ln
    if beg < n and x.eq(S[beg], c):
        if skip:
            while beg < n and x.eq(S[beg], c):
                beg += 1
        else:
            beg += 1
    return (beg, n - beg)


def basename(x, S, c):
    o, n = pop_right(x, S, c, True)
    o2, n2 = tr(x, S[o:o + n], lambda h: x.eq(h, c))
    return (o + o2, n2)


def dirname(x, S, c):
    o, n = basename(x, S, c)
    return (0, len(S)) if n == 0 else (0, o)


for sk in (0, 1):
    t = "true" if sk else "false"
    e("pop_right%d" % sk, "s.pop_right(c, %s)" % t, "v", lambda x, S, P, c, a, b, sk=sk: pop_right(x, S, c, sk), "c")
    e("pop_left%d" % sk, "s.pop_left(c, %s)" % t, "v", lambda x, S, P, c, a, b, sk=sk: pop_left(x, S, c, sk), "c")
    e("gpop_left%d" % sk, "s.gpop_left(c, %s)" % t, "v", lambda x, S, P, c, a, b, sk=sk: gpop_left(x, S, c, sk), "c")
    e("gpop_right%d" % sk, "s.gpop_right(c, %s)" % t, "v", lambda x, S, P, c, a, b, sk=sk: gpop_right(x, S, c, sk), "c")
e("basename", "s.basename(c)", "v", lambda x, S, P, c, a, b: basename(x, S, c), "c")
e("dirname", "s.dirname(c)", "v", lambda x, S, P, c, a, b: dirname(x, S, c), "c")
DOT = Lin(46)
SLASH = Lin(47)
for nm, f in (("pop_right", pop_right), ("pop_left", pop_left), ("gpop_left", gpop_left), ("gpop_right", gpop_right)):
    e(nm + "d", "s.%s()" % nm, "v", lambda x, S, P, c, a, b, f=f: f(x, S, SLASH, 0), "")
e("basenamed", "s.basename()", "v", lambda x, S, P, c, a, b: basename(x, S, SLASH), "")
e("dirnamed", "s.dirname()", "v", lambda x, S, P, c, a, b: dirname(x, S, SLASH), "")
e("select_cd", "s.select(c)", "v", lambda x, S, P, c, a, b: (lambda i: (0, 0) if i == NPOS else (i, 1))(first_where(x, S, 0, lambda h: x.eq(h, c))), "c")
e("select_sd", "s.select(p)", "v", lambda x, S, P, c, a, b: (lambda i: (0, 0) if i == NPOS else (i, len(P)))(rfind(x, S, P, 0)), "p")
e("name_wo_extshort", "s.name_wo_extshort()", "v", lambda x, S, P, c, a, b: gpop_left(x, S, DOT, 0), "")
e("name_wo_extlong", "s.name_wo_extlong()", "v", lambda x, S, P, c, a, b: pop_left(x, S, DOT, 0), "")
e("extshort", "s.extshort()", "v", lambda x, S, P, c, a, b: pop_right(x, S, DOT, 0), "")
e("extlong", "s.extlong()", "v", lambda x, S, P, c, a, b: gpop_right(x, S, DOT, 0), "")


# --- number spans
def isd(x, ch, radix):
    if x.inr(ch, 48, 48 + min(10, radix) - 1):
        return True
    return radix == 16 and (x.inr(ch, 97, 102) or x.inr(ch, 65, 70))


def nonempty(x, S):
    i = first_where(x, S, 0, lambda h: not x.isin(h, WS))
    if i == NPOS:
        return (0, 0)
    j = first_where(x, S, i, lambda h: x.isin(h, WS))
    return (i, (len(S) if j == NPOS else j) - i)


PFX = {16: "xX", 2: "bB", 8: "oO"}


def int_span(x, S, signed):
    o, n = nonempty(x, S)
    if n == 0:
        return (0, 0)
    T = S[o:o + n]
    i = 0
    if x.eq(T[0], 45):
        if not signed:
            return (0, 0)
        i = 1
    elif x.eq(T[0], 43):
        i = 1
    radix = 10
    if n >= i + 3 and x.eq(T[i], 48):
        for r, ch in PFX.items():
            if x.isin(T[i + 1], ch):
                radix = r
                i += 2
                break
    j = i
    while j < n and isd(x, T[j], radix):
        j += 1
    if j == i:
        return (0, 0)
    if j == n or x.isin(T[j], DELIM):
        return (o, j)
    return (0, 0)


def real_span(x, S):
    o, n = nonempty(x, S)
    if n == 0:
        return (0, 0)
    T = S[o:o + n]
    i = 1 if x.isin(T[0], "+-") else 0
    radix = 10
    if n >= i + 3:
        for first, words in (("i", ("infinity", "inf")), ("n", ("nan",))):
            if x.eq(T[i], ord(first)):
                for w in words:
                    if eqat(x, T, i, q(w)) and (n == i + len(w) or x.isin(T[i + len(w)], DELIM)):
                        return (o, i + len(w))
                return (0, 0)
        if x.eq(T[i], 48):
            for r, ch in PFX.items():
                if x.isin(T[i + 1], ch):
                    radix = r
                    i += 2
                    break
    dig = 0
    while i < n and isd(x, T[i], radix):
        i += 1
        dig += 1
    if i < n and x.eq(T[i], 46):
        i += 1
        while i < n and isd(x, T[i], radix):
            i += 1
            dig += 1
    if dig == 0:
        return (0, 0)
    if i == n:
        return (o, n)
    if x.isin(T[i], "eE" if radix == 10 else "pP"):
        i += 1
        if radix == 10:
            if i < n and x.isin(T[i], "+-"):
                i += 1
        else:
            if not (i < n and x.isin(T[i], "+-")):
                return (0, 0)
            i += 1
        j = i
        while j < n and isd(x, T[j], 10):
            j += 1
        if j == i:
            return (0, 0)
        i = j
        if i == n:
            return (o, n)
    if x.isin(T[i], DELIM):
        return (o, i)
    return (0, 0)


def full(S, v):
    return len(S) > 0 and v == (0, len(S))


e("first_non_empty_span", "s.first_non_empty_span()", "v", lambda x, S, P, c, a, b: nonempty(x, S), "")
e("first_uint_span", "s.first_uint_span()", "v", lambda x, S, P, c, a, b: int_span(x, S, 0), "")
e("first_int_span", "s.first_int_span()", "v", lambda x, S, P, c, a, b: int_span(x, S, 1), "")
e("first_real_span", "s.first_real_span()", "v", lambda x, S, P, c, a, b: real_span(x, S), "", lens="num")
e("is_unsigned_integer", "s.is_unsigned_integer()", "b", lambda x, S, P, c, a, b: full(S, int_span(x, S, 0)), "", unb=False)
e("is_integer", "s.is_integer()", "b", lambda x, S, P, c, a, b: full(S, int_span(x, S, 1)), "", unb=False)
e("is_real", "s.is_real()", "b", lambda x, S, P, c, a, b: full(S, real_span(x, S)), "", lens="num", unb=False)
e("is_number", "s.is_number()", "b", lambda x, S, P, c, a, b: full(S, int_span(x, S, 1)) or full(S, real_span(x, S)), "", lens="num", unb=False)


def witness(cat, ty="csubstr", ch="const char"):
    src = HDR + "struct R { size_t n; const char *p; };\n"
    for k in cat:
        sig = "W void s_%s(R *o, %s *sp, size_t sn, const char *pp, size_t pn, char c, char d, size_t a, size_t b)" % (k.name, ch)
        body = "%s s(sp, sn); csubstr p(pp, pn); (void)p; (void)c; (void)d; (void)a; (void)b; " % ty
        if k.body:
            body += k.body
        elif k.kind == "n":
            body += "o->n = %s;" % k.expr
        elif k.kind == "b":
            body += "o->n = size_t(%s);" % k.expr
        elif k.kind == "i":
            body += "int r = %s; o->n = r < 0 ? size_t(0) : (r == 0 ? size_t(1) : size_t(2));" % k.expr
        elif k.kind == "v":
            body += "auto v = %s; o->n = v.len; o->p = v.str;" % k.expr
        src += sig + " { " + body + " }\n"
    return src


def mkargs(k, n, pn, null=False, ab=None, head='', phead=''):
    def mk(I):
        so, sn = strobj(I, "s", n)
        po, pl = strobj(I, "p", pn)
        out = Obj("out", "o", 1024)
        c = I.sym("c", 0, 255, "char")
        d = I.sym("d", 0, 255, "char")
        a = I.sym("a", 0, NPOS, "in") if "a" in k.params else ZERO
        b = I.sym("b", 0, NPOS, "in") if "b" in k.params else ZERO
        if ab:
            a, b = Lin(ab[0]), Lin(ab[1])
        args = [Ptr(out, ZERO), Ptr(NULLOBJ, ZERO) if null else Ptr(so, ZERO), sn, Ptr(po, ZERO), pl, c, d, a, b]

        def setup(s):
            if k.pre:
                for f in k.pre(sn, a, b):
                    s.st.add_ge(s.st.norm(f))
            for o, h in ((so, head), (po, phead)):
                for i, ch in enumerate(h):
                    if ch != "\0":       # "\0": any character
                        s.st.add_eq(X(I, s).init(o, i) - ord(ch))
        return args, (so, sn, po, pl, out, c, d, a, b), setup
    return mk


def sizes(k, n, npos=True):
    """admissible concrete size arguments for a string of length n"""
    out = []
    va = list(range(n + 2)) + ([NPOS] if npos else [])
    for a in va if "a" in k.params else [0]:
        for b in va if "b" in k.params else [0]:
            if not k.pre or all(f.c >= 0 for f in k.pre(Lin(n), Lin(a), Lin(b))):
                out.append((a, b))
    return out


def show(h):
    return "'%s'" % h.replace("\0", "?")


def exact(k, n, pn, null=False, ab=None, head='', phead=''):
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        x.cl = d
        S = x.text(so, n)
        P = x.text(po, pn)
        want = k.ref(x, S, P, c, a, b)
        got = x.out(out, 0)
        if k.kind == "n":
            return expect_int(x, got, want)
        if k.kind == "b":
            return expect_int(x, got, 1 if want else 0)
        if k.kind == "i":
            return expect_int(x, got, want + 1, "sign of the result plus one")
        if k.kind == "v":
            return expect_view(x, x.out(out, 8, "p"), got, so, want[0], want[1])
    case = Case("%s/len %d%s%s%s" % (k.name, n, ("/pattern %d" % pn) if "p" in k.params else "", "/null" if null else "", ("/sizes %d,%d" % ab if ab else "") + ("/text %s" % show(head) if head else "") + ("/pattern %s" % show(phead) if phead else "")),
                "s_" + k.name, mkargs(k, n, pn, null, ab, head, phead), spec)
    if k.name == "pair_range":
        def permitted(x, env):
            # there must be no nested pairs
            x.cl = env[6]
            S = x.text(env[0], n)
            o, l = pair_range(x, S, None, env[5], 0, 0)
            return not any(x.eq(S[i], env[5]) for i in range(o + 1, o + l))
        case.permitted = permitted
    return case


# --- several results
def fany(x, S, pats):
    for i in range(len(S)):
        for w, p in enumerate(pats):
            if eqat(x, S, i, p):
                return (w, i)
    return (NPOS, NPOS)


def pieces(x, S, c, a):
    if len(S) == 0:
        return []
    out = []
    b = a
    for i in range(a, len(S)):
        if x.eq(S[i], c):
            out.append((b, i - b))
            b = i + 1
    out.append((b, len(S) - b))
    return out


MULTI = []


def em(*a, **k):
    MULTI.append(E(*a, **k))


em("first_of_any2", None, "nn", lambda x, S, P, c, a, b: fany(x, S, [P, [c]]), "pc", body="char cc[2] = {c, 0}; auto r = s.first_of_any(p, csubstr(cc, 1)); o->n = r.which; o[1].n = r.pos; o[2].n = bool(r);")
em("first_of_any3", None, "nn", lambda x, S, P, c, a, b: fany(x, S, [[c], P, [x.cl]]), "pcd", body="char cc[2] = {c, d}; auto r = s.first_of_any(csubstr(cc, 1), p, csubstr(cc + 1, 1)); o->n = r.which; o[1].n = r.pos; o[2].n = bool(r);")
em("first_of_any4", None, "nn", lambda x, S, P, c, a, b: fany(x, S, [[c, c], [c], P, [x.cl]]), "pcd", body="char cc[3] = {c, c, d}; auto r = s.first_of_any(csubstr(cc, 2), csubstr(cc, 1), p, csubstr(cc + 2, 1)); o->n = r.which; o[1].n = r.pos; o[2].n = bool(r);")
em("first_of_any5", None, "nn", lambda x, S, P, c, a, b: fany(x, S, [[c, c], [c, x.cl], [c], P, [x.cl]]), "pcd", body="char cc[3] = {c, c, d}; auto r = s.first_of_any(csubstr(cc, 2), csubstr(cc + 1, 2), csubstr(cc, 1), p, csubstr(cc + 2, 1)); o->n = r.which; o[1].n = r.pos; o[2].n = bool(r);")
em("split", None, "vv", lambda x, S, P, c, a, b: pieces(x, S, c, 0), "c", body="size_t k = 0; for(auto v : s.split(c)) { ++k; if(k < 60) { o[k].n = v.len; o[k].p = v.str; } } o->n = k;")
em("split_at", None, "vv", lambda x, S, P, c, a, b: pieces(x, S, c, x.const(a)), "ca", A_lt, body="size_t k = 0; for(auto v : s.split(c, a)) { ++k; if(k < 60) { o[k].n = v.len; o[k].p = v.str; } } o->n = k;")
em("next_split", None, "vv", lambda x, S, P, c, a, b: pieces(x, S, c, 0), "c", body="size_t k = 0, pos = 0; csubstr v; while(s.next_split(c, &pos, &v)) { ++k; if(k < 60) { o[k].n = v.len; o[k].p = v.str; } } o->n = k;")
em("split_post", None, "vv", lambda x, S, P, c, a, b: pieces(x, S, c, 0), "c", body="size_t k = 0; auto pr = s.split(c); for(auto it = pr.begin(), e = pr.end(); !(it == e); ) { ++k; auto w = it++; if(k < 60) { o[k].n = w->len; o[k].p = (*w).str; } } o->n = k;")


def multi(k, n, pn, ab, head='', phead=''):
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        x.cl = d
        want = k.ref(x, x.text(so, n), x.text(po, pn), c, a, b)
        if k.kind == "nn":
            return expect_int(x, x.out(out, 0), want[0], "which") or expect_int(x, x.out(out, 16), want[1], "position") \
                or expect_int(x, x.out(out, 32), 0 if want[0] == NPOS else 1, "found flag")
        r = expect_int(x, x.out(out, 0), len(want), "number of pieces")
        for i, (o, l) in enumerate(want):
            r = r or expect_view(x, x.out(out, 16 * (i + 1) + 8, "p"), x.out(out, 16 * (i + 1)), so, o, l, "piece %d" % i)
        return r
    return Case("%s/len %d/pattern %d/sizes %d,%d%s%s" % ((k.name, n, pn) + ab + ("/text " + show(head) if head else "", "/pattern " + show(phead) if phead else "")),
                "s_" + k.name, mkargs(k, n, pn, False, ab, head, phead), spec)


# beginnings of numbers: what follows is free
HEADS = ["-", "+", "0x", "-0x", "0b", "+0b", "0o", "-0O", "0X", "0B", "1.", "-.5", "1e", "+1E", "1e-", "12.5e+", "0x1p", "0x1P+", "0x.8", "0xa.p-", "0b1p",
         "0b1.1p+", "0o7p", "0o7.1P-", "0o17p+3", "in", "-inf", "infinit", "+infinity", "n", "-nan", " 0x", "\t-", "0e", "00", "1p", "0xe", "0b2", "0o8", "98", "0.0", "7,", "1]"]


def longtexts(n):
    """texts of n characters, all but two of them fixed: (text, patterns)"""
    if Check.master:
        return []
    out = []
    fill = ("a" * n, ("abcab" * n)[:n])
    for f in fill:
        for w in (0, n // 2, n - 2):
            out.append(f[:w] + "\0\0" + f[w + 2:])
    return out


def longpats(n):
    return ["\0", "\0a", "aaaaa\0", "bcabca\0", "abcababcab"[:9] + "\0"]


def someat(k, n):
    ok = []
    for a, b in sizes(k, n):
        if all(v in (0, 1, 8, n - 1, n, NPOS) for v in (a, b)):
            ok.append((a, b))
    return ok
