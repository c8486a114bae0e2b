"""spans: views of elements, with and without capacity"""
from spec import *
from spec import _l

ck = Check("C12")
T = ck.thorough
TY = [("iz", "int", "size_t", 4, 64, 0), ("iu", "int", "uint32_t", 4, 32, 0), ("ii", "int", "int", 4, 32, 1), ("cz", "signed char", "size_t", 1, 64, 0), ("ds", "double const", "size_t", 8, 64, 0)]
KL = [("span", 0), ("spanrs", 1), ("spanrsl", 2)]
# op -> (statement giving a span, element pointer or number; precondition; reference)
#  state (o, n, cap, off): pointer index, size, capacity, offset
SEL = [
    ("subspan2", "auto r = s.subspan((I)a, (I)b);", lambda n, c, a, b: [n - a - b], lambda o, n, c, f, a, b: (o + a, b, c - a, f + a)),
    ("subspan1", "auto r = s.subspan((I)a);", lambda n, c, a, b: [n - a], lambda o, n, c, f, a, b: (o + a, n - a, c - a, f + a)),
    ("range2", "auto r = s.range((I)a, (I)b);", lambda n, c, a, b: [n - b, b - a], lambda o, n, c, f, a, b: (o + a, b - a, c - a, f + a)),
    ("range1", "auto r = s.range((I)a);", lambda n, c, a, b: [n - a], lambda o, n, c, f, a, b: (o + a, n - a, c - a, f + a)),
    ("first", "auto r = s.first((I)a);", lambda n, c, a, b: [n - a], lambda o, n, c, f, a, b: (o, a, c, f)),
    ("last", "auto r = s.last((I)a);", lambda n, c, a, b: [n - a], lambda o, n, c, f, a, b: (o + n - a, a, c - n + a, f + n - a)),
    ("resize", "S r = s; r.resize((I)a);", lambda n, c, a, b: [c - a], lambda o, n, c, f, a, b: (o, a, c, f)),
    ("rtrim", "S r = s; r.rtrim((I)a);", lambda n, c, a, b: [n - a - 1], lambda o, n, c, f, a, b: (o, n - a, c, f)),
    ("ltrim", "S r = s; r.ltrim((I)a);", lambda n, c, a, b: [n - a - 1], lambda o, n, c, f, a, b: (o + a, n - a, c - a, f + a)),
    ("clear", "S r = s; r.clear();", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o, ZERO, c, f)),
    ("copy", "S r(s); S q; q = r; r = q;", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o, n, c, f)),
    ("constcv", "typename S::const_type r = s;", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o, n, c, f)),
    ("assign2", "S r; r.assign(s.data() + (I)a, (I)b);", lambda n, c, a, b: [n - a - b], lambda o, n, c, f, a, b: (o + a, b, b, ZERO)),
    ("tospan", "span<E, I> r = s;", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o, n, n, ZERO)),
]
SELX = {
    "spanrs": [("assign3", "S r; r.assign(s.data() + (I)a, (I)b, s.capacity());", lambda n, c, a, b: [c - a, c - b], lambda o, n, c, f, a, b: (o + a, b, c, ZERO))],
    "spanrsl": [("original", "auto r = s.original();", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o - f, c + f, c + f, ZERO)),
                ("originalrs", "auto r = s.template original<spanrs>();", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o - f, c + f, c + f, ZERO)),
                ("tospanrs", "spanrs<E, I> r = s;", lambda n, c, a, b: [], lambda o, n, c, f, a, b: (o, n, c, ZERO)),
                ("assign4", "S r; r.assign(s.data(), (I)a, s.capacity(), s.offset());", lambda n, c, a, b: [c - a], lambda o, n, c, f, a, b: (o, a, c, f)),
                ("trimorig", "S t = s; t.ltrim((I)a); t.rtrim((I)b); auto r = t.original();", lambda n, c, a, b: [n - a - b - 1], lambda o, n, c, f, a, b: (o - f, c + f, c + f, ZERO)),
                ("selorig", "auto r = s.subspan((I)a, (I)b).original();", lambda n, c, a, b: [n - a - b], lambda o, n, c, f, a, b: (o - f, c + f, c + f, ZERO))]}
PTRS = [("data", "s.data()", lambda n, a: [], lambda o, n, a: o), ("cdata", "cs.data()", lambda n, a: [], lambda o, n, a: o),
        ("front", "&s.front()", lambda n, a: [n - 1], lambda o, n, a: o), ("cfront", "&cs.front()", lambda n, a: [n - 1], lambda o, n, a: o),
        ("back", "&s.back()", lambda n, a: [n - 1], lambda o, n, a: o + n - 1), ("cback", "&cs.back()", lambda n, a: [n - 1], lambda o, n, a: o + n - 1),
        ("at", "&s[(I)a]", lambda n, a: [n - 1 - a], lambda o, n, a: o + a), ("cat", "&cs[(I)a]", lambda n, a: [n - 1 - a], lambda o, n, a: o + a),
        ("begin", "s.begin()", lambda n, a: [], lambda o, n, a: o), ("cbegin", "cs.begin()", lambda n, a: [], lambda o, n, a: o), ("ccbegin", "cs.cbegin()", lambda n, a: [], lambda o, n, a: o),
        ("end", "s.end()", lambda n, a: [], lambda o, n, a: o + n), ("cend", "cs.end()", lambda n, a: [], lambda o, n, a: o + n), ("ccend", "s.cend()", lambda n, a: [], lambda o, n, a: o + n),
        ("rbegin", "s.rbegin().base()", lambda n, a: [], lambda o, n, a: o + n), ("crbegin", "cs.rbegin().base()", lambda n, a: [], lambda o, n, a: o + n), ("ccrbegin", "s.crbegin().base()", lambda n, a: [], lambda o, n, a: o + n),
        ("rend", "s.rend().base()", lambda n, a: [], lambda o, n, a: o), ("crend", "cs.rend().base()", lambda n, a: [], lambda o, n, a: o), ("ccrend", "s.crend().base()", lambda n, a: [], lambda o, n, a: o)]
NUMS = [("size", "s.size()", lambda x, n, c, f, w: n), ("capacity", "s.capacity()", lambda x, n, c, f, w: c), ("empty", "s.empty()", lambda x, n, c, f, w: Lin(1) if x.eq(n, 0) else ZERO),
        ("byte_size", "s.byte_size()", lambda x, n, c, f, w: n.scale(w)), ("value_size", "s.value_size()", lambda x, n, c, f, w: Lin(w)), ("elm_size", "s.elm_size()", lambda x, n, c, f, w: Lin(w)), ("type_size", "s.type_size()", lambda x, n, c, f, w: Lin(w))]
RELS = [("is_subspan", "s.is_subspan(q)"), ("same_span", "s.same_span(q)"), ("same_span2", "s.same_span(q2)"), ("compll", "auto r = s.compll(q);"), ("complr", "auto r = s.complr(q);")]
OPS = [("eq", "=="), ("ne", "!="), ("lt", "<"), ("le", "<="), ("gt", ">"), ("ge", ">=")]


def source(t, K):
    tag, el, ix, w, bits, sg = t
    cls, lv = K
    S = "#include <c4/span.hpp>\n" + HDR + "using E = %s; using I = %s; using S = %s<E, I>;\nstruct O { void const *p; size_t n, c, f; };\n" % (el, ix, cls)
    A = "E *base, size_t o, size_t n, size_t c, size_t f"
    mk = "S s(base + o, (I)n%s);" % ["", ", (I)c", ", (I)c, (I)f"][lv] + " S const& cs = s; (void)cs;"
    S += "template<class R> static inline size_t cap_(R const& r) { return (size_t)r.capacity(); }\ntemplate<class X, class J> static inline size_t off_(spanrsl<X, J> const& r) { return (size_t)r.offset(); }\ntemplate<class R> static inline size_t off_(R const&) { return 0; }\n"
    for nm, st, pre, ref in SEL + SELX.get(cls, []):
        S += "W void s_%s(O *out, %s, size_t a, size_t b) { %s %s out->p = r.data(); out->n = (size_t)r.size(); out->c = cap_(r); out->f = off_(r); }\n" % (nm, A, mk, st)
    for nm, st, pre, ref in PTRS:
        S += "W void const* p_%s(%s, size_t a) { %s return %s; }\n" % (nm, A, mk, st)
    for nm, st, ref in NUMS:
        S += "W size_t n_%s(%s) { %s return (size_t)(%s); }\n" % (nm, A, mk, st)
    for nm, st in RELS:
        q = " S q(base + qo, (I)qn%s); span<E, I> q2(base + qo, (I)qn); (void)q2;" % ["", ", (I)qn", ", (I)qn, 0"][lv]
        if ";" in st:
            S += "W void r_%s(O *out, %s, size_t qo, size_t qn) { %s%s %s out->p = r.data(); out->n = (size_t)r.size(); out->c = 0; out->f = 0; }\n" % (nm, A, mk, q, st)
        else:
            S += "W bool r_%s(%s, size_t qo, size_t qn) { %s%s return %s; }\n" % (nm, A, mk, q, st)
    S += "W void a_ctor(O *out, E (&arr)[5]) { S r(arr); out->p = r.data(); out->n = (size_t)r.size(); out->c = cap_(r); out->f = off_(r); }\n"
    S += "W void a_assign(O *out, E (&arr)[5]) { S r; r.assign(arr); out->p = r.data(); out->n = (size_t)r.size(); out->c = cap_(r); out->f = off_(r); }\n"
    S += "W void a_default(O *out, E (&arr)[5]) { S r; out->p = r.data(); out->n = (size_t)r.size(); out->c = cap_(r); out->f = off_(r); }\n"
    if w == 1:
        for nm, op in OPS:
            S += "W bool c_%s(E *x, size_t n, E *y, size_t m) { S s(x, (I)n); span<E, I> q(y, (I)m); return s %s q; }\n" % (nm, op)
            S += "W bool k_%s(E *x, size_t n, E *y, size_t m) { S s(x, (I)n); S q(y, (I)m); return s %s q; }\n" % (nm, op)
    return S


def base(I, t, lv):
    """a span inside an array of any size"""
    tag, el, ix, w, bits, sg = t
    mx = min(1 << 40, (1 << (bits - sg)) - 1)
    N = I.sym("elements", 0, mx, "len")
    ob = Obj("buf", "array", N.scale(w))
    o, n = I.sym("start", 0, mx, "in"), I.sym("size", 0, mx, "in")
    c = I.sym("capacity", 0, mx, "in") if lv else n
    f = I.sym("offset", 0, mx, "in") if lv > 1 else ZERO
    con = [N - o - c, c - n, o - f]
    return ob, N, o, n, c, f, con, mx


def sel_case(t, K, d, tag):
    nm, st, pre, ref = d

    def mk(I):
        ob, N, o, n, c, f, con, mx = base(I, t, K[1])
        a, b = I.sym("a", 0, mx, "in"), I.sym("b", 0, mx, "in")
        out = Obj("out", "result", 32)

        def setup(s):
            for e in con + pre(n, c, a, b):
                s.st.add_ge(e)
        return [Ptr(out, ZERO), Ptr(ob, ZERO), o, n, c, f, a, b], (ob, o, n, c, f, a, b, out), setup

    def spec(x, env, s):
        ob, o, n, c, f, a, b, out = env
        eo, en, ec, ef = ref(o, n, c, f, a, b)
        if K[1] == 0:
            ec = en
        p = x.out(out, 0, "p")
        if not isinstance(p, Ptr) or p.obj is not ob or not x.eq(p.off, _l(eo).scale(t[3])):
            return "starts at %r, expected element %r" % (p, eo)
        m = expect_int(x, x.out(out, 8), en, "size") or expect_int(x, x.out(out, 16), ec, "capacity")
        if not m and K[1] == 2 and nm not in ("originalrs", "tospanrs", "tospan"):
            m = expect_int(x, x.out(out, 24), ef, "offset")
        return m
    return Case("%s<%s>::%s" % (K[0], tag, nm), "s_" + nm, mk, spec)


def ptr_case(t, K, d, tag):
    nm, st, pre, ref = d

    def mk(I):
        ob, N, o, n, c, f, con, mx = base(I, t, K[1])
        a = I.sym("a", 0, mx, "in")

        def setup(s):
            for e in con + pre(n, a):
                s.st.add_ge(e)
        return [Ptr(ob, ZERO), o, n, c, f, a], (ob, o, n, a), setup

    def spec(x, env, s):
        ob, o, n, a = env
        p = s.retval
        if not isinstance(p, Ptr) or p.obj is not ob or not x.eq(p.off, _l(ref(o, n, a)).scale(t[3])):
            return "address is %r, expected element %r" % (p, ref(o, n, a))
    return Case("%s<%s>::%s" % (K[0], tag, nm), "p_" + nm, mk, spec)


def num_case(t, K, d, tag):
    nm, st, ref = d

    def mk(I):
        ob, N, o, n, c, f, con, mx = base(I, t, K[1])

        def setup(s):
            for e in con + ([Lin(((1 << (t[4] - t[5])) - 1) // t[3]) - n] if nm == "byte_size" else []):
                s.st.add_ge(e)
        return [Ptr(ob, ZERO), o, n, c, f], (n, c, f), setup

    def spec(x, env, s):
        n, c, f = env
        return expect_int(x, rint(x.I, s, s.retval, 64), ref(x, n, c, f, t[3]))
    return Case("%s<%s>::%s" % (K[0], tag, nm), "n_" + nm, mk, spec)


def rel_case(t, K, nm, tag):
    def mk(I):
        ob, N, o, n, c, f, con, mx = base(I, t, K[1])
        qo, qn = I.sym("qstart", 0, mx, "in"), I.sym("qsize", 0, mx, "in")
        out = Obj("out", "result", 32)

        def setup(s):
            for e in con + [N - qo - qn]:
                s.st.add_ge(e)
        a = [Ptr(ob, ZERO), o, n, c, f, qo, qn]
        return ([Ptr(out, ZERO)] if nm.startswith("comp") else []) + a, (ob, o, n, qo, qn, out), setup

    def spec(x, env, s):
        ob, o, n, qo, qn, out = env
        if nm == "is_subspan":
            return expect_int(x, rint(x.I, s, s.retval, 1), 1 if x.ge(qo, o) and x.le(qo + qn, o + n) else 0)
        if nm.startswith("same"):
            return expect_int(x, rint(x.I, s, s.retval, 1), 1 if x.eq(qo, o) and x.eq(qn, n) else 0)
        if nm == "compll":
            e = (o, qo - o) if x.ge(qo, o) and x.le(qo, o + n) else (o, ZERO)
        else:
            e = (qo + qn, o + n - qo - qn) if x.ge(qo + qn, o) and x.le(qo + qn, o + n) else (o, ZERO)
        return expect_view(x, x.out(out, 0, "p"), x.out(out, 8), ob, e[0].scale(t[3]), e[1])
    return Case("%s<%s>::%s" % (K[0], tag, nm), "r_" + nm, mk, spec)


def arr_case(t, K, nm, tag):
    def mk(I):
        ob, out = Obj("buf", "array", Lin(5 * t[3])), Obj("out", "result", 32)
        return [Ptr(out, ZERO), Ptr(ob, ZERO)], (ob, out), None

    def spec(x, env, s):
        ob, out = env
        n = 0 if nm == "a_default" else 5
        return expect_view(x, x.out(out, 0, "p"), x.out(out, 8), ob, 0, n) or expect_int(x, x.out(out, 16), n, "capacity") or expect_int(x, x.out(out, 24), 0, "offset")
    return Case("%s<%s>::%s" % (K[0], tag, nm), nm, mk, spec)


def order(x, a, b, i):
    """-1, 0, 1 for element i of two arrays of signed bytes"""
    l, q = x.init(a, i), x.init(b, i)
    if x.eq(l, q):
        return 0
    sl, sq = x.ge(l, 128), x.ge(q, 128)
    if sl != sq:
        return -1 if sl else 1
    return -1 if x.lt(l, q) else 1


def cmp_case(t, K, nm, op, n, m, tag):
    def mk(I):
        a, b = Obj("buf", "left", Lin(n * t[3])), Obj("buf", "right", Lin(m * t[3]))
        return [Ptr(a, ZERO), Lin(n), Ptr(b, ZERO), Lin(m)], (a, b), None

    def spec(x, env, s):
        a, b = env
        r = 0
        for i in range(min(n, m)):
            r = order(x, a, b, i)
            if r:
                break
        if r == 0:
            r = (n > m) - (n < m)
        want = {"==": r == 0, "!=": r != 0, "<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0}[op]
        return expect_int(x, rint(x.I, s, s.retval, 1), 1 if want else 0)
    return Case("%s<%s> %s/%d,%d" % (K[0], tag, op, n, m), nm, mk, spec)


def go(m, c, r):
    I, fs = run_case(m, c, r)
    memcheck(r, I, c.entry, objs=("array", "left", "right", "result"))


ncase = 0
for std in (17, 11):
    for t in TY if T or std == 17 else [TY[0], TY[3]]:
        for K in KL:
            tag = "%s,%s" % (t[1], t[2]) + ("" if std == 17 else " c++11")
            m = ck.ir("%s_%s_%d" % (t[0], K[0], std), source(t, K), std="c++%d" % std)
            if not m:
                continue
            cs = [sel_case(t, K, d, tag) for d in SEL + SELX.get(K[0], [])] + [ptr_case(t, K, d, tag) for d in PTRS] + [num_case(t, K, d, tag) for d in NUMS]
            cs += [rel_case(t, K, nm, tag) for nm, _ in RELS] + [arr_case(t, K, nm, tag) for nm in ("a_ctor", "a_assign", "a_default")]
            if t[3] == 1:
                for nm, op in OPS:
                    for n in range(0, 4 + T):
                        for q in range(0, 4 + T):
                            cs.append(cmp_case(t, K, "c_" + nm, op, n, q, tag))
                            if K[1]:
                                cs.append(cmp_case(t, K, "k_" + nm, op, n, q, tag))
            ncase += len(cs)
            for c in cs:
                ck.task(c.name, lambda r, c=c, m=m: go(m, c, r))
ck.run()
ck.finish("every span operation gives exactly the documented elements, size, capacity and offset, for any span inside any array; comparisons are element-wise lexicographic; nothing outside the spans is accessed",
          "abstract interpretation of span, spanrs and spanrsl over several element and index types: array size, span position, size, capacity, offset and arguments all symbolic (exact: no loops); comparisons for all contents of short lengths; c++17 and c++11",
          ["arguments respect the asserted preconditions", "sizes representable in the index type and below 2^40"], {"cases": ncase})
