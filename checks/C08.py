from subcat import *
from slices import SL

ck = Check("C08")
TYPES = [("c", "csubstr", "const char"), ("m", "substr", "char")]
mods = {}
for t, ty, ch in TYPES:
    mods[t] = ck.ir("sl_" + t, witness(SL, ty, ch))


def slice_case(k, t):
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        o, n = k.ref(sn, a, b)
        return expect_view(x, x.out(out, 8, "p"), x.out(out, 0), so, o, n)
    return Case("%s::%s" % (t, k.name), "s_" + k.name, mkargs(k, None, 0), spec)


# relations between views of one buffer
REL = '''
W bool is_super(const char *s, size_t n, size_t a, size_t b, size_t c, size_t d) { return csubstr(s + a, b).is_super(csubstr(s + c, d)); }
W bool is_sub(const char *s, size_t n, size_t a, size_t b, size_t c, size_t d) { return csubstr(s + c, d).is_sub(csubstr(s + a, b)); }
W bool overlaps(const char *s, size_t n, size_t a, size_t b, size_t c, size_t d) { return csubstr(s + a, b).overlaps(csubstr(s + c, d)); }
W bool empty(const char *s, size_t n) { return csubstr(s, n).empty(); }
W bool not_empty(const char *s, size_t n) { return csubstr(s, n).not_empty(); }
W bool has_str(const char *s, size_t n) { return csubstr(s, n).has_str(); }
W size_t size(const char *s, size_t n) { return csubstr(s, n).size(); }
'''
mr = ck.ir("rel", HDR + REL)


def rel_case(name):
    def mk(I):
        so, sn = strobj(I, "s", None)
        v = [I.sym(z, 0, 1 << 40, "in") for z in "abcd"]

        def setup(s):
            s.st.add_ge(sn - v[0] - v[1])
            s.st.add_ge(sn - v[2] - v[3])
        return [Ptr(so, ZERO), sn] + v, (so, sn, v), setup

    def spec(x, env, s):
        so, sn, (a, b, c, d) = env
        if name == "overlaps":
            if x.eq(b, 0) or x.eq(d, 0):
                return None      # at least one common element is impossible; adjacency conventions vary
            want = x.gt(c + d, a) and x.lt(c, a + b)
        elif x.gt(b, 0):
            want = x.ge(c, a) and x.le(c + d, a + b)
        else:
            want = x.eq(d, 0) and x.eq(a, c)
        return expect_int(x, rint(x.I, s, s.retval, 1), 1 if want else 0)
    return Case(name, name, mk, spec)


def q_case(name):
    def mk(I):
        so, sn = strobj(I, "s", None)
        return [Ptr(so, ZERO), sn], (so, sn), None

    def spec(x, env, s):
        so, sn = env
        if name == "size":
            return expect_int(x, rint(x.I, s, s.retval, 64), sn)
        e = x.eq(sn, 0)
        want = {"empty": e, "not_empty": not e, "has_str": (not e) and not x.eq(x.init(so, 0), 0)}[name]
        return expect_int(x, rint(x.I, s, s.retval, 1), 1 if want else 0)
    return Case(name, name, mk, spec)


# views of zero-terminated text, of arrays, and of nothing
CS = HDR + "struct V { size_t n; void const *p; };\n"
CSN = {}


def _cs():
    t = ""
    for ty, C in (("csubstr", "const char"), ("substr", "char")):
        q = ty[0]
        for nm, body in (("ctor", "%s v(p);" % ty), ("assign", "%s v; v.assign(p);" % ty), ("set", "%s v; v = p;" % ty), ("to", "%s v = to_%s(p);" % (ty, ty)), ("re", '%s v(p, 1); v = p;' % ty)):
            t += "W void z_%s_%s(V *o, %s *p) { %s o->n = v.len; o->p = v.str; }\n" % (q, nm, C, body)
            CSN["z_%s_%s" % (q, nm)] = "z"
        for nm, body in (("assign", "%s v; v.assign(*(%s(*)[5])p);" % (ty, C)), ("set", "%s v; v = *(%s(*)[5])p;" % (ty, C)), ("ctor", "%s v(*(%s(*)[5])p);" % (ty, C)), ("to", "%s v = to_%s(*(%s(*)[5])p);" % (ty, ty, C))):
            t += "W void a_%s_%s(V *o, %s *p) { %s o->n = v.len; o->p = v.str; }\n" % (q, nm, C, body)
            CSN["a_%s_%s" % (q, nm)] = "a"
        for nm, body in (("ctor", "%s v(nullptr);" % ty), ("dflt", "%s v;" % ty), ("set", "%s v(p, 1); v = nullptr;" % ty), ("clear", "%s v(p, 1); v.clear();" % ty)):
            t += "W void n_%s_%s(V *o, %s *p) { %s o->n = v.len; o->p = v.str; }\n" % (q, nm, C, body)
            CSN["n_%s_%s" % (q, nm)] = "n"
    return t


mz = ck.ir("cs", CS + _cs(), keep=["strlen"])


def h_strlen(I, s, a, ins):
    p = a[0]
    if not isinstance(p, Ptr):
        raise Unsupported("strlen")
    for i in range(100):
        c = I.U(s, I.asint(s, I.load(s, Ptr(p.obj, s.st.norm(p.off + i)), 1, "i", 8, ins.get("loc")), 8), 8)
        z = s.st.decide(("eq", c))
        if z is None:
            raise Split([("eq", c), ("ge", c - 1)], "strlen")
        if z:
            return Lin(i)
    raise Unsupported("strlen")


def cs_case(nm, n, null):
    k = CSN[nm]

    def mk(I):
        o = Obj("buf", "s", n)
        out = Obj("out", "o", 16)

        def setup(s):
            if k == "z" and not null:
                s.st.add_eq(X(I, s).init(o, n - 1))
        return [Ptr(out, ZERO), NULL if null else Ptr(o, ZERO)], (o, out), setup

    def spec(x, env, s):
        o, out = env
        p, ln = x.out(out, 8, "p"), x.out(out, 0)
        want = 4
        if k == "z" and not null:
            want = next(i for i in range(n) if x.eq(x.init(o, i), 0))
        elif k == "n" or null:
            if isinstance(p, Ptr) and p.obj is not None and p != NULL:
                return "the view points to %r, expected null" % (p,)
            return expect_int(x, ln, 0, "length")
        return expect_view(x, p, ln, o, ZERO, Lin(want)) if want else expect_int(x, ln, 0, "length")
    return Case("%s/%s" % (nm, "null" if null else n), nm, mk, spec)


def cs_go(c, r):
    I, fs = run_case(mz, c, r, ext={"strlen": h_strlen})
    memcheck(r, I, c.entry)


# containment for strings of any length
mc = ck.ir("cont", witness(CAT + MULTI))


def contained(k, pn, n=None, ab=None):
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        got = x.out(out, 0)
        if k.kind == "v":
            return within(x, x.out(out, 8, "p"), got, so, sn)
        if k.kind == "n" and not k.name.startswith("count"):
            if x.eq(got, NPOS):
                return None
            # the empty pattern is found one past the last character
            last = sn - 1 if k.name.startswith(("first", "last")) or "_c" in k.name else sn - pl
            return None if x.le(got, last) else "position %r is not inside the string" % x.s.st.norm(got)
        return None
    c = Case("%s/%s" % (k.name, "any length" if n is None else "length %d/%r" % (n, (pn, ab))), "s_" + k.name, mkargs(k, n, pn, False, ab), spec)
    if n is not None and k.name == "pair_range":
        c.permitted = exact(k, n, pn).permitted
    return c


for t, ty, ch in TYPES:
    if mods[t]:
        for k in SL:
            c = slice_case(k, t)
            ck.task(c.name, lambda r, c=c, t=t: run_case(mods[t], c, r))
if mr:
    for nm in ("is_super", "is_sub", "overlaps"):
        c = rel_case(nm)
        ck.task(nm, lambda r, c=c: run_case(mr, c, r))
    for nm in ("empty", "not_empty", "has_str", "size"):
        c = q_case(nm)
        ck.task(nm, lambda r, c=c: run_case(mr, c, r))
if mz:
    for nm in CSN:
        for n, null in [(1, 0), (2, 0), (5, 0), (9, 0), (1, 1)] if CSN[nm] == "z" else [(5, 0)]:
            if not (null and nm.endswith("re")):
                c = cs_case(nm, n, null)
                ck.task(c.name, lambda r, c=c: cs_go(c, r))
if mc:
    for k in CAT:
        if Check.master and k.name in ("pair_range", "pop_left1", "gpop_right1"):
            continue         # assertions about the text itself: exact cases only
        if k.kind in "vn" and k.unb and not k.name.startswith("count") and (ck.thorough or k.name not in ("pair_range_nested", "first_real_span")):
            c = contained(k, None)
            ck.task(c.name, lambda r, c=c: run_case(mc, c, r, opts={"max_backs": 64, "max_outs": 400, "max_steps": 2000000}))
    for k in CAT:
        # exact (unrolled) cases: these refute, the summaries above prove
        if k.kind in "vn" and not k.name.startswith("count"):
            def fn(r, k=k):
                for n in range(0, 3 if not ck.thorough else 5):
                    for pn in (k.plens or (0, 1, 2)) if "p" in k.params else (0,):
                        for ab in sizes(k, n):
                            lin.reset_syms()
                            run_case(mc, contained(k, pn, n, ab), r)
            ck.task(k.name + "/short", fn)
ck.run()
ck.finish("each slice is exactly the documented interval of the original string for every length and every admissible argument; every view or position any other operation returns lies inside the string it was computed from",
          "abstract interpretation with symbolic string length and symbolic positions (no length bound below 2^40); loops are summarised by inferred linear invariants",
          ["documented preconditions on positions", "string length below 2^40"], {"operations": len(SL) * 2 + 7 + len(CAT)})
