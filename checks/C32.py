"""with assertions enabled, wrong arguments are reported before a view leaves its string or array"""
import copy
from subcat import *
from slices import SL

ck = Check("C32")
T = ck.thorough
RAW = ("left_of_s", "right_of_s", "ctor_range", "assign_range", "assign_pn", "arr", "arrc", "copy", "beginend", "cbeginend", "tocs")
TYPES = [("c", "csubstr", "const char"), ("m", "substr", "char")]
mods = {t: ck.ir("sl_" + t, witness(SL, ty, ch), debug=True) for t, ty, ch in TYPES}


def free(k):
    k = copy.copy(k)
    k.pre = None
    if "a" not in k.params and k.name in ("front", "back"):
        k.params += "a"
    return k


def slice_case(k, t):
    def spec(x, env, s):
        if s.status != "ret":
            return None          # reported
        so, sn, po, pl, out, c, d, a, b = env
        return within(x, x.out(out, 8, "p"), x.out(out, 0), so, sn)
    return Case("%s::%s, any arguments" % (t, k.name), "s_" + k.name, mkargs(free(k), None, 0), spec)


# positions given to searches
POS = [k for k in CAT if "a" in k.params or "b" in k.params]
mc = ck.ir("cat", witness(POS), debug=True)


def pos_case(k, n, pn):
    def spec(x, env, s):
        return None
    return Case("%s/len %d/pattern %d, any position" % (k.name, n, pn), "s_" + k.name, mkargs(free(k), n, pn), spec)


# in-place edits
ED = []


def ed(name, expr, params, ret=None):
    ED.append(E(name, None, ret, None, params, body={None: expr + ";", "n": "o->n = " + expr + ";", "v": "auto v = %s; o->n = v.len; o->p = v.str;" % expr}[ret]))


ed("copy_from_at", "s.copy_from(p, a)", "pa")
ed("copy_from_n", "s.copy_from(p, a, b)", "pab")
ed("reverse_sub", "s.reverse_sub(a, b)", "ab")
ed("reverse_range", "s.reverse_range(a, b)", "ab")
ed("erase", "s.erase(a, b)", "ab", "v")
ed("erase_range", "s.erase_range(a, b)", "ab", "v")
ed("replace_c_at", "s.replace(c, d, a)", "cda", "n")
ed("replace_s_at", "s.replace(p, d, a)", "pda", "n")
med = ck.ir("ed", witness(ED, "substr", "char"), debug=True)


def ed_case(k, n, pn):
    def spec(x, env, s):
        if s.status != "ret" or k.kind != "v":
            return None
        so, sn, po, pl, out, c, d, a, b = env
        return within(x, x.out(out, 8, "p"), x.out(out, 0), so, sn)
    return Case("%s/len %s/pattern %s, any position" % (k.name, n, pn), "s_" + k.name, mkargs(k, n, pn), spec)


SP = '''#include <c4/span.hpp>
''' + HDR + '''
struct O { void const *p; size_t n; };
'''
SPO = [("subspan2", "auto r = s.subspan(a, b);"), ("subspan1", "auto r = s.subspan(a);"), ("range2", "auto r = s.range(a, b);"), ("range1", "auto r = s.range(a);"), ("first", "auto r = s.first(a);"),
       ("last", "auto r = s.last(a);"), ("resize", "auto r = s; r.resize(a);"), ("rtrim", "auto r = s; r.rtrim(a);"), ("ltrim", "auto r = s; r.ltrim(a);")]
SPP = [("at", "&s[a]"), ("cat", "&cs[a]"), ("front", "&s.front()"), ("back", "&s.back()"), ("cback", "&cs.back()"), ("cfront", "&cs.front()")]
KL = [("span", "s(base, n)"), ("spanrs", "s(base, n, c)"), ("spanrsl", "s(base, n, c)")]
for cls, ctor in KL:
    for nm, st in SPO:
        SP += "W void %s_%s(O *o, int *base, size_t n, size_t c, size_t a, size_t b) { %s<int, size_t> %s; %s o->p = r.data(); o->n = r.size(); }\n" % (cls, nm, cls, ctor, st)
    for nm, e in SPP:
        SP += "W void %s_%s(O *o, int *base, size_t n, size_t c, size_t a, size_t b) { %s<int, size_t> %s; auto const& cs = s; (void)cs; o->p = %s; o->n = 1; }\n" % (cls, nm, cls, ctor, e)
msp = ck.ir("sp", SP, debug=True)


def span_case(cls, nm):
    def mk(I):
        n = I.sym("size", 0, 1 << 40, "len")
        c = I.sym("capacity", 0, 1 << 40, "len") if cls != "span" else n
        arr = Obj("buf", "array", c.scale(4))
        out = Obj("out", "o", 16)
        a = I.sym("a", 0, NPOS, "in")
        b = I.sym("b", 0, NPOS, "in")
        return [Ptr(out, ZERO), Ptr(arr, ZERO), n, c, a, b], (arr, out, n, c), (lambda s: s.st.add_ge(s.st.norm(c - n)))

    def spec(x, env, s):
        if s.status != "ret":
            return None
        arr, out, n, c = env
        p, k = x.out(out, 0, "p"), x.out(out, 8)
        if p is None or k is None:
            return "view left unset"
        lim = c if nm == "resize" else n
        if x.eq(k, 0):
            return None
        if not isinstance(p, Ptr) or p.obj is not arr:
            return "points to %r" % (p,)
        if not (x.ge(p.off) and x.ge(lim.scale(4), p.off)):
            return "starts at byte %r, outside the %r elements" % (s.st.norm(p.off), lim)
        if not x.ge(lim.scale(4) - p.off, 4) or not x.le(k, lim) or not x.ge(lim.scale(4) - p.off - _k(k)):
            return "extends past the end"
        return None
    return Case("%s::%s, any arguments" % (cls, nm), cls + "_" + nm, mk, spec)


def _k(k):
    return k.scale(4)


def go(m, c, r):
    I, fs = run_case(m, c, r, aborts=True)
    memcheck(r, I, c.entry)


for t, ty, ch in TYPES:
    if mods[t]:
        for k in SL:
            if k.name not in RAW:
                c = slice_case(k, t)
                ck.task(c.name, lambda r, c=c, t=t: go(mods[t], c, r))
if mc:
    for k in POS:
        for n in range(0, 3 + T):
            for pn in (k.plens or (0, 1, 2)) if "p" in k.params else (0,):
                c = pos_case(k, n, pn)
                ck.task(c.name, lambda r, c=c: go(mc, c, r))
if med:
    for k in ED:
        for n in [None] * (not k.name.startswith("re")) + list(range(0, 5 + T)):
            for pn in (0, 1, 3) if "p" in k.params else (0,):
                c = ed_case(k, n, pn)
                ck.task(c.name, lambda r, c=c: go(med, c, r))
if msp:
    for cls, _ in KL:
        for nm, _ in SPO + SPP:
            if not (cls == "span" and nm == "resize" and False):
                c = span_case(cls, nm)
                ck.task(c.name, lambda r, c=c: go(msp, c, r))
ck.run()
ck.finish("with assertions enabled, whatever positions and counts a slice, element access, search or edit in place is given, either an assertion reports them or the result lies inside the string or array, and nothing outside it is accessed",
          "abstract interpretation of the program compiled with assertions, arguments over the whole range of size_t: slices and spans with symbolic sizes (no bound), searches and edits on short texts",
          ["string length below 2^40"], {"slices": 2 * (len(SL) - len(RAW)), "searches": len(POS), "edits": len(ED), "span operations": len(KL) * (len(SPO) + len(SPP))})
