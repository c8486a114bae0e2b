from subcat import *

ck = Check("C10")


def sless(x, a, b):
    """a < b as (signed) char"""
    na, nb = x.ge(a, 128), x.ge(b, 128)
    if na != nb:
        return na
    return x.lt(a, b)


def lex(x, S, P):
    for u, v in zip(S, P):
        if not x.eq(u, v):
            return -1 if sless(x, u, v) else 1
    return (len(S) > len(P)) - (len(S) < len(P))


OPS = {"eq": ("==", lambda r: r == 0), "ne": ("!=", lambda r: r != 0), "lt": ("<", lambda r: r < 0), "gt": (">", lambda r: r > 0),
       "le": ("<=", lambda r: r <= 0), "ge": (">=", lambda r: r >= 0)}
cat = []


def add(name, expr, kind, ref, params, body=None, plens=None):
    cat.append(E(name, expr, kind, ref, params, body=body, plens=plens))


PRE = "struct RS { const char *p; size_t n; size_t x[2]; } rs = {pp, pn, {0, 0}}; auto const& str = reinterpret_cast<std::string const&>(rs); " \
      "struct RV { const char *b, *e, *c; } rv = {pp, pp + pn, pp + pn}; auto const& vec = reinterpret_cast<std::vector<char> const&>(rv); std::string_view sv(pp, pn); " \
      "auto const& arr = *reinterpret_cast<const char (*)[3]>(pp); substr ms((char*)pp, pn); (void)str; (void)vec; (void)sv; (void)arr; (void)ms; "
add("cmp", "s.compare(p)", "i", lambda x, S, P, c, a, b: lex(x, S, P), "p")
add("cmp2", "s.compare(pp, pn)", "i", lambda x, S, P, c, a, b: lex(x, S, P), "p")
add("cmpc", "s.compare(c)", "i", lambda x, S, P, c, a, b: lex(x, S, [c]), "c")
for nm, (op, f) in OPS.items():
    add("s_s_" + nm, "s %s p" % op, "b", lambda x, S, P, c, a, b, f=f: f(lex(x, S, P)), "p")
    add("s_c_" + nm, "s %s c" % op, "b", lambda x, S, P, c, a, b, f=f: f(lex(x, S, [c])), "c")
    add("c_s_" + nm, "c %s s" % op, "b", lambda x, S, P, c, a, b, f=f: f(-lex(x, S, [c])), "c")
    for t, pl in (("str", None), ("vec", None), ("sv", None), ("arr", (2,)), ("ms", None)):
        add("s_%s_%s" % (t, nm), None, "b", lambda x, S, P, c, a, b, f=f: f(lex(x, S, P)), "p", body=PRE + "o->n = size_t(s %s %s);" % (op, t), plens=pl)
        add("%s_s_%s" % (t, nm), None, "b", lambda x, S, P, c, a, b, f=f: f(-lex(x, S, P)), "p", body=PRE + "o->n = size_t(%s %s s);" % (t, op), plens=pl)
m = ck.ir("c", "#include <string>\n#include <vector>\n#include <string_view>\n" + witness(cat))
T = ck.thorough


def anylen(k, pn):
    """strings of any length against an empty string or a character: no loop decides"""
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        if k.params == "c":
            if x.eq(sn, 0):
                r = -1
            elif x.eq(x.init(so, 0), c):
                r = 0 if x.eq(sn, 1) else 1
            else:
                r = -1 if sless(x, x.init(so, 0), c) else 1
        else:
            r = 0 if x.eq(sn, 0) else 1
        if k.kind == "i":
            return expect_int(x, x.out(out, 0), r + 1, "sign of the result plus one")
        if k.name.startswith("s_"):
            return expect_int(x, x.out(out, 0), 1 if OPS[k.name[-2:]][1](r) else 0)
        return expect_int(x, x.out(out, 0), 1 if OPS[k.name[-2:]][1](-r) else 0)
    return Case(k.name + "/any length", "s_" + k.name, mkargs(k, None, pn), spec)


def eqlen(k):
    """any lengths: a result saying equal requires equal lengths"""
    def spec(x, env, s):
        so, sn, po, pl, out, c, d, a, b = env
        got = x.out(out, 0)
        if x.eq(got, 1) and not x.eq(sn, pl):
            return "strings of different length compare equal"
        return None
    return Case(k.name + "/any lengths", "s_" + k.name, mkargs(k, None, None), spec)


if m:
    for k in cat:
        for n in range(0, 5 if not T else 7):
            for pn in (k.plens or range(0, 4 if not T else 6)) if "p" in k.params else (0,):
                c = exact(k, n, pn, False, (0, 0))
                ck.task(c.name, lambda r, c=c: run_case(m, c, r, ext=STDSTRING))
        c = exact(k, 0, k.plens[0] if k.plens else 1 if "p" in k.params else 0, True, (0, 0))
        ck.task(c.name, lambda r, c=c: run_case(m, c, r, ext=STDSTRING))
        if not k.plens:
            c = anylen(k, 0)
            ck.task(c.name, lambda r, c=c: run_case(m, c, r, ext=STDSTRING))
        if k.name in ("cmp", "cmp2", "s_s_eq", "s_str_eq", "s_vec_eq", "s_sv_eq"):
            c = eqlen(k)
            ck.task(c.name, lambda r, c=c: run_case(m, c, r, ext=STDSTRING))
    # longer strings, all but two characters of each fixed
    for k in cat:
        if k.plens:
            continue
        for n in (9, 17, 33):
            for h in longtexts(n)[:3]:
                for pn in (n - 1, n, n + 1) if "p" in k.params else (0,):
                    for w in ((0, 8, pn - 1) if n == 9 or T else (pn - 1,)) if pn else (0,):
                        ph = ("a" * pn)[:w] + "\0" + "a" * (pn - w - 1) if pn else ""
                        c = exact(k, n, pn, False, (0, 0), h, ph)
                        ck.task(c.name, lambda r, c=c: run_case(m, c, r, ext=STDSTRING))
    ck.run()
ck.finish("compare() has the sign of the lexicographic order by character then length, and every relational operator in either operand order, for every operand kind, is the corresponding test of that sign",
          "abstract interpretation of all comparison entry points on pairs of strings up to the bound with symbolic characters, each result compared with the lexicographic reference; string against empty string and against a character for any length up to 2^40",
          ["char is signed (x86-64)", "libstdc++ layout of string, vector and string_view"], {"operations": len(cat)})
