"""reads never leave the view"""
import subcat, parsers
from subcat import *

ck = Check("C04")
T = ck.thorough
RK = ("load", "memcpy-src", "memmove-src", "memcmp", "memchr", "callee-view", "store", "memcpy-dst", "memset", "store-const")
ms = ck.ir("sub", subcat.witness(CAT + MULTI))
fam = parsers.family()
mp = ck.ir("par", parsers.witness(fam))
XS = HDR + '''#include <c4/base64.hpp>
#include <c4/utf.hpp>
W bool r_b64valid(const char *s, size_t n) { return base64_valid(csubstr(s, n)); }
''' + "".join("W bool r_ovf_%s(const char *s, size_t n) { return overflows<%s>(csubstr(s, n)); }\nW size_t r_first_%s(const char *s, size_t n) { %s v; return from_chars_first(csubstr(s, n), &v); }\nW bool r_chk_%s(const char *s, size_t n) { %s v; auto w = fmt::overflow_checked(v); return from_chars(csubstr(s, n), &w); }\n" % (t, ct, t, ct, t, ct) for t, ct, w, sg in parsers.TYPES) + '''
W bool r_bool(const char *s, size_t n) { bool v; return from_chars(csubstr(s, n), &v); }
W size_t r_boolf(const char *s, size_t n) { bool v; return from_chars_first(csubstr(s, n), &v); }
W bool r_char(const char *s, size_t n) { char v; return from_chars(csubstr(s, n), &v); }
W size_t r_charf(const char *s, size_t n) { char v; return from_chars_first(csubstr(s, n), &v); }
W size_t r_csubf(char *s, size_t n) { csubstr v; return from_chars_first(substr(s, n), &v); }
W bool r_csub(const char *s, size_t n) { csubstr v; return from_chars(csubstr(s, n), &v); }
W bool r_sub(const char *s, size_t n, char *d, size_t m) { substr v(d, m); return from_chars(csubstr(s, n), &v); }
W size_t r_subf(const char *s, size_t n, char *d, size_t m) { substr v(d, m); return from_chars_first(csubstr(s, n), &v); }
W bool r_ptr(const char *s, size_t n) { void *v; return from_chars(csubstr(s, n), &v); }
W bool r_foreach(const char *s, size_t n) { size_t k = 0; for(char c : csubstr(s, n)) k += (c == 'a'); return k; }
'''
mx = ck.ir("oth", XS, sources=["src/c4/base64.cpp"])
ALL = [("r_%s_%s" % (a, T0[0]), False) for a in ("ovf", "first", "chk") for T0 in parsers.TYPES]
ALL += [(a, False) for a in ("r_b64valid", "r_bool", "r_boolf", "r_char", "r_charf", "r_csubf", "r_csub", "r_ptr", "r_foreach")] + [("r_sub", True), ("r_subf", True)]
UOPT = {"max_backs": 64, "max_outs": 400, "max_steps": 2000000}


def nop(x, env, s):
    return None


def go(m, c, r, soft, opts=None, objs=("s", "p", "d")):
    mk = c.mk

    def ro(I):
        """the text and the pattern are read-only"""
        args, env, setup = mk(I)
        for a in args:
            if isinstance(a, Ptr) and a.obj.name in ("s", "p"):
                a.obj.const = True
        return args, env, setup
    c.mk = ro
    I, fs = run_case(m, c, r, aborts=True, opts=opts)
    memcheck(r, I, c.entry, RK, soft=soft, objs=objs)


if ms:
    opts = dict(max_states=60000, max_steps=4000000)
    for k in CAT + MULTI:
        def short(r, k=k):
            for n in range(0, (3 if "p" in k.params or k.lens == "num" else 4) + (2 if T else 0)):
                for pn in (k.plens or (0, 1, 2)) if "p" in k.params else (0,):
                    for ab in sizes(k, n, k in CAT):
                        lin.reset_syms()
                        go(ms, Case("%s/len %d,%d/%r" % (k.name, n, pn, ab), "s_" + k.name, mkargs(k, n, pn, False, ab), nop), r, False, opts)
        ck.task(k.name + "/short", short)
        if k.lens == "num" or "int_span" in k.name or k.name.startswith("is_"):
            def heads(r, k=k):
                for h in HEADS:
                    for tail in range(0, 2 if not T else 4):
                        lin.reset_syms()
                        go(ms, Case("%s/text '%s' and %d" % (k.name, h, tail), "s_" + k.name, mkargs(k, len(h) + tail, 0, False, (0, 0), h), nop), r, False, opts)
            ck.task(k.name + "/heads", heads)
        elif k.name != "pair_range_nested":
            def long_(r, k=k):
                for n in (9,) if not T else (9, 17):
                    for h in longtexts(n)[::2 if not T else 1]:
                        for ph in longpats(n)[1::2] if "p" in k.params else [""]:
                            if k.plens and len(ph) not in k.plens:
                                continue
                            for ab in someat(k, n):
                                if k in MULTI and NPOS in ab:
                                    continue
                                lin.reset_syms()
                                go(ms, Case("%s/text %r,%r/%r" % (k.name, h, ph, ab), "s_" + k.name, mkargs(k, n, len(ph), False, ab, h, ph), nop), r, False, opts)
            ck.task(k.name + "/long", long_)
        slow = k.name in ("pair_range_nested", "first_real_span", "is_real", "is_number") or k.name.startswith("count")
        if k in CAT and (T or not slow and k.unb):
            def any_(r, k=k):
                go(ms, Case(k.name + "/any length", "s_" + k.name, mkargs(k, None, None if "p" in k.params else 0), nop), r, True, UOPT)
            ck.task(k.name + "/any", any_)


def strcase(entry, n, two, pre=None, head=""):
    def mk(I):
        so, sn = strobj(I, "s", n)
        args = [Ptr(so, ZERO), sn]
        if two is True:
            do, dn = strobj(I, "d", None)
            args += [Ptr(do, ZERO), dn]
        elif two:
            args += [Ptr(Obj("out", "v", two), ZERO)]

        def setup(s):
            if pre:
                s.st.add_ge(sn - 1)
            for i, ch in enumerate(head):
                s.st.add_eq(X(I, s).init(so, i) - ord(ch))
        return args, None, setup
    return Case("%s/%s%s" % (entry, "any length" if n is None else "len %d" % n, head and "/text '%s'" % head), entry, mk, nop)


if mp:
    for nm, TT, kind, body in fam:
        def fn(r, nm=nm, TT=TT, kind=kind):
            pre = kind != "num"
            for n in range(1 if pre else 0, 4 if not T else 6):
                lin.reset_syms()
                go(mp, strcase(nm, n, TT[2] // 8), r, False)
            lin.reset_syms()
            go(mp, strcase(nm, None, TT[2] // 8, pre), r, True, UOPT)
        ck.task(nm, fn)
if mx:
    for nm, two in ALL:
        def fn(r, nm=nm, two=two):
            for n in range(0, (4 if "first" not in nm else 3) + (1 if T else 0)):
                lin.reset_syms()
                go(mx, strcase(nm, n, two), r, False, dict(max_states=60000, max_steps=4000000, tabsplit=nm == "r_b64valid"))
        ck.task(nm + "/short", fn)
        def heads(r, nm=nm, two=two):
            for h in HEADS + ["tru", "fals", "Tru", "FALS", "/wA", "aGk=", "aGkg"]:
                for tail in range(0, 2 if not T else 3):
                    lin.reset_syms()
                    go(mx, strcase(nm, len(h) + tail, two, None, h), r, False, dict(max_states=60000, max_steps=4000000, tabsplit=nm == "r_b64valid"))
        ck.task(nm + "/heads", heads)
        if T or not nm.startswith(("r_first", "r_chk", "r_bool")):
            # (the parts of those, spans and readers, are analysed on their own above)
            ck.task(nm + "/any", lambda r, nm=nm, two=two: go(mx, strcase(nm, None, two), r, True, UOPT))
ck.run()
ck.finish("no operation stores into the text it reads, and every load, memcpy/memmove source, memcmp and memchr range lies inside the view the operation was given",
          "abstract interpretation of every string operation, integer/boolean/character/string reader, overflow test and base64 validation: strings of any length up to 2^40 through loop summaries, all strings of short fixed lengths exactly, and longer ones of which a few characters are free",
          ["documented preconditions on positions", "string length below 2^40"], {"operations": len(CAT) + len(MULTI) + len(fam) + len(ALL)})
