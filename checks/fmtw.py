"""serializer entries other than the integer writers"""
from opaque import *

HDR = '''#include <string>
#include <string_view>
#include <vector>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/base64.hpp>
#include <c4/std/std.hpp>
#define W extern "C"
''' + OQ + '''
using namespace c4;
'''


class En:
    def __init__(self, name, sig, body, mk, group="", nowrite=False, size=True):
        self.name, self.sig, self.body, self.mk, self.group = name, sig, body, mk, group
        self.nowrite = nowrite
        self.size = size

    def text(self):
        return "W size_t %s(char *b, size_t n, %s) { substr buf(b, n); return %s; }\n" % (self.name, self.sig, self.body)


# every mk(I) returns (args, setup or None, total, segs); segs in output order
def strarg(I, nm, mx=1 << 40):
    n = I.sym(nm + ".len", 0, mx, "len")
    o = Obj("buf", nm, n)
    return o, n


def mk_bool(I):
    v = I.sym("v", 0, 1, "in")
    return [B(("ge", v - 1))], None, ONE, [("fill", v + 48, ONE)]


def mk_char(I):
    v = I.sym("v", 0, 255, "in")
    return [v], None, ONE, [("fill", v, ONE)]


def mk_str(I):
    o, n = strarg(I, "s")
    return [Ptr(o, ZERO), n], None, n, [(o, ZERO, n)]


def mk_cstr(I):
    o, n = strarg(I, "s")
    o.size = None

    def setup(s):
        y = I.defsym(s, ("strlen", (o.id, ZERO.key)), "strlen", 0, 1 << 40, "len")
        s.st.add_eq(Lin.of(y) - n)
    return [Ptr(o, ZERO)], setup, n, [(o, ZERO, n)]


def mk_stdstring(I):
    o, n = strarg(I, "s")
    h = Obj("ext", "stdstring", 32)

    def setup(s):
        s.mem[h.id] = (("st", Lin(0), 8, Ptr(o, ZERO), 64, None), ("st", Lin(8), 8, n, 64, None))
    return [Ptr(h, ZERO)], setup, n, [(o, ZERO, n)]


def mk_vector(I):
    o, n = strarg(I, "s")
    h = Obj("ext", "vec", 24)

    def setup(s):
        s.mem[h.id] = (("st", Lin(0), 8, Ptr(o, ZERO), 64, None), ("st", Lin(8), 8, Ptr(o, n), 64, None), ("st", Lin(16), 8, Ptr(o, n), 64, None))
    return [Ptr(h, ZERO)], setup, n, [(o, ZERO, n)]


def mk_lit(txt):
    def f(I):
        return [], None, Lin(len(txt)), [txt]
    return f


def mk_balpha(val, boolty=True):
    def f(I):
        t = "true" if val else "false"
        if boolty:
            return [B(val)], None, Lin(len(t)), [t]
        v = I.sym("v", 1, (1 << 32) - 1, "in") if val else ZERO
        return [v], None, Lin(len(t)), [t]
    return f


def oqs(I, k):
    ps = [oqarg(I, "a%d" % i) for i in range(k)]
    ts = [text_obj(I, oq_key(None, p)[0] if False else (p.obj.id, ZERO.key), p.obj.name) for p in ps]
    return ps, ts


def mk_oq(k):
    def f(I):
        ps, ts = oqs(I, k)
        tot = ZERO
        segs = []
        for t in ts:
            tot = tot + t.size
            segs.append((t, ZERO, t.size))
        return ps, None, tot, segs
    return f


def mk_sep(k):
    """sep is the first argument"""
    def f(I):
        ps, ts = oqs(I, k + 1)
        tot = ZERO
        segs = []
        for i in range(1, k + 1):
            if i > 1:
                segs.append((ts[0], ZERO, ts[0].size))
                tot = tot + ts[0].size
            segs.append((ts[i], ZERO, ts[i].size))
            tot = tot + ts[i].size
        return ps, None, tot, segs
    return f


def mk_fmt(fmt, k):
    def f(I):
        ps, ts = oqs(I, k)
        segs = []
        tot = ZERO
        rest = fmt
        for t in ts:
            i = rest.find("{}")
            if i < 0:
                break
            segs.append(rest[:i])
            segs.append((t, ZERO, t.size))
            tot = tot + t.size + i
            rest = rest[i + 2:]
        segs.append(rest)
        tot = tot + len(rest)
        return ps, None, tot, segs
    return f


def mk_align(right, w=None, pad=None):
    def f(I, w=w):
        ps, ts = oqs(I, 1)
        t = ts[0]
        w = I.sym("width", 0, 1 << 40, "in") if w is None else Lin(w)
        if pad is not None:
            return [ps[0], w], None, ("max", t.size, w), ("align", right, t, w, Lin(pad))
        p = I.sym("pad", 0, 255, "in")
        return [ps[0], w, p], None, ("max", t.size, w), ("align", right, t, w, p)
    return f


FMTS = [("{}", 1), ("", 1), ("abc", 1), ("a{}b", 1), ("{}{}", 2), ("{}-{}", 2), ("x{}y{}z", 2), ("{}{}", 1), ("{}", 2), ("{", 1), ("}", 1), ("{{}}", 1),
        ("}{{}", 1), ("{a}", 1), ("{ }{}", 2), ("{}/{}/{}", 3), ("{}..{}..{}..{}", 4), ("{}{}{}", 2), ("a{}{", 2), ("{}}", 1), ("{{{}", 1)]


def family():
    E = []

    def add(*a, **k):
        E.append(En(*a, **k))
    add("w_bool", "bool v", "to_chars(buf, v)", mk_bool, nowrite=True)
    add("w_char", "char v", "to_chars(buf, v)", mk_char, nowrite=True)
    add("w_csub", "const char *s, size_t k", "to_chars(buf, csubstr(s, k))", mk_str)
    add("w_sub", "char *s, size_t k", "to_chars(buf, substr(s, k))", mk_str)
    add("w_sv", "const char *s, size_t k", "c4::to_chars(buf, std::string_view(s, k))", mk_str)
    add("w_cstr", "const char *s", "to_chars(buf, s)", mk_cstr)
    add("w_stdstr", "std::string const& s", "c4::to_chars(buf, s)", mk_stdstring)
    add("w_vec", "std::vector<char> const& s", "c4::to_chars(buf, s)", mk_vector)
    E.append(En("w_lit4", "", "to_chars(buf, \"abcd\")", mk_lit("abcd")))
    E.append(En("w_lit0", "", "to_chars(buf, \"\")", mk_lit("")))
    add("w_balpha1", "bool v", "to_chars(buf, fmt::boolalpha(v))", mk_balpha(True))
    add("w_balpha0", "bool v", "to_chars(buf, fmt::boolalpha(v))", mk_balpha(False))
    add("w_balphai1", "int v", "to_chars(buf, fmt::boolalpha(v))", mk_balpha(True, False))
    add("w_balphai0", "int v", "to_chars(buf, fmt::boolalpha(v))", mk_balpha(False, False))
    refs = lambda k, s=0: ", ".join("Oq const& a%d" % i for i in range(s, k))
    names = lambda k, s=0: ", ".join("a%d" % i for i in range(s, k))
    for k in range(0, 6):
        E.append(En("w_cat%d" % k, refs(k), "cat(buf%s)" % (", " + names(k) if k else ""), mk_oq(k), group="cat"))
        E.append(En("w_catsep%d" % k, refs(k + 1), "catsep(buf, a0%s)" % (", " + names(k + 1, 1) if k else ""), mk_sep(k), group="catsep"))
    for i, (f, k) in enumerate(FMTS):
        E.append(En("w_format%d" % i, refs(k), 'format(buf, "%s", %s)' % (f, names(k)), mk_fmt(f, k), group="format"))
    E.append(En("w_format_none", "", 'format(buf, "a{}b")', mk_lit("a{}b"), group="format"))
    add("w_left", "Oq const& v, size_t w, char p", "to_chars(buf, fmt::left_<Oq const&>(v, w, p))", mk_align(False), group="align")
    add("w_right", "Oq const& v, size_t w, char p", "to_chars(buf, fmt::right_<Oq const&>(v, w, p))", mk_align(True), group="align")
    for w in (0, 1, 2, 5):
        add("w_left_%d" % w, "Oq const& v, size_t w, char p", "to_chars(buf, fmt::left_<Oq const&>(v, w, p))", mk_align(False, w), group="align")
        add("w_right_%d" % w, "Oq const& v, size_t w, char p", "to_chars(buf, fmt::right_<Oq const&>(v, w, p))", mk_align(True, w), group="align")
    for d in ("left", "right"):
        add("w_f" + d, "Oq const& v, size_t w, char p", "to_chars(buf, fmt::%s(OqR{&v}, w, p))" % d, mk_align(d == "right"), group="align")
        add("w_f%sd" % d, "Oq const& v, size_t w", "to_chars(buf, fmt::%s(OqR{&v}, w))" % d, mk_align(d == "right", None, 32), group="align")
        for w in (1, 3):
            add("w_f%s_%d" % (d, w), "Oq const& v, size_t w, char p", "to_chars(buf, fmt::%s(OqR{&v}, w, p))" % d, mk_align(d == "right", w), group="align")
            add("w_f%sd_%d" % (d, w), "Oq const& v, size_t w", "to_chars(buf, fmt::%s(OqR{&v}, w))" % d, mk_align(d == "right", w, 32), group="align")
    for e in E:
        if not e.sig:
            e.text = (lambda e: (lambda: "W size_t %s(char *b, size_t n) { substr buf(b, n); return %s; }\n" % (e.name, e.body)))(e)
    return E


def witness(E):
    return HDR + "".join(e.text() for e in E)


def run_entry(m, e):
    """analyse one entry with a symbolic buffer; returns I, finals, total, segs, buf, blen"""
    lin.reset_syms()
    m.gobj.clear()
    I = Interp(m, ext=EXT)
    blen = I.sym("len", 0, 1 << 47, "len")
    buf = Obj("buf", "buf", blen)
    args, setup, total, segs = e.mk(I)
    fs = I.start(e.name, [Ptr(buf, ZERO), blen] + args, setup)
    return I, fs, total, segs, buf, blen


def resolve(I, s, total, segs):
    """expand max()/align specs under the state; may Split"""
    if isinstance(total, tuple):
        _, a, b = total
        d = s.st.decide(("ge", a - b))
        if d is None:
            raise Split([("ge", a - b), ("ge", b - a - 1)], "max")
        total = a if d else b
        if isinstance(segs, tuple):
            _, right, t, w, p = segs
            padn = ZERO if d else w - t.size
            tx = (t, ZERO, t.size)
            pad = ("fill", p, padn)
            segs = [pad, tx] if right else [tx, pad]
    return total, segs
