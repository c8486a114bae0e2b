"""standard containers: views of them, and reading text into them"""
from spec import *
from spec import _STR, _fld

ck = Check("C28")
_VEC = "~std::vector<char, std::allocator<char>>::"
SRC = '''#include <string>
#include <vector>
#include <string_view>
''' + HDR + '''
struct V { const char *p; size_t n; };
W void v_str(V *o, std::string *c) { substr v = to_substr(*c); o->p = v.str; o->n = v.len; }
W void v_cstr(V *o, std::string const *c) { csubstr v = to_csubstr(*c); o->p = v.str; o->n = v.len; }
W void v_vec(V *o, std::vector<char> *c) { substr v = to_substr(*c); o->p = v.str; o->n = v.len; }
W void v_cvec(V *o, std::vector<char> const *c) { csubstr v = to_csubstr(*c); o->p = v.str; o->n = v.len; }
W void v_sv(V *o, std::string_view const *c) { csubstr v = to_csubstr(*c); o->p = v.str; o->n = v.len; }
W bool f_str(const char *s, size_t n, std::string *c) { return from_chars(csubstr(s, n), c); }
W bool f_vec(const char *s, size_t n, std::vector<char> *c) { return from_chars(csubstr(s, n), c); }
W bool x_str(const char *s, size_t n, std::string *c) { return from_chars(to_csubstr(std::string_view(s, n)), c); }
W size_t t_str(char *s, size_t n, std::string const *c) { return to_chars(substr(s, n), *c); }
W size_t t_vec(char *s, size_t n, std::vector<char> const *c) { return to_chars(substr(s, n), *c); }
W size_t t_sv(char *s, size_t n, std::string_view const *c) { return to_chars(substr(s, n), *c); }
'''
m = ck.ir("c", SRC, keep=["std::vector<char, std::allocator<char>>::", "std::vector<char, std::allocator<char> >::"])


def setf(I, s, p, off, v, loc):
    I.store(s, Ptr(p.obj, s.st.norm(p.off + off)), v, 8, loc)


class Kind:
    """the libstdc++ layout of a container: how many characters it holds, and where"""

    def __init__(self, k):
        self.k = k

    def get(self, I, s, p):
        d = _fld(I, s, p, 0, "p")
        if self.k == "vec":
            e = _fld(I, s, p, 8, "p")
            if not (isinstance(d, Ptr) and isinstance(e, Ptr)):
                raise Unsupported("vector fields")
            return d, s.st.norm(e.off - d.off) if e.obj is d.obj else ZERO
        if self.k == "sv":
            return _fld(I, s, p, 8, "p"), s.st.norm(rint(I, s, d if not isinstance(d, Ptr) else _fld(I, s, p, 0, "i"), 64))
        return d, s.st.norm(rint(I, s, _fld(I, s, p, 8, "i"), 64))

    def put(self, I, s, p, o, n, loc):
        setf(I, s, p, 0, Ptr(o, ZERO), loc)
        if self.k == "vec":
            setf(I, s, p, 8, Ptr(o, n), loc)
            setf(I, s, p, 16, Ptr(o, n), loc)
        else:
            setf(I, s, p, 8, n, loc)


def newobj(I, s, p, m):
    c = s.tags.get("newobj", 0) + 1
    s.tags["newobj"] = c
    return Obj("buf", "storage%d" % c, m)


def h_resize(K, fill=False):
    def f(I, s, a, ins):
        d, n = K.get(I, s, a[0])
        mm = s.st.norm(I.U(s, I.asint(s, a[1], 64), 64))
        c = s.st.decide(("ge", n - mm))
        if c is None:
            raise Split([("ge", n - mm), ("ge", mm - n - 1)], "resize")
        keep = mm if c else n
        # the storage may move, and every pointer into the old one dies
        o = newobj(I, s, a[0], mm + (1 if K.k == "str" else 0))
        lg = [("unk",)]
        if s.st.decide(("ge", -keep)) is not True and isinstance(d, Ptr) and d.obj is not NULLOBJ:
            lg.append(("copy", ZERO, keep, d.obj, d.off, I.log(s, d.obj), None))
        if K.k == "str":
            lg.append(("st", mm, 1, ZERO, 8, None))
        s.mem[o.id] = tuple(lg)
        K.put(I, s, a[0], o, mm, ins.get("loc"))
        return None
    return f


def h_assign(K, app=False):
    """assign(p, n) / append(p, n)"""
    def f(I, s, a, ins):
        d, n = K.get(I, s, a[0])
        p = a[1]
        if len(a) == 3 and isinstance(a[2], Ptr):
            if not (isinstance(p, Ptr) and p.obj is a[2].obj):
                raise Unsupported("assign range")
            k = s.st.norm(a[2].off - p.off)
        else:
            k = s.st.norm(I.U(s, I.asint(s, a[2], 64), 64))
        base = n if app else ZERO
        o = newobj(I, s, a[0], base + k + (1 if K.k == "str" else 0))
        lg = [("unk",)]
        z = s.st.decide(("ge", -k))
        if z is None:
            raise Split([("ge", -k), ("ge", k - 1)], "assign")
        if app:
            zz = s.st.decide(("ge", -n))
            if zz is None:
                raise Split([("ge", -n), ("ge", n - 1)], "append")
            if not zz:
                lg.append(("copy", ZERO, n, d.obj, d.off, I.log(s, d.obj), None))
        if not z:
            I.check(s, "read", p, k, ins.get("loc"))
            lg.append(("copy", base, k, p.obj, p.off, I.log(s, p.obj), None))
        if K.k == "str":
            lg.append(("st", base + k, 1, ZERO, 8, None))
        s.mem[o.id] = tuple(lg)
        K.put(I, s, a[0], o, s.st.norm(base + k), ins.get("loc"))
        return a[0]
    return f


def h_clear(K):
    def f(I, s, a, ins):
        d, n = K.get(I, s, a[0])
        if isinstance(d, Ptr):
            K.put(I, s, a[0], d.obj, ZERO, ins.get("loc"))
        return None
    return f


def h_nop(I, s, a, ins):
    return None


def h_data(K):
    return lambda I, s, a, ins: K.get(I, s, a[0])[0]


def h_end(K):
    def f(I, s, a, ins):
        d, n = K.get(I, s, a[0])
        return Ptr(d.obj, s.st.norm(d.off + n))
    return f


def h_size(K):
    return lambda I, s, a, ins: K.get(I, s, a[0])[1]


def h_at(K):
    def f(I, s, a, ins):
        d, n = K.get(I, s, a[0])
        return Ptr(d.obj, s.st.norm(d.off + I.U(s, I.asint(s, a[1], 64), 64)))
    return f


def h_empty(K):
    def f(I, s, a, ins):
        n = K.get(I, s, a[0])[1]
        return MultiRet([(("eq", n), Lin(1), lambda x: None), (("ge", n - 1), Lin(0), lambda x: None)])
    return f


EXT = dict(STDSTRING)
for pre, K in ((_STR, Kind("str")), (_VEC, Kind("vec"))):
    EXT.update({pre + "resize(unsigned long)": h_resize(K), pre + "resize(unsigned long, char)": h_resize(K), pre + "resize(unsigned long, char const&)": h_resize(K),
                pre + "assign(char const*, unsigned long)": h_assign(K), pre + "append(char const*, unsigned long)": h_assign(K, True),
                pre + "assign<char const*, void>(": h_assign(K), pre + "clear()": h_clear(K), pre + "reserve(": h_nop, pre + "shrink_to_fit(": h_nop,
                pre + "data(": h_data(K), pre + "c_str(": h_data(K), pre + "begin(": h_data(K), pre + "cbegin(": h_data(K), pre + "end(": h_end(K), pre + "cend(": h_end(K),
                pre + "size(": h_size(K), pre + "length(": h_size(K), pre + "operator[](": h_at(K), pre + "front(": h_data(K), pre + "empty(": h_empty(K)})
KIND = {"str": Kind("str"), "cstr": Kind("str"), "vec": Kind("vec"), "cvec": Kind("vec"), "sv": Kind("sv")}


def mkcont(I, k, null=False):
    """a container with a text of any length; an empty vector or view may have no storage"""
    o, n = strobj(I, "text", None)
    h = Obj("ext", "container", 32)
    if k == "str":
        o = Obj("buf", "text", n + 1)

    def setup(s):
        P = NULL if null else Ptr(o, ZERO)
        if null:
            s.st.add_eq(n)
        if k == "vec":
            E = NULL if null else Ptr(o, n)
            s.mem[h.id] = (("st", Lin(0), 8, P, 64, None), ("st", Lin(8), 8, E, 64, None), ("st", Lin(16), 8, E, 64, None))
        elif k == "sv":
            s.mem[h.id] = (("st", Lin(0), 8, n, 64, None), ("st", Lin(8), 8, P, 64, None))
        else:
            s.mem[h.id] = (("st", Lin(0), 8, P, 64, None), ("st", Lin(8), 8, n, 64, None))
    return h, o, n, setup


def view_case(e, null):
    K = KIND[e]

    def mk(I):
        h, o, n, setup = mkcont(I, K.k, null)
        out = Obj("out", "o", 16)
        return [Ptr(out, ZERO), Ptr(h, ZERO)], (out, h, o, n), setup

    def spec(x, env, s):
        out, h, o, n = env
        return expect_view(x, x.out(out, 0, "p"), x.out(out, 8), o, ZERO, n)
    return Case("view of " + e + (" (no storage)" if null else ""), "v_" + e, mk, spec)


def from_case(e, null, k=None):
    K = KIND[e.split("_")[1]]

    def mk(I):
        h, o, n, setup = mkcont(I, K.k, null)
        so, sn = strobj(I, "s", k)
        return [Ptr(so, ZERO) if k != "null" else NULL, sn, Ptr(h, ZERO)], (so, sn, h), setup

    def spec(x, env, s):
        so, sn, h = env
        w = expect_int(x, rint(x.I, s, s.retval, 1), 1)
        if w:
            return w
        d, n = K.get(x.I, s, Ptr(h, ZERO))
        if not x.eq(n, sn):
            return "size|the container ends up with %r characters, expected %r" % (n, s.st.norm(sn))
        if x.eq(sn, 0):
            return None
        if not isinstance(d, Ptr):
            return ("no storage",)
        y = x.I.jsym = getattr(x.I, "jsym", None) or x.I.sym("j", 0, 1 << 47, "in")
        if not x.ge(y, 0) or not x.lt(y, sn):
            return None
        got = x.cur(d.obj, d.off + y)
        want = x.init(so, y)
        if got is None:
            return ("content not known",)
        return None if x.eq(got, want) else "text|character %r of the container is %r, expected %r" % (s.st.norm(y), got, want)
    return Case(e + (" (no storage)" if null else ""), e, mk, spec)


def to_case(e, null):
    K = KIND[e]

    def mk(I):
        h, o, n, setup = mkcont(I, K.k, null)
        so, sn = strobj(I, "buf", None)
        return [Ptr(so, ZERO), sn, Ptr(h, ZERO)], (so, sn, o, n, h), setup

    def spec(x, env, s):
        so, sn, o, n, h = env
        w = expect_int(x, rint(x.I, s, s.retval, 64), n)
        if w:
            return w
        if x.eq(n, 0) or x.eq(sn, 0):
            return None
        y = x.I.jsym = getattr(x.I, "jsym", None) or x.I.sym("j", 0, 1 << 47, "in")
        if not x.lt(y, sn):
            return None
        want = x.init(o, y) if x.lt(y, n) else x.init(so, y)
        got = x.cur(so, y)
        if got is None:
            return ("content not known",)
        return None if x.eq(got, want) else "text|character %r of the buffer is %r, expected %r" % (s.st.norm(y), got, want)
    return Case("to_chars " + e + (" (no storage)" if null else ""), "t_" + e, mk, spec)


def go(c):
    def fn(r):
        I, fs = run_case(m, c, r, ext=EXT)
        memcheck(r, I, c.name, MEMKINDS + ("callee-buffer",), soft=True)
    ck.task(c.name, fn)


if m:
    for e in ("str", "cstr", "vec", "cvec", "sv"):
        for null in (False, True):
            if not (null and "str" in e):
                go(view_case(e, null))
    for e in ("f_str", "f_vec", "x_str"):
        go(from_case(e, False))
    go(from_case("f_vec", True))
    for e in ("str", "vec", "sv"):
        for null in (False, True):
            if not (null and "str" in e):
                go(to_case(e, null))
    ck.run()
ck.finish("a view of a container is exactly its characters in place; reading a text into a container leaves exactly that text and reports success; writing a container into a buffer copies the part that fits, changes nothing after it, and returns the container's size",
          "abstract interpretation with symbolic container size, text length and contents; containers are given by their libstdc++ layout, and operations that change them by their contract (resize may move the storage)",
          ["libstdc++ layout of string, vector and string_view", "std::string and std::vector member functions obey the standard", "text and container do not overlap"], {"entries": 11})
