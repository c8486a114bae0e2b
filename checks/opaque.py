"""contracts for declared-only (opaque) witness types: user serializers, user
containers, sinks.  These are the assumptions under which the library templates
are analysed."""
from common import *

MAXLEN = 1 << 40

OQ = '''
struct Oq; struct Oq2;
size_t to_chars(c4::substr buf, Oq const& v) noexcept;
size_t from_chars_first(c4::csubstr buf, Oq *v) noexcept;
bool from_chars(c4::csubstr buf, Oq *v) noexcept;
struct OqR { Oq const *p; };
inline size_t to_chars(c4::substr buf, OqR const& v) { return to_chars(buf, *v.p); }
struct Cont { using value_type = char; void *impl; Cont() noexcept; Cont(Cont const&) noexcept; ~Cont(); size_t size() const noexcept; void resize(size_t n) noexcept; char* data() noexcept; char const* data() const noexcept; };
inline c4::substr to_substr(Cont &c) noexcept { return c4::substr(c.data(), c.size()); }
inline c4::csubstr to_csubstr(Cont const& c) noexcept { return c4::csubstr(c.data(), c.size()); }
'''


def is_bufptr(p):
    return isinstance(p, Ptr)


def text_obj(I, key, name):
    """the text an opaque argument serialises to: object of symbolic size"""
    k = ("oqtext", key)
    o = I.memo_def.get(k)
    if o is None:
        n = I.sym("len(%s)" % name, 0, MAXLEN, "len")
        o = Obj("buf", "text(%s)" % name, n)
        I.memo_def[k] = o
    return o


def oq_key(s, p):
    if isinstance(p, Ptr):
        return (p.obj.id, s.st.norm(p.off).key), p.obj.name
    return p.key, "opq"


def h_to_chars(I, s, a, ins):
    """contract of a user to_chars: needs text(arg).size bytes; writes only inside
    the given buffer; when it fits, the first size bytes are the text"""
    buf, n, arg = a
    key, nm = oq_key(s, arg)
    t = text_obj(I, key, nm)
    n = s.st.norm(I.U(s, I.asint(s, n, 64), 64))
    if s.st.decide(("ge", -n)) is not True:
        if not isinstance(buf, Ptr):
            raise Unsupported("to_chars into unknown buffer")
        if buf.obj is NULLOBJ:
            if s.st.decide(("ge", -n)) is None:
                raise Split([("ge", -n), ("ge", n - 1)], "oq")
        I.check(s, "callee-buffer", buf, n, ins.get("loc"))
    R = t.size

    def fits(x):
        x.events.append(("tochars", nm, buf, n, True, ins.get("loc")))
        if x.st.decide(("ge", -R)) is True:
            return
        if buf.obj is NULLOBJ:
            raise Infeasible
        x.mem[buf.obj.id] = I.log(x, buf.obj) + (("copy", x.st.norm(buf.off), R, t, ZERO, (), ins.get("loc")),)

    def small(x):
        x.events.append(("tochars", nm, buf, n, False, ins.get("loc")))
        if x.st.decide(("ge", -n)) is True:
            return
        x.mem[buf.obj.id] = I.log(x, buf.obj) + (("unkrange", x.st.norm(buf.off), n),)
    return MultiRet([(("ge", n - R), R, fits), (("ge", R - n - 1), R, small)])


NPOS = (1 << 64) - 1


def h_from_chars_first(I, s, a, ins):
    """contract: consumes m<=len chars of the view or returns npos"""
    buf, n, arg = a
    key, nm = oq_key(s, arg)
    n = s.st.norm(I.U(s, I.asint(s, n, 64), 64))
    if s.st.decide(("ge", -n)) is not True:
        if isinstance(buf, Ptr) and buf.obj is NULLOBJ and s.st.decide(("ge", -n)) is None:
            raise Split([("ge", -n), ("ge", n - 1)], "oq")
        I.check(s, "callee-view", buf, n, ins.get("loc"))
    m = I.sym("consumed(%s)" % nm, 0, MAXLEN, "ret")

    def okf(x):
        x.events.append(("fromfirst", nm, buf, n, m, ins.get("loc")))

    def bad(x):
        x.events.append(("fromfirst", nm, buf, n, None, ins.get("loc")))
    return MultiRet([(("ge", n - m), m, okf), (True, Lin(NPOS), bad)])


def cont_get(I, s, p):
    key, nm = oq_key(s, p)
    return ("cont", key), nm


def cont_state(I, s, p):
    k, nm = cont_get(I, s, p)
    st = s.tags.get(k)
    if st is None:
        n = I.memo_def.get(k)
        if n is None:
            n0 = I.sym("size0(%s)" % nm, 0, MAXLEN, "len")
            o = Obj("buf", "cont0(%s)" % nm, n0)
            n = (o, n0, n0)
            I.memo_def[k] = n
        st = n
        s.tags[k] = st
    return k, nm, st


def h_size(I, s, a, ins):
    k, nm, (o, n, n0) = cont_state(I, s, a[0])
    return n


def h_data(I, s, a, ins):
    k, nm, (o, n, n0) = cont_state(I, s, a[0])
    return Ptr(o, ZERO)


def h_resize(I, s, a, ins):
    """contract of resize: keeps the common prefix, storage may move, every old pointer dies"""
    k, nm, (o, n, n0) = cont_state(I, s, a[0])
    m = s.st.norm(I.U(s, I.asint(s, a[1], 64), 64))
    c = s.st.decide(("ge", n - m))
    if c is None:
        raise Split([("ge", n - m), ("ge", m - n - 1)], "resize")
    keep = m if c else n
    cnt = s.tags.get(("resizes", k), 0) + 1
    s.tags[("resizes", k)] = cnt
    if cnt > 5:
        # the arguments' texts do not change, so neither does what the next pass does
        I.stuck = getattr(I, "stuck", []) + [(s, ins.get("loc"))]
        raise Infeasible
    no = Obj("buf", "cont%d(%s)" % (cnt, nm), m)
    if s.st.decide(("ge", -keep)) is not True:
        s.mem[no.id] = (("unk",), ("copy", ZERO, keep, o, ZERO, I.log(s, o), None))
    else:
        s.mem[no.id] = (("unk",),)
    s.tags[k] = (no, m, n0)
    s.events.append(("resize", nm, m, ins.get("loc")))
    return None


def h_ctor(I, s, a, ins):
    k, nm = cont_get(I, s, a[0])
    s.tags[k] = (Obj("buf", "cont()(%s)" % nm, ZERO), ZERO, ZERO)
    return None


def h_copy(I, s, a, ins):
    k, nm = cont_get(I, s, a[0])
    _, nm2, (o, n, n0) = cont_state(I, s, a[1])
    no = Obj("buf", "copy(%s)" % nm2, n)
    s.mem[no.id] = (("unk",),) + ((("copy", ZERO, n, o, ZERO, I.log(s, o), None),) if s.st.decide(("ge", -n)) is not True else ())
    s.tags[k] = (no, n, n)
    return None


def h_dtor(I, s, a, ins):
    return None


EXT = {
    "~Cont::Cont()": h_ctor, "~Cont::Cont(Cont const&)": h_copy, "~Cont::~Cont()": h_dtor,
    "~to_chars(c4::basic_substring<char>, Oq const&)": h_to_chars,
    "~from_chars_first(c4::basic_substring<char const>, Oq*)": h_from_chars_first,
    "~Cont::size() const": h_size,
    "~Cont::data()": h_data,
    "~Cont::resize(unsigned long)": h_resize,
}


def oqarg(I, name):
    """address of an opaque argument"""
    return Ptr(Obj("ext", name, 1), ZERO)


def seg_check(I, r, s, buf, base, segs, entry, cat="text byte"):
    """verify the bytes at base.. are the concatenation of segs; seg = (obj, off, len) or bytes"""
    pos = base
    for i, sg in enumerate(segs):
        if isinstance(sg, (bytes, str)):
            b = sg if isinstance(sg, bytes) else sg.encode()
            for j, c in enumerate(b):
                for x, v in withsplit(I, s, lambda x, j=j: readbyte(I, x, buf, pos + j)):
                    if v is not None and x.st.decide(("eq", v - c)) is True:
                        r.good(cat)
                    else:
                        bad_or_und(r, x, v, entry, "output position %r holds %r, expected %r" % (x.st.norm(pos + j), v, chr(c)))
                        return False
            pos = pos + len(b)
            continue
        if len(sg) == 2 and sg[0] == "fill":
            raise AssertionError
        o, off, n = sg
        if s.st.decide(("ge", -n)) is True:
            continue
        j = I.sym("j%d" % i, 0, 1 << 47, "in")
        x0 = s.copy()
        try:
            x0.st.add_ge(n - j - 1)
        except Infeasible:
            continue

        def f(x):
            got = readbyte(I, x, buf, pos + j)
            if o == "fill":
                want = off
            else:
                want = I.U(x, I.asint(x, I.initial(x, o, x.st.norm(off + j), 1, "i", 8), 8), 8)
            return got, want
        for x, (got, want) in withsplit(I, x0, f):
            if got is not None and x.st.decide(("eq", got - want)) is True:
                r.good(cat)
            else:
                bad_or_und(r, x, got, entry, "output position %r holds %r, expected %r" % (x.st.norm(pos + j), got, want))
                return False
        pos = pos + n
    return True


def bad_or_und(r, s, got, entry, msg, key=None):
    if got is not None and soft(s, got):
        r.undecided(entry, msg + " (over-approximated)")
    else:
        r.bad(key or entry + ":text", msg, "entry " + entry, describe(s))
