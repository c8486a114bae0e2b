"""dumping through a sink: pieces in order, each once, none after a failure; resuming"""
import subcat
from subcat import *
from fmtw import oqs
from opaque import *

ck = Check("C18")
T = ck.thorough
SRC = "#include <c4/dump.hpp>\n" + HDR + OQ + '''
void sink(c4::csubstr s) noexcept;
struct Snk { int x; void operator()(c4::csubstr s) noexcept; };
'''
# a piece: ("oq", i) opaque argument i | ("str", i) characters given by the caller | ("lit", text)
ENT = []


class D:
    pass


def decl(kinds):
    o = []
    for i, k in enumerate(kinds):
        if k == "q":
            o.append("Oq const& a%d" % i)
        elif k == "s":
            o.append("const char *p%d, size_t n%d" % (i, i))
    return o


def actual(kinds):
    o = []
    for i, k in enumerate(kinds):
        o.append({"q": "a%d" % i, "s": "csubstr(p%d, n%d)" % (i, i)}.get(k, '"%s"' % k[1:]))
    return o


def piece(i, k):
    return ("oq", i) if k == "q" else ("str", i) if k == "s" else ("lit", k[1:])


def add(name, fn, kinds, pieces, pre=()):
    """fn in cat_dump/...; four or two forms each"""
    global SRC
    A = ", ".join(list(pre) + actual(kinds))
    P = "".join(", " + x for x in decl(kinds))
    for form in ("tpl", "fn"):
        call = lambda res: ("%s<sink>(%s" % (fn + res[0], res[1]) if form == "tpl" else "%s(o, %s" % (fn + res[0], res[1])) + "substr(b, n), " + A + ")"
        e = D()
        e.name, e.kinds, e.pieces, e.resume, e.init = "%s_%s" % (name, form), kinds, pieces, False, False
        SRC += "W size_t %s(Snk &o, DumpResults *io, char *b, size_t n%s) { return %s; }\n" % (e.name, P, call(("", "")))
        ENT.append(e)
        e = D()
        e.name, e.kinds, e.pieces, e.resume, e.init = "%s_res_%s" % (name, form), kinds, pieces, True, False
        SRC += "W void %s(Snk &o, DumpResults *io, char *b, size_t n%s) { *io = %s; }\n" % (e.name, P, call(("_resume", "*io, ")))
        ENT.append(e)
        e = D()
        e.name, e.kinds, e.pieces, e.resume, e.init = "%s_first_%s" % (name, form), kinds, pieces, True, True
        SRC += "W void %s(Snk &o, DumpResults *io, char *b, size_t n%s) { *io = %s; }\n" % (e.name, P, call(("_resume", "")))
        ENT.append(e)


CAT = ["q", "qq", "qqq", "qsq", "sqs", ["q", "Lxy", "q"], "ss", "qqqq", ["Lab"]]
SEP = [["q", "q"], ["q", "q", "q"], ["q", "q", "q", "q"], ["L, ", "q", "q"], ["s", "q", "s", "q"], ["q", "s", "Lz"], ["L-", "q", "q", "q"]]
FMT = [("{}", "q"), ("a{}b", "q"), ("{}-{}", "qq"), ("x{}yy{}zzz", "qs"), ("{}", "qq"), ("{}{}", "q"), ("abc", "q"), ("{}/{}/{}", "qqq"), ("{}={}", ["Lk", "q"]), ("a{}{}", "qq")]
if T:
    CAT += ["qqqqq", "sqsqs"]
    SEP += [["q"] * 5, ["s", "q", "q", "q", "q"]]
    FMT += [("{}{}{}{}", "qqqq"), ("a{}b{}c{}d", "qsq")]
for i, k in enumerate(CAT):
    k = list(k)
    add("cat%d" % i, "cat_dump", k, [piece(j, x) for j, x in enumerate(k)])
for i, k in enumerate(SEP):
    ps = []
    for j in range(1, len(k)):
        if j > 1:
            ps.append(piece(0, k[0]))
        ps.append(piece(j, k[j]))
    add("sep%d" % i, "catsep_dump", k, ps)
for i, (f, k) in enumerate(FMT):
    k = list(k)
    ps, rest = [], f
    for j, x in enumerate(k):
        q = rest.find("{}")
        if q < 0:
            break
        ps += [("lit", rest[:q]), piece(j, x)]
        rest = rest[q + 2:]
    ps.append(("lit", rest))
    add("fmt%d" % i, "format_dump", k, ps, ['"%s"' % f])
SRC += "W bool q_until(size_t l, size_t a) { DumpResults r; r.lastok = l; return r.success_until(a); }\nW bool q_write(size_t l, size_t a) { DumpResults r; r.lastok = l; return r.write_arg(a); }\nW size_t q_fail(size_t l, size_t a) { DumpResults r; r.lastok = l; return r.argfail(); }\n"
m = ck.ir("dump", SRC)


def query(nm):
    """what a result says about the arguments: written up to lastok (none: the largest size)"""
    def mk(I):
        l, a = I.sym("lastok", 0, NPOS, "in"), I.sym("argument", 0, NPOS - 1, "in")
        return [l, a], (l, a), None

    def spec(x, env, s):
        l, a = env
        none = x.eq(l, NPOS)
        if nm == "q_fail":
            return expect_int(x, rint(x.I, s, s.retval, 64), ZERO if none else l + 1, "first argument not written")
        done = not none and x.ge(l, a)
        return expect_int(x, rint(x.I, s, s.retval, 8), Lin(int(done == (nm == "q_until"))), "answer")
    return Case(nm, nm, mk, spec)


def h_sink(p, n):
    def h(I, s, a, ins):
        q = a[p]
        nn = s.st.norm(I.U(s, I.asint(s, a[n], 64), 64))
        s.events.append(("sink", q, nn, s.mem.get(q.obj.id) if isinstance(q, Ptr) else None, ins.get("loc")))
        return None
    return h


EX = dict(EXT)
EX["~sink(c4::basic_substring<char const>)"] = h_sink(0, 1)
EX["~Snk::operator()(c4::basic_substring<char const>)"] = h_sink(1, 2)


def task(e, last):
    """last: index of the last piece already dumped, or None"""
    def fn(r):
        lin.reset_syms()
        m.gobj.clear()
        I = Interp(m, ext=EX)
        blen = I.sym("len", 0, 1 << 40, "len")
        buf, io, so = Obj("buf", "buf", blen), Obj("out", "results", 16), Obj("ext", "sink", 4)
        bs0 = I.sym("bufsize", 0, 1 << 40, "in") if not e.init else ZERO
        args, what = [], {}
        for i, k in enumerate(e.kinds):
            if k == "q":
                o = oqarg(I, "a%d" % i)
                args.append(o)
                t = text_obj(I, (o.obj.id, ZERO.key), o.obj.name)
                what[i] = (t, t.size)
            elif k == "s":
                o, n = strobj(I, "p%d" % i, None)
                args += [Ptr(o, ZERO), n]
                what[i] = (o, n)

        def setup(s):
            s.mem[io.id] = (("st", Lin(0), 8, bs0, 64, None), ("st", Lin(8), 8, Lin(NPOS if last is None else last), 64, None))
        fs = I.start(e.name, [Ptr(so, ZERO), Ptr(io, ZERO), Ptr(buf, ZERO), blen] + args, setup)
        r.stat("abstract_states", len(fs))
        if not fs:
            r.undecided(e.name, "no final state")
        for s0 in fs:
            if s0.status != "ret":
                r.bad(e.name + ":noret", "does not return normally", "", describe(s0))
                continue

            def expect(s):
                """(pieces to be dumped, lastok, size)"""
                x = X(I, s)
                empty = x.eq(blen, 0)
                todo, ok, stop, size = [], last, empty, bs0 if e.resume else ZERO
                for i, (k, w) in enumerate(e.pieces):
                    if last is not None and i <= last:
                        continue
                    if k == "oq":
                        n = what[w][1]
                        if not x.ge(size, n):
                            size = n
                        if not stop and not x.le(n, blen):
                            stop = True
                    if not stop:
                        ok = i
                        todo.append(what[w] if k != "lit" else (w, Lin(len(w))))
                return empty, todo, ok, size
            for s, (empty, todo, ok, size) in withsplit(I, s0, expect):
                judge(r, I, e, s, empty, todo, ok, size, io, last, bs0, blen)
        memcheck(r, I, e.name, objs=("buf", "results", "text", "p0", "p1", "p2"))
    return fn


def judge(r, I, e, s, empty, todo, ok, size, io, last, bs0, blen):
    ev = [v for v in s.events if v[0] == "sink"]
    if e.resume and s.st.decide(("ge", bs0 - blen - 1)) is True:
        # the buffer is smaller than the size already reported: may be refused
        x = X(I, s)
        if s.st.decide(("eq", x.out(io, 0) - bs0)) is True and s.st.decide(("eq", x.out(io, 8) - (NPOS if last is None else last))) is True \
                and all(s.st.decide(("eq", v[2])) is True for v in ev):
            return r.good("refused with a buffer known to be too small")
    i = 0

    def bad(msg):
        r.bad(e.name + ":dump", msg, "entry " + e.name, describe(s))
    for _, p, n, mem, loc in ev:
        zero = s.st.decide(("eq", n)) is True
        while i < len(todo) and s.st.decide(("eq", todo[i][1] - n)) is not True and s.st.decide(("eq", todo[i][1])) is True:
            i += 1
        if i < len(todo) and s.st.decide(("eq", todo[i][1] - n)) is True:
            if not zero:
                if not isinstance(p, Ptr):
                    return r.undecided(e.name, "unknown pointer given to the sink")
                y = s.copy()
                if mem is not None:
                    y.mem[p.obj.id] = mem
                elif p.obj.id in y.mem:
                    del y.mem[p.obj.id]
                c = todo[i][0]
                if p.obj is not c and not seg_check(I, r, y, p.obj, p.off, [c] if isinstance(c, str) else [(c, ZERO, n)], e.name, "dumped byte"):
                    return
                if p.obj is c and s.st.decide(("eq", p.off)) is not True:
                    return bad("the sink gets the text of a piece from position %r on" % p.off)
            i += 1
            r.good("piece dumped in order")
            continue
        if zero:
            continue
        return bad("the sink gets %r characters at %s, expected %s" % (n, where(loc), "nothing more" if i >= len(todo) else "%r characters" % todo[i][1]))
    while i < len(todo):
        if s.st.decide(("eq", todo[i][1])) is not True:
            return bad("a piece of %r characters is not dumped" % todo[i][1])
        i += 1
    x = X(I, s)
    if e.resume:
        got, lo = x.out(io, 0), x.out(io, 8)
        if not s.st.decide(("eq", lo - (NPOS if ok is None else ok))) is True:
            return bad("last piece dumped is reported as %r, expected %r" % (lo, ok))
    elif empty:
        return
    else:
        got = rint(I, s, s.retval)
    lo1 = s.st.decide(("eq", got - size)) is True or empty and s.st.decide(("eq", size)) is True and s.st.decide(("ge", Lin(1) - got)) is True
    if not lo1:
        return bad("required buffer size reported is %r, expected %r" % (got, size))
    r.good("required size and position")


if m:
    for e in ENT:
        if e.resume and not e.init:
            for last in [None] + list(range(len(e.pieces))):
                ck.task("%s/%s" % (e.name, last), task(e, last))
        else:
            ck.task(e.name, task(e, None))
    for nm in ("q_until", "q_write", "q_fail"):
        ck.task(nm, lambda r, nm=nm: run_case(m, query(nm), r))
    ck.run()
ck.finish("the sink gets the pieces (arguments, separators, literal runs of the format) in order, each once, up to and excluding the first whose text does not fit the buffer, and nothing after it; the reported size is the largest text; resuming starts exactly after the last piece reported as dumped",
          "abstract interpretation of cat_dump/catsep_dump/format_dump and their _resume forms (sink as template argument and as function object) over opaque argument types, any buffer size, and every resume point; the bytes handed to the sink are compared at a symbolic position",
          ["a user to_chars needs a fixed number of bytes and writes only inside its buffer", "argument texts shorter than 2^40"], {"entries": len(ENT)})
