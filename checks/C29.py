"""effects: strings, conversions and formatting keep no state, allocate nothing, use nothing
that other threads or the locale can change"""
import subcat
import fmtw
import parsers
import writers
from common import *
from subcat import CAT, MULTI

ck = Check("C29")
ROOTFILES = ("substr.hpp", "charconv.hpp", "format.hpp", "format.cpp", "base64.hpp", "base64.cpp", "utf.hpp", "utf.cpp", "span.hpp", "hash.hpp", "memory_util.hpp",
             "memory_util.cpp", "blob.hpp", "bitmask.hpp", "enum.hpp", "char_traits.hpp", "char_traits.cpp", "dump.hpp", "szconv.hpp", "string.hpp", "vector.hpp",
             "string_view.hpp", "language.hpp", "types.hpp", "type_name.hpp", "ctor_dtor.hpp")
EXTRA = '''
#include <c4/dump.hpp>
#include <c4/utf.hpp>
#include <c4/hash.hpp>
#include <c4/span.hpp>
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <c4/szconv.hpp>
#include <c4/memory_util.hpp>
#include <c4/ctor_dtor.hpp>
#include <c4/type_name.hpp>
#include <c4/allocator.hpp>
typedef enum : unsigned { BM_NONE = 0, BM_AB = 3, BM_A = 1 } BM;
namespace c4 {
template<> EnumSymbols<BM> const esyms<BM>() { static const EnumSymbols<BM>::Sym s[] = {{BM_NONE, "BM_NONE"}, {BM_AB, "BM_AB"}, {BM_A, "BM_A"}}; return EnumSymbols<BM>(s); }
template struct basic_substring<char>;
template struct basic_substring<const char>;
template class span<const int>;
template class spanrs<const int>;
template class spanrsl<const int>;
}
void sink(c4::csubstr s) noexcept;
struct Ob { Ob() noexcept; Ob(Ob const&) noexcept; Ob(Ob &&) noexcept; ~Ob(); Ob& operator=(Ob const&) noexcept; void *p; };
''' + "".join("W size_t x_f%d(const char *s, size_t n, %s *v) { return from_chars_first(csubstr(s, n), v) + from_chars(csubstr(s, n), v); }\n" % (i, t) for i, t in
              enumerate(("int8_t", "uint8_t", "int16_t", "uint16_t", "int32_t", "uint32_t", "int64_t", "uint64_t", "float", "double", "bool", "char", "void*", "substr"))) + '''
W size_t x_ft(char *b, size_t m, float a, double d, int p) { return ftoa(substr(b, m), a, p, FTOA_HEXA) + dtoa(substr(b, m), d, p, FTOA_SCIENT) + to_chars(substr(b, m), d) + to_chars(substr(b, m), a); }
W bool x_at(const char *s, size_t m, float *a, double *d) { return atof(csubstr(s, m), a) && atod(csubstr(s, m), d) && atof_first(csubstr(s, m), a) && atod_first(csubstr(s, m), d); }
W size_t x_uncat(const char *s, size_t n, int *a, double *b) { return uncat(csubstr(s, n), *a, *b) + uncatsep(csubstr(s, n), *a, *a, *b) + unformat(csubstr(s, n), "{} {}", *a, *b); }
W size_t x_dump(char *b, size_t m, int a, double d) { return cat_dump(sink, substr(b, m), a, d, "x") + catsep_dump(sink, substr(b, m), ",", a, d, "x") + format_dump(sink, substr(b, m), "{}{}", a, d); }
W size_t x_dumpr(char *b, size_t m, int a, double d) { auto r = cat_dump_resume(sink, substr(b, m), a, d, "x"); r = catsep_dump_resume(sink, substr(b, m), ",", a, d, "x"); r = format_dump_resume(sink, substr(b, m), "{}{}", a, d); return r.lastok; }
W size_t x_utf(const char *s, size_t n, char *o, size_t m) { return decode_code_point((uint8_t*)o, m, (uint32_t)n) + decode_code_point(substr(o, m), csubstr(s, n)).len; }
W size_t x_hash(const char *s, size_t n) { return hash_bytes(s, n); }
W BM x_bm(const char *s, size_t n, char *o, size_t m) { bm2str<BM>(BM_AB, o, m); BM v = str2e<BM>(s); return (BM)(str2bm<BM>(s) | v); }
W void x_obj(Ob *a, Ob *b, size_t n, Ob const& v) { construct_n(a, n, v); copy_construct_n(a, b, n); copy_construct_n(a, v, n); move_construct_n(a, b, n); destroy_n(a, n); copy_assign_n(a, b, n); copy_assign_n(a, v, n); make_room(a, n, n); destroy_room(a, n, n); move_assign_n(a, b, n); }
W size_t x_types(const char **o) { auto t = type_name<int>(); *o = t.data(); return t.size(); }
'''
FLAGS = ["-fexceptions", "-femit-all-decls", "-Wno-everything"]
SOURCES = ["src/c4/format.cpp", "src/c4/base64.cpp", "src/c4/utf.cpp", "src/c4/memory_util.cpp", "src/c4/char_traits.cpp", "src/c4/error.cpp", "src/c4/language.cpp", "src/c4/memory_resource.cpp"]


# what a reachable call to one of these would mean
UNK = set()
DENY = {}
for k, names in {"memory allocation": "malloc calloc realloc free aligned_alloc posix_memalign memalign valloc strdup strndup _Znwm _Znam _ZdlPv _ZdaPv _ZdlPvm _ZdaPvm _ZnwmSt11align_val_t _ZnamSt11align_val_t _ZdlPvSt11align_val_t _ZnwmRKSt9nothrow_t alloca",
                 "the locale": "setlocale localeconv newlocale uselocale strtod strtof strtold atof sscanf vsscanf __isoc99_sscanf __isoc23_sscanf __isoc99_vsscanf strtol strtoul strtoll strtoull __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull isalpha isdigit isspace isupper islower isxdigit isalnum ispunct isprint toupper tolower __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc strcoll strxfrm mbtowc wctomb mbrtowc wcrtomb",
                 "hidden state": "rand srand random drand48 strtok time clock gettimeofday getenv setenv putenv signal raise __errno_location strerror asctime ctime gmtime localtime setjmp longjmp",
                 "locks or threads": "pthread_mutex_lock pthread_mutex_unlock pthread_create pthread_once mtx_lock sem_wait usleep sleep nanosleep",
                 "input or output": "printf vprintf puts putchar fputs fputc fwrite fread fopen fclose fflush fprintf vfprintf write read open close system exit _exit",
                 "an exception": "__cxa_throw __cxa_allocate_exception __cxa_rethrow _ZSt20__throw_length_errorPKc _ZSt19__throw_logic_errorPKc _ZSt20__throw_out_of_rangePKc _ZSt24__throw_out_of_range_fmtPKcz _ZSt17__throw_bad_allocv"}.items():
    for n in names.split():
        DENY[n] = k
# known and harmless
ALLOW = set("memcpy memmove memset memcmp memchr strlen strcmp strncmp strcpy strncpy snprintf vsnprintf __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __gxx_personality_v0 abort _ZSt9terminatev __cxa_begin_catch __cxa_end_catch __clang_call_terminate".split())
ALLOWP = ("std::to_chars(char*, char*, ", "std::from_chars(char const*", "std::align(", "std::terminate", "Oq", "Ob::", "sink(", "llvm.", "std::__glibcxx_assert", "std::__cxx11::basic_string<char", "std::basic_string_view", "frexp", "ldexp", "std::__detail", "__gnu_cxx")
WRITES0 = {"memcpy": (0,), "memmove": (0,), "memset": (0,), "snprintf": (0,), "vsnprintf": (0,), "strcpy": (0,), "strncpy": (0,), "sprintf": (0,)}
READS = set("memcmp memchr strlen strcmp strncmp".split())
# reporting an error is configured by the user and may do anything
CUT = ("c4::get_error_flags(", "c4::is_debugger_attached(", "c4::handle_error(", "c4::handle_warning(", "c4::detail::check_assumption")
# containers own their storage
OWNS = ("std::vector<", "std::__cxx11::basic_string<", "std::allocator", "__gnu_cxx::", "std::allocator_traits<", "std::_Vector_base<")


NONE_ = frozenset()


class Prog:
    def __init__(self, m):
        self.F = m.d["functions"]
        self.G = m.d["globals"]
        self.mut = {g for g, v in self.G.items() if not v["const"] and not g.startswith(("llvm.", "_ZGV", "_ZTI", "_ZTV", "_ZTS", "__dso"))}
        self.site = {}
        self.calls = {}
        self.cont, self.ret = {}, {}
        defs = [(n, f) for n, f in self.F.items() if not f.get("decl")]
        for n, f in defs:
            self.scan(n, f)
        callers = {}
        for n, f in defs:
            for c, i, bi in self.calls[n]:
                callers.setdefault(c, set()).add(n)
        todo = [n for n, f in defs]
        queued = set(todo)
        while todo:
            n = todo.pop()
            queued.discard(n)
            g = False
            while self.flow(n, self.F[n]):
                g = True
            if g:
                for c in callers.get(n, ()):
                    if c not in queued:
                        queued.add(c)
                        todo.append(c)
        self.summ()

    def dem(self, n):
        return self.F[n]["dem"] if n in self.F else n

    def scan(self, n, f):
        """direct calls; the points-to state starts with the parameters"""
        calls = []
        for bi, b in enumerate(f["blocks"]):
            for i in b:
                if i["op"] in ("call", "invoke"):
                    calls.append((i.get("f"), i, bi))
        self.calls[n] = calls
        pts = {a["id"]: {("p", k)} for k, a in enumerate(f["args"]) if a["tk"] == "p"}

        def val(v):
            """what a pointer may address: parameter k (p,k), what a pointer stored in parameter k's pointee
            addresses (d,k), a local (a,id), a variable with static storage (g,name)"""
            if isinstance(v, int):
                return pts.get(v, NONE_)
            if isinstance(v, dict) and v.get("k") == "g":
                nm = v.get("n") or v.get("g")
                return {("g", nm)} if nm in self.mut else NONE_
            return NONE_
        self.site[n] = (pts, val)
        self.cont[n] = {}
        self.ret[n] = set()

    def deref(self, n, ts):
        c = self.cont[n]
        r = set()
        for t in ts:
            r |= c.get(t, NONE_)
            if t[0] in "pd":
                r.add(("d", t[1]))
        return r

    def flow(self, n, f):
        """one pass of the flow-insensitive points-to analysis; True when something grew"""
        pts, val = self.site[n]
        cont = self.cont[n]
        grew = False

        def into(tgt, src):
            nonlocal grew
            for t in tgt:
                if src and not src <= cont.get(t, NONE_):
                    cont[t] = cont.get(t, NONE_) | src
                    grew = True
        for b in f["blocks"]:
            for i in b:
                op = i["op"]
                r = NONE_
                if op == "alloca":
                    r = {("a", i["id"])}
                elif op == "getelementptr":
                    r = val(i.get("base"))
                elif op == "phi":
                    r = set().union(*[val(v) for _, v in i["in"]])
                elif op in ("select", "bitcast", "addrspacecast", "freeze", "insertvalue", "extractvalue", "inttoptr", "ptrtoint"):
                    r = set().union(*[val(v) for v in i.get("a", [])])
                elif op == "load":
                    if i["tk"] in "pa":
                        r = self.deref(n, val(i["p"]))
                elif op == "store":
                    into(val(i["p"]), val(i["v"]))
                elif op == "ret":
                    x = {t for v in i.get("a", []) for t in val(v) if t[0] != "a"}
                    if not x <= self.ret[n]:
                        self.ret[n] |= x
                        grew = True
                elif op in ("call", "invoke"):
                    c = i.get("f")
                    A = i["args"]
                    if c is None:
                        pass
                    elif c.startswith("llvm.threadlocal") or c in ("memset", "strcpy", "strncpy"):
                        r = val(A[0])
                    elif c in ("memcpy", "memmove") or c.startswith(("llvm.memcpy", "llvm.memmove")):
                        into(val(A[0]), self.deref(n, val(A[1])))
                        r = val(A[0])
                    elif c in self.ret:
                        def tr(ts):
                            o = set()
                            for t in ts:
                                if t[0] == "g":
                                    o.add(t)
                                elif t[0] == "p" and t[1] < len(A):
                                    o |= val(A[t[1]])
                                elif t[0] == "d" and t[1] < len(A):
                                    o |= self.deref(n, val(A[t[1]]))
                            return o
                        r = tr(self.ret[c])
                        for t, src in list(self.cont[c].items()):
                            if t[0] in "pdg":
                                into(tr({t}), tr(src))
                if r and "id" in i and not r <= pts.get(i["id"], NONE_):
                    pts[i["id"]] = pts.get(i["id"], NONE_) | r
                    grew = True
        return grew

    def guarded(self, n, f):
        """blocks of f executed only while a static variable is being initialised (between
        __cxa_guard_acquire and __cxa_guard_release)"""
        cached = f.get("_guard")
        if cached is not None:
            return cached
        out = set()
        bl = f["blocks"]

        def succ(b):
            t = bl[b][-1]
            return [x for x in (t.get("t"), t.get("f") if isinstance(t.get("f"), int) else None, t.get("uw"), t.get("d")) if isinstance(x, int)] + [c[1] for c in t.get("cases", [])]
        for bi, b in enumerate(bl):
            acq = [i for i in b if i.get("f") == "__cxa_guard_acquire"]
            if not acq:
                continue
            t = b[-1]
            if t["op"] != "br" or "c" not in t:
                continue
            # reachable only through the branch that won the guard
            for first in (t["t"], t["f"]):
                seen, todo = set(), [first]
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    if any(i.get("f") == "__cxa_guard_release" for i in bl[x]):
                        continue
                    todo += succ(x)
                if any(i.get("f") == "__cxa_guard_release" for x in seen for i in bl[x]):
                    other = t["f"] if first == t["t"] else t["t"]
                    if other in seen and len(seen) > 1:
                        seen.discard(other)
                    out |= seen
                    break
        f["_guard"] = out
        return out

    def frozen(self, n, f):
        """static variables whose one-time initialisation uses the arguments of the call that happens to come first"""
        gd = self.guarded(n, f)
        if not gd or not f["args"]:
            return
        pts, val = self.site[n]
        taint = {a["id"] for a in f["args"]}

        def used(i):
            vs = list(i.get("a", [])) + list(i.get("args", [])) + [i.get(k) for k in ("p", "v", "base", "c")] + [v for _, v in i.get("in", [])] + [v[0] for v in i.get("vo", [])]
            return any(isinstance(v, int) and v in taint for v in vs)
        base = {i["id"]: i["base"] for b in f["blocks"] for i in b if i["op"] == "getelementptr" and isinstance(i.get("base"), int)}
        chg = True
        while chg:
            chg = False
            for b in f["blocks"]:
                for i in b:
                    if i["op"] == "store" and isinstance(i["v"], int) and i["v"] in taint and isinstance(i["p"], int):
                        q = i["p"]
                        while q in base:
                            q = base[q]
                        if q not in taint:
                            taint.add(q)
                            chg = True
                    if "id" in i and i["id"] not in taint and used(i) and i["op"] not in ("br", "switch"):
                        taint.add(i["id"])
                        chg = True
        for bi in gd:
            for i in f["blocks"][bi]:
                if i["op"] == "store" and isinstance(i["v"], int) and i["v"] in taint:
                    for g in val(i["p"]):
                        if g[0] == "g":
                            yield g[1], i.get("loc")
                elif i["op"] in ("call", "invoke"):
                    gs = [g for a in i["args"] for g in val(a) if g[0] == "g"]
                    if gs and any(isinstance(a, int) and a in taint for a in i["args"]):
                        yield gs[0][1], i.get("loc")

    def isinit(self, n):
        return n.startswith(("__cxx_global_var_init", "_GLOBAL__"))

    def summ(self):
        """which parameters and globals each function may write, read, or let escape"""
        self.W = {n: set() for n in self.F}
        self.R = {n: set() for n in self.F}
        self.E = {n: set() for n in self.F}
        self.why = {}
        chg = True
        while chg:
            chg = False
            for n, f in self.F.items():
                if f.get("decl"):
                    continue
                pts, val = self.site[n]
                w, r, e = set(), set(), set()
                gd = self.guarded(n, f)
                for bi, b in enumerate(f["blocks"]):
                    for i in b:
                        op = i["op"]
                        ww, rr, ee = set(), set(), set()
                        if op == "store":
                            ww = val(i["p"])
                        elif op == "load":
                            rr = val(i["p"])
                        elif op in ("atomicrmw", "cmpxchg"):
                            ww = set().union(*[val(v) for v in i.get("a", [])[:1]])
                        elif op == "ret":
                            ee = {x for v in i.get("a", []) for x in val(v) if x[0] == "g"}
                        elif op in ("call", "invoke"):
                            c = i.get("f")
                            for k, a in enumerate(i["args"]):
                                t = val(a)
                                if not t:
                                    continue
                                if c in WRITES0 or (c or "").startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove")):
                                    if k == 0:
                                        ww |= t
                                    else:
                                        rr |= t
                                elif c in READS or (c or "").startswith("llvm."):
                                    rr |= t
                                elif c in self.F and not self.F[c].get("decl"):
                                    d = self.deref(n, t)
                                    for S, acc in ((self.W, ww), (self.R, rr), (self.E, ee)):
                                        if ("p", k) in S[c]:
                                            acc |= t
                                        if ("d", k) in S[c]:
                                            acc |= d
                                elif c in self.F and k < len(self.F[c]["args"]) and self.F[c]["args"][k].get("ro"):
                                    rr |= t
                                elif not (c or "").startswith("__cxa_"):
                                    ee |= t
                        ww = {x for x in ww if x[0] != "a"}
                        rr = {x for x in rr if x[0] != "a"}
                        ee = {x for x in ee if x[0] != "a"}
                        if bi in gd or self.isinit(n):
                            ww = {x for x in ww if x[0] != "g"}
                            ee = {x for x in ee if x[0] != "g"}
                        for x in ww:
                            if x[0] == "g":
                                self.why.setdefault(("w", n, x[1]), i.get("loc"))
                        for x in rr:
                            if x[0] == "g":
                                self.why.setdefault(("r", n, x[1]), i.get("loc"))
                        w |= ww
                        r |= rr
                        e |= ee
                for S, x in ((self.W, w), (self.R, r), (self.E, e)):
                    if not x <= S[n]:
                        S[n] |= x
                        chg = True

    def reach(self, root):
        """functions reachable from root, with a path to each"""
        par = {root: None}
        todo = [root]
        while todo:
            n = todo.pop()
            for c, i, bi in self.calls.get(n, []):
                if c is None or c in par:
                    continue
                if self.dem(c).startswith(CUT) or any(("> " + k) in self.dem(c) for k in CUT):
                    continue
                par[c] = (n, i.get("loc"))
                if c in self.F and not self.F[c].get("decl"):
                    todo.append(c)
        return par


def path(P, par, n):
    out = []
    while n is not None:
        p = par[n]
        out.append(P.dem(n)[:70] + ((" at " + where(p[1])) if p and p[1] else ""))
        n = p[0] if p else None
    return " <- ".join(out[:6])


def is_root(P, n, f):
    if f.get("decl") or P.isinit(n):
        return False
    if f["dem"].startswith("c4::isspace("):
        return False     # by definition the C library's notion of a space
    fl = f.get("file") or ""
    return "/c4/" in fl and os.path.basename(fl) in ROOTFILES or n.startswith(("w_", "x_", "s_", "p_"))


def task(m):
    def fn(r):
        P = Prog(m)
        runtime_w = {}
        for n in P.F:
            for x in P.W[n]:
                if x[0] == "g" and ("w", n, x[1]) in P.why:
                    runtime_w.setdefault(x[1], []).append(n)
        bad = {}
        nroots = 0
        for n, f in sorted(P.F.items()):
            if not is_root(P, n, f):
                continue
            nroots += 1
            par = P.reach(n)
            r.stat("functions_reached", len(par))
            for c in par:
                if c in DENY and P.F.get(c, {}).get("decl", True):
                    caller = par[c][0]
                    # containers manage their own storage; aligned memory helpers are not in the scope
                    if P.dem(caller).startswith(OWNS) or any(("> " + k) in P.dem(caller) or (" " + k) in P.dem(caller).split("(")[0] for k in OWNS):
                        continue
                    bad.setdefault((caller, c), (path(P, par, c), "uses %s (%s)" % (DENY[c], c), par[c][1]))
                elif c in P.F and not P.F[c].get("decl"):
                    for g, loc in P.frozen(c, P.F[c]):
                        bad.setdefault((c, g), (path(P, par, c), "the variable %s keeps what the arguments of the first call gave" % P.G[g]["dem"], loc))
                    for g in {x[1] for x in P.W[c] | P.R[c] if x[0] == "g"}:
                        if ("w", c, g) in P.why and P.G[g].get("dem"):
                            bad.setdefault((c, g), (path(P, par, c), "writes the variable %s, which outlives the call" % P.G[g]["dem"], P.why["w", c, g]))
                        elif ("r", c, g) in P.why and runtime_w.get(g):
                            bad.setdefault((c, g), (path(P, par, c), "reads the variable %s, which %s changes" % (P.G[g]["dem"], P.dem(runtime_w[g][0])[:60]), P.why["r", c, g]))
                elif c in ALLOW or P.dem(c).startswith(ALLOWP) or any((" " + k) in P.dem(c) for k in ALLOWP):
                    pass
                elif c not in DENY:
                    UNK.add(P.dem(c))
            r.good("no effect beyond the arguments")
        for (c, g), (pt, what, loc) in sorted(bad.items()):
            r.bad("effect:%s:%s" % (P.dem(c).split("(")[0][-60:], g), what, where(loc), pt)
        if os.environ.get("C29_DEBUG"):
            print(sorted(UNK))
        r.stat("roots", nroots)
        r.stat("functions", sum(1 for f in P.F.values() if not f.get("decl")))
    return fn


for sd in ("c++17", "c++11"):
    H = fmtw.HDR if sd == "c++17" else fmtw.HDR.replace("#include <string_view>", "")
    fam = fmtw.family()
    if sd == "c++11":
        fam = [e for e in fam if "string_view" not in e.body]
    src = H + "".join(e.text() for e in fam) + EXTRA
    m = ck.ir("e" + sd[3:], src, std=sd, flags=FLAGS, sources=SOURCES, noinline=True)
    if m:
        ck.task("effects, " + sd, task(m))
ck.run()
ck.finish("no function of the string, conversion, formatting, base64, UTF, hash, span, enum and object-construction headers can reach an allocation, an exception, input or output, a lock, a locale-dependent function, or a variable with static or thread storage that is changed at run time (error reporting excepted)",
          "call-graph effect analysis over the whole program's IR (every inline function emitted, templates instantiated): transitive closure of callees, and interprocedural write/read summaries for every variable with static storage; constants and variables only written by their own (guarded) initialisation are not state",
          ["error reporting is configured by the user and is cut off", "the standard library's real-number conversions and snprintf are taken as given", "containers own their storage"], {"standards": 2})
