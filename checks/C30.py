"""type-level guarantees: what must not compile, what must, and what the types promise"""
import re
import subprocess
from common import *

ck = Check("C30")
INC = '''#include <string>
#include <vector>
#include <type_traits>
#include <utility>
#include <c4/substr.hpp>
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/span.hpp>
#include <c4/blob.hpp>
#include <c4/base64.hpp>
#include <c4/utf.hpp>
#include <c4/dump.hpp>
#include <c4/std/std.hpp>
#include <c4/allocator.hpp>
using namespace c4;
template<class...> struct mkvoid { using type = void; };
template<class A, class B> using same = std::is_same<A, B>;
struct Obj { int a; std::string s; };
struct Pod { int a; double b; };
'''
O = []        # (label, condition)
CF = []       # (label, must compile, must not)
DET = ""


def det(label, ty, expr, want):
    """does the expression over x (an lvalue of type ty) compile"""
    global DET
    k = len(O)
    e = re.sub(r"\bx\b", "std::declval<T_&>()", expr)
    DET += "template<class T_, class = void> struct D%d : std::false_type {};\ntemplate<class T_> struct D%d<T_, typename mkvoid<decltype(%s)>::type> : std::true_type {};\n" % (k, k, e)
    O.append((label, ("" if want else "!") + "D%d<%s>::value" % (k, ty)))


def con(label, cond):
    O.append((label, cond))


MUT = ["toupper()", "tolower()", "fill('a')", "copy_from(csubstr())", "reverse()", "reverse_sub(0, 0)", "reverse_range(0, 0)", "erase(0, 0)", "erase_range(0, 0)", "erase(csubstr())", "replace('a', 'b')", "replace(csubstr(), 'b')"]
for f in MUT:
    det("a read-only string offers no way to change its text: csubstr::" + f, "csubstr", "x." + f, False)
    det("a writeable string can be changed in place: substr::" + f, "substr", "x." + f, True)
for e in ("x[0] = 'a'", "x.front() = 'a'", "x.back() = 'a'", "*x.begin() = 'a'", "*x.data() = 'a'", "*(x.end() - 1) = 'a'", "*x.str = 'a'"):
    det("characters of a csubstr cannot be assigned: " + e, "csubstr", e, False)
    det("characters of a substr can be assigned: " + e, "substr", e, True)
for e in ("x.sub(0)[0] = 'a'", "x.first(1)[0] = 'a'", "x.last(1)[0] = 'a'", "x.range(0, 1)[0] = 'a'", "x.trim(' ')[0] = 'a'", "x.left_of(0)[0] = 'a'", "x.right_of(0)[0] = 'a'", "x.pop_left()[0] = 'a'", "x.first_int_span()[0] = 'a'", "x.stripl(\"a\")[0] = 'a'"):
    det("a part of a csubstr is read-only: " + e, "csubstr", e, False)
    det("a part of a substr is writeable: " + e, "substr", e, True)
for a, b, w in (("csubstr", "substr", 1), ("substr", "csubstr", 0), ("substr", "const char*", 0), ("substr", "std::string const&", 0), ("substr", "const char(&)[4]", 0),
                ("csubstr", "const char(&)[4]", 1), ("csubstr", "const char*", 1), ("csubstr", "char*", 1), ("substr", "char*", 1), ("substr", "char(&)[4]", 1)):
    con("%s %s be made from %s" % (a, "can" if w else "cannot", b), ("" if w else "!") + "std::is_constructible<%s, %s>::value" % (a, b))
    con("%s %s be assigned from %s" % (a, "can" if w else "cannot", b), ("" if w else "!") + "std::is_assignable<%s&, %s>::value" % (a, b))
con("a substr converts to a csubstr without being asked", "std::is_convertible<substr, csubstr>::value")
con("a csubstr never converts to a substr", "!std::is_convertible<csubstr, substr>::value")
for t in ("csubstr", "substr", "span<int>", "span<const int>", "blob", "cblob"):
    con("%s is trivially destructible" % t, "std::is_trivially_destructible<%s>::value" % t)
    con("%s copies without throwing" % t, "std::is_nothrow_copy_constructible<%s>::value && std::is_nothrow_copy_assignable<%s>::value" % (t, t))
    con("%s moves without throwing" % t, "std::is_nothrow_move_constructible<%s>::value && std::is_nothrow_move_assignable<%s>::value" % (t, t))
    con("%s has a non-throwing default" % t, "std::is_nothrow_default_constructible<%s>::value" % t)
    con("%s is a pointer and a length" % t, "sizeof(%s) == sizeof(void*) + sizeof(size_t)" % t)
for t in ("csubstr", "substr", "blob", "cblob"):
    con("%s is trivially copyable" % t, "std::is_trivially_copyable<%s>::value" % t)
    con("%s has standard layout" % t, "std::is_standard_layout<%s>::value" % t)
# writing needs a writeable destination
for nm, e in (("to_chars(int)", "to_chars(x, 1)"), ("to_chars(text)", "to_chars(x, csubstr())"), ("to_chars(double)", "to_chars(x, 1.0)"), ("cat", "cat(x, 1, 2)"), ("catsep", "catsep(x, ',', 1, 2)"), ("format", "format(x, csubstr(), 1)"), ("xtoa", "xtoa(x, 1)"), ("itoa", "itoa(x, 1)"),
              ("utoa", "utoa(x, 1u)"), ("write_dec", "write_dec(x, 1)"), ("ftoa", "ftoa(x, 1.f)"), ("to_chars_sub", "to_chars_sub(x, 1)"), ("base64_encode", "base64_encode(x, cblob())")):
    det("nothing can be written into a read-only string: " + nm, "csubstr", e, False)
    det("text can be written into a writeable string: " + nm, "substr", e, True)
# reading needs a writeable value
for nm, t in (("int", "int"), ("unsigned", "unsigned"), ("long", "long"), ("int8", "int8_t"), ("double", "double"), ("float", "float"), ("bool", "bool"), ("char", "char"), ("pointer", "void*"), ("string", "std::string"), ("vector", "std::vector<char>"), ("substr", "substr"), ("csubstr", "csubstr")):
    CF.append(("from_chars reads into a %s, never into a const one" % nm, "bool f(%s *v) { return from_chars(csubstr(), v); }" % t, "bool f(%s const *v) { return from_chars(csubstr(), v); }" % t))
for nm, t in (("int", "int"), ("uint64", "uint64_t"), ("double", "double"), ("float", "float"), ("bool", "bool"), ("char", "char"), ("substr", "substr")):
    CF.append(("from_chars_first reads into a %s, never into a const one" % nm, "size_t f(%s *v) { return from_chars_first(csubstr(), v); }" % t, "size_t f(%s const *v) { return from_chars_first(csubstr(), v); }" % t))
for f in ("uncat(csubstr(), *v)", "uncatsep(csubstr(), *c, *v)", "unformat(csubstr(), csubstr(), *v)", "atox(csubstr(), v)", "from_chars(csubstr(), fmt::overflow_checked(*v))"):
    CF.append(("values read are writeable: " + f, "void f(int *v, char *c) { (void)%s; }" % f, "void f(int const *v, char *c) { (void)%s; }" % f))
for f in ("read_dec(csubstr(), v)", "read_hex(csubstr(), v)", "read_oct(csubstr(), v)", "read_bin(csubstr(), v)", "atoi(csubstr(), v)", "atoi_first(csubstr(), v)"):
    CF.append(("values read are writeable: " + f, "void f(int *v) { (void)%s; }" % f, "void f(int const *v) { (void)%s; }" % f))
for f in ("atou(csubstr(), v)", "atou_first(csubstr(), v)"):
    CF.append(("values read are writeable: " + f, "void f(unsigned *v) { (void)%s; }" % f, "void f(unsigned const *v) { (void)%s; }" % f))
for f in ("atof(csubstr(), v)", "atof_first(csubstr(), v)"):
    CF.append(("real reading keeps its type: " + f, "void f(float *v) { (void)%s; }" % f, "void f(double *v) { (void)%s; }" % f))
CF.append(("base64 of objects with pointers or owners is refused", "void f(substr s, Pod const& v) { (void)to_chars(s, fmt::base64(v)); }", "void f(substr s, Obj const& v) { (void)to_chars(s, fmt::base64(v)); }"))
CF.append(("raw bytes of objects with pointers or owners are refused", "void f(substr s, Pod const& v) { (void)to_chars(s, fmt::raw(v)); }", "void f(substr s, Obj const& v) { (void)to_chars(s, fmt::raw(v)); }"))
det("base64_decode needs a writeable destination", "cblob", "base64_decode(csubstr(), x)", False)
det("base64_decode takes a writeable destination", "blob", "base64_decode(csubstr(), x)", True)
det("base64_decode reads read-only text", "csubstr", "base64_decode(x, blob())", True)
# spans
for s in ("span", "spanrs", "spanrsl"):
    con("%s<T> converts to its read-only form" % s, "std::is_convertible<%s<int>, %s<const int>>::value" % (s, s))
    con("%s<const T> does not convert to %s<T>" % (s, s), "!std::is_convertible<%s<const int>, %s<int>>::value && !std::is_constructible<%s<int>, %s<const int>>::value" % (s, s, s, s))
    det("elements of a %s<const T> cannot be assigned" % s, "%s<const int>" % s, "x[0] = 1", False)
    det("elements of a %s<T> can be assigned" % s, "%s<int>" % s, "x[0] = 1", True)
    for e in ("x.front() = 1", "x.back() = 1", "*x.begin() = 1", "*x.data() = 1", "x.first(1)[0] = 1", "x.subspan(0, 1)[0] = 1", "x.range(0, 1)[0] = 1", "x.last(1)[0] = 1"):
        det("a %s<const T> gives no way to assign: %s" % (s, e), "%s<const int>" % s, e, False)
        det("a %s<T> is writeable: %s" % (s, e), "%s<int>" % s, e, True)
    con("no span is made from read-only data it could write: " + s, "!std::is_constructible<%s<int>, const int*, size_t>::value" % s)
con("a spanrsl narrows to spanrs and span", "std::is_convertible<spanrsl<int>, spanrs<int>>::value && std::is_convertible<spanrsl<int>, span<int>>::value && std::is_convertible<spanrs<int>, span<int>>::value")
# blobs
con("a blob converts to a cblob", "std::is_convertible<blob, cblob>::value")
con("a cblob does not become a blob", "!std::is_constructible<blob, cblob>::value && !std::is_convertible<cblob, blob>::value && !std::is_assignable<blob&, cblob>::value")
det("bytes of a cblob cannot be assigned", "cblob", "x.buf[0] = c4::byte(0)", False)
# raw
det("raw() of a const object can only be written out", "Pod const", "from_chars(csubstr(), fmt::raw(x))", False)
det("raw() of an object can be read", "Pod", "from_chars(csubstr(), fmt::raw(x))", True)
det("craw() cannot be read into", "Pod", "from_chars(csubstr(), fmt::craw(x))", False)
con("raw() of a const object is the read-only wrapper", "same<decltype(fmt::raw(std::declval<Pod const&>())), fmt::const_raw_wrapper>::value")
con("raw() of an object is the writeable wrapper", "same<decltype(fmt::raw(std::declval<Pod&>())), fmt::raw_wrapper>::value")
det("overflow_checked reads integers", "int", "from_chars(csubstr(), fmt::overflow_checked(x))", True)
# containers
det("to_substr of a const string is refused", "std::string const", "c4::to_substr(x)", False)
det("to_substr of a const vector is refused", "std::vector<char> const", "c4::to_substr(x)", False)
con("to_substr of a string is writeable", "same<decltype(c4::to_substr(std::declval<std::string&>())), substr>::value")
con("to_csubstr of a string is read-only", "same<decltype(c4::to_csubstr(std::declval<std::string&>())), csubstr>::value && same<decltype(c4::to_csubstr(std::declval<std::string const&>())), csubstr>::value")
con("to_substr of a vector is writeable", "same<decltype(c4::to_substr(std::declval<std::vector<char>&>())), substr>::value")
con("to_csubstr of a vector is read-only", "same<decltype(c4::to_csubstr(std::declval<std::vector<char> const&>())), csubstr>::value")
for op in ("==", "!=", "<", "<=", ">", ">="):
    for t in ("csubstr", "substr", "std::string", "char"):
        con("a csubstr compares with %s by %s to a bool" % (t, op), "same<decltype(std::declval<csubstr const&>() %s std::declval<%s const&>()), bool>::value && same<decltype(std::declval<%s const&>() %s std::declval<csubstr const&>()), bool>::value" % (op, t, t, op))
# size-returning functions
for e in ("to_chars(substr(), 1)", "to_chars(substr(), csubstr())", "cat(substr(), 1, 2)", "catsep(substr(), ',', 1, 2)", "format(substr(), csubstr(), 1)", "uncat(csubstr(), std::declval<int&>())", "unformat(csubstr(), csubstr(), std::declval<int&>())", "from_chars_first(csubstr(), (int*)nullptr)", "base64_encode(substr(), cblob())", "base64_decode(csubstr(), blob())"):
    con("a size is returned as size_t: " + e, "same<decltype(%s), size_t>::value" % e)
for e in ("from_chars(csubstr(), (int*)nullptr)", "atoi(csubstr(), (int*)nullptr)", "atou(csubstr(), (unsigned*)nullptr)", "atox(csubstr(), (int*)nullptr)", "overflows<int>(csubstr())", "base64_valid(csubstr())"):
    con("a success flag is a bool: " + e, "same<decltype(%s), bool>::value" % e)
# allocators
con("Allocator is a standard allocator of its type", "same<Allocator<int>::value_type, int>::value && same<std::allocator_traits<Allocator<int>>::rebind_alloc<char>, Allocator<char>>::value")
con("Allocator works with standard containers", "std::is_default_constructible<std::vector<int, Allocator<int>>>::value")


def run(std, cxx):
    def fn(r):
        src = INC + DET + "".join('static_assert(%s, "C30:%d");\n' % (c, i) for i, (l, c) in enumerate(O))
        d = os.path.join(BUILD, "C30")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "t_%s_%s.cpp" % (std, os.path.basename(cxx)))
        with open(p, "w") as f:
            f.write(src)
        cmd = [cxx, "-std=" + std, "-fsyntax-only", "-w", "-DC4_NO_DEBUG_BREAK", "-I" + os.path.join(REPO, "src"), p]
        if "clang" in cxx:
            cmd.insert(1, "-ferror-limit=0")
        q = subprocess.run(cmd, capture_output=True, text=True)
        bad = {int(x) for x in re.findall(r"C30:(\d+)", "\n".join(l for l in q.stderr.splitlines() if "error" in l))}
        other = [l for l in q.stderr.splitlines() if "error:" in l and "C30:" not in l]
        for i, (l, c) in enumerate(O):
            if i in bad:
                r.bad("type:%s" % l, "%s: does not hold (%s, %s)" % (l, std, os.path.basename(cxx)), "static_assert(%s)" % c, "")
            elif not other:
                r.good("type obligation")
        if other:
            r.undecided("%s/%s" % (std, cxx), "other errors: " + " | ".join(other[:3]))
        os.unlink(p)
    return fn


def cfail(label, good, bad, std):
    def fn(r):
        d = os.path.join(BUILD, "C30")
        p = os.path.join(d, "f%d%s.cpp" % (abs(hash((label, good, bad))), std))

        def comp(code):
            with open(p, "w") as f:
                f.write(INC + code + "\n")
            return subprocess.run([CXX, "-std=" + std, "-fsyntax-only", "-w", "-DC4_NO_DEBUG_BREAK", "-I" + os.path.join(REPO, "src"), p], capture_output=True, text=True).returncode == 0
        if not comp(good):
            r.undecided(label, "the permitted form does not compile: " + good)
        elif comp(bad):
            r.bad("type:" + label, label + ": the forbidden form compiles (%s)" % std, bad, "")
        else:
            r.good("compile-fail witness")
        os.unlink(p)
    return fn


os.makedirs(os.path.join(BUILD, "C30"), exist_ok=True)
for l, a, b in CF:
    for std in ("c++17",) if not ck.thorough else ("c++11", "c++17", "c++20"):
        ck.task(l, cfail(l, a, b, std))
for std in ("c++11", "c++14", "c++17", "c++20"):
    for cxx in (CXX, "g++"):
        ck.task("%s %s" % (std, cxx), run(std, cxx))
ck.run()
ck.finish("every obligation is a compile-time assertion over expressions that must, or must not, be well formed, and over type traits; the violating construct is the named expression",
          "type-level witnesses (expression detection and static_assert) checked by two compilers' front ends under four language standards",
          ["none"], {"type_obligations": len(O), "compile_fail_witnesses": len(CF)})
