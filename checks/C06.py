from parsers import *

ck = Check("C06")
PFX = {10: [""], 16: ["0x", "0X"], 8: ["0o", "0O"], 2: ["0b", "0B"]}
src = HDR
for T in TYPES:
    src += "W bool o_%s(const char *s, size_t n) { return overflows<%s>(csubstr(s, n)); }\n" % (T[0], T[1])
    src += "W bool oc_%s(const char *s, size_t n, %s *v) { return from_chars(csubstr(s, n), fmt::overflow_checked(*v)); }\n" % (T[0], T[1])
    src += "W bool ocp_%s(const char *s, size_t n, %s *v) { auto w = fmt::overflow_checked(*v); return from_chars(csubstr(s, n), &w); }\n" % (T[0], T[1])
m = ck.ir("o", src)
DIG = "0123456789abcdef"


def digits_of(v, radix):
    out = []
    while v:
        out.append(v % radix)
        v //= radix
    return out[::-1]


def exceeds(x, ds, limit, radix):
    """is the number with digit values ds (msd first) larger than limit"""
    i = 0
    while i < len(ds) and x.eq(ds[i], 0):
        i += 1
    sig = ds[i:]
    ld = digits_of(limit, radix)
    if len(sig) != len(ld):
        return len(sig) > len(ld)
    for j, (a, b) in enumerate(zip(sig, ld)):
        if all(d == radix - 1 for d in ld[j:]):
            return False
        if x.eq(a, b):
            continue
        return x.gt(a, b)
    return False


CLS = {"d": (48, 57, 48), "l": (97, 102, 87), "u": (65, 70, 55)}


def case(entry, T, radix, pfx, sign, classes):
    """classes: one letter per digit position"""
    w, sg = T[2], T[3]
    head = ("-" if sign else "") + pfx
    n = len(head) + len(classes)
    limit = (1 << (w - 1)) if sign else (1 << (w - sg)) - 1

    def mk(I):
        o, ln = strobj(I, "s", n)
        args = [Ptr(o, ZERO), ln]
        if entry.startswith("oc"):
            out = Obj("out", "v", w // 8)
            args.append(Ptr(out, ZERO))

        def setup(s):
            x = X(I, s)
            for i, c in enumerate(head):
                s.st.add_eq(x.init(o, i) - ord(c))
            for i, c in enumerate(classes):
                lo, hi, _ = CLS[c]
                b = x.init(o, len(head) + i)
                s.st.add_ge(b - lo)
                s.st.add_ge(Lin(min(hi, 48 + radix - 1) if c == "d" else hi) - b)
            if radix == 10 and len(classes) > 1:
                pass
        return args, o, setup

    def spec(x, o, s):
        ds = [x.init(o, len(head) + i) - CLS[c][2] for i, c in enumerate(classes)]
        want = exceeds(x, ds, limit, radix)
        got = rint(x.I, s, s.retval, 1)
        if entry.startswith("oc"):
            if want:
                return None if x.eq(got, 0) else "missed|a number outside the type's range is accepted by the checked read"
            return None if x.eq(got, 1) else "spurious|a number inside the type's range is refused by the checked read"
        if want:
            return None if x.eq(got, 1) else "missed|a number outside the type's range is not reported"
        return None if x.eq(got, 0) else "spurious|a number inside the type's range is reported as overflowing"
    return Case("%s '%s' + %s" % (entry, head, classes), entry, mk, spec)


def ndig(T, radix):
    return len(digits_of((1 << T[2]) - 1, radix))


if m:
    for T in TYPES:
        t = T[0]
        for radix in (10, 16, 8, 2):
            D = ndig(T, radix)
            for sign in ((0, 1) if T[3] else (0,)):
                for pi, pfx in enumerate(PFX[radix]):
                    for entry in (("o_", "oc_", "ocp_") if T[2] <= 16 or ck.thorough else ("o_",)):
                        if pi and entry != "o_":
                            continue
                        cs = []
                        lens = list(range(1, D + 3))
                        if radix == 2 and not ck.thorough and T[2] > 16:
                            lens = [1, 2, T[2] - 2, T[2] - 1, T[2], T[2] + 1]
                        for n in lens:
                            if entry != "o_" and ((radix == 16 and n > D) or (radix == 2 and n > 10)):
                                continue
                            if radix != 16:
                                pats = ["d" * n]
                            else:
                                pats = set()
                                for z in ((0, 1) if not ck.thorough else range(0, n)):
                                    if z < n:
                                        for c1 in "dlu":
                                            for c2 in "dlu":
                                                pats.add("d" * z + c1 + c2 * (n - z - 1))
                                pats = sorted(pats)
                            cs += [case(entry + t, T, radix, pfx, sign, p) for p in pats]

                        def fn(r, cs=cs):
                            for c in cs:
                                lin.reset_syms()
                                run_case(m, c, r)
                        # the digits after a leading 0 must not form a prefix: decimal digits never do
                        ck.task("%s%s/r%d/%d/%s" % (entry, t, radix, sign, pfx), fn)
    for T in TYPES:
        def fn2(r, T=T):
            def mk(I):
                o, ln = strobj(I, "s", None)
                return [Ptr(o, ZERO), ln], o, None
            c = Case("o_%s/any string" % T[0], "o_" + T[0], mk, lambda x, e, s: None)
            I, fs = run_case(m, c, r)
            memcheck(r, I, c.entry, soft=True)
            for n in range(0, 5):
                lin.reset_syms()
                c2 = Case("o_%s/any string of length %d" % (T[0], n), "o_" + T[0], lambda I: (lambda o: ([Ptr(o, ZERO), Lin(n)], o, None))(Obj("buf", "s", n)), lambda x, e, s: None)
                I, fs = run_case(m, c2, r)
                memcheck(r, I, c2.entry)
        ck.task("o_%s/any" % T[0], fn2)
    ck.run()
ck.finish("for every well formed number (sign, radix prefix, any digits including leading zeros, up to two digits more than the type holds) the overflow test is true iff the number is outside the type's range; the overflow-checked read accepts iff it is inside",
          "abstract interpretation with symbolic digit characters; the reference is a digit-by-digit comparison with the type's exact limit in that radix; additionally every string of any length is analysed for reads outside the view",
          ["hexadecimal digit case is varied as: leading zeros, one class for the first digit, one class for the rest"], {})
