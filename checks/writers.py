"""integer writer families shared by C01-C03: witnesses, argument partitions, expected text"""
from common import *

TYPES = [("i8", "int8_t", 8, 1), ("u8", "uint8_t", 8, 0), ("i16", "int16_t", 16, 1), ("u16", "uint16_t", 16, 0),
         ("i32", "int32_t", 32, 1), ("u32", "uint32_t", 32, 0), ("i64", "int64_t", 64, 1), ("u64", "uint64_t", 64, 0),
         ("ill", "long long", 64, 1), ("ull", "unsigned long long", 64, 0)]
RADIX = {10: ("dec", ""), 16: ("hex", "0x"), 8: ("oct", "0o"), 2: ("bin", "0b")}

HDR = '''#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <c4/std/std.hpp>
using namespace c4;
#define W extern "C"
'''


class Wr:
    """one writer entry: text of witness, expected output"""

    def __init__(self, name, T, radix, prefix, body, nd=None, neg=True, extra="", nowrite=False, kind="api"):
        self.name = name
        self.T = T
        self.radix = radix
        self.prefix = prefix
        self.nd = nd
        self.neg = neg and T[3]
        self.body = body
        self.extra = extra
        self.nowrite = nowrite
        self.kind = kind

    def text(self):
        return "W size_t %s(char *b, size_t n, %s v%s) { substr buf(b, n); return %s; }\n" % (self.name, self.T[1], ", size_t nd" if self.nd else "", self.body)


def family():
    out = []
    for T in TYPES:
        t, ct = T[0], T[1]
        fixed = t not in ("ill", "ull")
        out.append(Wr("w_xtoa_" + t, T, 10, "", "xtoa(buf, v)", nowrite=True))
        out.append(Wr("w_toch_" + t, T, 10, "", "to_chars(buf, v)", nowrite=True))
        out.append(Wr("w_wdec_" + t, T, 10, "", "write_dec(buf, v)", neg=False))
        out.append(Wr("w_whex_" + t, T, 16, "", "write_hex(buf, v)", neg=False))
        out.append(Wr("w_woct_" + t, T, 8, "", "write_oct(buf, v)", neg=False))
        out.append(Wr("w_wbin_" + t, T, 2, "", "write_bin(buf, v)", neg=False))
        for r, (rn, pf) in RADIX.items():
            fn = "itoa" if T[3] else "utoa"
            out.append(Wr("w_%s_%s_%s" % (fn, rn, t), T, r, pf, "%s(buf, v, (%s)%d)" % (fn, ct, r), nowrite=True))
            out.append(Wr("w_%sn_%s_%s" % (fn, rn, t), T, r, pf, "%s(buf, v, (%s)%d, nd)" % (fn, ct, r), nd=True, nowrite=True))
            out.append(Wr("w_wn%s_%s" % (rn, t), T, r, "", "write_%s(buf, v, nd)" % rn, nd=True, neg=False))
            if fixed:
                out.append(Wr("w_xtoar_%s_%s" % (rn, t), T, r, pf, "xtoa(buf, v, (%s)%d)" % (ct, r), nowrite=True))
                out.append(Wr("w_xtoan_%s_%s" % (rn, t), T, r, pf, "xtoa(buf, v, (%s)%d, nd)" % (ct, r), nd=True, nowrite=True))
            if r != 10:
                out.append(Wr("w_fmt%s_%s" % (rn, t), T, r, pf, "to_chars(buf, fmt::%s(v))" % rn, nowrite=True))
                out.append(Wr("w_fmtz%s_%s" % (rn, t), T, r, pf, "to_chars(buf, fmt::zpad(fmt::%s(v), nd))" % rn, nd=True, nowrite=True))
            out.append(Wr("w_fmti%s_%s" % (rn, t), T, r, pf, "to_chars(buf, fmt::integral(v, (%s)%d))" % (ct, r), nowrite=True))
        out.append(Wr("w_fmti_" + t, T, 10, "", "to_chars(buf, fmt::integral(v))", nowrite=True))
        out.append(Wr("w_fmtz_" + t, T, 10, "", "to_chars(buf, fmt::zpad(v, nd))", nd=True, nowrite=True))
        out.append(Wr("w_cat_" + t, T, 10, "", "cat(buf, v)", nowrite=True))
    P = ("ptr", "intptr_t", 64, 1)
    out.append(Wr("w_ptr_toch", P, 16, "0x", "to_chars(buf, (void*)v)", nowrite=True))
    out.append(Wr("w_ptr_xtoa", P, 16, "0x", "xtoa(buf, (void const*)v)", nowrite=True))
    for rn, r in (("hex", 16), ("oct", 8), ("bin", 2)):
        out.append(Wr("w_ptr_fmt" + rn, P, r, RADIX[r][1], "to_chars(buf, fmt::%s((void*)v))" % rn, nowrite=True))
        out.append(Wr("w_ptr_fmtc" + rn, P, r, RADIX[r][1], "to_chars(buf, fmt::%s((void const*)v))" % rn, nowrite=True))
        out.append(Wr("w_ptr_fmti" + rn, P, r, RADIX[r][1], "to_chars(buf, fmt::integral((int const*)v, %d))" % r, nowrite=True))
        out.append(Wr("w_ptr_fmtz" + rn, P, r, RADIX[r][1], "to_chars(buf, fmt::zpad(fmt::%s((int*)v), nd))" % rn, nd=True, nowrite=True))
    out.append(Wr("w_ptr_zpad", P, 16, "0x", "to_chars(buf, fmt::zpad((int*)v, nd))", nd=True, nowrite=True))
    out.append(Wr("w_ptr_zpadc", P, 16, "0x", "to_chars(buf, fmt::zpad((int const*)v, nd))", nd=True, nowrite=True))
    return out


def witness(fam):
    return HDR + "".join(w.text() for w in fam)


def partitions(T, radix, neg):
    """(sign, ndigits) classes covering every value of T exactly once"""
    w, sg = T[2], T[3]
    mx = (1 << (w - sg)) - 1
    n = 1
    out = []
    while True:
        out.append((0, n))
        if radix ** n > mx:
            break
        n += 1
    if neg:
        mn = 1 << (w - 1)
        n = 1
        while True:
            out.append((1, n))
            if radix ** n > mn:
                break
            n += 1
    return out


def setup_value(I, T, radix, sign, n):
    """value as a digit vector; returns (Lin value, digit Lins msd first, constraints)"""
    w, sg = T[2], T[3]
    ds = []
    v = ZERO
    for k in range(n):
        lo = 1 if (k == n - 1 and (n > 1 or sign)) else 0
        d = I.sym("d%d" % k, lo, radix - 1, "in")
        ds.append(d)
        v = v + d.scale(radix ** k)
    lim = (1 << (w - 1)) if sign else (1 << (w - sg)) - 1
    cons = [Lin(lim) - v]
    return (-v if sign else v), ds[::-1], cons


def digit_text(I, s, d, radix):
    """expected character for digit d (lower case for hex)"""
    if radix <= 10:
        return d + 48
    r = s.st.decide(("ge", Lin(9) - d))
    if r is None:
        return None
    return d + 48 if r else d + 87
