"""integer parser families: witnesses and the reference language"""
from spec import *

TYPES = [("i8", "int8_t", 8, 1), ("u8", "uint8_t", 8, 0), ("i16", "int16_t", 16, 1), ("u16", "uint16_t", 16, 0),
         ("i32", "int32_t", 32, 1), ("u32", "uint32_t", 32, 0), ("i64", "int64_t", 64, 1), ("u64", "uint64_t", 64, 0)]
RADS = {"dec": 10, "hex": 16, "oct": 8, "bin": 2}


def digit(x, c, radix):
    """value of the digit character, or None"""
    if x.ge(c, 48) and x.le(c, 48 + min(radix, 10) - 1):
        return c - 48
    if radix == 16:
        if x.ge(c, 97) and x.le(c, 102):
            return c - 87
        if x.ge(c, 65) and x.le(c, 70):
            return c - 55
    return None


def number(x, b, signed):
    """reference grammar: [-] ( digits | 0x hex+ | 0o oct+ | 0b bin+ ).
    returns (radix, sign, first digit position) or None"""
    n = len(b)
    i = 0
    sign = 1
    if n == 0:
        return None
    if x.eq(b[0], 45):
        if not signed:
            return None
        sign = -1
        i = 1
        if n == 1:
            return None
    radix = 10
    if n > i + 1 and x.eq(b[i], 48):
        for r, cs in ((16, "xX"), (2, "bB"), (8, "oO")):
            if x.isin(b[i + 1], cs):
                radix = r
                i += 2
                if i == n:
                    return None
                break
    return radix, sign, i


def value(x, b, radix, i):
    v = ZERO
    for c in b[i:]:
        d = digit(x, c, radix)
        if d is None:
            return None
        v = v.scale(radix) + d
    return v


def family():
    out = []   # (name, T, kind)
    for T in TYPES:
        t, ct = T[0], T[1]
        fn = "atoi" if T[3] else "atou"
        for nm, body in ((fn, "%s(csubstr(s, n), v)" % fn), ("atox", "atox(csubstr(s, n), v)"), ("from", "from_chars(csubstr(s, n), v)")):
            out.append(("p_%s_%s" % (nm, t), T, "num", body))
        for rn in RADS:
            out.append(("p_read_%s_%s" % (rn, t), T, rn, "read_%s(csubstr(s, n), v)" % rn))
    out.append(("p_from_ill", ("ill", "long long", 64, 1), "num", "from_chars(csubstr(s, n), v)"))
    out.append(("p_from_ull", ("ull", "unsigned long long", 64, 0), "num", "from_chars(csubstr(s, n), v)"))
    return out


def witness(fam):
    return HDR + "".join("W bool %s(const char *s, size_t n, %s *v) { return %s; }\n" % (nm, T[1], body) for nm, T, k, body in fam)
