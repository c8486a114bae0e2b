"""slices of a string: (name, expression, documented interval, precondition)"""
from subcat import *

SL = []


def sl(name, expr, ref, pre, params, kind="v", body=None):
    SL.append(E(name, expr, kind, ref, params, pre=pre, body=body))


def le(sn, a, b):
    return [sn - a]


def two(sn, a, b):
    return [sn - a, sn - a - b]


def rng(sn, a, b):
    return [b - a, sn - b]


sl("sub1", "s.sub(a)", lambda n, a, b: (a, n - a), le, "a")
sl("sub2", "s.sub(a, b)", lambda n, a, b: (a, b), two, "ab")
sl("sub2n", "s.sub(a, csubstr::npos)", lambda n, a, b: (a, n - a), le, "a")
sl("range2", "s.range(a, b)", lambda n, a, b: (a, b - a), rng, "ab")
sl("range1", "s.range(a)", lambda n, a, b: (a, n - a), le, "a")
sl("rangen", "s.range(a, csubstr::npos)", lambda n, a, b: (a, n - a), le, "a")
sl("first", "s.first(a)", lambda n, a, b: (ZERO, a), le, "a")
sl("firstn", "s.first(csubstr::npos)", lambda n, a, b: (ZERO, n), None, "")
sl("last", "s.last(a)", lambda n, a, b: (n - a, a), le, "a")
sl("lastn", "s.last(csubstr::npos)", lambda n, a, b: (ZERO, n), None, "")
sl("offs", "s.offs(a, b)", lambda n, a, b: (a, n - a - b), two, "ab")
sl("left_of", "s.left_of(a)", lambda n, a, b: (ZERO, a), le, "a")
sl("left_ofn", "s.left_of(csubstr::npos)", lambda n, a, b: (ZERO, n), None, "")
sl("left_of_i", "s.left_of(a, true)", lambda n, a, b: (ZERO, a + 1), A_lt, "a")
sl("left_of_e", "s.left_of(a, false)", lambda n, a, b: (ZERO, a), le, "a")
sl("left_of_in", "s.left_of(csubstr::npos, true)", lambda n, a, b: (ZERO, n), None, "")
sl("right_of", "s.right_of(a)", lambda n, a, b: (a + 1, n - a - 1), A_lt, "a")
sl("right_ofn", "s.right_of(csubstr::npos)", lambda n, a, b: (n, ZERO), None, "")
sl("right_of_i", "s.right_of(a, true)", lambda n, a, b: (a, n - a), le, "a")
sl("right_of_e", "s.right_of(a, false)", lambda n, a, b: (a + 1, n - a - 1), A_lt, "a")
sl("right_of_in", "s.right_of(csubstr::npos, true)", lambda n, a, b: (n, ZERO), None, "")
sl("left_of_s", "s.left_of(csubstr(sp + a, b))", lambda n, a, b: (ZERO, a), two, "ab")
sl("right_of_s", "s.right_of(csubstr(sp + a, b))", lambda n, a, b: (a + b, n - a - b), two, "ab")
sl("ctor_range", "decltype(s)(sp + a, sp + sn)", lambda n, a, b: (a, n - a), le, "a")
sl("assign_range", None, lambda n, a, b: (a, n - a), le, "a", body="decltype(s) v; v.assign(sp + a, sp + sn); o->n = v.len; o->p = v.str;")
sl("assign_pn", None, lambda n, a, b: (a, b), two, "ab", body="decltype(s) v; v.assign(sp + a, b); o->n = v.size(); o->p = v.data();")
sl("copy", None, lambda n, a, b: (ZERO, n), None, "", body="decltype(s) v; v = s; decltype(s) w(v); o->n = w.size(); o->p = w.begin();")
sl("beginend", None, lambda n, a, b: (ZERO, n), None, "", body="o->p = s.begin(); o->n = (size_t)(s.end() - s.begin());")
sl("cbeginend", None, lambda n, a, b: (ZERO, n), None, "", body="auto const& k = s; o->p = k.data(); o->n = (size_t)(k.end() - k.begin());")
sl("at", None, lambda n, a, b: (a, Lin(1)), A_lt, "a", body="o->p = &s[a]; o->n = 1;")
sl("cat", None, lambda n, a, b: (a, Lin(1)), A_lt, "a", body="auto const& k = s; o->p = &k[a]; o->n = 1;")
sl("front", None, lambda n, a, b: (ZERO, Lin(1)), A_lt, "a", body="o->p = &s.front(); o->n = 1;")
sl("back", None, lambda n, a, b: (n - 1, Lin(1)), A_lt, "a", body="o->p = &s.back(); o->n = 1;")
sl("tocs", "to_csubstr(s)", lambda n, a, b: (ZERO, n), None, "")
sl("arr", None, lambda n, a, b: (ZERO, Lin(4)), lambda sn, a, b: [sn - 5], "", body="auto &arr = *(char (*)[5])sp; substr v(arr); o->n = v.len; o->p = v.str;")
sl("arrc", None, lambda n, a, b: (ZERO, Lin(4)), lambda sn, a, b: [sn - 5], "", body="auto &arr = *(const char (*)[5])sp; csubstr v = to_csubstr(arr); csubstr w; w = arr; csubstr u; u.assign(arr); o->n = v.len == 4 && u.len == 4 && u.str == arr && v.str == arr ? w.len : 9; o->p = w.str;")
