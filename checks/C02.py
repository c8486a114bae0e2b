import writers, fmtw
from reals import *
from fmtw import *

ck = Check("C02")
KINDS = MEMKINDS + ("callee-buffer",)
fam = writers.family()
mi = ck.ir("ints", writers.witness(fam))
ents = fmtw.family()
mf = ck.ir("fmt", fmtw.witness(ents), sources=())


XSRC = fmtw.HDR + """#include <c4/utf.hpp>
#include <c4/blob.hpp>
W size_t w_ftoa(char *b, size_t n, float v, int p, int f) { return ftoa(substr(b, n), v, p, (RealFormat_e)f); }
W size_t w_dtoa(char *b, size_t n, double v, int p, int f) { return dtoa(substr(b, n), v, p, (RealFormat_e)f); }
W size_t w_float(char *b, size_t n, float v) { return to_chars(substr(b, n), v); }
W size_t w_double(char *b, size_t n, double v) { return to_chars(substr(b, n), v); }
W size_t w_real(char *b, size_t n, double v, int p, int f) { return to_chars(substr(b, n), fmt::real(v, p, (RealFormat_e)f)); }
W size_t w_realf(char *b, size_t n, float v, int p, int f) { return to_chars(substr(b, n), fmt::real(v, p, (RealFormat_e)f)); }
W size_t w_raw(char *b, size_t n, const char *d, size_t m, size_t al) { return to_chars(substr(b, n), fmt::const_raw_wrapper(cblob(d, m), al)); }
W size_t w_b64(char *b, size_t n, const char *d, size_t m) { return base64_encode(substr(b, n), cblob(d, m)); }
W size_t w_b64dec(char *b, size_t n, const char *d, size_t m) { return base64_decode(csubstr(d, m), blob(b, n)); }
W size_t w_utf(char *b, size_t n, uint32_t c) { return decode_code_point((uint8_t*)b, n, c); }
W size_t w_utfs(char *b, size_t n, const char *d, size_t m) { return decode_code_point(substr(b, n), csubstr(d, m)).len; }
W size_t w_repall(char *b, size_t n, const char *d, size_t m, const char *p, size_t pn) { return csubstr(d, m).replace_all(substr(b, n), "x", csubstr(p, pn)); }
"""
XS = ["src/c4/base64.cpp", "src/c4/utf.cpp", "src/c4/format.cpp"]
mx = {sd: ck.ir("x" + sd[3:], XSRC if sd != "c++11" else XSRC.replace("#include <string_view>", ""), sources=XS, std=sd, keep=["std::align"]) for sd in ("c++17", "c++11")}


def x_task(sd, name, fixed):
    """fixed: data length, or None for any"""
    m = mx[sd]

    def fn(r):
        hexa = 3 if sd == "c++17" else ord("a")
        fms = {"c++17": (1, 2, 3, 4), "c++11": (102, 101, 103, 97)}[sd]
        for f in fms if name in ("w_ftoa", "w_dtoa", "w_real", "w_realf") else (0,):
            lin.reset_syms()
            m.gobj.clear()
            I = Interp(m, ext=REAL)
            blen = I.sym("len", 0, 1 << 47, "len")
            buf = Obj("buf", "buf", blen)
            args = [Ptr(buf, ZERO), blen]
            pre = []
            if name in ("w_ftoa", "w_dtoa", "w_real", "w_realf", "w_float", "w_double"):
                args.append(Opq(("value",)))
                if name not in ("w_float", "w_double"):
                    args += [I.sym("precision", -1, 1000, "in"), Lin(f)]
            elif name == "w_utf":
                args.append(I.sym("code", 0, (1 << 32) - 1, "in"))
                pre.append(blen - 4)
            else:
                dn = I.sym("dlen", 0, 1 << 40, "len") if fixed is None else Lin(fixed)
                d = Obj("buf", "data", dn)
                args += [Ptr(d, ZERO), dn]
                if name == "w_b64dec":
                    q = I.sym("quartets", 0, 1 << 38, "in")
                    pre += [dn - q.scale(4), q.scale(4) - dn]
                if name == "w_utfs":
                    pre += [blen - 4, dn - 1]
                if name == "w_raw":
                    args.append(I.sym("alignment", 1, 1 << 20, "in"))
                if name == "w_repall":
                    pl = I.sym("plen", 0, 1 << 20, "len")
                    args += [Ptr(Obj("buf", "repl", pl), ZERO), pl]

            def setup(s):
                for c in pre:
                    s.st.add_ge(c)
                if name == "w_b64dec" and fixed is not None:
                    # valid text: no padding inside
                    pass
            fs = I.start(name, args, setup)
            r.stat("abstract_states", len(fs))
            memcheck(r, I, name, KINDS, soft=True, objs=("buf",))
    return fn


def int_task(w):
    def fn(r):
        for sign in (0, 1) if w.neg else (0,):
            # unconstrained value: every digit class is split by the analysis itself
            for sg, n in writers.partitions(w.T, w.radix, w.neg):
                if sg != sign:
                    continue
                # a symbolic padding width proves; fixed widths (unrolled) refute
                for nd in (None, n + 1, n + 3) if w.nd else (None,):
                  lin.reset_syms()
                  mi.gobj.clear()
                  I = Interp(mi)
                  blen = I.sym("len", 0, 1 << 47, "len")
                  buf = Obj("buf", "buf", blen)
                  v, ds, cons = writers.setup_value(I, w.T, w.radix, sign, n)
                  args = [Ptr(buf, ZERO), blen, v]
                  if w.nd:
                      args.append(I.sym("num_digits", 0, 1 << 31, "in") if nd is None else Lin(nd))
  
                  def setup(s):
                      for c in cons:
                          s.st.add_ge(c)
                  fs = I.start(w.name, args, setup)
                  r.stat("abstract_states", len(fs))
                  memcheck(r, I, w.name, KINDS, soft=True)
    return fn


def fmt_task(e):
    def fn(r):
        I, fs, total, segs, buf, blen = run_entry(mf, e)
        r.stat("abstract_states", len(fs))
        memcheck(r, I, e.name, KINDS, soft=True)
    return fn


if mi:
    for w in fam:
        ck.task(w.name, int_task(w))
if mf:
    for e in ents:
        ck.task(e.name, fmt_task(e))
for sd, m in mx.items():
    if m:
        for nm in ("w_ftoa", "w_dtoa", "w_real", "w_realf", "w_float", "w_double", "w_utf", "w_raw"):
            ck.task("%s/%s" % (nm, sd), x_task(sd, nm, None))
        if sd == "c++17":
            for nm in ("w_b64", "w_b64dec", "w_utfs", "w_repall"):
                for n in {"w_b64": (None, 0, 1, 2, 3, 4, 5, 6), "w_b64dec": (None, 0, 4, 8), "w_utfs": (1, 2, 3), "w_repall": (0, 1, 2, 3)}[nm]:
                    ck.task("%s/%s" % (nm, n), x_task(sd, nm, n))
ck.run()
ck.finish("every store, memcpy, memset and every sub-buffer handed to another serializer lies inside [buf, buf+len) for every buffer length and value",
          "abstract interpretation of every serializer entry with a symbolic buffer length; each memory access in the inlined IR is one bounds obligation",
          ["user-provided to_chars respects its own contract (writes only inside the buffer it is given)", "num_digits below 2^31"],
          {"entries": len(fam) + len(ents) + 20})
