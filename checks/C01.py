from writers import *

ck = Check("C01")
fam = family()
m = ck.ir("w", witness(fam))
NDS = [0, 1, 3, 8, 21, 70] if not ck.thorough else list(range(0, 24)) + [33, 66, 67, 70, 100]
NDSYM = 1 << 31


def charat(I, s, buf, off, d, radix, r, name, what, stt):
    """byte at off must be the text of digit d"""
    b = readbyte(I, s, buf, off)
    if b is None:
        return "byte %r of the output is left unwritten" % (off,)
    if radix <= 10:
        diff = s.st.norm(b - d - 48)
        dec = s.st.decide(("eq", diff))
        return None if dec is True else "byte %r is %r, expected digit %r+'0'" % (off, b, s.st.norm(d))
    # hex: the written byte must be the fixed digit->char map of d
    t = I.fnload(s, lambda i: ord("0123456789abcdef"[i]) if 0 <= i < 16 else None, d, 8, "")
    dec = s.st.decide(("eq", s.st.norm(b - t)))
    if dec is True:
        return None
    return "byte %r is %r, expected hex digit of %r" % (off, b, s.st.norm(d))


def analyse(w, nds):
    def fn(r):
        m.gobj.clear()
        for sign, n in partitions(w.T, w.radix, w.neg):
            for nd in nds:
                lin.reset_syms()
                m.gobj.clear()
                I = Interp(m)
                blen = I.sym("len", 0, 1 << 47, "len")
                buf = Obj("buf", "buf", blen)
                v, ds, cons = setup_value(I, w.T, w.radix, sign, n)
                args = [Ptr(buf, ZERO), blen, v]
                if w.nd:
                    args.append(Lin(nd))
                digits = max(n, nd) if w.nd else n
                total = sign + len(w.prefix) + digits
                exp = (["-"] if sign else []) + list(w.prefix) + ["0"] * (digits - n) + ds

                def setup(s):
                    for c in cons:
                        s.st.add_ge(c)
                    s.st.add_ge(blen - total)
                fs = I.start(w.name, args, setup)
                r.stat("abstract_states", len(fs))
                r.stat("ir_steps", I.steps)
                if not fs:
                    r.undecided(w.name, "no final state")
                for s in fs:
                    if s.status != "ret":
                        r.bad("%s:noret" % w.name, "call does not return normally for a %d-digit value (radix %d)" % (n, w.radix), where(s.why[1] if isinstance(s.why, tuple) else s.why), describe(s))
                        continue
                    rv = rint(I, s, s.retval)
                    if s.st.decide(("eq", rv - total)) is not True:
                        if soft(s, rv):
                            r.undecided(w.name, "returned size %r is over-approximated" % rv)
                            continue
                        r.bad("%s:size" % w.name, "returns %r for a %s%d-digit value in radix %d%s, expected %d" % (rv, "negative " if sign else "", n, w.radix, " with num_digits=%d" % nd if w.nd else "", total), "entry " + w.name, describe(s))
                        continue
                    for i, c in enumerate(exp):
                        if isinstance(c, str):
                            f = lambda x, i=i, c=c: (lambda b: None if b is not None and x.st.decide(("eq", b - ord(c))) is True else "byte %d is %r, expected '%s'" % (i, b, c))(readbyte(I, x, buf, i))
                        else:
                            f = lambda x, i=i, c=c: charat(I, x, buf, i, c, w.radix, r, w.name, "", s)
                        for x, msg in withsplit(I, s, f):
                            if msg is None:
                                r.good("exact output byte")
                            elif soft(x, readbyte(I, x, buf, i)):
                                r.undecided(w.name, "over-approximated: " + msg)
                                break
                            else:
                                r.bad("%s:text" % w.name, "%s%s in radix %d%s: %s" % ("negative " if sign else "", "%d-digit value" % n, w.radix, " num_digits=%d" % nd if w.nd else "", msg), "entry " + w.name, describe(x))
                                break
                        else:
                            continue
                        break
                r.good("value partition")
    return fn


if m is not None:
    for w in fam:
        if w.nd:
            for nd in NDS:
                ck.task("%s/%d" % (w.name, nd), analyse(w, [nd]))
        else:
            ck.task(w.name, analyse(w, [None]))
    ck.run()
ck.finish("every value of the type, split into classes by sign and digit count with symbolic digits, must produce exactly the expected characters (sign, radix prefix, zero padding, digits) at offsets 0..n-1 and return n",
          "abstract interpretation (linear relational domain over IR) of every public integer writer for all 10 integer types; values are represented as symbolic digit vectors so one class covers all values with that many digits; the set of classes is exhaustive over the type's range, buffer length is symbolic",
          ["num_digits is taken from a fixed list per tier for the character-exactness claim"],
          {"entries": len(fam), "num_digits_values": NDS})
