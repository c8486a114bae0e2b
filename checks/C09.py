from subcat import *

ck = Check("C09")
m = ck.ir("s", witness(CAT + MULTI))
T = ck.thorough



def lens(k):
    if k.lens == "num" or "int_span" in k.name or k.name.startswith("is_"):
        return range(0, 4 if not T else 6)
    if "p" in k.params:
        return range(0, 4 if not T else 6)
    return range(0, 5 if not T else 8)


if m:
    opts = dict(max_states=60000, max_steps=4000000)
    for k in CAT:
        for n in lens(k):
            for pn in (k.plens or (0, 1, 2)) if "p" in k.params else (0,):
                for ab in sizes(k, n):
                    c = exact(k, n, pn, False, ab)
                    ck.task(c.name, lambda r, c=c: run_case(m, c, r, opts=opts))
        c = exact(k, 0, (k.plens or (1,))[0] if "p" in k.params else 0, True, (0, 0))
        ck.task(c.name, lambda r, c=c: run_case(m, c, r))
        if k.lens == "num" or "int_span" in k.name or k.name.startswith("is_"):
            for h in HEADS:
                for tail in range(0, 3 if not T else 4):
                    c = exact(k, len(h) + tail, 0, False, (0, 0), h)
                    ck.task(c.name, lambda r, c=c: run_case(m, c, r, opts=opts))
    for k in MULTI:
        for n in range(0, (4 if "p" in k.params else 5) + (2 if T else 0)):
            for pn in (0, 1, 2) if "p" in k.params else (0,):
                for ab in sizes(k, n, False):
                    c = multi(k, n, pn, ab)
                    ck.task(c.name, lambda r, c=c: run_case(m, c, r, opts=opts))
    for k in CAT + MULTI:
        mu = k in MULTI
        num = k.lens == "num" or "int_span" in k.name or k.name.startswith("is_")
        for n in ((9, 33) if not T else (9, 17, 33, 65)) if not num else (12,) if not T else (9, 20):
            for h in longtexts(n) if not num else [x + z[:n - 2 - len(x)] + "\0\0" for x in HEADS + [""] for z in (("10101010" * n,) if not T else ("1" * n, "0" * n, "01234567" * n))]:
                for ph in longpats(n) if "p" in k.params else [""]:
                    if k.plens and len(ph) not in k.plens:
                        continue
                    for ab in someat(k, n):
                        if mu and NPOS in ab:
                            continue
                        c = (multi if mu else exact)(k, n, len(ph), ab=ab, head=h, phead=ph)
                        ck.task(c.name, lambda r, c=c: run_case(m, c, r, opts=opts))
    ck.run()
ck.finish("the result (position, truth value, view start and length, sequence of pieces) equals the reference definition for every content of strings up to the bound",
          "abstract interpretation of every search, trimming, splitting, path and number-span operation of basic_substring on strings of bounded length with symbolic characters; each final abstract state is compared with the reference definition by exhaustive case splitting over the characters",
          ["string lengths up to the bound (longer strings: containment and read bounds are decided by C04 and C08)", "documented preconditions: start positions not past the end, split start before the end"],
          {"operations": len(CAT) + len(MULTI)})
