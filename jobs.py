"""What each property's check runs: scenarios of the harness crates with their bounds.

A job is one symbolic exploration: scenario, parameters, outcomes that must be reached (otherwise the
scenario says nothing and the check reports an error), and optionally only="panic": the scenario's own
assertions belong to another property, only panics and endless loops count here.
"""
import json
import os

TITLES = {}
for _l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl")):
    _d = json.loads(_l)
    TITLES[_d["id"]] = _d["title"]


def J(scenario, *params, reach=(), crate="parse", mode=0, **kw):
    if mode:
        params = list(params) + [0] * (14 - len(params)) + [mode]
    return dict(crate=crate, scenario=scenario, params=list(params), reach=list(reach), **kw)


CTX = range(34)
COMMENT_CTX = (22, 23)  # inside comments: nothing is ever rejected there
DESC, LOCS = 1, 2


def arbitrary(deep, errors):
    """Arbitrary text in every context."""
    rej = lambda c: [] if c in COMMENT_CTX else [2]
    o = [J("noise", 2, c, 1, errors, reach=rej(c)) for c in CTX]
    o += [J("noise", 3, c, 0, errors, reach=rej(c)) for c in (CTX if deep else (2, 8, 9, 29))]
    o += [J("tokens", 2, c, errors, reach=rej(c)) for c in CTX]
    o += [J("truncated", f, 1 if deep else 0, errors, reach=[1, 2] if f != 9 else []) for f in range(4)]
    if deep:
        o += [J("noise", 3, c, 1, errors, reach=rej(c), timeout=900) for c in CTX]
        o += [J("noise", 4, c, 0, errors, reach=rej(c), timeout=900) for c in CTX]
        o += [J("tokens", 3, c, errors, reach=rej(c), timeout=1200) for c in CTX]
    return o


def elsewhere(deep, mode):
    """The inputs of the other properties' scenarios, for their errors (mode 1) or totality (mode 2)."""
    m = dict(mode=mode)
    k = 1 if deep else 0
    o = [J("number", p, 2 + k, reach=[2], **m) for p in range(10)]
    o += [J("ranges", p, 1 + k, reach=[2], **m) for p in range(4)]
    o += [J("literals", 4 + k, reach=[2], **m)]
    o += [J("adjacent", p, reach=[2], **m) for p in range(0, 17, 1 if deep else 3)]
    o += [J("strdec", p, 2 + k, 0, **m) for p in range(37)]
    o += [J("strdec", p, 1 + k, 1, **m) for p in range(37)]
    o += [J("defaults", t, c, 1, 0, 0, **m) for t in range(16) for c in range(7)]
    o += [J("nodefault", c, reach=[2], **m) for c in range(5)]
    o += [J("optvalue", p, v, 2, **m) for p in (6, 12) for v in range(8)]
    o += [J("jsonname", p, 2, **m) for p in range(7)]
    o += [J("textmode", p, **m) for p in range(0, 16, 1 if deep else 3)]
    o += [J("notext", 0, reach=[2], **m)]
    o += [J("labels", p, k, 0, **m) for p in range(12)]
    o += [J("emptyoneof", 0, reach=[2], **m)]
    o += [J("imports", 2, 1, p, **m) for p in range(9)]
    o += [J("reserved", 2, 1, p, **m) for p in range(9)]
    o += [J("idents", p, 1, 1, 0, **m) for p in range(26)]
    o += [J("recovery", p, 0, 0, 0, reach=[2], **m) for p in ((1, 9, 12) if not deep else range(13))]
    o += [J("intrusion", c, k, reach=[2], **m) for c in (2, 5, 10, 12, 19)]
    if mode == 2:
        o += [J("msgseq", 0, 2, 2, 1, 0, reach=[1], **m), J("fileseq", 0, 3, 2, 1, 0, reach=[1], **m), J("enumseq", 0, 2, 2, 1, 0, reach=[1], **m), J("svcseq", 0, 2, 2, 1, 0, reach=[1], **m)]
        o += [J("oneofs", 2, 1, 0, reach=[1], **m), J("mapnames", 0, 2, 3, reach=[1], **m), J("groups", 0, 2, 2, reach=[1], **m)]
        o += [J("comments", c, 2, 0, reach=[1], **m) for c in range(0, 50, 1 if deep else 5)]
        o += [J("commenttext", 1, 3, p, 1, reach=[1], **m) for p in range(7)] + [J("commenttext", 0, 3, 0, 1, reach=[1], **m)]
        o += [J("aggregate", 0, 1, 2, reach=[1], **m), J("aggtight", 2, reach=[1], **m), J("optname", 3, 2, 1, reach=[1], **m)]
    return o


def structure(deep, a):
    """Every kind of declaration in every position; a: which results are compared."""
    r = [a]
    o = [
        J("msgseq", a, 2, 3, 0, 0, reach=r),
        J("msgseq", a, 3, 2, 2, 2, reach=r),
        J("fileseq", a, 1, 2, 1, 1, reach=r),
        J("fileseq", a, 4, 2, 2, 0, reach=r),
        J("enumseq", a, 2, 3, 1, 1, reach=r),
        J("svcseq", a, 3, 2, 2, 2, reach=r),
        J("oneofseq", a, 4, 2, 1, 1, reach=r),
        J("extseq", a, 1, 2, 1, 1, reach=r),
        J("nesting", a, 3, 2, 1, 1, reach=r),
        J("fileseq", a, 2, 3, 0, 0, reach=r),
        J("msgseq", a, 4, 2, 3, 0, reach=r),
        J("enumseq", a, 4, 2, 2, 3, reach=r),
        J("svcseq", a, 1, 2, 3, 1, reach=r),
        J("oneofseq", a, 2, 3, 1, 0, reach=r),
        J("extseq", a, 3, 3, 0, 0, reach=r),
    ]
    # lists of many elements (the last parameter: how often the items are repeated)
    n, many = (270, 400_000_000) if deep else (140, 150_000_000)
    o += [
        J("msgseq", a, 3, 1, 2, 0, n, reach=r, max_steps=many),
        J("msgseq", a, 2, 2, 1, 0, 12 if deep else 4, reach=r, timeout=900, max_steps=many),
        J("fileseq", a, 4, 1, 2, 0, n, reach=r, max_steps=many),
        J("fileseq", a, 0, 2, 1, 0, 16 if deep else 6, reach=r, timeout=900, max_steps=many),
        J("enumseq", a, 1, 1, 2, 0, n, reach=r, max_steps=many),
        J("enumseq", a, 2, 2, 1, 0, 6, reach=r),
        J("svcseq", a, 3, 1, 2, 0, n, reach=r, max_steps=many),
        J("svcseq", a, 4, 2, 1, 0, 6, reach=r),
        J("oneofseq", a, 3, 1, 2, 0, n, reach=r, max_steps=many),
        J("oneofseq", a, 0, 2, 1, 0, 12, reach=r),
        J("extseq", a, 1, 1, 2, 0, n, reach=r, max_steps=many),
        J("extseq", a, 2, 2, 1, 0, 6, reach=r),
    ]
    if deep:
        for lay in range(5):
            o += [
                J("msgseq", a, lay, 3, 2, 1, reach=r, timeout=900),
                J("msgseq", a, lay, 4, 0, 0, reach=r, timeout=900),
                J("fileseq", a, lay, 3, 1, 1, reach=r, timeout=900),
                J("enumseq", a, lay, 4, 1, 0, reach=r, timeout=900),
                J("svcseq", a, lay, 3, 1, 1, reach=r, timeout=900),
                J("oneofseq", a, lay, 3, 1, 1, reach=r, timeout=900),
                J("extseq", a, lay, 3, 1, 1, reach=r, timeout=900),
                J("nesting", a, lay, 3, 1, 0, reach=r, timeout=900),
            ]
    return o


def types(deep, a):
    r = [a]
    o = [
        J("fieldtypes", a, 2, 0, 1, 1, reach=r),
        J("fieldtypes", a, 3, 1, 1, 1, reach=r),
        J("maptypes", a, 1, 1, reach=r),
        J("mapnames", a, 4, 2, reach=r),
        J("groups", a, 2, 2, reach=r),
        J("fieldtypes", a, 4, 0, 2, 0, reach=r),
        J("fieldtypes", a, 1, 1, 2, 0, reach=r),
        J("maptypes", a, 3, 2, reach=r),
        J("mapnames", a, 2, 3, reach=r),
        J("groups", a, 3, 3, reach=r),
    ]
    if deep:
        for lay in range(5):
            o += [
                J("fieldtypes", a, lay, 0, 3, 3, reach=r, timeout=900),
                J("fieldtypes", a, lay, 1, 3, 3, reach=r, timeout=900),
                J("maptypes", a, lay, 2, reach=r, timeout=900),
                J("mapnames", a, lay, 4, reach=r, timeout=900),
                J("groups", a, lay, 4, reach=r, timeout=900),
            ]
    return o


def c01(tier):
    return arbitrary(tier == "thorough", 0) + elsewhere(tier == "thorough", 2)


def c02(tier):
    return arbitrary(tier == "thorough", 1) + elsewhere(tier == "thorough", 1)


def c03(tier):
    deep = tier == "thorough"
    o = [J("literals", k, reach=[1, 2]) for k in range(1, 8 if deep else 7)]
    o += [J("adjacent", p, reach=[1]) for p in range(17)]
    return o


def c04(tier):
    deep = tier == "thorough"
    o = [J("number", p, k, reach=[1, 2]) for p in range(8) for k in ((1, 2, 3, 4, 5, 6, 7) if deep else (2, 4, 5))]
    o += [J("ranges", p, k, reach=[1, 2]) for p in (0, 1, 3) for k in ((1, 2, 3) if deep else (1, 2))]
    o += [J("ranges", p, k, 1, reach=[1, 2]) for p in (0, 1, 3) for k in ((1, 2) if deep else (1,))]
    o += [J("message_set", b, reach=[1]) for b in (0, 1)]
    return o


def c05(tier):
    deep = tier == "thorough"
    o = [J("number", p, k, reach=[1, 2]) for p in (8, 9) for k in ((1, 2, 3, 4, 5, 6, 7) if deep else (3, 4, 5, 6))]
    o += [J("ranges", 2, k, reach=[1, 2]) for k in ((1, 2, 3) if deep else (1, 2))]
    return o


def c06(tier):
    deep = tier == "thorough"
    o = []
    for s in range(37):
        o.append(J("strdec", s, 4 if deep else 3, 0, timeout=900))
        o.append(J("strdec", s, 3 if deep else 2, 1, timeout=900))
        o.append(J("strdec", s, 2 + deep if s in (28, 29) else 6 if deep else 4, 2, timeout=900))
    o += [J("strcat", n, reach=[1], timeout=900) for n in range(1, 4 if deep else 3)]
    return o


def c07(tier):
    deep = tier == "thorough"
    o = []
    for t in range(16):
        for c in range(7):
            o.append(J("defaults", t, c, 2 if deep else 1, 13, 5))
            if c != 0:
                o.append(J("defaults", t, c, 4 if deep else 3, 0, 0, reach=[1] if t == 15 and c == 5 else []))
            elif deep:
                o.append(J("defaults", t, c, 2, 0, 0, timeout=1200))
    o += [J("nodefault", c, reach=[2]) for c in range(5)]
    return o


def c08(tier):
    deep = tier == "thorough"
    return structure(deep, LOCS) + types(deep, LOCS)


def c09(tier):
    deep = tier == "thorough"
    o = [J("comments", c, 3, 1, reach=[1]) for c in range(50)]
    if deep:
        o += [J("comments", c, 4, 1, reach=[1], timeout=900) for c in range(50)]
        o += [J("comments", c, 5, 0, reach=[1], timeout=900) for c in range(50)]
    n = 4 if deep else 3
    o += [J("commenttext", 0, n, s, w, reach=[1]) for s in (0, 4) for w in (0, 1)]
    o += [J("commenttext", 1, n, s, w, reach=[1]) for s in range(7) for w in (0, 1)]
    o += [J("commenteof", n, reach=[1]) for n in range(1, 4 if deep else 3)]
    o += [J("commentflow", f, 2, reach=[1], timeout=900) for f in range(4)]
    return o


def c10(tier):
    deep = tier == "thorough"
    o = []
    for f in range(5):
        for form in range(7):
            o.append(J("layout", f, form, 2 if form in (0, 1, 2, 5) else 0, 0, 0, reach=[1]))
            for ch in range(1, 5):
                if True:
                    o.append(J("layout", f, form, 1, ch, 0 if deep else 1 + (f + form + ch) % 2, reach=[2], timeout=900))
    return o


def c11(tier):
    deep = tier == "thorough"
    o = [J("labels", p, 0, 2) for p in range(12)]
    o += [J("labels", p, 1, 2 if deep else 1, timeout=900) for p in range(12)]
    o += [J("emptyoneof", k) for k in (0, 1, 2, 3)]
    return o


def c12(tier):
    return types(tier == "thorough", DESC)


def c13(tier):
    deep = tier == "thorough"
    o = [J("oneofs", n, k, b, reach=[1]) for n in ((1, 2, 3, 4) if deep else (1, 2, 3)) for k in (0, 1, 2) for b in (0, 1)]
    o += [J("oneofs", n, k, b, 1, reach=[1]) for n, k in (((2, 2), (3, 2), (4, 0)) if deep else ((2, 1), (3, 0))) for b in (0, 1)]
    o += [J("oneofseq", DESC, 2, 3, 0, 0, reach=[DESC])]
    return o


def c14(tier):
    return structure(tier == "thorough", DESC)


def c15(tier):
    deep = tier == "thorough"
    o = [J("optname", p, n, k, reach=[1]) for p in range(16) for n, k in (((1, 4), (2, 3), (3, 2), (4, 1)) if deep else ((1, 3), (2, 2), (3, 0)))]
    o += [J("optvalue", p, v, 4 if deep else 3) for p in range(16) for v in range(8)]
    o += [J("optlist", p, 3, reach=[1]) for p in (2, 3, 4, 6, 8, 11, 12, 13, 14, 15)]
    o += [J("jsonname", p, 4 if deep else 3) for p in range(7)]
    return o


def c16(tier):
    deep = tier == "thorough"
    o = [J("aggregate", p, n, g, reach=[1], timeout=900) for p in (range(16) if deep else (0, 3, 5, 11)) for n, g in (((2, 2), (3, 0)) if deep else ((1, 2), (2, 1)))]
    o += [J("aggtight", n, reach=[1]) for n in ((1, 2, 3) if deep else (1, 2))]
    o += [J("textmode", p) for p in range(16)]
    o += [J("notext", 0, reach=[2])]
    return o


def c17(tier):
    deep = tier == "thorough"
    o = []
    for s in range(9):
        for n, m in (((3, 0), (3, 1), (5, 2)) if deep else ((3, 0), (2, 1), (4, 2))):
            o.append(J("imports", n, m, s, timeout=900))
    if not deep:
        o.append(J("imports", 3, 1, 0, reach=[1, 2]))
    else:
        o.append(J("imports", 4, 0, 0, reach=[1, 2], timeout=900))
    return o


def c18(tier):
    deep = tier == "thorough"
    o = []
    for p in range(26):
        for pre in range(7):
            if True:
                o.append(J("idents", p, 3 if deep else 2, 1 if deep or pre < 2 else 0, pre))
    o += [J("keywords", k) for k in (1, 2)]
    o += [J("reserved", n, w, s) for s in range(9) for n, w in ((0, 0), (1, 1), (3, 1))]
    return o


def c19(tier):
    deep = tier == "thorough"
    o = [J("recovery", s, f, 1 if f in (1, 2) else 0, 0, reach=[1]) for s in range(13) for f in ((0, 1, 2, 3, 4) if deep else (0, 1, 4))]
    if deep:
        o += [J("recovery", s, f, 1 if f in (1, 2) else 0, 1, reach=[1], timeout=900) for s in range(13) for f in (0, 1, 3, 4)]
        o += [J("recovery", s, 1, 2, 0, reach=[1], timeout=900) for s in range(13)]
    else:
        o += [J("recovery", s, 4, 0, 1, reach=[1]) for s in range(0, 13)]
        o += [J("recovery", s, 3, 1, 0, reach=[1]) for s in range(0, 13)]
    ctx = [c for c in list(range(0, 8)) + list(range(10, 22)) + list(range(24, 32)) + [33]]
    o += [J("intrusion", c, k, reach=[1]) for c in ctx for k in ((1, 2, 3) if deep else (1, 2))]
    return o


def K(scenario, *params, reach=(), **kw):
    """A job of the compiler's harness."""
    return J(scenario, *params, reach=reach, crate="compile", **kw)


ORDER, FAIL, KEEP = 1, 2, 4


def graphs(deep, a, bads):
    """(files, imports per file, opens, form): 0 text, 1 descriptor, 2 encoded descriptor."""
    q = [(2, 2, 2, 0), (3, 2, 1, 0), (3, 1, 2, 0), (4, 1, 1, 0), (2, 1, 3, 0), (2, 2, 2, 1), (2, 2, 2, 2), (3, 1, 2, 1)]
    if deep:
        q += [(2, 2, 3, 0), (2, 3, 2, 0), (3, 1, 3, 0), (4, 1, 2, 0), (3, 2, 1, 1), (3, 2, 1, 2), (3, 2, 2, 2), (2, 1, 4, 0)]
    return [K("graph", a, n, i, o, f, bads, reach=[1, 3], timeout=1200) for n, i, o, f in q]


def c20(tier):
    deep = tier == "thorough"
    return graphs(deep, ORDER, 0) + [K("graph", ORDER, n, i, o, 3, 0, reach=[1, 3], timeout=1200) for n, i, o in ((2, 1, 3), (3, 1, 2)) + (((2, 2, 3), (3, 2, 2)) if deep else ())]


def c21(tier):
    deep = tier == "thorough"
    return graphs(deep, FAIL, 0) + [K("graph", FAIL, n, i, o, f, 1, reach=[1, 3]) for n, i, o, f in ((2, 2, 2, 0), (3, 1, 1, 1), (2, 1, 2, 3))] + [K("graph", FAIL, 2, 3, 1, 0, 1, reach=[1, 3])]


def c22(tier):
    deep = tier == "thorough"
    o = [K("resolve", ni, np, 0, st) for ni in range(4) for np in range(6 if deep else 5) for st in ((0, 1, 2, 3, 4) if deep or ni < 3 else (0,))]
    o += [K("resolve", ni, np, 1, st) for ni in range(6 if deep else 5) for np in range(7 if deep else 6) for st in ((0, 1, 3) if deep else (0,))]
    o += [K("resolve", ni, np, 10, st) for ni, np in ((0, 5), (1, 5), (2, 4)) + (((0, 6), (2, 6), (3, 5)) if deep else ()) for st in (0, 1)]
    o += [K("shadow", i, 4 if deep else 3, 1, 2, 1, st, reach=[2] if st == 2 else [1, 2]) for i in range(15) for st in (0, 1, 2)]
    o += [K("shadow", i, 3 if deep else 2, 2, 2, 1, 0, reach=[1, 2]) for i in range(15)]
    return o


def c23(tier):
    deep = tier == "thorough"
    o = [K("shadow", i, 4, 1, 1, 1, st) for i in range(15) for st in (0, 1, 2, 3)]
    o += [K("shadow", i, 3, 2, 1, 1, st) for i in range(15) for st in ((0, 1, 2) if deep else (0,))]
    if deep:
        o += [K("shadow", i, 4, 2, 1, 0, 0, timeout=900) for i in range(15)]
        o += [K("shadow", i, 2, 3, 1, 1, 1, timeout=900) for i in range(15)]
    return o


def c24(tier):
    deep = tier == "thorough"
    o = [K("chain", n, r, 1, s, reach=[1, 2, 3, 4, 5] if n else [3, 5], timeout=900) for n, r in (((0, 2), (1, 3), (2, 3), (3, 2), (5, 1), (4, 2)) if deep else ((0, 1), (1, 2), (2, 2), (3, 2), (4, 1))) for s in (0, 1, 2)]
    return o


def c25(tier):
    deep = tier == "thorough"
    o = [K("dsbytes", n, 0, 0, reach=[2] if n else [3]) for n in range(0, 5)]
    o += [K("dsbytes", n, 1, 0) for n in range(2, 5)]
    o += [K("dsbytes", n, k, p) for n in ((3, 4, 5) if deep else (3, 4)) for k in (0, 1) for p in range(1, 9)]
    o += [K("dset", n, 1, m, v, timeout=900) for n, m, v in ((2, 0, 0), (3, 0, 0), (3, 1, 0), (3, 0, 1), (4, 0, 1)) + (((4, 0, 0), (4, 1, 0)) if deep else ())]
    o += [K("dset", 2, 2, 0, 0), K("dset", 3, 0, 0, 0)]
    o += [K("dsoptions", n, v, f, reach=[1]) for n in ((0, 1, 2, 3, 4) if deep else (0, 3)) for v in (0, 1) for f in range(4)]
    if deep:
        o += [K("dsbytes", 5, 0, 0, timeout=1800)]
    return o


def c26(tier):
    deep = tier == "thorough"
    o = [K("flags", 4, 1, 3, reach=[1, 2]), K("flags", 3, 1, 3, reach=[1, 2]), K("flags", 5, 0, 2, reach=[1, 2])]
    o += [K("convenience", 1, 2, 3, reach=[1, 2])]
    o += [K("extoption", n, v, reach=[1]) for n in ((1, 2, 3) if deep else (1, 2)) for v in (0, 1)]
    if deep:
        o += [K("flags", 6, 0, 3, reach=[1, 2], timeout=900), K("flags", 5, 1, 4, reach=[1, 2], timeout=900)]
    return o


def c27(tier):
    deep = tier == "thorough"
    q = [(2, 1, 3, 0), (2, 2, 2, 0), (3, 1, 2, 0), (2, 1, 3, 1), (3, 1, 2, 2), (2, 1, 2, 3), (2, 2, 2, 3)]
    if deep:
        q += [(2, 2, 3, 0), (2, 1, 4, 0), (3, 1, 3, 0), (3, 2, 2, 1), (2, 1, 3, 3), (3, 1, 2, 3)]
    return [K("graph", KEEP | FAIL | ORDER, n, i, o, f, 1, reach=[1, 2, 3], timeout=1200) for n, i, o, f in q]


def c28(tier):
    deep = tier == "thorough"
    o = [K("reading", n, a, 0, v) for n in ((0, 1, 2, 3) if deep else (0, 1, 2)) for a in (0, 1, 2) for v in (0, 1, 2)]
    o += [K("reading", 3, 1, 0, 0), K("reading", 4 if deep else 3, 1, 0, 1)]
    o += [K("reading", n, a, f, v) for n in ((0, 1, 2) if deep else (0, 1)) for a in (0, 1, 2) for f in (1, 2) for v in (0, 1, 2)]
    o += [K("reading", n, a, 3, v) for n, a in ((0, 1), (0, 2), (1, 0)) for v in (0, 1, 2)]
    o += [K("weirdpath", n) for n in (range(1, 7) if deep else range(1, 5))]
    return o


def c29(tier):
    deep = tier == "thorough"
    return [J("cli", n, spell, 127, crate="cli", timeout=1200) for n, spell in ((1, 1), (2, 1), (3, 0)) + (((3, 1), (4, 0)) if deep else ())] + [
        # files and the flags about the output only
        J("cli", n, 0, 29, crate="cli", timeout=1200) for n in ((5, 6) if deep else (4, 5))
    ]


def c30(tier):
    deep = tier == "thorough"
    o = [K("google", f, m, reach=[2] if m == 1 else [1, 2]) for f in range(12) for m in (0, 1, 2)]
    o += [K("google", f, m, n, reach=[2] if m == 3 else [1, 2]) for f in range(12) for m in (3, 4) for n in ((2, 3, 4, 6) if deep else (2, 4))]
    o += [K("googleimport", n, d) for n in range(4) for d in (0, 1)]
    return o


def c31(tier):
    deep = tier == "thorough"
    return [K("importerr", n, c, v, reach=[1, 2, 3], timeout=1200) for n, c, v in ((1, 2, 0), (1, 2, 1), (2, 1, 0), (2, 0, 1)) + (((1, 3, 0), (2, 2, 0), (2, 1, 1), (3, 0, 0)) if deep else ())] + [K("importerr", n, 0, 0, 1, reach=[1, 2, 3], timeout=1200) for n in ((1, 2, 3) if deep else (1, 2))]


def c32(tier):
    deep = tier == "thorough"
    rej = lambda s: [1] if s in (0, 1, 2, 9, 10) else [2]
    o = [J("purity", n, w, s, reach=rej(s)) for s in range(12) for n, w in ((0, 0), (4, 0), (8, 0), (12, 0), (24, 0), (40, 0), (2, 1), (3, 1))]
    if deep:
        o += [J("purity", n, w, s, reach=rej(s)) for s in range(12) for n, w in ((16, 0), (100, 0), (4, 1), (5, 1))]
    return o


def c33(tier):
    deep = tier == "thorough"
    q = [(1, 1, 1), (2, 2, 2), (3, 2, 2), (4, 1, 2), (3, 3, 1), (5, 1, 1), (6, 1, 1)] + ([(4, 2, 1), (3, 3, 3), (5, 1, 2), (7, 1, 1)] if deep else [])
    return [K("ring", *x, reach=[1, 2], timeout=1200) for x in q]


def c34(tier):
    deep = tier == "thorough"
    o = []
    for p in range(9):
        o += [K("custom", p, k, 1, 1, reach=[1]) for k in (0, 3, 4, 8, 9)]
        o += [K("custom", p, 14, reach=[1]), K("custom", p, 15, reach=[2])]
        o += [K("custom", p, 7, 0, 0, 1, 1, k, reach=[1]) for k in (4, 10, 11)]
    for p in (0, 2, 8) if not deep else range(9):
        o += [K("custom", p, k, 1, 1, reach=[1]) for k in (1, 2, 5, 6, 10, 11, 12, 16)]
        o += [K("custom", p, 7, 1, 0, 1, 0, k, reach=[1]) for k in (1, 7)]
        o += [K("custom", p, 7, 0, 1, 1, 0, k, reach=[1]) for k in (2, 4)]
        o += [K("custom", p, 7, 0, 0, 1, 1, k, reach=[1]) for k in (9,)]
    o += [K("custom", 2, 7, 0, 0, 2, 0, k, reach=[1]) for k in range(1, 9)]
    o += [K("custom", 0, 7, 0, 0, 2, 1, 9, reach=[1]), K("custom", 0, 7, 0, 1, 1, 0, 8, reach=[1])]
    if deep:
        o += [K("custom", p, 7, 0, 0, 2, 1, k, reach=[1], timeout=1200) for k in (9, 10, 11) for p in (0, 6)]
        o += [K("custom", 0, 7, 0, 0, 3, 0, k, reach=[1], timeout=1200) for k in range(1, 9)]
        o += [K("custom", 0, 7, 0, 0, 1, 2, k, reach=[1], timeout=1200) for k in (10, 11)]
        o += [K("custom", 0, 7, 0, 2, 1, 0, k, reach=[1], timeout=1200) for k in (2, 4)]
        o += [K("custom", 3, k, 1, 2, reach=[1], timeout=1200) for k in (4, 5)]
        o += [K("custom", 0, k, 2, 0, reach=[1], timeout=1200) for k in (0, 1, 10, 11, 12)]
    return o


def c35(tier):
    deep = tier == "thorough"
    o = [K("object", 2, 0, 0, reach=[1]), K("object", 2, 1, 0, reach=[2]), K("object", 0, 1, 1, reach=[1, 2]), K("object", 0, 2, 2, reach=[1, 2]), K("object", 1, 0, 3, reach=[1]), K("object", 2, 2, 1, reach=[1, 2]), K("object", 2, 3, 2, reach=[1, 2])]
    if deep:
        o += [K("object", 0, 3, 1, reach=[1, 2], timeout=1200), K("object", 2, 4, 1, reach=[1, 2], timeout=1200), K("object", 2, 5, 0, reach=[1, 2], timeout=1200)]
    return o


def c36(tier):
    deep = tier == "thorough"
    # inside comments and strings there are no such errors
    r = lambda c, k: [] if c in (8, 9, 22, 23, 32) else [2]
    o = [J("diag", 1, c, k, reach=r(c, k)) for c in CTX for k in (0, 1)]
    o += [J("longtok", c, n, reach=[2, 4] if c not in (8, 9, 22, 23, 32) else [1]) for c in CTX for n in ((3, 5, 9, 17, 20, 33, 40, 65, 129, 257) if deep else (20, 40, 129))]
    o += [J("diag", 2, c, 0, reach=r(c, 0)) for c in CTX]
    if deep:
        o += [J("diag", 2, c, 1, reach=r(c, 1), timeout=1200) for c in CTX]
        o += [J("diag", 3, c, 0, reach=[2], timeout=1800) for c in (6, 12, 24)]
    return o


def c37(tier):
    deep = tier == "thorough"
    n = 38
    return [K("semantic", 2 if deep else 1, k, reach=[1], timeout=1200) for k in range(n)]


PROPS = {
    "C01": dict(
        jobs=c01,
        bounds='arbitrary text of 2 characters of any UTF-8 width (thorough 3), 3 ASCII characters (thorough 4; quick in 4 contexts) or 2 tokens (thorough 3) of a 78-token vocabulary with symbolic characters, in each of 34 grammatical contexts; 4 files cut off at every byte (thorough: then followed by an arbitrary character); every input of the number, string, default, option, label, import, name, comment and structure scenarios of the other properties',
    ),
    "C02": dict(
        jobs=c02,
        bounds='errors of: arbitrary text of 2 characters of any UTF-8 width (thorough 3), 3 ASCII characters (thorough 4; quick in 4 contexts) or 2 tokens (thorough 3) of a 78-token vocabulary with symbolic characters, in each of 34 grammatical contexts; 4 files cut off at every byte; every rejected input of the number, string, default, option, label, import, name and recovery scenarios; the arbitrary text also between blank lines. Line and column are checked where no lone carriage return precedes',
    ),
    "C03": dict(
        jobs=c03,
        bounds='26 families of literals (radix, leading zeros, prefixes up to 2^64) with 1-6 symbolic digits (thorough 7); any letter directly after a literal in 17 places, alone or beginning a word that may follow',
    ),
    "C04": dict(
        jobs=c04,
        bounds='all numbers of 2, 4 or 5 symbolic digits (thorough 1-7) after each family prefix around 1, 19000, 2^29 and 2^32, signed or not, in 8 places; one range or two with 1-2 symbolic digits (thorough 3) per bound around each limit, with and without message_set_wire_format = true',
    ),
    "C05": dict(
        jobs=c05,
        bounds='all numbers of 3-6 symbolic digits (thorough 1-7) after each family prefix around 0, 2^31 and 2^32, signed or not; enum ranges with 1-2 symbolic digits (thorough 3) per bound',
    ),
    "C06": dict(
        jobs=c06,
        bounds='37 literal beginnings (each quote and escape form) followed by 3 arbitrary ASCII characters (thorough 4), 2 of any width (thorough 3) or 4 hexadecimal digits (thorough 6); up to 2 adjacent literals (thorough 3)',
    ),
    "C07": dict(
        jobs=c07,
        bounds="16 types x 7 classes of values x 13 places x 5 surroundings; 1 symbolic digit (thorough 2) after each of 18 prefixes around every type's bounds; identifiers and strings of 2 symbolic characters (thorough 4); 36 floats with sign. Non-identifier values on named types and -0 on unsigned types are left open",
    ),
    "C08": dict(
        jobs=c08,
        bounds='files built from every kind of declaration: 2-3 file items, 2-3 message items, 3 enum items, 2 methods, 2-3 oneof and extension items, 2 nesting levels (thorough: one more of each), in 5 layouts with symbolic identifier characters and symbolic whitespace; lists of 140 elements of each kind or 6 of each pair (thorough 270, 16); every field type, map, group',
    ),
    "C09": dict(
        jobs=c09,
        bounds='50 gaps between tokens x 3 pieces (thorough 5) out of line and block comments, newlines and spaces with symbolic characters; comments at the end of the file; comment texts of 3 arbitrary characters (thorough 4) in 7 surroundings; comments in two gaps of one file',
    ),
    "C10": dict(
        jobs=c10,
        bounds='5 files covering the grammar x every gap x 7 forms of whitespace and comments with up to 2 symbolic characters; the same for files with one token dropped, doubled, swapped or replaced (quick: with the gap no further than 2 tokens after the change)',
    ),
    "C11": dict(
        jobs=c11,
        bounds='12 places x 4 labels x 3 syntaxes x all kinds, scalar types and map keys, with 1 symbolic character (thorough 2) in the names; oneofs of up to 3 fields',
    ),
    "C12": dict(
        jobs=c12,
        bounds='15 scalar types and 14 names x 5 places x labels x options; 12 x 18 map types; map names with 3 symbolic characters (thorough 4); group names of 3 (thorough 4) symbolic characters in 3 places, 5 bodies',
    ),
    "C13": dict(
        jobs=c13,
        bounds='messages of up to 3 items (thorough 4) out of fields, oneofs and proto3 optional fields whose names of up to 2 symbolic characters may collide (also with duplicates among themselves); oneofs of 3 items between other fields',
    ),
    "C14": dict(
        jobs=c14,
        bounds='files built from every kind of declaration: 2-3 file items, 2-3 message items, 3 enum items, 2 methods, 2-3 oneof and extension items, 2 nesting levels (thorough: one more of each), in 5 layouts with symbolic identifier characters and symbolic whitespace; lists of 140 elements of each kind or 6 of each pair (thorough 270, 16)',
    ),
    "C15": dict(
        jobs=c15,
        bounds='16 places x names of up to 3 parts (thorough 4) with up to 3 symbolic characters (thorough 4); values of 8 kinds with 3 symbolic characters (thorough 4); 3 options per list in every order with default and json_name; json_name strings of 3 symbolic characters (thorough 4)',
    ),
    "C16": dict(
        jobs=c16,
        bounds="aggregates of 2 tokens (thorough 3) out of all kinds with symbolic characters, any gap between them or none, in 4 places (thorough 16); '#', 'f' and braces in 16 places",
    ),
    "C17": dict(
        jobs=c17,
        bounds='paths of 2-3 arbitrary characters of any width, or 4 printable ones (thorough 5), in 9 shapes around them',
    ),
    "C18": dict(
        jobs=c18,
        bounds='names of 2 arbitrary characters (thorough 3), one of any width, after 7 prefixes in 26 places; every keyword as a name, extended by 1 symbolic character (thorough 2); quoted reserved names of 0, 1 and 3 characters in 9 shapes',
    ),
    "C19": dict(
        jobs=c19,
        bounds='every self-contained invalid statement of 13 scopes, after valid text (or another invalid statement) and before valid text, 1 arbitrary character (thorough 2), a token, another invalid statement or nothing, at the end of the file or not; 17 invalid sequences in 31 contexts, several invalid characters in a row too, with 2 arbitrary characters (thorough 3) after',
    ),
    "C20": dict(
        jobs=c20,
        bounds='every import graph over 2-4 files (self-imports, missing files, public imports) with 1-2 imports per file (thorough 3) and 1-3 opens (thorough 4) of any of them, files given as text, descriptor, encoded descriptor or as files of an include directory opened under three spellings of their paths: (files, imports, opens) up to (2,2,2), (3,2,1), (3,1,2), (4,1,1), (2,1,3); thorough (2,2,3), (2,3,2), (3,2,2), (4,1,2), (2,1,4)',
    ),
    "C21": dict(
        jobs=c21,
        bounds='the graphs of C20, with any content that is invalid in itself (does not parse, does not resolve, cannot be read) in 3 smaller sizes',
    ),
    "C22": dict(
        jobs=c22,
        bounds='include directories of up to 3 and paths of up to 4 arbitrary non-NUL bytes (thorough 5), each after 5 common beginnings; 4 and 5 bytes (thorough 5 and 6) out of / . a b, also built out of up to 5 whole components (thorough 6); through a compiler: 15 lists of include directories, paths of 3 bytes (thorough 4) out of / . a i j k after 3 beginnings, which files exist being symbolic. Unix only',
    ),
    "C23": dict(
        jobs=c23,
        bounds='15 lists of 1-3 include directories (nested, absolute, spelled with dots); paths of 4 bytes out of / . a i j k after 4 beginnings, or two of 3 bytes one after the other (thorough: 4, and three of 2), where each file exists or not and the first may import another. Unix only',
    ),
    "C24": dict(
        jobs=c24,
        bounds='up to 4 resolvers (thorough 5), flat, boxed or nested, each answering file, not found, parse, I/O or other error, for up to 2 requests (thorough 3) of a symbolic name',
    ),
    "C25": dict(
        jobs=c25,
        bounds='every string of up to 4 bytes (thorough 5), contiguous or in two parts, and of 3-4 (thorough 5) after 8 beginnings (a file, an unknown field, lengths up to 2^64, groups); sets of up to 3 entries (thorough 4) with symbolic names among unknown fields, cut off anywhere; unknown options of up to 3 bytes (thorough 4). A single file is decoded by prost itself in the oracle',
    ),
    "C26": dict(
        jobs=c26,
        bounds='every history of 4 steps (5 without the encoded form; thorough 5 and 6) out of setting either option, opening one of 4 files or a missing one; an extension option of 1-2 symbolic digits (thorough 3) under every setting',
    ),
    "C27": dict(
        jobs=c27,
        bounds='the graphs of C20 where each file may not parse, not resolve or not be readable, and 2-3 opens (thorough 4), files also on disk: (files, imports, opens) up to (2,1,3), (2,2,2), (3,1,2); thorough (2,2,3), (2,1,4), (3,1,3), (3,2,2)',
    ),
    "C28": dict(
        jobs=c28,
        bounds='content of up to 2 arbitrary bytes (thorough 3) alone, or in or after a valid declaration (3 in a comment); every errno from open, stat and the first or second read; 2 reads that return less than asked, one interrupted; every claimed size up to 255 or beyond the limit; paths of up to 4 arbitrary bytes. Through File::open, an include resolver and a compiler',
    ),
    "C29": dict(
        jobs=c29,
        bounds="every command line of up to 3 arguments (thorough 4) out of input files, -I, -o, --include_imports, --include_source_info, --help and an unknown option, in every spelling (long, short, joined or separate value; quick up to 2 arguments); 4-5 arguments (thorough 6) out of input files, -o, --include_imports and --include_source_info; each file present, missing, unparsable, importing another or unreadable; writing the output failing or not. File operations and exit are stand-ins that record what was asked",
    ),
    "C30": dict(
        jobs=c30,
        bounds="the 12 names with any character or run of 2 or 4 (thorough up to 6) replaced or inserted, or cut off at either end; importing or opening each of the 12 through up to 3 include directories, any of which may have it. The files' contents are stand-ins (the build here lacks the protobuf submodule)",
    ),
    "C31": dict(
        jobs=c31,
        bounds="files of up to 2 imports (thorough 3) in 4 spellings of files that exist or not, repeated or not, with 6 kinds of gap between (up to 2 arbitrary bytes of comment, thorough 3; multi-byte text; declarations), opened directly or imported, the imports possibly compiled before",
    ),
    "C32": dict(
        jobs=c32,
        bounds="names of up to 40 ASCII or 3 arbitrary characters (thorough 100 and 5), 12 sources of one or many lines that are accepted or rejected for different reasons, each after parsing any of the others under the same or another name",
    ),
    "C33": dict(
        jobs=c33,
        bounds="every import graph of (files, imports per file, opens) up to (2,2,2), (3,2,2), (3,3,1), (4,1,2) and (6,1,1) (thorough (4,2,1), (3,3,3), (5,1,2), (7,1,1)), all files otherwise valid",
    ),
    "C34": dict(
        jobs=c34,
        bounds="extension options in each of the 9 places an option can be, of types int32, int64, uint64, sint32, fixed32, bool, enum, string, bytes, double, float and message; integers of 1 symbolic digit in 3 radices and the ends of each type's range (thorough 2 digits), strings of 1 symbolic character or escape (thorough 2), options set through 2-3 name parts; aggregates of up to 2 fields (thorough 3) out of 11 kinds with nesting 1 (thorough 2), adjacent strings, lists, extension fields, comments of each kind; 21 values of a wrong type. The interpretation is done by prost-reflect, which is executed too",
    ),
    "C35": dict(
        jobs=c35,
        bounds="sources of 2 arbitrary ASCII characters after 4 beginnings (thorough 3), descriptors with name, package and source info present or not, up to 3 arbitrary bytes after an encoded name or none (thorough 5), in one or two pieces, names of up to 3 characters",
    ),
    "C36": dict(
        jobs=c36,
        bounds="2 tokens (thorough 3 in some) of the C01 vocabulary in each of its 34 contexts, with the rest of the file there or (1 token, thorough 2) cut off; a word, number or string of 20-129 characters (thorough 3-257) there; every alternative an error offers is tried",
    ),
    "C37": dict(
        jobs=c37,
        bounds="38 templates of a file with one error of meaning (undefined type in each place one is named, duplicate field and enum numbers and names, conflicts with reserved and extension ranges, extension number not declared, wrong kind of type, wrong default, undefined, repeated or wrongly typed option in each place) with a symbolic character or digit in the name or number in question, after 6 kinds of gap (1 arbitrary byte of comment, thorough 2; multi-byte text; declarations), opened directly or through a file importing it, other files compiled before or not, with source info or not",
    ),
}

NOT_APPLICABLE = {}
