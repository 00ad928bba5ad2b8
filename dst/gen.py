"""Workload generation: CLooG input documents and option lists, every choice
from the given random.Random."""
import os, random

HERE = os.path.dirname(os.path.abspath(__file__))
CORPUS = os.path.join(os.path.dirname(HERE), "corpus")
_corpus = None


def corpus():
    """name -> (bytes, cost in simulator steps)"""
    global _corpus
    if _corpus is None:
        _corpus = []
        for d, _, fs in sorted(os.walk(CORPUS)):
            for f in sorted(fs):
                if f.endswith(".cloog"):
                    p = os.path.join(d, f)
                    _corpus.append((os.path.relpath(p, CORPUS), open(p, "rb").read().decode("latin-1")))
        _corpus.sort()
    return _corpus


def row(kind, cs):
    return [kind] + cs


class Doc(object):
    pass


def gen_doc(r, small=False, syntax=True):
    d = Doc()
    d.lang = "f" if r.random() < 0.15 else "c"
    d.npar = r.choice([0, 1, 1, 2, 2, 3] if not small else [0, 1, 1, 2])
    np_ = d.npar
    d.ext = r.random() < 0.25
    ctx = []
    for p in range(np_):
        if r.random() < 0.6:
            c = [0] * (np_ + 1)
            c[p] = 1
            c[-1] = -r.choice([0, 1, 2, 3, 10])
            ctx.append(row(1, c))
    if np_ == 2 and r.random() < 0.25:
        ctx.append(row(1, [1, -1, r.choice([0, -1, 2])]))
    d.ctx = ctx
    ns = r.choice([1, 1, 2, 2, 3, 3, 4] if not small else [1, 1, 2, 2, 3])
    if r.random() < 0.015:
        ns = 0
    maxdim = r.choice([1, 2, 2, 3] if not small else [1, 1, 2])
    d.stm = []
    shared = None
    for s in range(ns):
        if shared is not None and r.random() < 0.25:
            d.stm.append(shared)
            continue
        dim = r.randint(0 if r.random() < 0.2 else 1, maxdim)
        nd = 2 if r.random() < 0.12 else 1
        uni = []
        for _ in range(nd):
            uni.append(gen_domain(r, dim, np_, d.ext))
        shared = (dim, uni)
        d.stm.append(shared)
    d.niter = max([s[0] for s in d.stm] + [0])
    d.scat = None
    if ns and r.random() < 0.6:
        nscat = r.randint(1, maxdim * 2 + 1 if not small else 3)
        d.nscat = nscat
        d.scat = [gen_scat(r, s[0], np_, nscat, k, d) for k, s in enumerate(d.stm)]
    d.pnames = r.random() < 0.6
    d.inames = r.random() < 0.6 and ns > 0
    d.snames = r.random() < 0.6
    d.text = render(r, d, syntax)
    return d


def gen_big(r, syntax=True):
    """inputs beyond the usual sizes: many statements, deep nests, many
    parameters, many scattering dimensions, unions of many parts, huge numbers"""
    d = Doc()
    d.lang, d.ext = ("f" if r.random() < 0.15 else "c"), False
    style = r.choice(["wide", "wide", "deep", "params", "union", "overlap", "numbers", "numbers"])
    d.npar = np_ = r.randint(4, 8) if style == "params" else r.choice([0, 1, 2])
    d.ctx = [row(1, [1 if q == p else 0 for q in range(np_)] + [-1]) for p in range(np_)]
    ns = {"wide": r.choice([9, 12, 16, 17, 25, 32, 33, 40, 65, r.randint(9, 70)]), "deep": r.choice([1, 2]), "overlap": r.randint(5, 32)}.get(style, r.randint(1, 3))

    def big():
        return r.choice([1, -1]) * r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 63, 10 ** r.randint(9, 45), r.randrange(10 ** 20), 7])

    def dom(dim):
        rows = []
        for k in range(dim):
            e = [0] * (dim + np_ + 1)
            e[k] = 1
            e[-1] = -r.choice([0, 1])
            if style == "numbers" and r.random() < 0.4:
                e[-1] = -abs(big())
            rows.append(row(1, e))
            e = [0] * (dim + np_ + 1)
            e[k] = -1
            if np_ and style != "numbers":
                e[dim + (k if style == "params" else 0) % np_] = 1
            else:
                e[-1] = r.choice([3, 9])
            if style == "numbers":
                e[-1] = 10 ** 46 + abs(big())
                if np_ and r.random() < 0.3:
                    e[dim] = abs(big())
            rows.append(row(1, e))
        return rows, 0
    dims = {"wide": [1], "deep": [5, 6, 7], "params": [2, 3], "union": [1], "overlap": [1], "numbers": [1, 2]}[style]
    d.stm = []
    for k in range(ns):
        dim = r.choice(dims)
        if style == "union":
            uni = []
            for q in range(r.randint(3, 12)):
                lo = [1] + [0] * np_ + [-20 * q]
                hi = [-1] + [0] * np_ + [20 * q + r.randint(0, 9)]
                uni.append(([row(1, lo), row(1, hi)], 0))
        elif style == "overlap":    # each overlaps its neighbour: many separated loops
            uni = [([row(1, [1] + [0] * np_ + [-10 * k]), row(1, [-1] + [0] * np_ + [10 * k + r.choice([9, 14, 14])])], 0)]
        else:
            uni = [dom(dim)]
        d.stm.append((dim, uni))
    d.niter = max(s[0] for s in d.stm)
    d.scat, same = None, r.random()
    if style in ("wide", "deep", "overlap") or r.random() < 0.5:
        d.nscat = 2 if style == "overlap" else r.choice([2, 3, 3]) if style in ("wide", "union") else 2 * d.niter + 1
        d.scat = []
        for k, (dim, _) in enumerate(d.stm):
            rows = []
            for q in range(d.nscat):
                c = [0] * (d.nscat + dim + np_ + 1)
                c[q] = 1
                if style in ("wide", "union") and q == 0 or q == d.nscat - 1:
                    c[-1] = -k
                elif style in ("wide", "union", "overlap"):
                    c[d.nscat] = -1
                elif q % 2 and q // 2 < dim:
                    c[d.nscat + q // 2] = -1
                rows.append(row(0, c))
            d.scat.append(rows)
    d.pnames, d.inames, d.snames = [r.random() < 0.6 for _ in range(3)]
    d.text = render(r, d, syntax)
    return d


def gen_domain(r, dim, np_, ext):
    rows = []
    nloc = 0
    for k in range(dim):
        # lower bound
        c = [0] * (dim + np_ + 1)
        c[k] = 1
        c[-1] = -r.choice([0, 0, 1, 1, 1, 2, 3, -1])
        if k and r.random() < 0.35:
            c[r.randrange(k)] = -1
        elif np_ and r.random() < 0.15:
            c[dim + r.randrange(np_)] = -1
        if r.random() < 0.08:
            c[k] = 2
        rows.append(row(1, c))
        # upper bound
        c = [0] * (dim + np_ + 1)
        c[k] = -1
        if np_ and r.random() < 0.65:
            c[dim + r.randrange(np_)] = r.choice([1, 1, 1, 2])
            c[-1] = r.choice([0, 0, 0, -1, 1, 5])
        else:
            c[-1] = r.choice([3, 5, 8, 10, 20, 100])
        if k and r.random() < 0.25:
            c[r.randrange(k)] = r.choice([1, -1])
        if r.random() < 0.1:
            c[k] = -r.choice([2, 3])
        rows.append(row(1, c))
    if dim and r.random() < 0.25:
        c = [0] * (dim + np_ + 1)
        c[r.randrange(dim)] = r.choice([1, -1])
        if dim > 1 and r.random() < 0.6:
            j = r.randrange(dim)
            c[j] = c[j] or r.choice([1, -1])
        if np_ and r.random() < 0.4:
            c[dim + r.randrange(np_)] = r.choice([1, -1])
        c[-1] = r.choice([0, 0, 1, -1, 3])
        rows.append(row(0 if r.random() < 0.4 else 1, c))
    if ext and dim and r.random() < 0.4:           # iterator constrained modulo m
        nloc = 1
        m = r.choice([2, 3, 4])
        for q in rows:
            q.insert(1 + dim, 0)
        c = [0] * (dim + 1 + np_ + 1)
        c[r.randrange(dim)] = 1
        c[dim] = -m
        c[-1] = r.choice([0, 1])
        rows.append(row(0, c))
    return rows, nloc


def gen_scat(r, dim, np_, nscat, k, d):
    rows = []
    style = getattr(d, "style", None)
    if style is None:
        style = d.style = r.choice(["beta", "perm", "mix", "mix"])
    for q in range(nscat):
        c = [0] * (nscat + dim + np_ + 1)
        c[q] = 1
        if style == "beta":
            if q % 2 == 0:
                c[-1] = -r.choice([0, 0, 1, k])
            elif q // 2 < dim:
                c[nscat + q // 2] = -1
        elif style == "perm":
            if dim:
                c[nscat + (q + d.npar) % dim] = -1
        else:
            t = r.random()
            if dim and t < 0.6:
                c[nscat + r.randrange(dim)] = -r.choice([1, 1, 1, -1, 2])
                if r.random() < 0.25:
                    c[nscat + r.randrange(dim)] = -1
                c[-1] = -r.choice([0, 0, 0, 1, -1, k])
            elif np_ and t < 0.7:
                c[nscat + dim + r.randrange(np_)] = -1
            else:
                c[-1] = -r.choice([0, 0, 1, k, 5])
        rows.append(row(0, c))
    return rows


def mat(r, rows, cols, sx):
    out = ["%d %d" % (len(rows), cols) + (r.choice(["", " # matrix", "  "]) if sx else "")]
    for q in rows:
        out.append((" " if sx and r.random() < 0.2 else "") + r.choice([" ", " ", "  "] if sx else [" "]).join(map(str, q)) +
                   (r.choice(["", "", "", "  # row", " "]) if sx else ""))
    return out


def names(r, n, pre, sx):
    out = []
    for i in range(n):
        t = r.random()
        nm = "%s%d" % (pre, i)
        if sx and t < 0.12:
            nm = pre + "_" + "x" * r.choice([20, 40, 44, 45, 46]) + str(i)
        elif t < 0.4:
            nm = pre + "abcdefgh"[i % 8]
        out.append(nm[:49])
    return out


def render(r, d, sx=True):
    L = []

    def junk():
        if not sx:
            return
        t = r.random()
        if t < 0.12:
            L.append("")
        elif t < 0.24:
            L.append("# a comment")
        elif t < 0.27:
            L.append("#" + "-" * r.choice([60, 500, 1000, 1021, 1022]))

    def domain(uni, dim):
        if len(uni) > 1:
            L.append("%d # union" % len(uni) if sx and r.random() < 0.3 else "%d" % len(uni))
        for rows, nloc in uni:
            junk()
            if d.ext:
                cols = 2 + dim + nloc + d.npar
                L.append("%d %d %d 0 %d %d" % (len(rows), cols, dim, nloc, d.npar))
                for q in rows:
                    L.append(" ".join(map(str, q)))
            else:
                L.extend(mat(r, rows, 2 + dim + d.npar, sx))

    junk()
    L.append({"c": r.choice(["c", "c", "c # language: C"] if sx else ["c"]), "f": "f"}[d.lang])
    junk()
    if d.ext:
        L.append("%d %d 0 0 0 %d" % (len(d.ctx), 2 + d.npar, d.npar))
        for q in d.ctx:
            L.append(" ".join(map(str, q)))
    else:
        L.extend(mat(r, d.ctx, 2 + d.npar, sx))
    junk()
    L.append("1" if d.pnames else "0")
    if d.pnames and d.npar:
        L.append(" ".join(names(r, d.npar, "N", sx)))
    junk()
    L.append("%d # statements" % len(d.stm) if sx and r.random() < 0.3 else "%d" % len(d.stm))
    for dim, uni in d.stm:
        junk()
        domain(uni, dim)
        L.append("0 0 0")
    junk()
    L.append("1" if d.inames else "0")
    if d.inames and d.niter:
        L.append(" ".join(names(r, d.niter, "i", sx)))
    junk()
    if d.scat:
        L.append(str(len(d.stm)))
        for (dim, uni), rows in zip(d.stm, d.scat):
            junk()
            if d.ext:
                L.append("%d %d %d %d 0 %d" % (len(rows), 2 + d.nscat + dim + d.npar, d.nscat, dim, d.npar))
                for q in rows:
                    L.append(" ".join(map(str, q)))
            else:
                L.extend(mat(r, rows, 2 + d.nscat + dim + d.npar, sx))
        junk()
        L.append("1" if d.snames else "0")
        if d.snames:
            L.append(" ".join(names(r, d.nscat, "t", sx)))
    else:
        L.append("0")
    nl = "\n"
    t = nl.join(L)
    if not sx or r.random() < 0.8:
        t += nl
    return t


OPTS = [
    ["-strides", "1"], ["-strides", "1"], ["-strides", "1"], ["-l", "1"], ["-l", "2"], ["-f", "2"], ["-f", "-1"], ["-l", "-1"], ["-stop", "1"],
    ["-stop", "2"], ["-otl", "0"], ["-otl", "0"], ["-esp", "0"], ["-esp", "0"], ["-fsp", "2"], ["-block", "1"], ["-compilable", "1"],
    ["-compilable", "3"], ["-callable", "1"], ["-loopo"], ["-leaks"], ["-nobacktrack"], ["-backtrack"], ["-override"],
    ["-noblocks"], ["-noscalars"], ["-noscalars"], ["-nosimplify"], ["-sh", "1"], ["-first-unroll", "1"], ["-first-unroll", "2"], ["-q"],
    ["-bipbip"], ["-exact-clast-filtering", "1"],
]


def gen_opts(r, maxn=4):
    n = r.choice([0, 0, 1, 1, 2, 2, 3, 4])
    out = []
    used = set()
    for _ in range(min(n, maxn)):
        o = r.choice(OPTS)
        if o[0] in used:
            continue
        used.add(o[0])
        out.extend(o)
    return out


def pick_input(r, small=False, pgen=0.5):
    """-> (label, text)"""
    if r.random() < 0.04:
        return "generated-big", gen_big(r).text
    if r.random() < pgen:
        return "generated", gen_doc(r, small).text
    c = corpus()
    if small:
        c = [x for x in c if len(x[1]) < 1500]
    return r.choice(c)
