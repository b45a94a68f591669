from .common import *

PROPERTY = "C10"
AGAIN = 15

SH = {"scalar": ((1,),), "vector": ((2,),), "matrix": ((2, 2),),
      "pair": ((2, 2), (2,)), "triple": ((1,), (2, 1), (2, 2))}


def FA(shapes):
    return base()._FeatureArray(*shapes)


def batch(ctx, name, n, shapes, c=False):
    return [ctx.data("%s_%d" % (name, i), (n,) + s, c)
            for i, s in enumerate(shapes)]


def compare(ctx, fa, ref, shapes, label):
    """ref: list over components of lists of items"""
    n = len(ref[0])
    ctx.equal(len(fa), n, label + ": length")
    if n == 0:
        return
    ctx.true(tuple(tuple(s) for s in fa.shape) == tuple(
        (n,) + s for s in shapes), label + ": shape")
    ctx.equal(fa.nb_manifolds, len(shapes), label + ": components")
    out = fa.export()
    if len(shapes) == 1:
        out = [out]
    ctx.equal(len(out), len(shapes), label + ": exported components")
    for i, s in enumerate(shapes):
        if n == 1:
            ctx.equal(out[i], ref[i][0], label + ": exported item")
        else:
            ctx.equal(out[i].shape, (n,) + s, label + ": exported shape")
            for j in range(n):
                ctx.equal(out[i][j], ref[i][j], label + ": exported item")


def step(ctx, fa, ref, shapes, t, c, kinds):
    how = ctx.choose("how%d" % t, kinds)
    n = {"one": 1, "single": 1, "two": 2, "tuple": 2, "container": 2,
         "grown": 2, "slice": 2, "empty": 0, "list": 1, "self": 0}[how]
    if how == "self":
        fa.append(fa)
        for i in range(len(shapes)):
            ref[i] += list(ref[i])
        return
    d = batch(ctx, "x%d" % t, n, shapes, c)
    for i in range(len(shapes)):
        ref[i] += [d[i][j] for j in range(n)]
    if how == "single":
        d = [x[0] for x in d]
    if how == "container":
        o = FA(shapes)
        o.append(d)
        d = o
    elif how == "grown":
        # a container that has room for more items than it holds
        o = FA(shapes)
        o.append([x[:1] for x in d])
        o.append([x[1:] for x in d])
        d = o
    elif how == "slice":
        o = FA(shapes)
        o.append([x[1:] for x in d])
        o.append(d)
        d = o[1:3]
    elif len(shapes) == 1 and how != "list":
        d = d[0]
    elif how == "tuple":
        d = tuple(d)
    fa.append(d)


def history(kind, T, c, kinds=("one", "single", "two", "container")):
    def h(ctx):
        shapes = SH[kind]
        fa = FA(shapes)
        ref = [[] for _ in shapes]
        ctx.equal(len(fa), 0, "starts empty")
        for t in range(T):
            k = kinds
            if not ref[0]:
                # an empty container holds nothing to hand over
                k = tuple(x for x in k if x != "self")
            step(ctx, fa, ref, shapes, t, c, k)
            compare(ctx, fa, ref, shapes, "after append")
        if ref[0]:
            ctx.true(all(ctx.kindof(x) in ("c" if c else "fi" if ctx.integral
                                           else "f") for x in
                         (fa.export() if len(shapes) > 1
                          else [fa.export()])), "kind of the numbers")
    return h


def growth(kind, sizes, c=False):
    """histories that outgrow the storage several times"""
    def h(ctx):
        shapes = SH[kind]
        fa = FA(shapes)
        ref = [[] for _ in shapes]
        for t, n in enumerate(sizes):
            n = ctx.choose("n%d" % t, n if isinstance(n, tuple) else (n,))
            d = []
            for i, s in enumerate(shapes):
                # the ends of the batch are arbitrary, the middle is zero
                k = min(n, 2)
                e = ctx.data("x%d_%d" % (t, i), (k,) + s, c)
                x = ctx.zeros((n,) + s, "c" if c else "f")
                x[0] = e[0]
                x[n - 1] = e[k - 1]
                d.append(x)
                ref[i].append((n, e[0], e[k - 1]))
            fa.append(d)
        tot = sum(r[0] for r in ref[0])
        ctx.equal(len(fa), tot, "length")
        out = fa.export()
        if len(shapes) == 1:
            out = [out]
        for i, s in enumerate(shapes):
            ctx.equal(out[i].shape, (tot,) + s, "shape")
            pos = 0
            seen = []
            for n, a, b in ref[i]:
                ctx.equal(out[i][pos], a, "first item of a batch")
                ctx.equal(out[i][pos + n - 1], b, "last item of a batch")
                g = fa[pos + n - 1].export()
                if len(shapes) > 1:
                    g = g[i]
                ctx.equal(g, b, "indexed item")
                seen += [pos, pos + n - 1]
                pos += n
            rest = [j for j in range(tot) if j not in seen]
            if rest:
                ctx.equal(abs(out[i][rest]).sum(), 0, "other items")
    return h


def many(shapes, T, c, sizes=(1, 2)):
    """long histories of small appends"""
    def h(ctx):
        fa = FA(shapes)
        ref = [[] for _ in shapes]
        for t in range(T):
            n = sizes[t % len(sizes)]
            last = t in (0, T // 2, T - 1)
            for i, s in enumerate(shapes):
                if last:
                    x = ctx.data("x%d_%d" % (t, i), (n,) + s, c)
                else:
                    x = ctx.zeros((n,) + s, "c" if c else "f")
                    x[...] = t + i / 8
                ref[i].append(x)
            fa.append([r[-1] for r in ref])
        compare(ctx, fa, [[x[j] for x in r for j in range(x.shape[0])]
                          for r in ref], shapes, "after %d appends" % T)
    return h


def together(kind, c):
    """two containers filled in turns, each read after every append"""
    def h(ctx):
        shapes = SH[kind]
        fas = [FA(shapes), FA(shapes)]
        refs = [[[] for _ in shapes] for _ in fas]
        order = ctx.choose("order", ((0, 1, 0, 1), (0, 0, 1, 0),
                                     (1, 0, 0, 1)))
        for t, q in enumerate(order):
            d = batch(ctx, "x%d" % t, 1 + t % 2, shapes, c)
            for i in range(len(shapes)):
                refs[q][i] += list(d[i].copy())
            fas[q].append(d)
            for fa, ref in zip(fas, refs):
                compare(ctx, fa, ref, shapes, "its own items only")
    return h


def indexing(kind, n, c):
    def h(ctx):
        shapes = SH[kind]
        fa = FA(shapes)
        k = ctx.choose("split", tuple(range(1, n)))
        d = batch(ctx, "x", n, shapes, c)
        fa.append([x[:k] for x in d])
        fa.append([x[k:] for x in d])
        j = ctx.choose("index", tuple(range(-n, n)))
        for key in (j, np.int64(j)):
            r = fa[key]
            compare(ctx, r, [[x[j]] for x in d], shapes, "integer index")
        for key in (slice(None), slice(1, None), slice(None, None, 2),
                    slice(-2, None), [0, n - 1], np.array([n - 1, 0, 0]),
                    np.arange(n) % 2 == 0, slice(None, None, -1)):
            r = fa[key]
            idx = np.arange(n)[key]
            compare(ctx, r, [[x[i] for i in idx] for x in d], shapes,
                    "selection")
        # the selection is a container of its own
        r = fa[0]
        r.append([x[-1] for x in d])
        compare(ctx, r, [[x[0], x[n - 1]] for x in d], shapes,
                "grown selection")
        compare(ctx, fa, [[x[i] for i in range(n)] for x in d], shapes,
                "source of the selection")
        ctx.raises(IndexError, lambda: fa[n], "out of range")
        ctx.raises(IndexError, lambda: fa[-n - 1], "out of range")
    return h


def reused(kind, c):
    """the caller reuses its buffer"""
    def h(ctx):
        shapes = SH[kind]
        fa = FA(shapes)
        m = ctx.choose("batch", (1, 2))
        a = batch(ctx, "a", m, shapes, c)
        b = batch(ctx, "b", m, shapes, c)
        how = ctx.choose("buffer", ("own", "part", "transposed"))
        if how == "own":
            buf = [x.copy() for x in a]
        else:
            # a part of a larger array
            big = [ctx.zeros((m + 2,) + s, "c" if c else "f")
                   for s in shapes]
            if how == "transposed":
                big = [x.transpose(tuple(range(1, x.ndim)) + (0,)).copy()
                       for x in big]
                big = [x.transpose((x.ndim - 1,) + tuple(range(x.ndim - 1)))
                       for x in big]
            buf = [x[1:1 + m] for x in big]
            for x, y in zip(buf, a):
                x[...] = y
        fa.append(buf)
        for x, y in zip(buf, b):
            x[...] = y
        compare(ctx, fa, [[x[i] for i in range(m)] for x in a], shapes,
                "after the buffer changed")
        fa.append(buf)
        for x in buf:
            x[...] = 0
        compare(ctx, fa, [[x[i] for i in range(m)] + [y[i] for i in range(m)]
                          for x, y in zip(a, b)], shapes,
                "after the buffer changed twice")
    return h


def rejected(kind, c):
    """bad data are refused and leave the container as it was"""
    def h(ctx):
        shapes = SH[kind]
        fa = FA(shapes)
        n0 = ctx.choose("filled", (0, 1, 2))
        ref = [[] for _ in shapes]
        if n0:
            d = batch(ctx, "x", n0, shapes, c)
            fa.append(d)
            ref = [[x[i] for i in range(n0)] for x in d]
        bad = []
        for n in (1, 2):
            g = batch(ctx, "g%d" % n, n, shapes, c)
            for i in range(len(shapes)):
                w = list(g)
                s = (n,) + shapes[i][:-1] + (shapes[i][-1] + 1,)
                w[i] = ctx.data("w%d_%d" % (n, i), s, c)
                bad.append((ValueError, "wrong item shape", w))
                w = list(g)
                s = (n,) + tuple(reversed(shapes[i]))
                if s[1:] != shapes[i]:
                    w[i] = ctx.data("t%d_%d" % (n, i), s, c)
                    bad.append((ValueError, "transposed items", w))
                w = list(g)
                w[i] = g[i].reshape((1,) + g[i].shape)
                bad.append((ValueError, "too many dimensions", w))
                if len(shapes) > 1:
                    w = list(g)
                    w[i] = ctx.data("m%d_%d" % (n, i), (n + 1,) + shapes[i],
                                    c)
                    bad.append((ValueError, "unequal batches", w))
                w = list(g)
                w[i] = "text"
                bad.append((TypeError, "not an array", w))
                if n0:
                    w = list(g)
                    w[i] = ctx.zeros((n,) + shapes[i], "f" if c else "c")
                    bad.append((ValueError, "other kind of number", w))
            bad.append((ValueError, "too many components", g + [g[0]]))
            bad.append((ValueError, "too few components", g[:-1]))
        bad.append((TypeError, "not a sequence", 3.0))
        bad.append((TypeError, "not a sequence", None))
        exc, why, w = bad[ctx.choose("bad", tuple(range(len(bad))))]
        ctx.raises(exc, lambda: fa.append(w), why)
        compare(ctx, fa, ref, shapes, "after a refused append")
        g = batch(ctx, "z", 2, shapes, c)
        fa.append(g)
        for i in range(len(shapes)):
            ref[i] += [g[i][0], g[i][1]]
        compare(ctx, fa, ref, shapes, "append after a refused one")
    return h


def empty(kind):
    def h(ctx):
        fa = FA(SH[kind])
        ctx.raises(ValueError, lambda: fa[0], "nothing to index")
        ctx.raises(ValueError, lambda: fa.vectorize(), "nothing to vectorise")
        ctx.equal(len(fa), 0, "empty")
        ctx.true(fa.shape == 0 and fa.dtype == (), "empty shape")
        ctx.equal(fa.nb_manifolds, len(SH[kind]), "components")
    return h


def instances(tier):
    out = []
    for kind in SH:
        for c in (False, True):
            if kind in ("triple", "scalar") and c and tier == "quick":
                continue
            n = "%s-%s" % (kind, tag(c))
            T = 3 if kind in ("scalar", "vector", "pair") else 2
            out.append(Instance(
                n + "-history", history(kind, T, c),
                maxpaths=256, bounds="all histories of %d appends" % T))
            out.append(Instance(
                n + "-forms", history(kind, 2, c, (
                    "one", "tuple", "list", "empty", "self", "container")),
                maxpaths=64, bounds="all histories of 2 appends"))
            out.append(Instance(
                n + "-containers", history(kind, 2, c, (
                    "one", "container", "grown", "slice")),
                maxpaths=64, bounds="all histories of 2 appends"))
            out.append(Instance(n + "-indexing", indexing(kind, 3, c),
                                maxpaths=64,
                                bounds="3 items, every split and index"))
            out.append(Instance(n + "-together", together(kind, c),
                                maxpaths=16,
                                bounds="2 containers, 4 appends, 3 orders"))
            out.append(Instance(n + "-reused", reused(kind, c),
                                bounds="2 appends"))
            out.append(Instance(n + "-rejected", rejected(kind, c),
                                maxpaths=256,
                                bounds="one refused append, <=2 items"))
    for kind in SH:
        out.append(Instance(kind + "-empty", empty(kind), bounds="empty"))
    for kind in ("scalar", "pair"):
        out.append(Instance(
            kind + "-growth", growth(kind, (
                (1, 2), (999, 1000, 1001), (1, 2))), maxpaths=64, budget=150,
            bounds="3 appends, one storage block +-1"))
        out.append(Instance(
            kind + "-growth2", growth(kind, (
                (1, 1000), (1001, 2000, 2001, 2002), 1)), maxpaths=64,
            budget=150, bounds="3 appends, two storage blocks +-1"))
    for c in (False, True):
        n = tag(c)
        out.append(Instance("many-" + n, many(((2,), (1, 2)), 60, c),
                            bounds="60 appends, first, middle and last "
                            "arbitrary"))
        out.append(Instance("components-" + n, many(
            tuple((i % 3 + 1,) for i in range(12)), 3, c, (2, 1)),
            bounds="12 components, 3 appends"))
        out.append(Instance("large-" + n, wide(many(
            ((12, 12), (130,)), 4, c, (1, 3))),
            bounds="items of 144 and 130 entries, two rows arbitrary"))
    for kind in ("scalar", "pair"):
        out.append(Instance(
            kind + "-growth3", growth(kind, (3, (4999, 5000), 2)),
            maxpaths=64, budget=150, bounds="3 appends, five storage blocks"))
    if tier == "thorough":
        out.append(Instance("pair-history4", history("pair", 4, False),
                            maxpaths=1000, budget=900,
                            bounds="all histories of 4 appends"))
    return out
