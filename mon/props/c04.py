"""C04: mirror, spin flip, square, plotter, axis_plot."""
import numpy as np
from .. import gen

RULE = "random grids x random functions of 1-3 columns; every helper result is compared point by point with the function's graph"
REQUIRED = ["mirror maps f(Z,rho) to f(-Z,rho)", "mirror is an involution", "spin flip swaps columns", "square layout",
            "plotter samples the function", "axis plot samples the function", "input is left unchanged", "memory layout does not matter"]


def cases(tier, seed):
    r = gen.rng(seed, "c04", tier)
    n = 300 if tier == "quick" else 4000
    return [{"grid": p, "s": seed * 100003 + i} for i, p in enumerate(gen.FIXED_GRIDS + gen.small_grid_params(r, n))]


def run(case, m):
    g, R = gen.make(case["grid"])
    r = gen.rng(case["s"], "c04run")
    lookup = {}
    for k in range(R.N):
        lookup[(round(R.Z[k], 7), round(R.Y[k], 7))] = k
    for nc in (0, 1, 2, 3):
        f = r.normal(size=R.N if nc == 0 else (R.N, nc))
        f0 = f.copy()
        mf = np.asarray(g.mirror(f))
        m.state(f[:3])
        m.ok("mirror maps f(Z,rho) to f(-Z,rho)", mf.shape == f.shape, shape=mf.shape)
        cols = [f] if nc == 0 else [f[:, j] for j in range(nc)]
        mcols = [mf] if nc == 0 else [mf[:, j] for j in range(nc)]
        for x, y in zip(cols, mcols):
            m.close("mirror maps f(Z,rho) to f(-Z,rho)", y, R.mirror(x), nc=nc, grid=case["grid"])
        m.close("mirror is an involution", g.mirror(mf), f)
        if nc:
            sf = np.asarray(g.spinflip(f))
            m.close("spin flip swaps columns", sf, f[:, ::-1])
            m.close("spin flip swaps columns", g.spinflip(sf), f)
            m.close("mirror and spin flip commute", g.mirror(g.spinflip(f)), g.spinflip(g.mirror(f)))
        else:
            m.close("spin flip swaps columns", g.spinflip(f), f)
        sq = np.asarray(g.square(f))
        m.ok("square layout", sq.shape == (R.Na, R.Nr, max(1, nc)), shape=sq.shape)
        for j, x in enumerate(cols):
            m.close("square layout", sq[:, :, j], R.sq(x))
        m.ok("input is left unchanged", np.array_equal(f, f0))
        for lay, x in gen.layouts(f):
            m.close("memory layout does not matter", g.mirror(x), mf, layout=lay, what="mirror")
            m.close("memory layout does not matter", g.square(x), sq, layout=lay, what="square")
            m.close("memory layout does not matter", g.spinflip(x), g.spinflip(f), layout=lay, what="spin flip")
            if nc < 2:
                m.close("memory layout does not matter", g.plotter(x)[0], g.plotter(f)[0], layout=lay, what="plotter")
        mf[...] = 7.0                       # results must not alias the input
        m.ok("input is left unchanged", np.array_equal(f, f0))
    # a mirrored coordinate
    m.close("mirror maps f(Z,rho) to f(-Z,rho)", g.mirror(g.Z), -g.Z, rtol=1e-12)
    f = r.normal(size=R.N)
    f0 = f.copy()
    for sym in (1, -1):
        full, Z, X = g.plotter(f, 1, sym)
        m.ok("plotter samples the function", full.shape == Z.shape == X.shape == (R.Na + 2, 2 * R.Nr), shape=full.shape)
        bad = 0
        seen = set()
        for v, z, x in zip(full.ravel(), Z.ravel(), X.ravel()):
            k = lookup.get((round(z, 7), round(abs(x), 7)))
            if k is None:
                k = int(np.argmin((R.Z - z) ** 2 + (R.Y - abs(x)) ** 2))
            seen.add((k, x > 0))
            if abs(v - (f[k] if x > 0 else sym * f[k])) > 1e-12:
                bad += 1
        m.ok("plotter samples the function", bad == 0, bad=bad, sym=sym, grid=case["grid"])
        m.ok("plotter samples the function", len(seen) == 2 * R.N, seen=len(seen))
    xs, ys = g.axis_plot(f)
    xs, ys = np.asarray(xs), np.asarray(ys)
    # the bond axis: the innermost ring between the nuclei and the two end points of every other ring
    axis = [k for k in range(R.N) if k < R.Na or k % R.Na in (0, R.Na - 1)]
    graph = {(round(R.Z[k], 7) + 0.0, round(f[k], 9)) for k in axis}
    got = {(round(float(x), 7) + 0.0, round(float(y), 9)) for x, y in zip(xs, ys)}
    m.ok("axis plot samples the function", np.all(np.diff(xs) >= 0) and xs.shape == ys.shape)
    m.ok("axis plot samples the function", got <= graph, extra=sorted(got - graph)[:3], grid=case["grid"])
    # the end points of the outermost ring may be left out
    last = {(round(R.Z[k], 7) + 0.0, round(f[k], 9)) for k in axis if k // R.Na == R.Nr - 1}
    m.ok("axis plot reports every inner axis point", graph - got <= last, missing=sorted(graph - got - last)[:3], grid=case["grid"])
    m.ok("input is left unchanged", np.array_equal(f, f0))
