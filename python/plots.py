#!/usr/bin/env python3-vt
"""C22: the figures show what the results program has recorded.

plots.py run C22 --out FILE     search (VERIF_SEED, VERIF_TIER, VH_REPLAYS)
plots.py replay FILE            one recorded case

The plotting scripts of the repository run on generated recordings (in the layout in which the
results program writes them), with a stand-in for matplotlib that keeps what is drawn."""

import contextlib
import importlib
import io
import json
import math
import os
import random
import sys
import tempfile
import types
from pathlib import Path

sys.dont_write_bytecode = True

from driver import Part, Violated, main, need  # noqa: E402

SCRIPTS = "/repo/results/plotting"
ROOT = "reziprocal_square_root"


# ------------------------------------------------------------------- stand-in for matplotlib
class Anything:
    """takes every call and has every attribute"""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        value = Anything()
        object.__setattr__(self, name, value)
        return value

    def __getitem__(self, i):
        return Anything()

    def __setitem__(self, i, v):
        pass


class Axes(Anything):
    def __init__(self, where):
        self.where = where
        self.lines, self.images, self.texts = [], [], []
        self.xlim = [None, None]
        self.xlabel = self.ylabel = self.title = ""
        self.yscale = "linear"
        self.legends = []

    def plot(self, x, y=None, *a, **k):
        if y is None:
            x, y = range(len(x)), x
        self.lines.append(dict(x=list(x), y=list(y), err=None, **k))
        return [self.lines[-1]]

    def errorbar(self, x, y, yerr=None, *a, **k):
        self.lines.append(dict(x=list(x), y=list(y), err=list(yerr), **k))
        return Container(self.lines[-1])

    def semilogy(self, *a, **k):
        self.yscale = "log"
        return self.plot(*a, **k)

    def imshow(self, data, **k):
        self.images.append(dict(data=[list(r) for r in data], **k))
        return Image(self.images[-1])

    def text(self, x, y, s, **k):
        self.texts.append(s)

    def set_xlim(self, left=None, right=None, *a, **k):
        left, right = k.get("xmin", left), k.get("xmax", right)
        if isinstance(left, (tuple, list)):
            left, right = left
        for i, v in enumerate((left, right)):
            if v is not None:
                self.xlim[i] = v

    def set_xlabel(self, s, *a, **k):
        self.xlabel = s

    def set_ylabel(self, s, *a, **k):
        self.ylabel = s

    def set_title(self, s, *a, **k):
        self.title = s

    def set_yscale(self, s, *a, **k):
        self.yscale = s

    def set(self, **k):
        for name, v in k.items():
            getattr(self, f"set_{name}")(v)

    def get_legend_handles_labels(self):
        lines = [x for x in self.lines if x.get("label")]
        return [Container(x) for x in lines], [x["label"] for x in lines]

    def legend(self, handles=None, labels=None, **k):
        self.legends.append(self.get_legend_handles_labels()[1] if labels is None else list(labels))
        return Anything()


class Container:
    def __init__(self, line):
        self.line = line

    def __getitem__(self, i):
        return self.line


class Image(Anything):
    def __init__(self, drawn):
        self.drawn = drawn


class Grid(Anything):
    def __init__(self, *shape):
        self.shape = shape

    def __getitem__(self, i):
        return ("cell", i)


class Figure(Anything):
    def __init__(self):
        self.axes, self.bars = [], []

    def add_gridspec(self, *a, **k):
        return Grid(*a)

    def add_subplot(self, where=None, *a, **k):
        self.axes.append(Axes(where))
        return self.axes[-1]

    def subplots(self, nrows=1, ncols=1, squeeze=True, **k):
        import numpy as np
        axes = np.empty((nrows, ncols), dtype=object)
        for r in range(nrows):
            for c in range(ncols):
                axes[r, c] = self.add_subplot(("cell", (r, c)))
        return (axes.item() if axes.size == 1 else axes.squeeze()) if squeeze else axes

    def colorbar(self, im, *a, **k):
        self.bars.append(im)
        return Anything()

    def savefig(self, name, *a, **k):
        self.saved.append((str(name), self))

    saved = []


class Parameters(dict):
    def __missing__(self, key):
        if key == "axes.prop_cycle":
            cycle = Anything()
            cycle.by_key = lambda: {"color": [f"C{i}" for i in range(10)]}
            return cycle
        raise KeyError(key)


class Norm(Anything):
    def __init__(self, vmin=None, vmax=None, clip=False):
        self.vmin, self.vmax = vmin, vmax


class LogNorm(Norm):
    pass


def stand_in():
    """the modules, and the list of saved figures"""
    saved = Figure.saved = []
    current = [None]
    plt = types.ModuleType("matplotlib.pyplot")

    def figure(*a, **k):
        current[0] = Figure()
        return current[0]

    def subplots(*a, **k):
        fig = figure()
        return fig, fig.subplots(*a, **{x: k[x] for x in k if x in ("nrows", "ncols", "squeeze")})

    plt.figure, plt.subplots = figure, subplots
    plt.gcf = lambda: current[0]
    plt.savefig = lambda name, *a, **k: current[0].savefig(name)
    plt.rcParams = Parameters()
    plt.__getattr__ = lambda name: Anything()
    cm = types.ModuleType("matplotlib.cm")
    cm.__getattr__ = lambda name: Anything()
    colors = types.ModuleType("matplotlib.colors")
    colors.Normalize, colors.LogNorm = Norm, LogNorm
    colors.__getattr__ = lambda name: Anything()
    mpl = types.ModuleType("matplotlib")
    mpl.pyplot, mpl.cm, mpl.colors = plt, cm, colors
    mpl.__getattr__ = lambda name: Anything()
    mods = {"matplotlib": mpl, "matplotlib.pyplot": plt, "matplotlib.cm": cm,
            "matplotlib.colors": colors}
    for m in mods.values():
        m.__path__ = []
    return mods, saved


# ------------------------------------------------------------------------------ oracle
def same(a, b):
    return len(a) == len(b) and all(
        type(x) is not str and math.isclose(x, y, rel_tol=1e-12) for x, y in zip(a, b))


def nanos(t):
    return t["secs"] * 1_000_000_000 + t["nanos"]


CURVES = [("trivial", 0), ("approx,space", 4), ("exact,time", 8), ("exact,space", 12)]


def check_nodes(fig, node, errors, what):
    times = [a for a in fig.axes if "Time cost" in a.ylabel]
    spaces = [a for a in fig.axes if "Space cost" in a.ylabel]
    need(len(times) == 1 and len(spaces) == 1, f"{what}: no axes for time and space")
    for ax, off, name in ((times[0], 0, "time"), (spaces[0], 2, "space")):
        need("vertices" in ax.xlabel, f"{what}: the x axis is called {ax.xlabel!r}")
        for label, row in CURVES:
            found = [x for x in ax.lines if label in x.get("label", "")]
            need(len(found) == 1, f"{what}: {len(found)} curves {label!r} of {name}")
            want = node["results"][row + off]
            x, y = found[0]["x"], found[0]["y"]
            need(same(y, want), f"{what}: {name} of {label!r} is drawn as {y}, recorded: {want}")
            need(same(x, range(2, len(want) + 2)),
                 f"{what}: {name} of {label!r} is drawn at {x}, recorded are 2 and more nodes")
            if errors:
                dev = node["results"][row + off + 1]
                need(same(found[0]["err"], dev),
                     f"{what}: deviation of {label!r} is {found[0]['err']}, recorded: {dev}")
            left, right = ax.xlim
            need((left is None or left <= 2) and
                 (right is None or not want or right >= len(want) + 1),
                 f"{what}: {name} of {label!r} was recorded from 2 to {len(want) + 1} nodes, "
                 f"shown are {left} to {right}")
        need(len(ax.lines) == 4, f"{what}: {len(ax.lines)} curves")
        styles = {(str(x.get("color")), x.get("linestyle")) for x in ax.lines}
        need(len(styles) == 4, f"{what}: curves look the same")
    legends = [x for a in fig.axes for x in a.legends]
    need(legends and all(
        len(x) == 4 and all(c in s for (c, _), s in zip(CURVES, x)) for x in legends),
        f"{what}: the legend is {legends}")


def check_density(fig, rows):
    axes = [a for a in fig.axes if a.images]
    need(len(axes) == 4 and all(len(a.images) == 1 for a in axes), "density: no four images")

    def column(a):
        return a.where[1][1]

    def row(a):
        r = a.where[1][0]
        return r.start if isinstance(r, slice) else r

    time_col = [column(a) for a in axes if "Time cost" in a.title]
    space_col = [column(a) for a in axes if "Space cost" in a.title]
    trivial = [row(a) for a in axes if any("Time-optimal" in t for t in a.texts)]
    approx = [row(a) for a in axes if any("Space-optimal" in t for t in a.texts)]
    for x in (time_col, space_col, trivial, approx):
        need(len(x) == 1, "density: rows or columns are not labelled")
    places = {(trivial[0], time_col[0]): (0, "time, trivial"),
              (trivial[0], space_col[0]): (2, "space, trivial"),
              (approx[0], time_col[0]): (4, "time, approximate"),
              (approx[0], space_col[0]): (6, "space, approximate")}
    need(len(places) == 4, "density: rows or columns are labelled alike")
    drawn = [r["results"][i] for r in rows for i in (0, 2, 4, 6)]
    least, most = min(map(min, drawn)), max(map(max, drawn))
    for a in axes:
        need((row(a), column(a)) in places, "density: an image is in an unlabelled place")
        i, name = places[row(a), column(a)]
        im = a.images[0]
        want = [r["results"][i] for r in rows]
        need(len(im["data"]) == len(want) and all(map(same, im["data"], want)),
             f"density: the image of {name} shows {im['data']}, recorded: {want}")
        check_image(im, "density")
        norm = im.get("norm")
        lo, hi = (norm.vmin, norm.vmax) if norm else (im.get("vmin"), im.get("vmax"))
        need(lo == least and hi == most,
             f"density: colours of {name} go from {lo} to {hi}, recorded: {least} to {most}")
        need("Correction" in a.xlabel or not a.xlabel, f"density: x axis {a.xlabel!r}")
        need("Edge" in a.ylabel or not a.ylabel, f"density: y axis {a.ylabel!r}")
    need(any(a.xlabel for a in axes) and any(a.ylabel for a in axes), "density: no axis labels")
    need(len(fig.bars) == 1 and any(fig.bars[0].drawn is a.images[0] for a in axes),
         "density: the colour bar belongs to none of the images")


def check_image(im, what):
    # densities grow upwards
    need(im.get("origin") == "lower", f"{what}: the lowest edge density is at the top")


def check_runtime(fig, node, rows):
    curves = [a for a in fig.axes if a.lines]
    images = [a for a in fig.axes if a.images]
    need(len(curves) == 1 and len(images) == 1 and len(images[0].images) == 1,
         "runtime: no axes with curves and with an image")
    ax = curves[0]
    need("nanoseconds" in ax.ylabel and "vertices" in ax.xlabel and ax.yscale == "log",
         f"runtime: axes are {ax.xlabel!r}, {ax.ylabel!r} {ax.yscale}")
    for label, key in (("Approx", "space_optimal_approximated"), ("Exact", "full")):
        found = [x for x in ax.lines if label in x.get("label", "")]
        need(len(found) == 1, f"runtime: {len(found)} curves {label!r}")
        want = [nanos(t[key]) for t in node["time_results"] if t[key] is not None]
        need(same(found[0]["y"], want),
             f"runtime: {label!r} is drawn as {found[0]['y']}, recorded: {want}")
        need(same(found[0]["x"], range(2, len(want) + 2)),
             f"runtime: {label!r} is drawn at {found[0]['x']}, recorded are 2 and more nodes")
    need(len(ax.lines) == 2 and
         len({(str(x.get("color")), x.get("linestyle")) for x in ax.lines}) == 2,
         "runtime: curves look the same")
    need(ax.legends and all(len(x) == 2 and "Approx" in x[0] and "Exact" in x[1]
                            for x in ax.legends), f"runtime: the legend is {ax.legends}")
    im = images[0].images[0]
    want = [[nanos(t["space_optimal_approximated"]) for t in r["time_results"]] for r in rows]
    need(len(im["data"]) == len(want) and all(map(same, im["data"], want)),
         f"runtime: the image shows {im['data']}, recorded: {want}")
    check_image(im, "runtime")
    norm = im.get("norm")
    lo, hi = min(map(min, want)), max(map(max, want))
    need(isinstance(norm, LogNorm) and norm.vmin == lo and norm.vmax == hi,
         f"runtime: colours go from {norm and norm.vmin} to {norm and norm.vmax}, "
         f"recorded: {lo} to {hi}")
    need("Correction" in images[0].xlabel and "Edge" in images[0].ylabel and
         "nanoseconds" in images[0].title, "runtime: wrong labels at the image")
    need(len(fig.bars) == 1 and fig.bars[0].drawn is im,
         "runtime: the colour bar does not belong to the image")


MODULES = ("plot", "nodes", "densities", "runtimes", "utils")


@contextlib.contextmanager
def scripts():
    """the repository's modules, freshly imported"""
    mods, saved = stand_in()
    before = {k: sys.modules.get(k) for k in (*mods, *MODULES)}
    for k in MODULES:
        sys.modules.pop(k, None)
    sys.modules.update(mods)
    sys.path.insert(0, SCRIPTS)
    cwd = os.getcwd()
    try:
        yield saved
    finally:
        os.chdir(cwd)
        sys.path.remove(SCRIPTS)
        for k, v in before.items():
            sys.modules.pop(k, None)
            if v is not None:
                sys.modules[k] = v


def check(case):
    """returns (non-trivial, labels)"""
    sys.dont_write_bytecode = True
    node, rows = case["node"], [r["data"] for r in case["density"]]
    with tempfile.TemporaryDirectory(prefix="vh-plots-") as dir, scripts() as saved:
        try:
            plot = importlib.import_module("plot")
        except Exception as e:
            raise Violated(f"importing the scripts fails with {type(e).__name__}: {e}")
        dir = Path(dir)
        os.chdir(dir)
        data = dir / plot.output
        data.mkdir(parents=True, exist_ok=True)
        (dir / "output").mkdir(exist_ok=True)
        (dir / "parameters").mkdir()
        (dir / "parameters" / "node.dat").write_text(
            "".join(f"{e!r} {c!r} {ROOT} {ROOT}\n" for e, c in case["parameters"]))
        (dir / "parameters" / "density.dat").write_text(
            "".join(f"20 {r['multiplier']}\n" for r in case["density"]))
        e, c = case["parameters"][0]
        (data / f"node-{ROOT}:{e!r}_{ROOT}:{c!r}.json").write_text(json.dumps(node))
        for r in case["density"]:
            name = f"density-numnodes:20_numdensities:21_density:{r['multiplier']}.json"
            (data / name).write_text(json.dumps(r["data"]))
        out = io.StringIO()
        try:
            with contextlib.redirect_stdout(out):
                plot.main()
                importlib.import_module("nodes").appendix()
        except (Exception, SystemExit) as e:
            raise Violated(f"plotting fails with {type(e).__name__}: {e}")
        figs = {}
        for name, fig in saved:
            need(name not in figs, f"{name} is saved twice")
            figs[name] = fig
        kinds = {k: [f for n, f in figs.items() if n.startswith(f"output/{k}")]
                 for k in ("nodes_main", "nodes_appendix", "density", "runtime")}
        for k, f in kinds.items():
            need(len(f) == 1, f"{len(f)} figures {k}, saved: {list(figs)}")
        check_nodes(kinds["nodes_main"][0], node, False, "nodes_main")
        check_nodes(kinds["nodes_appendix"][0], node, True, "nodes_appendix")
        check_density(kinds["density"][0], rows)
        check_runtime(kinds["runtime"][0], node, rows)
    exact = len(node["results"][8])
    labels = {"1 row": len(rows) == 1, "21 rows": len(rows) == 21, "no exact search": exact == 0,
              "all searched exactly": exact == len(node["results"][0]), "45 nodes":
              len(node["results"][0]) == 44}
    return len(rows) >= 2 and 1 <= exact < len(node["results"][0]), labels


# -------------------------------------------------------------------------- generators
def strategy():
    from hypothesis import strategies as st

    # the numbers are made from a seed: they only have to differ
    def recording(rng, plain, length, exact, most, lists):
        def mean():
            return float(rng.randint(1, most)) if plain else rng.uniform(1, most)

        def dev():
            return float(rng.randint(0, 3)) if plain else rng.uniform(0, most / 2)

        def dur():
            secs = rng.choice([0, 0, rng.randint(0, 100), rng.randint(0, 36_000)])
            return {"secs": secs, "nanos": rng.randint(1, 99 if plain else 999_999_999)}

        results = [[mean() if i % 2 == 0 else dev() for _ in range(length if i < 8 else exact)]
                   for i in range(lists)]
        times = [{"time_optimal": dur(), "space_optimal_approximated": dur(),
                  "full": dur() if i < exact else None} for i in range(length)]
        return results, times

    density = st.one_of(st.floats(0.001, 1).map(lambda x: round(x, 3)),
                        st.sampled_from([0.5, 1.0, 0.25]))

    @st.composite
    def cases(draw):
        length = draw(st.one_of(st.integers(1, 5), st.integers(1, 44), st.just(44)))
        exact = draw(st.one_of(st.integers(0, length), st.just(length)))
        rng, plain = random.Random(draw(st.integers(0, 2**32))), draw(st.booleans())
        results, times = recording(rng, plain, length, exact, length + 1, 16)
        node = {"max_size": length + 1, "results": results, "time_results": times}
        mult = sorted(draw(st.one_of(
            st.sets(st.integers(1, 21), min_size=1, max_size=6), st.just(set(range(1, 22))))))
        columns = draw(st.one_of(st.integers(1, 5), st.just(21)))
        rows = []
        for m in mult:
            results, times = recording(rng, plain, columns, 0, 20, 8)
            rows.append({"multiplier": m, "data": {
                "size": 20, "edge_density_multiplier": float(m), "num_density": columns,
                "results": results, "time_results": times}})
        return {"parameters": draw(st.lists(st.tuples(density, density), min_size=1, max_size=3)),
                "node": node, "density": rows}

    return cases()


if __name__ == "__main__":
    main([Part("figures", 2_000, 40_000, strategy, check)])
