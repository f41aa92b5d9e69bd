"""Recording stand-ins for the plotting back ends (matplotlib.pyplot, seaborn, networkx drawing, DataFrame.plot).

The project's plotting code runs unchanged in both modes; what it hands to the back ends is recorded per axes and
normalised (bars, heatmap cells, graph edges, points, texts), independently of which entry point was used."""
import contextlib
import inspect

import matplotlib.pyplot as plt
import networkx as nx
import numpy as np
import pandas as pd
import seaborn as sns

from .sym import Sym


class Thing:
    """result of a drawing call: anything goes"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Thing()

    def __call__(self, *a, **k):
        return Thing()

    def __getitem__(self, i):
        return Thing()

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0


def rgba(c):
    """normal form of a colour"""
    from matplotlib.colors import to_rgba
    return tuple(round(float(x), 4) for x in to_rgba(c))


def colours(c, n):
    """n colours given as one or as a list"""
    if c is None:
        return [None] * n
    try:
        return [rgba(c)] * n
    except (ValueError, TypeError):
        c = list(c)
        return [rgba(c[i % len(c)]) for i in range(n)] if c else [None] * n


def marker_path(m):
    from matplotlib.markers import MarkerStyle
    m = MarkerStyle("o" if m is None else m)
    p = m.get_path().transformed(m.get_transform())
    return tuple((round(float(x), 4), round(float(y), 4)) for x, y in p.vertices)


def first(k, *names):
    for n in names:
        if k.get(n) is not None:
            return k[n]
    return None


class Meth(Thing):
    """a method of recorded axes or figures that may also be used as an attribute"""

    def __init__(self, f):
        self.__dict__["f"] = f

    def __call__(self, *a, **k):
        return self.__dict__["f"](*a, **k)


def only_markers(a, k):
    """is this plot() call drawing unconnected markers?"""
    fmt = a[-1] if len(a) > 1 and isinstance(a[-1], str) and len(a[-1]) <= 4 else ""
    if fmt.isalnum() and fmt not in MARKERS:
        fmt = ""
    ls = k.get("linestyle", k.get("ls"))
    if ls is not None:
        return str(ls).lower() in ("", " ", "none")
    if fmt and "-" not in fmt and ":" not in fmt:
        return any(c in fmt for c in ".,ov^<>12348spP*hH+xXDd|_")
    return False


MARKERS = set(".,ov^<>12348spP*hH+xXDd|_") | {c + m for c in "bgrcmykw" for m in ".,ov^<>spP*hH+xXDd"}


def grid_cell(a):
    """(row, column) of add_subplot's arguments"""
    from matplotlib.gridspec import SubplotSpec
    if len(a) == 1 and isinstance(a[0], SubplotSpec):
        return a[0].rowspan.start, a[0].colspan.start
    if len(a) == 1 and isinstance(a[0], int) and 100 <= a[0] <= 999:
        a = tuple(int(c) for c in str(a[0]))
    if len(a) == 3:
        i = a[2][0] if isinstance(a[2], tuple) else a[2]
        if not 1 <= i <= a[0] * a[1]:
            raise ValueError("num must be an integer with 1 <= num <= %d, not %r" % (a[0] * a[1], i))
        return (i - 1) // a[1], (i - 1) % a[1]
    return None


def seq(v):
    """list of the entries of a column / array / list / scalar"""
    if isinstance(v, (pd.Series, pd.Index, np.ndarray)):
        return list(np.asarray(v, dtype=object).flat) if not isinstance(v, pd.Series) else list(v)
    if isinstance(v, (list, tuple, range)):
        return list(v)
    if v is None:
        return []
    try:
        return list(v) if not isinstance(v, (str, Sym, float, int)) else [v]
    except TypeError:
        return [v]


class Ax:
    """records every method called on it"""

    def __init__(self, fig=None):
        self.fig = fig
        self.calls = []
        self.items = []         # normalised drawings
        self.inverted_x = self.inverted_y = False
        self.title_text = self.x_text = self.y_text = None
        self.figure = fig
        self.transAxes = Thing()
        self.xaxis = Thing()
        self.yaxis = Thing()
        self.spines = {}
        self.cell = None
        self.tick_pos, self.tick_lab = {}, {}
        self.bar_styles = []
        self.limits = {}        # explicit ones only: without them the axis covers what is drawn

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Meth(lambda *a, **k: self._do(n, a, k))

    def _do(self, n, a, k):
        self.calls.append((n, a, k))
        if n == "invert_yaxis":
            self.inverted_y = not self.inverted_y
        elif n == "invert_xaxis":
            self.inverted_x = not self.inverted_x
        elif n in ("set_title", "title"):
            self.title_text = a[0] if a else k.get("label")
        elif n in ("set_xlabel", "xlabel"):
            self.x_text = a[0] if a else k.get("xlabel")
        elif n in ("set_ylabel", "ylabel"):
            self.y_text = a[0] if a else k.get("ylabel")
        elif n == "set":
            self.title_text = k.get("title", self.title_text)
            self.x_text = k.get("xlabel", self.x_text)
            self.y_text = k.get("ylabel", self.y_text)
        elif n in ("barh", "bar"):
            lab = a[0] if a else k.get("y" if n == "barh" else "x")
            val = a[1] if len(a) > 1 else k.get("width" if n == "barh" else "height")
            if k.get("tick_label") is not None:
                d = "y" if n == "barh" else "x"
                self.tick_pos[d], self.tick_lab[d] = seq(lab), seq(k["tick_label"])
            if len(seq(lab)) != len(seq(val)):
                raise ValueError("shape mismatch: objects cannot be broadcast to a single shape")
            self.items.append(("bars", n, list(zip(seq(lab), seq(val)))))
            self.bar_styles.append((seq(lab), colours(first(k, "color", "facecolor"), len(seq(val)))))
        elif n in ("scatter", "plot"):
            names = ("x", "y")
            x = a[0] if a else k.get("x")
            y = a[1] if len(a) > 1 else k.get("y")
            if n == "plot" and len(a) > 1 and isinstance(a[1], str):
                x, y = None, a[0]
            xs, ys = seq(x), seq(y)
            if n == "plot" and y is None:
                xs, ys = list(range(len(xs))), xs
            if len(xs) != len(ys):
                raise ValueError("x and y must be the same size")
            self.items.append(("scatter" if n == "plot" and only_markers(a, k) else n, k, list(zip(xs, ys))))
        elif n in ("set_xticks", "set_yticks", "set_xticklabels", "set_yticklabels"):
            d = n[4]
            if n.endswith("s") and "labels" not in n:
                if not a and not k:
                    return Thing(), Thing()
                if a or k.get("ticks") is not None:
                    self.tick_pos[d] = seq(a[0] if a else k["ticks"])
                lab = a[1] if len(a) > 1 else k.get("labels")
            else:
                lab = a[0] if a else k.get("labels")
            if lab is not None:
                self.tick_lab[d] = seq(lab)
        elif n in ("set_xlim", "set_ylim"):
            d = n[4]
            if not a and not k:
                inv = self.inverted_x if d == "x" else self.inverted_y
                return (1.0, 0.0) if inv else (0.0, 1.0)
            v = list(a[0]) if a and isinstance(a[0], (tuple, list, np.ndarray)) else list(a)
            v += [None] * (2 - len(v))
            lo, hi = (k.get(m, k.get("%s%s" % (d, o), w)) for m, o, w in
                      zip(("left", "right") if d == "x" else ("bottom", "top"), ("min", "max"), v))
            if lo is not None and hi is not None:
                setattr(self, "inverted_" + d, bool(lo > hi))
                if lo > hi:
                    lo, hi = hi, lo
            old = self.limits.get(d, (None, None))
            self.limits[d] = (old[0] if lo is None else lo, old[1] if hi is None else hi)
        elif n == "vlines":
            b = inspect_args(("x", "ymin", "ymax"), a, k)
            x, lo, hi = seq(b["x"]), seq(b["ymin"]), seq(b["ymax"])
            self.items.append(("vlines", k, list(zip(x, lo * len(x) if len(lo) == 1 else lo,
                                                     hi * len(x) if len(hi) == 1 else hi))))
        elif n == "annotate":
            b = inspect_args(("text", "xy", "xytext"), a, k)
            at = b["xy"]
            if b.get("xytext") is not None and k.get("arrowprops") is None and k.get("textcoords", "data") == "data":
                at = b["xytext"]        # without an arrow only the text is visible
            self.items.append(("text", b["text"], tuple(at)))
        elif n == "text":
            b = inspect_args(("x", "y", "s"), a, k)
            self.items.append(("text", b["s"], (b["x"], b["y"])))
        elif n in ("pcolormesh", "contourf", "contour", "pcolor", "imshow"):
            if len(a) >= 3:
                x, y, c = a[:3]
            else:
                x, y, c = None, None, a[0]
            self.items.append(("mesh", n, {"x": x, "y": y, "c": c, "kw": dict(k)}))
        if n in ("get_xlim", "get_ylim"):
            inv = self.inverted_x if n == "get_xlim" else self.inverted_y
            return (1.0, 0.0) if inv else (0.0, 1.0)
        if n in ("xaxis_inverted", "yaxis_inverted"):
            return self.inverted_x if n[0] == "x" else self.inverted_y
        if n in ("get_title",):
            return self.title_text
        if n in ("get_figure",):
            return self.fig
        return Thing()

    # ------------------------------------------------------------- normalised views
    def of(self, kind):
        out = [i for i in self.items if i[0] == kind]
        if kind == "vlines":
            out += [("vlines", i[1], [(i[2][0][0], i[2][0][1], i[2][1][1])]) for i in self.items
                    if i[0] == "plot" and len(i[2]) == 2 and isinstance(i[2][0][0], str) and i[2][0][0] == i[2][1][0]]
        return out

    def bars(self):
        """[(label, value)] from top to bottom (horizontal) or left to right"""
        out = []
        for _, n, v in self.of("bars"):
            flip = not self.inverted_y if n == "barh" else self.inverted_y if n == "barh-sns" else self.inverted_x
            d = "x" if n == "bar" else "y"
            if v and not isinstance(v[0][0], str) and d in self.tick_lab:
                # numeric positions with tick labels
                at = dict(zip(self.tick_pos.get(d, range(len(self.tick_lab[d]))), self.tick_lab[d]))
                v = [(at.get(p, p), x) for p, x in sorted(v, key=lambda r: r[0])]
            out += v[::-1] if flip else v
        return out

    def points(self):
        return [p for _, _, v in self.of("scatter") for p in v]

    def tick_names(self, d):
        """{position: text} of the ticks, None while they are automatic"""
        if d not in self.tick_lab:
            return {float(p): None for p in self.tick_pos[d]} if d in self.tick_pos else None
        return {float(p): str(l) for p, l in zip(self.tick_pos.get(d, range(len(self.tick_lab[d]))), self.tick_lab[d])}

    def bar_colours(self):
        """{label: colour}"""
        d = "x" if any(i[1] == "bar" for i in self.of("bars")) else "y"
        at = dict(zip(self.tick_pos.get(d, range(len(self.tick_lab.get(d, ())))), self.tick_lab.get(d, ())))
        return {at.get(l, l): c for ls, cs in self.bar_styles for l, c in zip(ls, cs)}

    def point_styles(self):
        """[(point, colour, marker)]"""
        out = []
        for _, k, v in self.of("scatter"):
            cs = colours(first(k, "color", "c", "facecolor"), len(v))
            out += [(p, c, marker_path(k.get("marker"))) for p, c in zip(v, cs)]
        return out

    def line_colours(self):
        return [colours(first(k, "color", "c", "colors"), 1)[0] for kind in ("plot",) for _, k, v in self.of(kind)]

    def vline_colours(self):
        return [c[:3] for _, k, v in self.of("vlines") for c in colours(first(k, "color", "colors", "c"), len(v)) if c]

    def x_scale(self):
        s = [a[0] if a else k.get("value") for n, a, k in self.calls if n == "set_xscale"]
        return s[-1] if s else "linear"

    def texts(self):
        return [(t, xy) for _, t, xy in self.of("text")]


def inspect_args(names, a, k):
    d = dict(zip(names, a))
    for n in names:
        if n in k:
            d[n] = k[n]
    d.setdefault("s", d.get("text"))
    for n in names:
        d.setdefault(n, None)
    return d


class Fig:
    def __init__(self, rec, figsize=None):
        self.rec = rec
        self.figsize = figsize
        self.axes = []
        self.canvas = Thing()

    def add_subplot(self, *a, **k):
        ax = self.rec.new_ax(self)
        ax.cell = grid_cell(a)
        return ax

    def add_axes(self, *a, **k):
        return self.rec.new_ax(self)

    def subplots(self, nrows=1, ncols=1, **k):
        return self.rec.grid(self, nrows, ncols)

    def add_gridspec(self, *a, **k):
        from matplotlib.gridspec import GridSpec
        return GridSpec(*a, **k)

    def gca(self):
        return self.rec.gca()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "set_size_inches":
            return Meth(lambda *a, **k: setattr(self, "figsize", tuple(a[0]) if len(a) == 1 else tuple(a[:2])))
        return Meth(lambda *a, **k: self.rec.figcalls.append((n, a, k)) or Thing())


AX_SAME = ["scatter", "plot", "vlines", "hlines", "bar", "barh", "annotate", "text", "pcolormesh", "contour", "contourf",
           "imshow", "grid", "axhline", "axvline", "fill_between", "legend", "axis", "hist", "step", "stem", "clabel",
           "pcolor", "tick_params", "margins", "errorbar"]
AX_SET = {"title": "set_title", "xlabel": "set_xlabel", "ylabel": "set_ylabel", "xscale": "set_xscale",
          "yscale": "set_yscale", "xlim": "set_xlim", "ylim": "set_ylim", "xticks": "set_xticks", "yticks": "set_yticks"}


class Recorder:
    """with Recorder() as r: method.plot(...); r.axes"""

    def __init__(self):
        self.axes, self.figs, self.figcalls = [], [], []
        self.cur = None
        self.heat, self.graphs = [], []

    def new_ax(self, fig=None):
        if fig is None:
            fig = self.figs[-1] if self.figs else self.new_fig()
        ax = Ax(fig)
        fig.axes.append(ax)
        self.axes.append(ax)
        self.cur = ax
        return ax

    def new_fig(self, figsize=None):
        f = Fig(self, figsize)
        self.figs.append(f)
        self.cur = None
        return f

    def gca(self):
        return self.cur if self.cur is not None else self.new_ax()

    def grid(self, fig, nrows, ncols):
        if nrows * ncols == 1:
            return self.new_ax(fig)
        a = np.empty((nrows, ncols), dtype=object)
        for i in range(nrows):
            for j in range(ncols):
                a[i, j] = self.new_ax(fig)
                a[i, j].cell = (i, j)
        return a[0] if nrows == 1 else a[:, 0] if ncols == 1 else a

    def sca(self, ax):
        self.cur = ax

    # ------------------------------------------------------------- back ends
    def _pyplot(self):
        o = {}
        for n in AX_SAME:
            o[n] = (lambda m: lambda *a, **k: self.gca()._do(m, a, k))(n)
        for n, m in AX_SET.items():
            o[n] = (lambda m: lambda *a, **k: self.gca()._do(m, a, k))(m)
        o["figure"] = lambda num=None, figsize=None, *a, **k: self.new_fig(figsize)

        def subplots(nrows=1, ncols=1, **k):
            f = self.new_fig(k.get("figsize"))
            return f, self.grid(f, nrows, ncols)
        o["subplots"] = subplots
        def subplot(*a, **k):
            ax = self.new_ax()
            ax.cell = grid_cell(a)
            return ax
        o["subplot"] = subplot
        def subplot2grid(shape, loc, rowspan=1, colspan=1, fig=None, **k):
            if not (0 <= loc[0] and loc[0] + rowspan <= shape[0] and 0 <= loc[1] and loc[1] + colspan <= shape[1]):
                raise IndexError("index is out of bounds for the grid")
            ax = self.new_ax(fig)
            ax.cell = (int(loc[0]), int(loc[1]))
            return ax
        o["subplot2grid"] = subplot2grid
        o["axes"] = lambda *a, **k: self.new_ax()
        o["gca"] = self.gca
        o["gcf"] = lambda: self.figs[-1] if self.figs else self.new_fig()
        o["sca"] = self.sca
        for n in ("tight_layout", "show", "savefig", "close", "suptitle", "colorbar", "draw", "subplots_adjust", "clim"):
            o[n] = (lambda m: lambda *a, **k: self.figcalls.append((m, a, k)) or Thing())(n)
        return o

    def _sns(self):
        def heatmap(data, **k):
            ax = k.get("ax") or self.gca()
            self.heat.append((ax, data, k))
            ax.calls.append(("heatmap", (data,), k))
            return ax

        def barplot(data=None, *, x=None, y=None, ax=None, **k):
            ax = ax or self.gca()

            def col(v):
                return seq(data[v]) if isinstance(v, str) and data is not None else seq(v)
            xs, ys = col(x), col(y)
            hor = bool(ys) and isinstance(ys[0], str)
            ax.items.append(("bars", "barh-sns" if hor else "bar", list(zip(ys, xs)) if hor else list(zip(xs, ys))))
            labs, hue, pal = ys if hor else xs, k.get("hue"), k.get("palette")
            if hue is not None and pal is not None and not isinstance(pal, str):
                hs = col(hue)
                levels = list(k["hue_order"]) if k.get("hue_order") is not None else sorted(set(hs))
                at = {h: rgba(pal[h]) for h in levels} if isinstance(pal, dict) else \
                    {h: colours([tuple(x) for x in pal], len(levels))[i] for i, h in enumerate(levels)}
                ax.bar_styles.append((labs, [at[h] for h in hs]))
            elif hue is None and pal is not None and not isinstance(pal, (str, dict)):
                ax.bar_styles.append((labs, colours([tuple(x) for x in pal], len(labs))))
            elif k.get("color") is not None:
                ax.bar_styles.append((labs, colours(k["color"], len(labs))))
            ax.calls.append(("barplot", (data,), dict(k, x=x, y=y)))
            return ax

        def other(name):
            def f(*a, **k):
                ax = k.get("ax") or self.gca()
                ax.calls.append((name, a, k))
                return ax
            return f
        return {"heatmap": heatmap, "barplot": barplot, "rugplot": other("rugplot"), "scatterplot": other("scatterplot"),
                "lineplot": other("lineplot")}

    def _nx(self):
        def g(ax):
            ax = ax or self.gca()
            for a, d in self.graphs:
                if a is ax:
                    return d
            d = {"edges": {}, "nodes": {}, "labels": {}, "edge_labels": {}, "directed": None, "node_colour": {},
                 "edge_colour": {}, "font": {}, "edge_font": {}}
            self.graphs.append((ax, d))
            return d

        def need(pos, nodes):
            for n in nodes:
                if n not in pos:
                    raise nx.NetworkXError("Node %r has no position." % (n,))

        def font(k, size):
            return rgba(k.get("font_color", "k")), k.get("font_weight", "normal"), k.get("font_size", size)

        def nodes(G, pos, nodelist=None, node_size=300, ax=None, **k):
            nodelist = list(G) if nodelist is None else list(nodelist)
            need(pos, nodelist)
            sizes = seq(node_size)
            if len(sizes) == 1:
                sizes = sizes * len(nodelist)
            if len(sizes) != len(nodelist):
                raise ValueError("s must be a scalar, or the same size as x and y")
            g(ax)["nodes"].update(zip(nodelist, sizes))
            g(ax)["node_colour"].update(zip(nodelist, colours(k.get("node_color", "#1f78b4"), len(nodelist))))
            return Thing()

        def edges(G, pos, edgelist=None, width=1.0, ax=None, nodelist=None, arrows=None, **k):
            edgelist = list(G.edges()) if edgelist is None else list(edgelist)
            need(pos, {u for e in edgelist for u in e[:2]})
            if nodelist is not None and (arrows or arrows is None and G.is_directed()):
                for e in edgelist:      # networkx looks the ends of every arrow up in the node list
                    for u in e[:2]:
                        list(nodelist).index(u)
            w = seq(width)
            if len(w) == 1:
                w = w * len(edgelist)
            d = g(ax)
            d["directed"] = G.is_directed()
            ec = colours(k.get("edge_color", "k"), len(edgelist))
            for i, e in enumerate(edgelist):
                d["edge_colour"][tuple(e[:2])] = ec[i]
                d["edges"][tuple(e[:2])] = w[i % len(w)] if w else None
            return Thing()

        def labels(G, pos, labels=None, ax=None, **k):
            lab = {n: n for n in G} if labels is None else dict(labels)
            g(ax)["labels"].update(lab)
            g(ax)["font"].update({n: font(k, 12) for n in lab})
            return Thing()

        def edge_labels(G, pos, edge_labels=None, ax=None, **k):
            lab = {(u, v): d for u, v, d in G.edges(data=True)} if edge_labels is None else dict(edge_labels)
            need(pos, {u for e in lab for u in e[:2]})
            g(ax)["edge_labels"].update(lab)
            g(ax)["edge_font"].update({n: font(k, 10) for n in lab})
            return Thing()

        def draw_networkx(G, pos=None, arrows=None, with_labels=True, **k):
            pos = nx.spring_layout(G) if pos is None else pos
            ax = k.pop("ax", None) or self.gca()
            nl = k.get("nodelist")
            nodes(G, pos, nodelist=nl, node_size=k.get("node_size", 300), ax=ax,
                  **{n: k[n] for n in ("node_color",) if n in k})
            edges(G, pos, edgelist=k.get("edgelist"), width=k.get("width", 1.0), ax=ax,
                  nodelist=list(G) if nl is None else nl, arrows=arrows, **{n: k[n] for n in ("edge_color",) if n in k})
            if with_labels:
                labels(G, pos, labels=k.get("labels"), ax=ax,
                       **{n: k[n] for n in ("font_color", "font_weight", "font_size") if n in k})
            return Thing()

        def draw(G, pos=None, ax=None, **k):
            if "with_labels" not in k:
                k["with_labels"] = "labels" in k
            draw_networkx(G, pos=pos, ax=ax, **k)

        def draw_circular(G, **k):
            draw(G, nx.circular_layout(G), **k)
        return {"draw": draw, "draw_networkx": draw_networkx, "draw_circular": draw_circular, "draw_networkx_nodes": nodes,
                "draw_networkx_edges": edges, "draw_networkx_labels": labels, "draw_networkx_edge_labels": edge_labels}

    def _frame_plot(self):
        def call(acc, *a, **k):
            k = dict(zip(("kind", "ax"), a), **k) if a else k
            data = acc._parent
            kind, ax = k.get("kind", "line"), k.get("ax")
            ax = ax if ax is not None else self.new_ax(self.new_fig())
            x, y = k.get("x"), k.get("y")
            if isinstance(data, pd.Series):
                xs, ys = list(data.index), list(data)
            else:
                xs = list(data[x]) if x is not None else list(data.index)
                if y is None:
                    y = [c for c in data.columns if c != x][0]
                ys = list(data[y[0] if isinstance(y, list) else y])
            ax.calls.append(("frame." + kind, (data,), k))
            if kind in ("bar", "barh"):
                ax.bar_styles.append((xs, colours(k.get("color"), len(xs))))
            if k.get("figsize") is not None:
                ax.fig.figsize = k["figsize"]
            if k.get("title") is not None:
                ax.title_text = k["title"]
            if kind in ("bar", "barh"):
                if not ys:
                    raise IndexError("index 0 is out of bounds for axis 0 with size 0")
                ax.items.append(("bars", kind, list(zip(xs, ys))))
            else:
                ax.items.append(("scatter" if kind == "scatter" else "plot", k, list(zip(xs, ys))))
            return ax
        return call

    def __enter__(self):
        self._st = contextlib.ExitStack()
        for mod, over in ((plt, self._pyplot()), (sns, self._sns()), (nx, self._nx())):
            for n, f in over.items():
                self._set(mod, n, f)
        from pandas.plotting._core import PlotAccessor
        self._set(PlotAccessor, "__call__", self._frame_plot())
        return self

    def _set(self, mod, n, f):
        old = getattr(mod, n)
        setattr(mod, n, f)
        self._st.callback(setattr, mod, n, old)

    def __exit__(self, *e):
        self._st.close()
        return False

    def suptitles(self):
        return [a[0] if a else k.get("t") for n, a, k in self.figcalls if n == "suptitle"]

    def figsizes(self):
        return [f.figsize for f in self.figs]

    def heat_styles(self, ax=None):
        """per heatmap layer: width and colour of the lines between cells, size factor of its colour bar"""
        return [(k.get("linewidths", 0), rgba(k.get("linecolor", "white")), (k.get("cbar_kws") or {}).get("shrink", 1.0))
                for a, _, k in self.heat if ax is None or a is ax]

    def formatted(self, fmt, ax=None):
        return all(k.get("fmt", ".2g") == fmt and k.get("annot") is True for a, _, k in self.heat if ax is None or a is ax)

    # ------------------------------------------------------------- heatmap cells
    def cells(self, ax=None):
        """{(row label, column label): [(shown value, cmap)]} plus row and column orders, over all heatmap calls"""
        out, orders = {}, []
        for a, data, k in self.heat:
            if ax is not None and a is not ax:
                continue
            rows = list(data.index) if isinstance(data, pd.DataFrame) else list(k["yticklabels"])
            cols = list(data.columns) if isinstance(data, pd.DataFrame) else list(k["xticklabels"])
            vals = data.values if isinstance(data, pd.DataFrame) else np.asarray(data, dtype=object)
            mask = k.get("mask")
            mask = np.zeros(vals.shape, dtype=bool) if mask is None else np.asarray(mask).astype(bool)
            if mask.shape != vals.shape:
                raise ValueError("Mask must have the same shape as data.")
            annot = k.get("annot")
            shown = vals if annot is None or annot is True or annot is False else np.asarray(annot, dtype=object)
            orders.append((rows, cols))
            for i, r in enumerate(rows):
                for j, c in enumerate(cols):
                    if not mask[i, j]:
                        v = vals[i, j]
                        if v is None or not isinstance(v, Sym) and v != v:
                            continue
                        out.setdefault((r, c), []).append((v, shown[i, j], cmap_name(k.get("cmap"))))
        return out, orders


def inside(ctx, ax, d, values, what):
    """nothing is cut off by the limits of axis d"""
    lo, hi = ax.limits.get(d, (None, None))
    for v in values:
        if isinstance(v, str) or isinstance(v, float) and v != v:
            continue
        if lo is not None:
            ctx.le(lo, v, what + " within the axis (%s)" % d)
        if hi is not None:
            ctx.le(v, hi, what + " within the axis (%s)" % d)


def cmap_name(c):
    return c if isinstance(c, str) else getattr(c, "name", None)


def record(ctx):
    """recording stand-ins when values are symbolic; the real back ends, read back, in a replay"""
    return Recorder() if ctx.symbolic else RealRecorder()


class RealAx:
    """the same views, read from what matplotlib really holds"""

    def __init__(self, a, meshes=()):
        self.a, self.meshes = a, meshes
        self.inverted_x, self.inverted_y = bool(a.xaxis_inverted()), bool(a.yaxis_inverted())
        self.title_text, self.x_text, self.y_text = a.get_title(), a.get_xlabel(), a.get_ylabel()
        self.limits = {"x": tuple(sorted(map(float, a.get_xlim()))), "y": tuple(sorted(map(float, a.get_ylim())))}
        ss = a.get_subplotspec() if hasattr(a, "get_subplotspec") else None
        self.cell = (ss.rowspan.start, ss.colspan.start) if ss is not None else None

    @staticmethod
    def ticks(axis):
        return {round(float(t), 6): l.get_text() for t, l in zip(axis.get_ticklocs(), axis.get_ticklabels())}

    def tick_names(self, d):
        return self.ticks(self.a.xaxis if d == "x" else self.a.yaxis)

    @staticmethod
    def units(axis, v):
        m = getattr(axis.units, "_mapping", None)
        if m:
            for k, p in m.items():
                if abs(p - v) < 1e-9:
                    return k
        return float(v)

    def bars(self):
        from matplotlib.container import BarContainer
        out = []
        for c in self.a.containers:
            if not isinstance(c, BarContainer):
                continue
            hor = c.orientation == "horizontal"
            axis = self.a.yaxis if hor else self.a.xaxis
            t = self.ticks(axis)
            for r in c.patches:
                pos = r.get_y() + r.get_height() / 2 if hor else r.get_x() + r.get_width() / 2
                val = r.get_width() if hor else r.get_height()
                lab = t.get(round(float(pos), 6))
                if val != val and lab is None:
                    continue
                lab = self.units(axis, pos) if lab is None else lab
                key = -pos if hor != (self.inverted_y if hor else self.inverted_x) else pos
                out.append((key, lab, float(val)))
        known = {k for k, _, v in out if v == v}
        out = [r for i, r in enumerate(out) if r[2] == r[2]        # a label without a bar, once
               or r[0] not in known and r[0] not in [q[0] for q in out[:i]]]
        out.sort(key=lambda r: r[0])
        return [(lab, v) for _, lab, v in out]

    def bar_colours(self):
        from matplotlib.container import BarContainer
        out = {}
        for c in self.a.containers:
            if isinstance(c, BarContainer):
                hor = c.orientation == "horizontal"
                axis = self.a.yaxis if hor else self.a.xaxis
                t = self.ticks(axis)
                for r in c.patches:
                    pos = r.get_y() + r.get_height() / 2 if hor else r.get_x() + r.get_width() / 2
                    val = r.get_width() if hor else r.get_height()
                    if val == val:
                        lab = t.get(round(float(pos), 6))
                        out[self.units(axis, pos) if lab is None else lab] = rgba(r.get_facecolor())
        return out

    def point_styles(self):
        from matplotlib.collections import PathCollection
        out = []
        for c in self.a.collections:
            if type(c) is PathCollection:
                fc, ps = c.get_facecolors(), c.get_paths()
                for i, p in enumerate(self._offsets(c)):
                    v = ps[i % len(ps)].vertices
                    out.append((p, rgba(fc[i % len(fc)]) if len(fc) else None, tuple((round(float(x), 4), round(float(y), 4)) for x, y in v)))
        for l in self.a.lines:
            if self.markers(l):
                out += [(p, rgba(l.get_markerfacecolor()), marker_path(l.get_marker())) for p in self.line(l)]
        return out

    def line_colours(self):
        return [rgba(l.get_color()) for l in self.a.lines if not self.markers(l)]

    def vline_colours(self):
        from matplotlib.collections import LineCollection
        return [rgba(x)[:3] for c in self.a.collections if isinstance(c, LineCollection) for x in c.get_colors()]

    def x_scale(self):
        return self.a.get_xscale()

    def _offsets(self, c):
        return [(self.units(self.a.xaxis, x), self.units(self.a.yaxis, y))
                for x, y in np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan)]

    def points(self):
        from matplotlib.collections import PathCollection
        out = [p for c in self.a.collections if type(c) is PathCollection for p in self._offsets(c)]
        return out + [p for l in self.a.lines if self.markers(l) for p in self.line(l)]

    @staticmethod
    def markers(l):
        return l.get_linestyle() in ("None", "none", "", " ") and l.get_marker() not in ("None", "none", "", " ", None)

    def line(self, l):
        return [(self.units(self.a.xaxis, x), self.units(self.a.yaxis, y))
                for x, y in zip(l.get_xdata(False), l.get_ydata(False))]

    def of(self, kind):
        from matplotlib.collections import LineCollection
        if kind == "scatter":
            return [("scatter", {}, [p]) for p in self.points()]
        if kind == "plot":
            return [("plot", {}, self.line(l)) for l in self.a.lines if not self.markers(l)]
        if kind == "vlines":
            out = []
            for c in self.a.collections:
                if isinstance(c, LineCollection):
                    seg = [np.asarray(s, dtype=float) for s in c.get_segments()]
                    seg = [s for s in seg if len(s) == 2 and s[0][0] == s[1][0]]
                    if seg:
                        out.append(("vlines", {}, [(self.units(self.a.xaxis, s[0][0]), s[0][1], s[1][1]) for s in seg]))
            for l in self.a.lines:
                p = self.line(l)
                if not self.markers(l) and len(p) == 2 and isinstance(p[0][0], str) and p[0][0] == p[1][0] \
                        and p[0][1] == p[0][1]:      # seaborn draws its error bars as lines without extent
                    out.append(("vlines", {}, [(p[0][0], p[0][1], p[1][1])]))
            return out
        if kind == "text":
            return [("text", t, xy) for t, xy in self.texts()]
        if kind == "mesh":
            return [("mesh", n, dict(d, kw=dict(d["kw"], vmin=c.norm.vmin, vmax=c.norm.vmax, cmap=c.cmap.name)))
                    for a, n, d, c in self.meshes if a is self.a]
        raise KeyError(kind)

    def texts(self):
        out = []
        for t in self.a.texts:
            xy = getattr(t, "xy", None)
            if xy is not None and t.arrow_patch is None and t.anncoords == "data":
                xy = None
            xy = t.get_position() if xy is None else xy
            if t.get_text():
                out.append((t.get_text(), (self.units(self.a.xaxis, xy[0]) if not isinstance(xy[0], str) else xy[0],
                                           xy[1])))
        return out


class RealRecorder:
    def __enter__(self):
        plt.close("all")
        self._saved = [(n, getattr(plt, n)) for n in ("show", "close")]
        plt.show = lambda *a, **k: None
        plt.close = lambda *a, **k: None
        self._meshes = []
        self._wrapped = []
        self._shrinks = []
        from matplotlib.figure import Figure
        old = Figure.colorbar

        def colorbar(fig, mappable, *a, **k):
            self._shrinks.append((mappable, k.get("shrink", 1.0)))
            return old(fig, mappable, *a, **k)
        Figure.colorbar = colorbar
        self._wrapped.append((Figure, "colorbar", old))
        from matplotlib.axes import Axes
        for n in ("pcolormesh", "contourf", "contour", "pcolor", "imshow"):
            self._wrap(Axes, n)
        return self

    def _wrap(self, cls, n):
        old = getattr(cls, n)

        def f(ax, *a, **k):
            c = old(ax, *a, **k)
            x, y, v = a[:3] if len(a) >= 3 else (None, None, a[0] if a else k.get("C"))
            self._meshes.append((ax, n, {"x": x, "y": y, "c": v, "kw": dict(k)}, c))
            return c
        setattr(cls, n, f)
        self._wrapped.append((cls, n, old))

    def __exit__(self, *e):
        for n, f in self._saved:
            setattr(plt, n, f)
        for c, n, f in self._wrapped:
            setattr(c, n, f)
        try:
            if e[0] is None:
                self._read()
        finally:
            plt.close("all")
        return False

    def _read(self):
        self.figs = [plt.figure(n) for n in plt.get_fignums()]
        for f in self.figs:
            f.canvas.draw()
        self.axes = [RealAx(a, self._meshes) for f in self.figs for a in f.axes
                     if a.get_label() != "<colorbar>" and not hasattr(a, "_colorbar")]
        self._cells = {x: self._read_cells(x) for x in self.axes}
        fs = [tuple(float(x) for x in f.get_size_inches()) for f in self.figs]
        self.figsizes = lambda: fs
        hs = {x: self._heat_styles(x) for x in self.axes}
        self.heat_styles = lambda ax=None: [s for x in self.axes if ax is None or x is ax for s in hs[x]]
        tx = {x: [t.get_text() for t in x.a.texts] for x in self.axes}

        def formatted(fmt, ax=None):
            for x in self.axes:
                if (ax is None or x is ax) and self._cells[x][1]:
                    # seaborn 0.12 with matplotlib 3.8 annotates the first row of the table only, "--" at masked cells
                    want = {format(v[0], fmt) for vs in self._cells[x][0].values() for v in vs}
                    if not set(tx[x]) <= want | {"--"} or not set(tx[x]) & want:
                        return False
            return True
        self.formatted = formatted
        st = [f._suptitle.get_text() for f in self.figs if f._suptitle is not None]
        self.suptitles = lambda: st
        self.graphs = [(x, g) for x in self.axes for g in [self._read_graph(x)] if g]
        for x in self.axes:     # figures are closed afterwards: keep the views
            b, p, t = x.bars(), x.points(), x.texts()
            o = {k: x.of(k) for k in ("plot", "vlines", "mesh", "scatter", "text")}
            for n in ("bar_colours", "point_styles", "line_colours", "vline_colours", "x_scale"):
                setattr(x, n, (lambda v: lambda: v)(getattr(x, n)()))
            x.bars, x.points, x.texts, x.of = (lambda b=b: b), (lambda p=p: p), (lambda t=t: t), (lambda k, o=o: o[k])

    def _heat_styles(self, x):
        from matplotlib.collections import QuadMesh
        out = []
        for c in x.a.collections:
            if isinstance(c, QuadMesh):
                ec = c.get_edgecolors()
                sh = [s for m, s in self._shrinks if m is c]
                out.append((float(c.get_linewidths()[0]), rgba(ec[0]) if len(ec) else None, sh[0] if sh else None))
        return out

    def _read_cells(self, x):
        from matplotlib.collections import QuadMesh
        out, orders = {}, []
        tx, ty = RealAx.ticks(x.a.xaxis), RealAx.ticks(x.a.yaxis)
        for c in x.a.collections:
            if not isinstance(c, QuadMesh):
                continue
            xy = np.asarray(c._coordinates, dtype=float)
            h, w = xy.shape[0] - 1, xy.shape[1] - 1
            v = np.ma.asarray(c.get_array(), dtype=float).reshape(h, w)
            rows = [ty.get(i + 0.5) for i in range(h)]
            cols = [tx.get(j + 0.5) for j in range(w)]
            if None in rows or None in cols:
                continue
            orders.append((rows, cols))
            for i in range(h):
                for j in range(w):
                    if v.mask is not np.ma.nomask and np.ma.getmaskarray(v)[i, j] or v[i, j] != v[i, j]:
                        continue
                    out.setdefault((rows[i], cols[j]), []).append((float(v[i, j]), None, c.cmap.name))
        return out, orders

    def cells(self, ax=None):
        out, orders = {}, []
        for x in self.axes:
            if ax is None or x is ax:
                o, r = self._cells[x]
                for k, v in o.items():
                    out.setdefault(k, []).extend(v)
                orders += r
        return out, orders

    def _read_graph(self, x):
        from matplotlib.collections import LineCollection, PathCollection
        from matplotlib.patches import FancyArrowPatch
        nodes = [c for c in x.a.collections if type(c) is PathCollection]
        if not nodes:
            return None
        pos, g = [], {"edges": {}, "nodes": {}, "labels": {}, "edge_labels": {}, "directed": False, "node_colour": {},
                      "edge_colour": {}, "font": {}, "edge_font": {}}
        ncol = []

        def font(t):
            return rgba(t.get_color()), t.get_fontweight(), float(t.get_fontsize())

        def near(p, q):
            return abs(p[0] - q[0]) < 1e-6 and abs(p[1] - q[1]) < 1e-6
        for c in nodes:
            off = np.asarray(c.get_offsets(), dtype=float)
            sz = np.asarray(c.get_sizes(), dtype=float)
            for i, p in enumerate(off):
                pos.append((tuple(p), float(sz[i % len(sz)]) if len(sz) else 0.0))
                fc = c.get_facecolors()
                ncol.append(rgba(fc[i % len(fc)]) if len(fc) else None)
        name = {}
        rest = []
        for t in x.a.texts:
            k = next((i for i, (p, _) in enumerate(pos) if near(p, t.get_position())), None)
            if k is None:
                rest.append(t)
            else:
                name[k] = t.get_text()
                g["font"][t.get_text()] = font(t)
        for i, (p, sz) in enumerate(pos):
            g["nodes"][name.get(i, "?%d" % i)] = sz
            g["labels"][name.get(i, "?%d" % i)] = name.get(i)
            g["node_colour"][name.get(i, "?%d" % i)] = ncol[i]

        def node(p):
            k = next((i for i, (q, _) in enumerate(pos) if near(p, q)), None)
            return name.get(k, "?%s" % k)
        for c in x.a.collections:
            if isinstance(c, LineCollection):
                lw = list(c.get_linewidths())
                for i, s in enumerate(c.get_segments()):
                    if len(s) != 2:
                        continue
                    g["edges"][(node(s[0]), node(s[1]))] = float(lw[i % len(lw)])
                    ec = c.get_edgecolors()
                    g["edge_colour"][(node(s[0]), node(s[1]))] = rgba(ec[i % len(ec)]) if len(ec) else None
        for a in x.a.patches:
            if isinstance(a, FancyArrowPatch) and a._posA_posB is not None:
                p, q = a._posA_posB
                if not near(p, q):
                    g["directed"] = True
                g["edges"][(node(p), node(q))] = float(a.get_linewidth())
                g["edge_colour"][(node(p), node(q))] = rgba(a.get_edgecolor())
        for t in rest:
            for i, (p, _) in enumerate(pos):
                for j, (q, _) in enumerate(pos):
                    if i < j and near(((p[0] + q[0]) / 2, (p[1] + q[1]) / 2), t.get_position()):
                        e = (name.get(i), name.get(j))
                        if e not in g["edges"]:
                            e = e[::-1]
                        g["edge_labels"].setdefault(e, t.get_text())
                        g["edge_font"].setdefault(e, font(t))
        return g
