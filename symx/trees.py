"""Arbitrary fitted tree ensembles as xgboost, lightgbm and scikit-learn expose them."""
import numpy as np
import pandas as pd

NAN = float("nan")


def shapes(k):
    """binary tree shapes with k internal nodes: nested (left, right) tuples, None = leaf"""
    if k == 0:
        return [None]
    out = []
    for i in range(k):
        for l in shapes(i):
            for r in shapes(k - 1 - i):
                out.append((l, r))
    return out


class Node:
    def __init__(self, tree, depth, parent=None):
        self.tree, self.depth, self.parent = tree, depth, parent
        self.left = self.right = None
        self.feature = self.gain = self.cover = None
        self.id = None

    @property
    def leaf(self):
        return self.left is None

    def walk(self):
        """preorder"""
        yield self
        if not self.leaf:
            yield from self.left.walk()
            yield from self.right.walk()

    def below(self):
        for c in (self.left, self.right):
            if c is not None:
                yield from c.walk()


LEAF = (-0.25, 0.0, 4.0)


def build(ctx, t, shape, names, parent=None, where="r", sym=True, root=None):
    """a tree of the given shape; which feature every split uses is a decision, gains and covers are arbitrary
    positive numbers (leaf values arbitrary)"""
    n = Node(t, 0 if parent is None else parent.depth + 1, parent)
    tag = "%d.%s" % (t, where)
    if shape is None:
        n.gain, n.cover = LEAF[(len(where) + where.count("R") + t) % 3], 1.0     # a leaf's value: any number
        return n
    n.feature = root or names[ctx.choose("feature[%s]" % tag, len(names))]
    if sym:
        n.gain, n.cover = ctx.real("gain[%s]" % tag), ctx.real("cover[%s]" % tag)
        ctx.assume(n.gain > 0)
        ctx.assume(n.cover > 0)
    n.left = build(ctx, t, shape[0], names, n, where + "L", sym)
    n.right = build(ctx, t, shape[1], names, n, where + "R", sym)
    return n


def number(root, order):
    """node ids as the libraries hand them out: children get consecutive ids when their parent is expanded"""
    root.id = 0
    nxt = 1
    queue = [root]
    while queue:
        n = queue.pop(-1 if order == "depth" else 0)
        if n.leaf:
            continue
        n.left.id, n.right.id = nxt, nxt + 1
        nxt += 9 if order == "gaps" else 2         # pruning leaves gaps
        queue += [n.left, n.right]
    return sorted(root.walk(), key=lambda n: n.id)


def _col(vals):
    """float column unless symbolic"""
    if all(isinstance(v, (int, float)) for v in vals):
        return np.array(vals, dtype=float)
    a = np.empty(len(vals), dtype=object)
    a[:] = vals
    return a


def xgb_frame(roots, order="level"):
    rows = []
    for t, r in enumerate(roots):
        for n in number(r, order):
            i = "%d-%d" % (t, n.id)
            if n.leaf:
                rows.append((t, n.id, i, "Leaf", NAN, NAN, NAN, NAN, n.gain, n.cover, NAN))
            else:
                rows.append((t, n.id, i, n.feature, 0.5, "%d-%d" % (t, n.left.id), "%d-%d" % (t, n.right.id),
                             "%d-%d" % (t, n.left.id), n.gain, n.cover, NAN))
    cols = ["Tree", "Node", "ID", "Feature", "Split", "Yes", "No", "Missing", "Gain", "Cover", "Category"]
    d = dict(zip(cols, [list(c) for c in zip(*rows)]))
    d["Gain"], d["Cover"] = _col(d["Gain"]), _col(d["Cover"])
    return pd.DataFrame(d, columns=cols)


def lgb_frame(roots, order="preorder"):
    """rows in preorder; splits and leaves are numbered in the order the tree was grown"""
    rows = []
    for t, r in enumerate(roots):
        s = l = 0
        names = {}
        nodes = list(r.walk())
        for n in nodes if order == "preorder" else nodes[:1] + nodes[:0:-1]:
            if n.leaf:
                names[id(n)] = "%d-L%d" % (t, l)
                l += 1
            else:
                names[id(n)] = "%d-S%d" % (t, s)
                s += 1
        for n in r.walk():
            p = names[id(n.parent)] if n.parent is not None else None
            if n.leaf:
                rows.append((t, n.depth + 1, names[id(n)], None, None, p, None, NAN, NAN, None, None, None, 0.1, 1.0, 3))
            else:
                rows.append((t, n.depth + 1, names[id(n)], names[id(n.left)], names[id(n.right)], p, n.feature, n.gain,
                             0.5, "<=", "left", "None", 0.1, 1.0, 3))
    cols = ["tree_index", "node_depth", "node_index", "left_child", "right_child", "parent_index", "split_feature",
            "split_gain", "threshold", "decision_type", "missing_direction", "missing_type", "value", "weight", "count"]
    d = dict(zip(cols, [list(c) for c in zip(*rows)]))
    g = d["split_gain"]
    d["split_gain"] = _col(g)
    return pd.DataFrame(d, columns=cols)


def _booster(frame):
    class Booster:
        def trees_to_dataframe(self, *a, **k):
            return frame.copy()
    return Booster()


def gb_model(package, frame, kind="sklearn"):
    """an object that looks like the library's fitted model (sklearn wrapper or plain booster)"""
    b = _booster(frame)
    if kind == "booster":
        cls = type(b)
        cls.__module__ = "xgboost.core" if package == "xgboost" else "lightgbm.basic"
        cls.__qualname__ = cls.__name__ = "Booster"
        return b
    if package == "xgboost":
        cls = type("XGBClassifier", (), {"get_booster": lambda self: b})
        cls.__module__ = "xgboost.sklearn"
    else:
        cls = type("LGBMRegressor", (), {"booster_": b})
        cls.__module__ = "lightgbm.sklearn"
    return cls()


def build_sk(ctx, t, shape, nf, parent=None, where="r"):
    """tree of the given shape; the feature number of every split is a solver integer in 0..nf-1"""
    n = Node(t, 0 if parent is None else parent.depth + 1, parent)
    if shape is None:
        return n
    n.feature = ctx.int("feature[%d.%s]" % (t, where), 0, nf - 1)
    n.left = build_sk(ctx, t, shape[0], nf, n, where + "L")
    n.right = build_sk(ctx, t, shape[1], nf, n, where + "R")
    return n


def splits(roots):
    return [n for r in roots for n in r.walk() if not n.leaf]


# ------------------------------------------------------------------------------ scikit-learn forests
class SkTree:
    """the arrays of sklearn.tree._tree.Tree"""

    def __init__(self, root, columns, order):
        nodes = list(root.walk()) if order == "preorder" else number(root, order)
        for i, n in enumerate(nodes):
            n.id = i
        self.node_count = len(nodes)
        self.children_left = np.array([-1 if n.leaf else n.left.id for n in nodes], dtype=np.int64)
        self.children_right = np.array([-1 if n.leaf else n.right.id for n in nodes], dtype=np.int64)
        feats = [-2 if n.leaf else n.feature for n in nodes]
        if all(isinstance(f, int) for f in feats):
            self.feature = np.array(feats, dtype=np.int64)
        else:
            self.feature = np.empty(len(feats), dtype=object)
            self.feature[:] = feats
        self.threshold = np.array([-2.0 if n.leaf else 0.5 for n in nodes])
        self.capacity = self.node_count
        self.max_depth = max(n.depth for n in nodes)
        self.n_leaves = sum(n.leaf for n in nodes)
        self.n_features = len(columns)


class SkEstimator:
    def __init__(self, root, columns, order):
        self.tree_ = SkTree(root, columns, order)
        self.n_features_in_ = len(columns)

    def get_depth(self):
        return self.tree_.max_depth

    def get_n_leaves(self):
        return self.tree_.n_leaves


class SkForest:
    def __init__(self, roots, columns, order="preorder"):
        self.feature_names_in_ = np.array(columns, dtype=object)
        self.n_features_in_ = len(columns)
        self.n_estimators = len(roots)
        self.estimators_ = [SkEstimator(r, list(columns), order) for r in roots]

    def predict(self, X):
        return np.zeros(len(X))
