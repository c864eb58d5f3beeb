"""P07: drawings of solutions (scaling, nodes, edges, labels)."""
import importlib
import io
import operator
import re
from symex.base import *

ED = "verypy.visualizers.export_dot"
SV = "verypy.visualizers.shared_visualize"


def idx(x):
    return operator.index(x)


def ratio(v):
    """numerator and (positive) denominator"""
    return (v.n, v.d) if isinstance(v, core.Quot) else (v, 1)


def q_le(a, b, op=LE):
    (n, d), (m, e) = ratio(a), ratio(b)
    if d is e or (isinstance(d, core.Sym) and isinstance(e, core.Sym) and
                  (d.t, d.c) == (e.t, e.c)):
        return op(n, m)
    return op(n * e, m * d)


def q_eq(a, b):
    return AND(q_le(a, b), q_le(b, a))


class Scale(Harness):
    """points scaled to a drawing area"""
    path_seconds = 40

    def bounds(self):
        return "every %d points, drawn with and without the last, %s" % (
            self.n, "aspect ratio kept" if self.keep else
            "stretched to the area")

    def build(self, ctx):
        x = [ctx.var("x%d" % i, lo=None) for i in range(self.n)]
        y = [ctx.var("y%d" % i, lo=None) for i in range(self.n)]
        return dict(p=list(zip(x, y)))

    def run(self, inp):
        (m,) = modules_ready(SV)
        p = inp["p"]
        q = p[:self.n - self.more]
        params = m.get_normalization_params(p, self.to,
                                            keep_aspect_ratio=self.keep)
        return list(m.normalize_to_rect(q, params)), \
            list(m.normalize_to_rect(p, params))

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        q, r = res
        p = inp["p"]
        lo, hi = min(self.to), max(self.to)
        eps = 1e-6
        yield "number of points changed", len(r) == len(p) and \
            len(q) == self.n - self.more

        S = r
        for i, (a, b) in enumerate(S):
            for v in (a, b):
                yield "point %d is drawn outside of the area" % i, \
                    AND(q_le(lo - eps, v),
                        q_le(v, hi + eps))
        for i, (a, b) in enumerate(zip(q, r)):
            yield "the place of point %d depends on the other points drawn" \
                % i, AND(q_eq(a[0], b[0]), q_eq(a[1], b[1]))
        if self.keep:
            for i in range(1, len(p)):
                for a, b in ((0, i), (i - 1, i)):
                    yield "aspect ratio changes", self.same(p, S, a, b, i)
        for k in (0, 1):
            for i in range(len(p)):
                for j in range(len(p)):
                    if i != j:
                        yield "points %d and %d change sides" % (i, j), OR(
                            NOT(LT(p[i][k], p[j][k])),
                            q_le(S[i][k], S[j][k],
                                                               LT))


    @staticmethod
    def same(p, S, a, b, c):
        """drawn x and y distances are the same multiple of the given ones"""
        (xa, d), (xb, e) = ratio(S[a][0]), ratio(S[b][0])
        (ya, f), (yc, g) = ratio(S[0][1]), ratio(S[c][1])
        alike = lambda u, v: u is v or (
            isinstance(u, core.Sym) and isinstance(v, core.Sym) and
            (u.t, u.c) == (v.t, v.c)) or (
            not isinstance(u, core.Sym) and not isinstance(v, core.Sym) and
            u == v)
        dx, dy = p[a][0] - p[b][0], p[0][1] - p[c][1]
        qx, d = (xa - xb, d) if alike(d, e) else (xa * e - xb * d, d * e)
        qy, f = (ya - yc, f) if alike(f, g) else (ya * g - yc * f, f * g)
        if alike(d, f):
            return EQ(qx * dy, qy * dx)
        return EQ(qx * f * dy, qy * d * dx)


NODE = re.compile(r'^\s*n(\d+)\s*\[([^\]]*)\]\s*;?\s*$')
EDGE = re.compile(r'^\s*n(\d+)\s*--\s*n(\d+)\s*(?:\[([^\]]*)\])?\s*;?\s*$')
GROUPS = ("gray_routes", "red_routes", "black_routes")


def attribute(text, name):
    m = re.search(r'(?<!\w)%s\s*=\s*("[^"]*"|[^\s,\]]+)' % name, text or "")
    return m.group(1).strip('"') if m else None


class Drawing(Harness):
    """the written drawing of routes"""
    path_seconds = 30

    def bounds(self):
        return "every routes of %s visits among %d nodes, each drawn in any " \
            "colour, every highlighted node%s" % (
                list(self.lens), self.n,
                ", with distances" if self.dist else "")

    def build(self, ctx):
        return dict(
            r=[[ctx.var("v%d_%d" % (i, j), 0, self.n - 1, integer=True)
                for j in range(k)] for i, k in enumerate(self.lens)],
            g=[ctx.var("g%d" % i, 0, 2, integer=True)
               for i in range(len(self.lens))],
            hot=ctx.var("hot", -1, self.n - 1, integer=True)
            if self.hot else -1)

    def run(self, inp):
        (m,) = modules_ready(ED)
        groups = {k: [] for k in GROUPS}
        for r, g in zip(inp["r"], inp["g"]):
            groups[GROUPS[idx(g)]].append([idx(v) for v in r])
        hot = idx(inp["hot"]) if self.hot else -1
        P = points(self.n, 3)
        D = fixed_matrix(_Con, self.n, "rnd", 2)
        out = io.StringIO()
        kw = {k: v for k, v in groups.items() if v or self.empty}
        m.output_dot(out, P, active_point_idxs=None if hot < 0 else [hot],
                     D=D if self.dist else None, title=self.title, **kw)
        return groups, hot, P, D, out.getvalue()

    def props(self, inp, res, exc):
        if exc is not None:
            yield "raised %r" % (exc,), False
            return
        groups, hot, P, D, text = res
        nodes, edges = {}, []
        for line in text.split("\n"):
            a, b = NODE.match(line), EDGE.match(line)
            if b:
                edges.append((int(b.group(1)), int(b.group(2)),
                              attribute(b.group(3), "color"),
                              attribute(b.group(3), "label")))
            elif a:
                yield "node %s is written twice" % a.group(1), \
                    int(a.group(1)) not in nodes
                nodes[int(a.group(1))] = a.group(2)
        yield "not one graph: %s" % text[:60], \
            re.match(r"\s*graph\s+\w*\s*\{", text) is not None and \
            text.rstrip().endswith("}") and text.count("{") == \
            text.count("}") == 1
        yield "title is missing", not self.title or \
            ('"%s"' % self.title) in text
        yield "nodes %s written for %d nodes" % (sorted(nodes), self.n), \
            sorted(nodes) == list(range(self.n))
        for i, t in nodes.items():
            lab, pos = attribute(t, "label"), attribute(t, "pos")
            yield "label of node %d is %s" % (i, lab), \
                lab is not None and lab.isdigit() and int(lab) == i
            yield "place of node %d is %s" % (i, pos), \
                pos is not None and all(
                    abs(float(a) - b) < 1e-5
                    for a, b in zip(pos.rstrip("!").split(","), P[i]))
            if i:
                yield "node %d is highlighted wrongly" % i, \
                    (attribute(t, "shape") == "doublecircle") == (i == hot)
        yield "labels of the same width", len(set(
            len(attribute(t, "label") or "") for t in nodes.values())) == 1
        want = []
        for k, colour in zip(GROUPS, ("gray", "red", None)):
            for r in groups[k]:
                for a, b in zip(r, r[1:]):
                    want.append((a, b, colour, "%.1f" % D[a, b]
                                 if self.dist else None))
        key = lambda e: (min(e[:2]), max(e[:2]), str(e[2]), str(e[3]))
        yield "routes %s are drawn as edges %s" % (groups, edges), \
            sorted(map(key, edges)) == sorted(map(key, want))


class _Con(object):
    symbolic = False


def P07(tier):
    T = tier == "thorough"
    hs = []
    sc = (SV + ".get_normalization_params", SV + ".normalize_to_rect")
    for n, keep in ((1, True), (2, True), (2, False), (3, True),
                    (3, False)) + (((4, True), (4, False)) if T else ()):
        for k, to in enumerate(((-5.0, 5.0), (10.0, 0.0))):
            hs.append(Scale("scale/%d/%s/%d" % (
                n, "keep" if keep else "stretch", k), n=n, keep=keep, to=to,
                more=1 if n > 1 else 0, priority=n, functions=sc))
    dr = (ED + ".output_dot", ED + ".print_solution_edges")
    for n, lens, hot, dist, empty, title in (
            (1, (), 1, 0, 0, None), (3, (3,), 1, 1, 0, "t"),
            (4, (3,), 0, 0, 1, None), (3, (2, 2), 0, 1, 0, None),
            (2, (2, 1, 2), 0, 1, 0, "a, b"), (9, (2,), 1, 0, 0, None),
            (10, (2,), 1, 0, 0, None), (11, (2,), 1, 1, 0, None),
            (99, (), 0, 0, 0, None), (100, (), 0, 0, 0, None),
            (101, (), 0, 0, 0, None), (999, (), 0, 0, 0, None),
            (1000, (), 0, 0, 0, None)) + (
            ((5, (4,), 1, 1, 0, "t"), (3, (3, 3), 0, 1, 0, None),
             (3, (2, 2, 2), 0, 1, 1, None), (12, (3,), 0, 1, 0, None),
             (20, (2,), 1, 1, 0, None)) if T else ()):
        hs.append(Drawing("draw/%d/%s/%d%d%d" % (
            n, "-".join(map(str, lens)), hot, dist, empty), n=n, lens=lens,
            hot=hot, dist=dist, empty=empty, title=title,
            priority=sum(lens), functions=dr))
    return hs


PROPS = {"P07": P07}
