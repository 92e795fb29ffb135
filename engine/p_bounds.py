"""C15: bounding boxes enclose what they bound.

The box of every kind of element, and of documents with two elements of every
kind, is a value over the coordinates; that it contains a defining point is a
condition on signs of linear forms (minima, maxima and absolute values are taken
apart exactly).  The operation that combines two boxes is shown to keep what it
has and to take in what it gets, for any two boxes; documents of more than two
elements are not analysed."""
from concurrent.futures import ThreadPoolExecutor
import vg
from vg import *
from effects import *
from fractions import Fraction
from prims import r_fun1, minmax
from report import Report
import p_sexp

TECH = ("The box returned for every kind of element and document as a value over the coordinates (gated value graph of the compiler's MIR), "
        "compared with the points that define the element; documents have two elements of every pair of kinds examined.")
FP, LY, SC = "footprint::", "layout::", "schematic::"
BOUND = "Bound"
p_sexp.KNOWN.update({"fmin", "fmax", "fabs", "sqrt", "fmul", "hypot", "powi"})


def var(n):
    return K(mk("var", n))


# -- signs -----------------------------------------------------------------------
def parts(x):
    if isinstance(x, FLin):
        return x.c, dict(x.ts)
    if isinstance(x, T) or isinstance(x, Lin):
        c, d = lin_of(x)
        return c, d
    return x, {}


def build(c, d):
    x = fconst(Fraction(c))
    for t, k in d.items():
        x = fadd(x, fscale(K(t), k))
    return x


def fscale(n, k):
    return BDD.map1(n, lambda x: K(flin_scale(x, k)))


def flin_scale(x, k):
    return flin_add(fzero(), x, k)


def fzero():
    return leafof(fconst(Fraction(0)))


def lesser(n, memo=None):
    """the smaller or larger of two values, picked by comparing them"""
    memo = {} if memo is None else memo
    if BDD.is_leaf(n):
        return n
    if n not in memo:
        k = BDD.atoms[BDD.var[n]]
        m = picked(k, n) if k[0] in ("fpos", "fneg") else None
        memo[n] = m if m is not None else BDD.mknode(BDD.var[n], lesser(BDD.lo[n], memo), lesser(BDD.hi[n], memo))
    return memo[n]


def picked(k, n):
    yes, no = BDD.hi[n], BDD.lo[n]
    if not BDD.is_leaf(no):
        # the other sign is told apart from zero, where both values agree
        o = BDD.atoms[BDD.var[no]]
        if o[0] not in ("fpos", "fneg") or o[0] == k[0] or o[1] != k[1] or BDD.lo[no] not in (yes, BDD.hi[no]):
            return None
        no = BDD.hi[no]
    if not BDD.is_leaf(yes) or not BDD.is_leaf(no):
        return None
    a, b = BDD.leaf[yes], BDD.leaf[no]
    if not all(isinstance(x, FLin) or isT(x) and x.op not in ("agg", "cat", "str", "bot") for x in (a, b)):
        return None
    c, d = parts(leafof(fsub(yes, no)))
    e, f = parts(k[1])
    if not f or set(d) != set(f):
        return None
    t = next(iter(f))
    q = Fraction(d[t]) / f[t]
    if c != q * e or any(d[u] != q * f[u] for u in f):
        return None
    return minmax("fmax" if (q > 0) == (k[0] == "fpos") else "fmin", a, b)


class Signs(object):
    """conditions on signs, with what is known of roots collected on the way"""
    def __init__(self):
        self.facts = 1
        self.seen = set()
        self.base = []
        self.proved = {}

    def known(self, v):
        """v is not negative"""
        self.base.append(leafof(v))

    def prove(self, x):
        """is the form x never negative, by choosing among minima and maxima"""
        if x is BOTT:
            return True
        if x not in self.proved:
            self.proved[x] = False
            self.proved[x] = self.prove_(x)
        return self.proved[x]

    def prove_(self, x):
        c, d = parts(x)
        for t, k in d.items():
            if isT(t) and t.op in ("fmin", "fmax", "fabs"):
                a = [y.n if isinstance(y, Node) else K(y) for y in t.args]
                if t.op == "fabs":
                    a = [a[0], fscale(a[0], -1)]
                rest = build(c, {u: v for u, v in d.items() if u is not t})
                r = (all(self.prove(BDD.leaf[z]) for z in leaves(fadd(rest, fscale(y, k)))) for y in a)
                return all(r) if (t.op == "fmin") == (k > 0) else any(r)
        return self.linear(c, d, 2)

    def linear(self, c, d, depth):
        if c >= 0 and not d:
            return True
        for t in d:
            self.root(t)
        if depth:
            for f in self.base:
                cf, df = parts(f)
                if not set(df) & set(d):
                    continue
                for t in df:
                    if t in d and d[t] * df[t] > 0:
                        k = Fraction(d[t]) / df[t]
                        e = dict(d)
                        for u, v in df.items():
                            e[u] = e.get(u, 0) - k * v
                        if self.linear(c - k * cf, {u: v for u, v in e.items() if v != 0}, depth - 1):
                            return True
        return False

    def nonneg(self, n):
        return self.plain(clean(BDD.map1(n, self.leaf)))

    def plain(self, n, memo=None):
        """a condition with the minima, maxima and absolute values in its tests taken apart"""
        memo = {} if memo is None else memo
        if BDD.is_leaf(n):
            return n
        if n not in memo:
            k = BDD.atoms[BDD.var[n]]
            a = BDD.atom(k)
            if k[0] in ("fpos", "fneg"):
                c, d = parts(k[1])
                if any(isT(t) and t.op in ("fmin", "fmax", "fabs") for t in d):
                    # x > 0 is not (-x >= 0); a choice on the way is mostly settled
                    a = BDD.NOT(self.nonneg(fscale(K(k[1]), -1 if k[0] == "fpos" else 1)))
                else:
                    for t in d:
                        self.root(t)
            memo[n] = BDD.ite(a, self.plain(BDD.hi[n], memo), self.plain(BDD.lo[n], memo))
        return memo[n]

    def leaf(self, x):
        if x is BOTT:
            return 1
        if self.prove(x):
            return 1
        c, d = parts(x)
        for t, k in d.items():
            if isT(t) and t.op in ("fmin", "fmax", "fabs"):
                a = [y.n if isinstance(y, Node) else K(y) for y in t.args]
                if t.op == "fabs":
                    a = [a[0], fscale(a[0], -1)]
                rest = build(c, {u: v for u, v in d.items() if u is not t})
                r = [self.nonneg(fadd(rest, fscale(y, k))) for y in a]
                small = t.op == "fmin"
                out = r[0]
                for y in r[1:]:
                    out = BDD.AND(out, y) if small == (k > 0) else BDD.OR(out, y)
                return out
            self.root(t)
        return compare("Ge", K(x), fconst(Fraction(0)), True)

    def root(self, t):
        """the root of a sum of squares is at least each of their roots"""
        if t in self.seen or not isT(t):
            return
        self.seen.add(t)
        sq = squares(t)
        if sq is None:
            return
        self.facts = BDD.AND(self.facts, compare("Ge", K(t), fconst(Fraction(0)), True))
        self.known(fadd(K(t), fconst(Fraction(0))))
        for u in sq:
            for k in (1, -1):
                self.known(fsub(K(t), fscale(u, k)))
                self.facts = BDD.AND(self.facts, compare("Ge", K(t), fscale(u, k), True))


def squares(t):
    """[a, b, ..] when t is the root of a² + b² + .."""
    if t.op == "hypot":
        return [y.n if isinstance(y, Node) else K(y) for y in t.args]
    if t.op != "sqrt":
        return None
    n = t.args[0].n if isinstance(t.args[0], Node) else K(t.args[0])
    if not BDD.is_leaf(n):
        return None
    c, d = parts(leafof(n))
    out = []
    if c != 0:
        return None
    for u, k in d.items():
        if k != 1 or not isT(u, "fmul"):
            return None
        a, b = [y.n if isinstance(y, Node) else K(y) for y in u.args]
        if a != b:
            return None
        out.append(a)
    return out


def sides(n):
    """a value without regard to its sign"""
    return frozenset([n, fscale(n, -1)])


# -- shapes ------------------------------------------------------------------------
class Shapes(object):
    def __init__(self, P):
        self.S = Spec(P)
        self.facts = 1
        self.signs = Signs()
        self.few = False
        self.radii = []        # (dx, dy, centre x, centre y)

    def xy(self, p, t=FP + "Xy"):
        return self.S.F(t, p, "x"), self.S.F(t, p, "y")

    def positive(self, v):
        self.facts = BDD.AND(self.facts, compare("Ge", v, fconst(Fraction(0)), True))
        self.signs.known(v)

    def ends(self, t, v, a="start", b="end"):
        return [self.xy(self.S.F(t, v, a)), self.xy(self.S.F(t, v, b))]

    def circle(self, t, v):
        c, e = self.ends(t, v, "center", "end")
        self.radii.append((fsub(c[0], e[0]), fsub(c[1], e[1]), c[0], c[1]))
        return [c, e]

    def pts(self, name):
        """two points, one in a document of several elements"""
        ps = [var(name + "1")] + ([] if self.few else [var(name + "2")])
        return self.S.with_(FP + "Pts", var(name), elements=K(cat("l", [("el", Node(p)) for p in ps]))), [self.xy(p) for p in ps]

    def corners(self, x, y, dx, dy):
        self.positive(dx)
        self.positive(dy)
        h = Fraction(1, 2)
        return [(fadd(x, fscale(dx, i * h)), fadd(y, fscale(dy, j * h))) for i in (1, -1) for j in (1, -1)]

    def fab(self, t, v):
        return self.S.with_(t, v, layer=self.S.with_(FP + "Layer", self.S.F(t, v, "layer"), t=self.S.variant(FP + "LayerType", "Fab")))

    def footprint(self, kind, n, rot=0):
        """an element of a footprint and its points"""
        S = self.S
        t = FP + kind
        v = var(n)
        if kind == "Pad":
            at = S.with_(FP + "At", S.F(t, v, "at"), rot=fconst(Fraction(rot)))
            v = S.with_(t, v, at=at)
            sx, sy = self.xy(S.F(t, v, "size"))
            if rot % 180:
                sx, sy = sy, sx
            ps = self.corners(S.F(FP + "At", at, "x"), S.F(FP + "At", at, "y"), sx, sy)
        elif kind == "FpText":
            ps = [self.xy(S.F(t, v, "at"), FP + "At")]
        elif kind == "FpPoly":
            p, ps = self.pts(n + "p")
            v = S.with_(t, self.fab(t, v), pts=p)
        elif kind == "FpCircle":
            v = self.fab(t, v)
            ps = self.circle(t, v)
        else:
            v = self.fab(t, v)
            ps = self.ends(t, v)
        return S.variant(FP + "Element", kind, v), ps

    def module(self, n, kinds):
        S = self.S
        els, ps = [], []
        at = var(n + "at")
        x, y = self.xy(at, FP + "At")
        els.append(("el", Node(S.variant(FP + "Element", "At", at))))
        k0 = len(self.radii)
        for i, k in enumerate(kinds):
            e, q = self.footprint(k, "%s%d" % (n, i))
            els.append(("el", Node(e)))
            ps += [(fadd(a, x), fadd(b, y)) for a, b in q]
        self.radii[k0:] = [(dx, dy, fadd(cx, x), fadd(cy, y)) for dx, dy, cx, cy in self.radii[k0:]]
        return S.with_(FP + "Module", var(n), elements=K(cat("l", els))), ps

    def board(self, kind, n):
        S = self.S
        t = LY + kind
        v = var(n)
        if kind == "Module":
            v, ps = self.module(n, ["Pad", "FpLine"])
        elif kind == "GrText":
            ps = [self.xy(S.F(t, v, "at"), FP + "At")]
        elif kind == "GrCircle":
            ps = self.circle(t, v)
        elif kind == "Via":
            at, s = S.F(t, v, "at"), S.F(t, v, "size")
            x, y = self.xy(at, FP + "At")
            ps = self.corners(x, y, s, s)
        elif kind == "Dimension":
            ps = [self.xy(S.F(LY + "GrText", S.F(t, v, "text"), "at"), FP + "At")]
            for f in ("feature1", "feature2", "crossbar", "arrow1a", "arrow1b", "arrow2a", "arrow2b"):
                p, q = self.pts(n + f)
                v = S.with_(t, v, **{f: p})
                ps += q
        elif kind == "Zone":
            ps = []
            for f in ("polygons", "filled_polygons", "fill_segments"):
                a, q = self.pts(n + f + "a")
                b, r = self.pts(n + f + "b")
                if f == "fill_segments":
                    l, r = some(a), []
                elif self.few:
                    l, r = lst(a), []
                else:
                    l = K(cat("l", [("el", Node(a)), ("el", Node(b))]))
                v = S.with_(t, v, **{f: l})
                ps += q + r
        else:
            ps = self.ends(t, v)
        return S.variant(LY + "Element", kind, v), ps

    def component(self, n):
        v = var(n)
        return self.S.variant(SC + "Element", "Component", v), [(self.S.F(SC + "Component", v, "x"), self.S.F(SC + "Component", v, "y"))]

    def sheet(self, n):
        v = var(n)
        x, y, dx, dy = [self.S.F(SC + "Sheet", v, f) for f in ("x", "y", "dimx", "dimy")]
        self.positive(dx)
        self.positive(dy)
        return v, [(x, y), (fadd(x, dx), fadd(y, dy))]


FPKINDS = ("Pad", "FpPoly", "FpLine", "FpCircle", "FpArc")
LYKINDS = ("Module", "GrText", "GrLine", "GrArc", "GrCircle", "Dimension", "Segment", "Via", "Zone")


def lst(*vs):
    return K(cat("l", [("el", Node(v)) for v in vs]))


def box(S, r):
    return [S.F(BOUND, r, f) for f in ("x1", "y1", "x2", "y2", "is_bounded")]


def ordered(sg, b):
    return BDD.AND(sg.nonneg(fsub(b[2], b[0])), sg.nonneg(fsub(b[3], b[1])))


def holds(sg, b, p):
    """the point is in the box"""
    x, y = p
    c = BDD.AND(sg.nonneg(fsub(x, b[0])), sg.nonneg(fsub(b[2], x)))
    return BDD.AND(c, BDD.AND(sg.nonneg(fsub(y, b[1])), sg.nonneg(fsub(b[3], y))))


def inside(sg, b, a):
    """box a is in box b"""
    return BDD.AND(holds(sg, b, (a[0], a[1])), holds(sg, b, (a[2], a[3])))


def verdict(emit, name, sg, facts, c, what):
    c = sg.plain(c)
    c = BDD.OR(BDD.NOT(BDD.AND(facts, sg.facts)), c)
    try:
        r = settle(c, what)
        emit(name, "ok" if r is None else "violation", r or "")
        return r is None
    except Undecided as e:
        emit(name, "undecided", str(e))
        return False


def shapes(P):
    """(name, function, argument values, shape)"""
    for rot in (0, 90, 180, 270, -90, -270):
        def f(sh, rot=rot):
            v, ps = sh.footprint("Pad", "e", rot)
            return {"a": v}, ps
        yield "pad turned by %d" % rot, "fp_el_bbox", f
    for k in FPKINDS[1:] + ("FpText",):
        def f(sh, k=k):
            v, ps = sh.footprint(k, "e")
            return {"a": v}, ps
        yield k, "fp_el_bbox", f
    for k in LYKINDS:
        def f(sh, k=k):
            v, ps = sh.board(k, "e")
            return {"a": v}, ps
        yield k, "lay_el_bbox", f
    for a, b in [(k, "FpLine") for k in FPKINDS] + [("FpLine", k) for k in FPKINDS if k != "FpLine"]:
        def f(sh, a=a, b=b):
            v, ps = sh.module("m", [a, b])
            return {"a": v}, ps
        yield "footprint of %s and %s" % (a, b), "fp_bbox", f
    for a, b in [(k, "Segment") for k in LYKINDS] + [("Segment", k) for k in LYKINDS if k != "Segment"]:
        def f(sh, a=a, b=b):
            sh.few = True
            (v, ps), (w, qs) = sh.board(a, "e"), sh.board(b, "f")
            return {"a": sh.S.with_(LY + "Layout", var("l"), elements=lst(v, w))}, ps + qs
        yield "board of %s and %s" % (a, b), "lay_bbox", f

    def f(sh):
        v, ps = sh.component("e")
        return {"a": v}, ps
    yield "component", "sch_el_bbox", f

    def f(sh):
        v, ps = sh.sheet("e")
        return {"a": v}, ps
    yield "sheet", "sch_sheet_bbox", f
    for n, m in ((2, 0), (0, 2), (1, 1)):
        def f(sh, n=n, m=m):
            cs, ss = [sh.component("c%d" % i) for i in range(n)], [sh.sheet("s%d" % i) for i in range(m)]
            v = sh.S.with_(SC + "Schematic", var("d"), elements=lst(*[c for c, _ in cs]), sheets=lst(*[s for s, _ in ss]))
            return {"a": v}, [p for _, ps in cs + ss for p in ps]
        yield "schematic of %d components and %d sheets" % (n, m), "sch_bbox", f


def judge(emit, P, name, fn, f, used):
    sh = Shapes(P)
    S, sg = sh.S, sh.signs
    args, ps = f(sh)
    key = S.find(fn)
    if key is None:
        raise Undecided("no function " + fn)
    fl, g, cells, r = S.run(key, ["a"], values=args)
    used |= set(fl.inlined) | {key}
    if g != 1:
        raise Undecided("returns only when " + render(g)[:200])
    b = box(S, r)
    verdict(emit, name + ": is bounded", sg, sh.facts, asbool(b[4]), "the box")
    for n, (lo, hi) in enumerate((((0, 2)), ((1, 3)))):
        c = 1
        for p in ps:
            c = BDD.AND(c, BDD.AND(sg.nonneg(fsub(p[n], b[lo])), sg.nonneg(fsub(b[hi], p[n]))))
        verdict(emit, "%s: every point is between the %s sides" % (name, "xy"[n]), sg, sh.facts, c, "the box")
    for dx, dy, cx, cy in sh.radii:
        roots = [t for t in sg.seen if isT(t) and squares(t) is not None and
                 {sides(u) for u in squares(t)} == {sides(dx), sides(dy)}]
        if not roots:
            emit(name + ": the circle is inside", "undecided", "no radius found")
            continue
        rad = K(roots[0])
        c = 1
        for i, j in ((1, 1), (-1, -1)):
            c = BDD.AND(c, holds(sg, b, (fadd(cx, fscale(rad, i)), fadd(cy, fscale(rad, j)))))
        verdict(emit, name + ": the circle is inside", sg, sh.facts, c, "the box")


# -- combining -----------------------------------------------------------------------
def combining(emit, P, used):
    S = Spec(P)
    for fn in ("bound_update", "bound_swap"):
        key = S.find(fn)
        if key is None:
            raise Undecided("no function " + fn)
        fl, g, cells, r = S.run(key)
        used |= set(fl.inlined) | {key}
        a = box(S, var("a"))
        new = box(S, cells["a"]) if "a" in cells else a
        sg = Signs()
        if g != 1:
            raise Undecided(fn + " returns only when " + render(g)[:200])
        if fn == "bound_swap":
            verdict(emit, "swap: the corners are in order", sg, 1, ordered(sg, new), "the box")
            verdict(emit, "swap: both corners stay inside", sg, 1, inside(sg, new, a), "the box")
            verdict(emit, "swap: bounded as before", sg, 1, BDD.IFF(asbool(new[4]), asbool(a[4])), "being bounded")
            continue
        b = box(S, var("b"))
        ba, bb = asbool(a[4]), asbool(b[4])
        facts = BDD.AND(BDD.OR(BDD.NOT(ba), ordered(sg, a)), BDD.OR(BDD.NOT(bb), ordered(sg, b)))
        verdict(emit, "update: keeps the box", sg, facts, BDD.OR(BDD.NOT(ba), inside(sg, new, a)), "the box")
        verdict(emit, "update: takes in the other box", sg, facts, BDD.OR(BDD.NOT(bb), inside(sg, new, b)), "the box")
        verdict(emit, "update: bounded when one of them is", sg, facts, BDD.IFF(asbool(new[4]), BDD.OR(ba, bb)), "being bounded")
        verdict(emit, "update: an unbounded box is ignored", sg, facts, BDD.OR(BDD.OR(bb, BDD.NOT(ba)), same(cells.get("a", var("a")), var("a"))), "the box")
        if "b" in cells:
            emit("update: leaves the other box", "violation", "it is changed")


def check(prop, P):
    vg.CHOICE = lesser
    R = Report(prop, TECH)
    R.assumptions = ["coordinates are finite, widths and sizes not negative", "rounding of sums is not modelled"]
    from report import isolated
    rows = list(shapes(P)) + [("combining boxes", None, None)]

    def one(row):
        name, fn, f = row

        def go():
            out, used = [], set()

            def emit(k, s, t=""):
                out.append((k, s, t))
            try:
                if fn is None:
                    combining(emit, P, used)
                else:
                    judge(emit, P, name, fn, f, used)
            except Undecided as e:
                emit(name, "undecided", str(e))
            return [(out, {P.insts[x]["name"] for x in used})]
        return isolated(go, 200, name)
    with ThreadPoolExecutor(4) as pool:
        results = list(pool.map(one, rows))
    n = len(results)
    for r in results:
        if len(r) == 1 and isinstance(r[0][0], list):
            out, fns = r[0]
            R.functions |= fns
        else:
            out = r
        for k, s, t in out:
            R.add(k, s, t)
    R.floor("shapes", n, 40)
    return R.finish()
