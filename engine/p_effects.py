"""C13, C14, C16: final state of the geometry and rename operations."""
import vg
from vg import *
from effects import *
from report import Report

TECH = ("For every type the final state of the operation is computed as a value of the starting state by a gated dataflow over the "
        "compiler's MIR (loops over elements become element-wise maps) and compared field by field with the specified final state.")
FP = "footprint::"
LY = "layout::"


class Adjust(Spec):
    """C14: the specified effect of a shift by (b, c)"""
    def __init__(self, P):
        Spec.__init__(self, P)
        self.x, self.y = K(mk("var", "b")), K(mk("var", "c"))

    def point(self, ty):
        def f(v):
            return self.with_(ty, v, x=fadd(self.F(ty, v, "x"), self.x), y=fadd(self.F(ty, v, "y"), self.y))
        return f

    def row(self, ty):
        S = self
        xy, at = self.point(FP + "Xy"), self.point(FP + "At")

        def struct(**parts):
            def f(v):
                return S.with_(ty, v, **{k: g(S.F(ty, v, k)) for k, g in parts.items()})
            return f
        if ty in (FP + "Xy", FP + "At"):
            return self.point(ty)
        if ty == FP + "Pts":
            return struct(elements=lambda l: S.map(l, xy))
        if ty == FP + "Module":
            return struct(elements=lambda l: S.map(l, lambda e: S.cases(FP + "Element", e, {"At": at})))
        if ty in (LY + "GrLine", LY + "GrArc", LY + "Segment"):
            return struct(start=xy, end=xy)
        if ty == LY + "GrText":
            return struct(at=at)
        if ty == LY + "GrCircle":
            return struct(center=xy, end=xy)
        if ty == LY + "Via":
            return struct(at=at)
        pts = self.row(FP + "Pts") if ty != FP + "Pts" else None
        if ty == LY + "Dimension":
            return struct(text=self.row(LY + "GrText"), feature1=pts, feature2=pts, crossbar=pts,
                          arrow1a=pts, arrow1b=pts, arrow2a=pts, arrow2b=pts)
        if ty == LY + "Zone":
            return struct(polygons=lambda l: S.map(l, pts), filled_polygons=lambda l: S.map(l, pts),
                          fill_segments=lambda o: S.opt(o, pts))
        if ty == LY + "Element":
            return lambda v: S.cases(ty, v, {n: self.row((FP if n == "Module" else LY) + n) for n in (
                "Module", "GrText", "GrLine", "GrArc", "GrCircle", "Dimension", "Segment", "Via", "Zone")})
        if ty == LY + "Layout":
            return struct(elements=lambda l: S.map(l, self.row(LY + "Element")))
        raise KeyError(ty)

    TYPES = [FP + "Xy", FP + "At", FP + "Pts", FP + "Module", LY + "GrText", LY + "GrLine", LY + "GrArc", LY + "GrCircle",
             LY + "Dimension", LY + "Segment", LY + "Via", LY + "Zone", LY + "Element", LY + "Layout"]


class Flip(Spec):
    """C16: mirrored about the X axis and moved to the other side"""
    def row(self, ty):
        S = self
        e360 = fconst(360)

        def struct(**parts):
            def f(v):
                return S.with_(ty, v, **{k: g(S.F(ty, v, k)) for k, g in parts.items()})
            return f

        def flipped(v):
            return neg(v, True)
        r = self.row
        if ty == FP + "Xy":
            return struct(y=flipped)
        if ty == FP + "At":
            return struct(y=flipped, rot=lambda v: fsub(e360, v))
        if ty == FP + "Pts":
            return struct(elements=lambda l: S.map(l, r(FP + "Xy")))
        if ty == FP + "LayerSide":
            return lambda v: ite(S.is_(ty, v, "Front"), S.variant(ty, "Back"), ite(S.is_(ty, v, "Back"), S.variant(ty, "Front"), v))
        if ty == FP + "Layer":
            return struct(side=r(FP + "LayerSide"))
        if ty == FP + "Layers":
            return struct(layers=lambda l: S.map(l, r(FP + "Layer")))
        if ty == FP + "Effects":
            def just(o):
                J = FP + "Justify"
                p = fld(o, 1, 0, (OPT, 1))
                m = BDD.AND(is_variant(o, 1, 2), S.is_(J, p, "Mirror"))
                return ite(is_variant(o, 0, 2), some(S.variant(J, "Mirror")), ite(m, none(), o))
            return struct(justify=just)
        if ty == FP + "FpText":
            return struct(at=r(FP + "At"), layer=r(FP + "Layer"), effects=r(FP + "Effects"))
        if ty == FP + "Drill":
            return struct(offset_y=flipped)
        if ty == FP + "Pad":
            return struct(at=r(FP + "At"), layers=r(FP + "Layers"), drill=lambda o: S.opt(o, r(FP + "Drill")))
        if ty == FP + "FpPoly":
            return struct(pts=r(FP + "Pts"), layer=r(FP + "Layer"))
        if ty == FP + "FpLine":
            return struct(start=r(FP + "Xy"), end=r(FP + "Xy"), layer=r(FP + "Layer"))
        if ty == FP + "FpCircle":
            return struct(center=r(FP + "Xy"), end=r(FP + "Xy"), layer=r(FP + "Layer"))
        if ty == FP + "FpArc":
            return struct(start=r(FP + "Xy"), end=r(FP + "Xy"), angle=flipped, layer=r(FP + "Layer"))
        if ty == FP + "Element":
            return lambda v: S.cases(ty, v, {n: r(FP + n) for n in ("Pad", "FpPoly", "FpLine", "FpCircle", "FpArc", "FpText", "At", "Layer")})
        if ty == FP + "Module":
            return struct(elements=lambda l: S.map(l, r(FP + "Element")))
        raise KeyError(ty)

    TYPES = [FP + x for x in ("Xy", "At", "Pts", "LayerSide", "Layer", "Layers", "Effects", "FpText", "Pad", "FpPoly", "FpLine",
                              "FpCircle", "FpArc", "Element", "Module")]


class Rotate(Spec):
    """C16: only angles change, modulo a full turn"""
    def row(self, ty):
        S = self

        def struct(**parts):
            def f(v):
                return S.with_(ty, v, **{k: g(S.F(ty, v, k)) for k, g in parts.items()})
            return f

        def turn(v):
            n = fadd(v, K(mk("var", "b")))
            return ite(compare("Ge", n, fconst(360), True), fsub(n, fconst(360)),
                       ite(compare("Lt", n, fconst(0), True), fadd(n, fconst(360)), n))
        r = self.row
        if ty == FP + "At":
            return struct(rot=turn)
        if ty in (FP + "Pad", FP + "FpText"):
            return struct(at=r(FP + "At"))
        if ty == FP + "Element":
            return lambda v: S.cases(ty, v, {n: r(FP + n) for n in ("Pad", "FpText", "At")})
        if ty == FP + "Module":
            return struct(elements=lambda l: S.map(l, r(FP + "Element")))
        raise KeyError(ty)

    TYPES = [FP + x for x in ("At", "Pad", "FpText", "Element", "Module")]


class Rename(Spec):
    """C13: every name equal to b becomes c"""
    def name(self, v):
        T = FP + "NetName"
        old = self.F(T, v, "0")
        b, c = K(mk("var", "b")), K(mk("var", "c"))
        return self.with_(T, v, **{"0": ite(same(old, b), c, old)})

    def row(self, ty):
        S = self

        def struct(**parts):
            def f(v):
                return S.with_(ty, v, **{k: g(S.F(ty, v, k)) for k, g in parts.items()})
            return f
        r = self.row
        if ty == FP + "NetName":
            return self.name
        if ty in (FP + "Net", LY + "Net"):
            return struct(name=self.name)
        if ty == FP + "Pad":
            return struct(net=lambda o: S.opt(o, r(FP + "Net")))
        if ty == FP + "Element":
            return lambda v: S.cases(ty, v, {"Pad": r(FP + "Pad")})
        if ty == FP + "Module":
            return struct(elements=lambda l: S.map(l, r(FP + "Element")))
        if ty == LY + "NetClass":
            return struct(nets=lambda l: S.map(l, self.name))
        if ty == LY + "Zone":
            return struct(net_name=self.name)
        if ty == LY + "Element":
            return lambda v: S.cases(ty, v, {"Net": r(LY + "Net"), "NetClass": r(LY + "NetClass"), "Zone": r(LY + "Zone"), "Module": r(FP + "Module")})
        if ty == LY + "Layout":
            return struct(elements=lambda l: S.map(l, r(LY + "Element")))
        raise KeyError(ty)


def state_rows(R, S, rows, least):
    """rows: (label, function key, type)"""
    seen = 0
    for label, key, ty in rows:
        if key is None:
            R.counts.setdefault("functions_not_found", []).append(label)
            continue
        seen += 1

        def go(emit, label=label, key=key, ty=ty):
            fl, g, cells, v = S.run(key)
            a = K(mk("var", "a"))
            if g != 1:
                emit(label + " returns", "undecided" if unknown_ops(g) else "violation", "returns only if %s" % render(g)[:300])
            compare_value(S, emit, label, ty, cells["a"], S.row(ty)(a), g, "the final state of " + label)
        R.many(label, go)
        R.functions.add(key)
    R.floor("operations_compared", seen, least)


def check(prop, P):
    R = Report(prop, TECH)
    R.assumptions = ["floating point addition and negation are treated as exact",
                     "values of one list are visited in order by the standard iterators"]
    if prop == "C14":
        S = Adjust(P)
        rows = [(ty + " adjust", S.method(ty, "Adjust", "adjust"), ty) for ty in S.TYPES]
        rows += [("footprint adjust_at", S.find("fp_adjust_at"), FP + "Module"), ("board adjust", S.find("lay_adjust"), LY + "Layout"),
                 ("board element adjust", S.find("lay_el_adjust"), LY + "Element"), ("footprint adjust", S.find("fp_adjust"), FP + "Module")]
        state_rows(R, S, rows, 14)
    elif prop == "C16":
        S = Flip(P)
        rows = [(ty + " flip", S.method(ty, "footprint::Flip", "flip"), ty) for ty in S.TYPES]
        rows += [("footprint flip", S.find("fp_flip"), FP + "Module"), ("footprint element flip", S.find("fp_el_flip"), FP + "Element")]
        state_rows(R, S, rows, 14)
        n = R.counts["operations_compared"]
        S = Rotate(P)
        rows = [(ty + " rotate", S.method(ty, "footprint::Rotate", "rotate"), ty) for ty in S.TYPES]
        rows += [("footprint rotate", S.find("fp_rotate"), FP + "Module")]
        state_rows(R, S, rows, 5)
        R.counts["operations_compared"] += n
    elif prop == "C13":
        S = Rename(P)
        rows = [("board change_net_name", S.find("lay_change_net_name"), LY + "Layout"), ("footprint rename_net", S.find("fp_rename_net"), FP + "Module"),
                ("pad rename_net", S.find("fp_pad_rename_net"), FP + "Pad"), ("name rename", S.find("netname_rename"), FP + "NetName")]
        state_rows(R, S, rows, 4)
    return R.finish()
