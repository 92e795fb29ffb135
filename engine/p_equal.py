"""C21: equality of footprints, nets and net classes."""
from vg import *
from effects import *
from prims import eq_by_type, peel
from report import Report

TECH = ("The result of every equality of the footprint and board types is computed as a condition over the attributes of the two values "
        "by a gated dataflow over the compiler's MIR, with the equalities of nested types expanded, and compared with the conjunction of "
        "the equalities of all stored attributes minus the documented exceptions; one obligation per attribute and one for the whole.")
FP = KP + "footprint::"
LEFT_OUT = {FP + "Layer": ["side"], FP + "Pad": ["net"]}


class Equal(Spec):
    def field(self, ty, a, b, skip=()):
        """conjunction over the attributes of one variant of a and b"""
        P = self.P

        def user(t, x, y):
            return self.value(t, x, y)
        r = 0
        n = len(ty["variants"])
        for vi, var in enumerate(ty["variants"]):
            c = BDD.AND(is_variant(a, vi, n), is_variant(b, vi, n)) if n > 1 else 1
            inf = (ty["name"], len(var["fields"]))
            for i, f in enumerate(var["fields"]):
                if c == 0:
                    break
                if f[0] in skip:
                    continue
                e = eq_by_type(P, peel(P, f[1]), BDD.restrict(fld(a, vi, i, inf), c), BDD.restrict(fld(b, vi, i, inf), c), user)
                c = BDD.AND(c, e)
            r = BDD.OR(r, c)
        return r

    def value(self, t, a, b, skip=()):
        n = t["name"]
        if n == FP + "FpText":
            na, nb = self.F("footprint::FpText", a, "name"), self.F("footprint::FpText", b, "name")
            both = 0
            for w in ("reference", "value"):
                both = BDD.OR(both, BDD.AND(same(na, lit(w)), same(nb, lit(w))))
            return BDD.OR(both, self.field(t, a, b))
        return self.field(t, a, b, tuple(skip) + tuple(LEFT_OUT.get(n, ())))


def result(S, key, a, b):
    fl, g, _, v = S.run(key, ["a", "b"], values={"a": a, "b": b})
    return g, asbool(v)


def rows(S):
    P = S.P
    out = []
    for t in P.types:
        if t["k"] != "adt" or t["crate"] != "kicad_parse_gen" or not t["name"].startswith((KP + "footprint::", KP + "layout::")):
            continue
        k = P.eq_impl(t["name"])
        if k is not None and (t["name"], k) not in [(x["name"], y) for x, y, _ in out]:
            out.append((t, k, ()))
    k = S.find("lay_nc_equal_no_net")
    if k is not None:
        out.append((S.adt("layout::NetClass"), k, ("nets",)))
    return out


def check(prop, P):
    R = Report(prop, TECH)
    R.assumptions = ["floating point values are not NaN", "equality of strings and of unparsed S-expressions is structural"]
    S = Equal(P)
    rs = rows(S)
    for t, key, skip in rs:
        label = t["name"][len(KP):] + (" without nets" if skip else "")

        def go(emit, t=t, key=key, skip=skip, label=label):
            a, b = K(mk("var", "a")), K(mk("var", "b"))
            g, r = result(S, key, a, b)
            one(emit, label + " returns", g, "the equality of %s returns" % label)
            one(emit, label, BDD.OR(BDD.NOT(g), BDD.IFF(r, S.value(t, a, b, skip))), "the equality of " + label)
            if len(t["variants"]) == 1:
                fs = t["variants"][0]["fields"]
                inf = (t["name"], len(fs))
                for i, f in enumerate(fs):
                    b1 = agg(t["name"], 0, [fld(b if j == i else a, 0, j, inf) for j in range(len(fs))])
                    a1 = agg(t["name"], 0, [fld(a, 0, j, inf) for j in range(len(fs))])
                    g, r = result(S, key, a1, b1)
                    one(emit, "%s: %s" % (label, f[0]), BDD.OR(BDD.NOT(g), BDD.IFF(r, S.value(t, a1, b1, skip))),
                        "the equality of two %s that differ at most in %s" % (label, f[0]))
        R.many(label, go)
        R.functions.add(key)
    R.floor("equalities_compared", len(rs), 22)
    return R.finish()


def one(emit, k, c, what):
    try:
        r = settle(c, what)
        emit(k, "ok" if r is None else "violation", r or "")
    except Undecided as e:
        emit(k, "undecided", str(e))
