"""Specification values: what a function's result or final state has to be,
written as values of the value graph, and the comparison with what the code
computes."""
import vg
from vg import *
from flow import Flow, upd
from prims import OPT
from program import Program
from p_sexp import unknown_ops

KP = "kicad_parse_gen::"


class Spec(object):
    def __init__(self, P):
        self.P = P
        self.infos = {}
        self.byname = {}
        for t in P.types:
            if t["k"] == "adt":
                self.infos.setdefault(t["name"], t)
        for k, i in P.insts.items():
            self.byname.setdefault(i["name"], k)
        self.n = 0
        self.facts = 1

    # -- functions -------------------------------------------------------------
    def find(self, name):
        """instance by its full name; probe functions by theirs"""
        for n in ("probe::" + name, name):
            k = self.byname.get(n)
            if k is not None and self.P.fn(k) is not None:
                return k
        return None

    def method(self, ty, trait, name):
        return self.find("<%s%s as %s%s>::%s" % (KP, ty, "" if trait.startswith("std::") else KP, trait, name)) or (
            self.find("<%s%s as %s>::%s" % (KP, ty, trait, name)))

    def run(self, key, names=None, stop=None, assume=None, values=None):
        """(flow, return condition, final state by argument name, result)"""
        P = self.P
        fl = Flow(P, stop)
        fn = P.fn(key)
        names = names or ["a", "b", "c", "d", "e", "f"][:fn.argc]
        st = {}
        args = []
        cells = {}
        for i, nm in enumerate(names):
            v = (values or {}).get(nm, K(mk("var", nm)))
            t = P.types[fn.locals[1 + i]]
            if t["k"] == "ref" and t["mut"]:
                c = fl.new_cell(st, v)
                cells[nm] = c
                args.append(K(Ptr(c, ())))
            else:
                args.append(v)
        g, st, v = fl.run_fn(key, args, 1 if assume is None else assume, st)
        self.state = st
        return fl, g, {nm: st.get(c, BOT) for nm, c in cells.items()}, v

    # -- values ----------------------------------------------------------------
    def adt(self, ty):
        for n in (KP + ty, ty):
            if n in self.infos:
                return self.infos[n]
        raise Undecided("no type " + ty)

    def fields(self, ty, variant=0):
        return [f[0] for f in self.adt(ty)["variants"][variant]["fields"]]

    def vindex(self, ty, name):
        return [v["name"] for v in self.adt(ty)["variants"]].index(name)

    def F(self, ty, v, name):
        """field of a struct"""
        t = self.adt(ty)
        fs = [f[0] for f in t["variants"][0]["fields"]]
        if name not in fs:
            raise Undecided("%s has no field %s" % (ty, name))
        return fld(v, 0, fs.index(name), (t["name"], len(fs)))

    def with_(self, ty, v, **new):
        t = self.adt(ty)
        fs = [f[0] for f in t["variants"][0]["fields"]]
        for k in new:
            if k not in fs:
                raise Undecided("%s has no field %s" % (ty, k))
        return agg(t["name"], 0, [new[f] if f in new else fld(v, 0, i, (t["name"], len(fs))) for i, f in enumerate(fs)])

    def is_(self, ty, v, name):
        t = self.adt(ty)
        return is_variant(v, self.vindex(ty, name), len(t["variants"]))

    def payload(self, ty, v, name, i=0):
        t = self.adt(ty)
        k = self.vindex(ty, name)
        return fld(v, k, i, (t["name"], len(t["variants"][k]["fields"])))

    def variant(self, ty, name, *fields):
        t = self.adt(ty)
        return agg(t["name"], self.vindex(ty, name), list(fields))

    def cases(self, ty, v, table):
        """v with the payload of the named variants replaced by f(payload)"""
        r = v
        for name, f in table.items():
            r = ite(self.is_(ty, v, name), self.variant(ty, name, f(self.payload(ty, v, name))), r)
        return r

    def idx(self, L):
        self.n += 1
        return mk("idx", Node(L), "spec%d" % self.n)

    def map(self, L, f):
        i = self.idx(L)
        return maplist(L, i, f(elem(L, K(i))))

    def filter(self, L, c, f=None):
        """elements satisfying c, in order"""
        i = self.idx(L)
        e = elem(L, K(i))
        return K(cat("l", [("rep", Node(L), i, (("opt", Node(c(e)), (("el", Node(f(e) if f else e)),)),))]))

    def opt(self, v, f):
        c = is_variant(v, 1, 2)
        return ite(c, some(f(fld(v, 1, 0, (OPT, 1)))), none())

    def first(self, L, c, f):
        """Some(f(first element satisfying c)) or None"""
        i = self.idx(L)
        e = elem(L, K(i))
        cond = c(e)
        ex = exists(L, i, cond)
        pos = pick_pos("first", L, i, cond)
        self.facts = BDD.AND(self.facts, BDD.OR(BDD.NOT(ex), subst(cond, {i: pos})))
        return ite(ex, some(f(elem(L, pos))), none())

    def replace_first(self, L, c, f):
        """L with the first element satisfying c replaced by f of it"""
        i = self.idx(L)
        cond = c(elem(L, K(i)))
        ex = exists(L, i, cond)
        pos = pick_pos("first", L, i, cond)
        self.facts = BDD.AND(self.facts, BDD.OR(BDD.NOT(ex), subst(cond, {i: pos})))
        return ex, ite(ex, BDD.map1(L, lambda l: upd(l, pos, f(elem(K(l), pos)))), L)

    def any(self, L, c):
        i = self.idx(L)
        return exists(L, i, c(elem(L, K(i))))


def none():
    return agg(OPT, 0, [])


def name_of(P, ty):
    return ty


def compare_value(S, emit, key, ty, got, want, care=1, what="the result"):
    """one obligation per field (struct) or variant (enum)"""
    def one(k, c):
        c = BDD.OR(BDD.NOT(care), c)
        try:
            r = settle(c, what)
            emit(k, "ok" if r is None else "violation", r or "")
        except Undecided as e:
            emit(k, "undecided", str(e))
    t = None
    if ty is not None:
        try:
            t = S.adt(ty)
        except Undecided:
            t = None
    if t is None:
        one(key, same(got, want))
    elif len(t["variants"]) == 1:
        fs = t["variants"][0]["fields"]
        for i, f in enumerate(fs):
            inf = (t["name"], len(fs))
            one("%s: %s" % (key, f[0]), same(fld(got, 0, i, inf), fld(want, 0, i, inf)))
    else:
        n = len(t["variants"])
        for vi, var in enumerate(t["variants"]):
            c = is_variant(want, vi, n)
            one("%s: %s" % (key, var["name"]), BDD.OR(BDD.NOT(c), same(got, want)))


def settle(c, what):
    """None: always; text: definitely not; Undecided otherwise"""
    c = consistent(c) if c not in (0, 1) else c
    if c == 1:
        return None
    bad = unknown_ops(c)
    if bad:
        raise Undecided("%s depends on %s" % (what, ", ".join(bad)))
    vg.SHORT = {}
    return "%s is as required only if %s" % (what, render(c)[:500])
