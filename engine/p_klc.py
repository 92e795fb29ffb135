"""C18: the convention checks report exactly the violated rules.

The list a check returns is taken apart into its items with the condition under
which each is in it; per rule and kind of item the number of items is compared
with the number of violated conditions of the rule.  Checks called by a check
are taken apart in turn, and what they report has to be passed on whole."""
import vg
from vg import *
from effects import *
from fractions import Fraction
from prims import r_fun1
from report import Report
import p_sexp

TECH = ("Every item of the lists the convention checks return, with the condition under which it is reported (gated value graph of the "
        "compiler's MIR), against the table of the rules' conditions: per rule the number of items equals the number of violated conditions.")
EPS = Fraction(2220446049250313, 10 ** 31)
FP = "footprint::"
SL = "symbol_lib::"
CF = "checkfix::"
p_sexp.KNOWN.update({"rem", "str_contains", "str_starts_with", "count", "call_item"})


# -- numbers of elements ---------------------------------------------------------
def tally(ps, w):
    """sum of w over the elements of a list: a number and parts (list, index, number per element)"""
    const, parts = K(0), []
    for p in ps:
        if p[0] == "el":
            const = add(const, w(p[1].n))
        elif p[0] == "opt":
            c, q = tally(p[2], w)
            if q:
                raise Undecided("number of elements of a conditional list")
            const = add(const, ite(p[1].n, c, K(0)))
        elif p[0] in ("sp", "alt"):
            l = K(p[1]) if p[0] == "sp" else p[1].n
            if not BDD.is_leaf(l):
                raise Undecided("number of elements of a chosen list")
            if isT(leafof(l), "cat"):
                c, q = tally(leafof(l).args[1:], w)
                const, parts = add(const, c), parts + q
            else:
                i = fresh_idx(l)
                parts.append((l, i, w(elem(l, K(i)))))
        else:
            if not BDD.is_leaf(p[1].n):
                raise Undecided("number of elements of a chosen list")
            l = leafof(p[1].n)
            if isT(l, "cat"):
                def each(v, l=l, p=p):
                    c, q = tally(subst_pieces(p[3], {mk("elem", l, Node(K(p[2]))): v}), w)
                    if q:
                        raise Undecided("number of elements of nested lists")
                    return c
                c, q = tally(l.args[1:], each)
                const, parts = add(const, c), parts + q
            else:
                c, q = tally(p[3], w)
                if q:
                    raise Undecided("number of elements of nested lists")
                parts.append((p[1].n, p[2], c))
    return const, parts


def fresh_idx(l):
    return mk("idx", Node(l), "count")


def counted(t):
    """a number of elements as (number, parts), parts (list, index, condition)"""
    const, d = lin_of(t)
    tot, parts = K(const), []
    if len(d) == 1 and isT(list(d)[0], "len") and not isT(list(d)[0].args[0], "cat"):
        return None
    for x, k in d.items():
        if k != 1:
            return None
        if isT(x, "len") and isT(x.args[0], "cat") and x.args[0].args[0] == "l":
            c, q = tally(x.args[0].args[1:], lambda v: K(1))
        elif isT(x, "sum") and BDD.is_leaf(x.args[0].n):
            l, i, w = leafof(x.args[0].n), x.args[1], x.args[2].n
            if isT(l, "cat"):
                c, q = tally(l.args[1:], lambda v: subst(w, {mk("elem", l, Node(K(i))): v}))
            else:
                c, q = K(0), [(x.args[0].n, i, w)]
        elif isT(x, "len"):
            i = fresh_idx(K(x.args[0]))
            c, q = K(0), [(K(x.args[0]), i, K(1))]
        else:
            return None
        tot, parts = add(tot, c), parts + q
    out = []
    for L, i, w in parts:
        if any(BDD.leaf[x] not in (0, 1) for x in leaves(w)):
            return None
        c = asbool(BDD.map1(w, lambda y: K(bool(y))))
        if c != 0:
            i, c = close_over(i, c)
            out.append((L, i, c))
    if any(not isinstance(BDD.leaf[x], int) for x in leaves(tot)):
        return None
    return tot, out


def at_least(parts, k):
    if k <= 0:
        return 1
    if not parts:
        return 0
    if k == 1:
        r = 0
        for L, i, c in parts:
            r = BDD.OR(r, exists(L, i, c))
        return r
    if len(parts) == 1 and parts[0][2] == 1:
        return ge0(lin_add(leafof(length(parts[0][0])), k, -1))
    args = []
    for L, i, c in sorted(parts):
        args += [Node(L), i, Node(c)]
    return BDD.atom(("ge", mk("count", *args), k))


def count_atom(k):
    if k[0] == "ge" and isT(k[1]):
        try:
            r = counted(k[1])
        except Undecided:
            return None
        if r is not None:
            tot, parts = r
            return canon(BDD.map1(tot, lambda n: at_least(parts, k[2] - n)))
    return None


def canon(n, memo=None):
    """a condition with its counting tests written one way"""
    memo = {} if memo is None else memo
    if BDD.is_leaf(n):
        return n
    if n in memo:
        return memo[n]
    k = BDD.atoms[BDD.var[n]]
    a = count_atom(k)
    if a is None:
        a = BDD.atom(k)
    r = BDD.ite(a, canon(BDD.hi[n], memo), canon(BDD.lo[n], memo))
    memo[n] = r
    return r


def counts(c):
    """what is true of numbers of elements"""
    f = 1
    by = {}
    for v in BDD.support(c):
        k = BDD.atoms[v]
        if k[0] == "ge" and isT(k[1], "count"):
            by.setdefault(k[1], set()).add(k[2])
    for t, ns in by.items():
        e = 0
        for j in range(0, len(t.args), 3):
            e = BDD.OR(e, exists(t.args[j].n, t.args[j + 1], t.args[j + 2].n))
        for n in ns:
            f = BDD.AND(f, BDD.OR(BDD.NOT(BDD.atom(("ge", t, n))), e))
        ns = sorted(ns)
        for a, b in zip(ns, ns[1:]):
            f = BDD.AND(f, BDD.OR(BDD.NOT(BDD.atom(("ge", t, b))), BDD.atom(("ge", t, a))))
    return f


# -- items of a list ---------------------------------------------------------------
class Items(object):
    def __init__(self, S, entry):
        self.S = S
        self.items = []        # (binders, condition, label)
        self.lost = []         # (text, condition)
        self.keys = {entry}
        self.care = 1          # the check returns
        data, vec = S.adt(CF + "CheckFixData"), None
        self.data = data["name"]
        self.item = S.adt(CF + "CheckFixItem")["name"]

    def stop(self, info):
        """functions that return a list of findings are taken apart on their own"""
        P = self.S.P
        k = self.S.byname.get(info["name"])
        if k is None or info["crate"] != "kicad_parse_gen":
            return False
        fn = P.fn(k)
        if fn is None or k == self.entry:
            return False
        t = P.types[fn.locals[0]]
        if t["k"] != "adt" or t["name"] != "std::vec::Vec":
            return False
        e = P.types[t["args"][0]]
        return e["k"] == "adt" and e["name"] == self.data

    def run(self, key, values, g, binds):
        self.entry = key
        names = ["a", "b", "c", "d", "e"][:self.S.P.fn(key).argc]
        fl, g0, cells, v = self.S.run(key, names, stop=self.stop, values=dict(zip(names, values)))
        self.keys |= set(fl.inlined)
        if cells:
            raise Undecided("a check that changes its arguments")
        self.care = BDD.AND(self.care, BDD.OR(BDD.NOT(g), g0))
        if g0 not in (0, 1):
            v = BDD.restrict(v, g0)
        calls = {}
        self.collect(v, g, binds, calls)
        for (t, b), ds in calls.items():
            c = self.passed(t, ds)
            k = self.S.byname.get(t.args[0])
            if k is None or self.S.P.fn(k) is None:
                raise Undecided("call of " + t.args[0])
            if k in self.keys and k == key:
                raise Undecided("recursive check")
            self.keys.add(k)
            self.run(k, [x.n for x in t.args[1:]], c, b)

    def passed(self, t, ds):
        """condition under which the findings of a call are handed on"""
        n = mk("len", t)
        some1, some2 = ge0(lin_add(n, 1, -1)), ge0(lin_add(n, 2, -1))
        tot = []
        both = BDD.AND(some1, some2)
        for case in (BDD.AND(some1, BDD.NOT(some2)), both):
            c = K(0)
            for g, whole in ds:
                if not whole and case == both:
                    # one element of several does not stand for all
                    continue
                h = BDD.restrict(BDD.AND(g, case), case)
                c = add(c, ite(h, K(1), K(0)))
            tot.append(c)
        one, many = tot
        for what, c in (("a single finding", one), ("several findings", many)):
            extra = BDD.map1(c, lambda y: 1 if y > 1 else 0)
            if extra != 0:
                self.lost.append(("%s of %s delivered more than once" % (what, t.args[0]), extra))
        a = BDD.map1(one, lambda y: 1 if y >= 1 else 0)
        b = BDD.map1(many, lambda y: 1 if y >= 1 else 0)
        if a != b:
            self.lost.append(("a single finding of %s is not delivered" % t.args[0], BDD.AND(b, BDD.NOT(a))))
            self.lost.append(("several findings of %s are not delivered" % t.args[0], BDD.AND(a, BDD.NOT(b))))
        return BDD.OR(a, b)

    def each(self, n, g):
        for x in leaves(n):
            c = BDD.AND(g, indicator(n, {x})) if not BDD.is_leaf(n) else g
            if c != 0 and BDD.leaf[x] is not BOTT:
                yield BDD.leaf[x], c

    def collect(self, n, g, binds, calls):
        for x, c in self.each(n, g):
            if isT(x, "cat"):
                self.pieces(x.args[1:], c, binds, calls)
            elif isT(x, "call"):
                calls.setdefault((x, binds), []).append((c, True))
            elif isT(x) and x.op in ("take", "rest") and isinstance(x.args[0], (T, Node)) and isT(x.args[0] if isT(x.args[0]) else leafof(x.args[0].n), "call"):
                t = x.args[0] if isT(x.args[0]) else leafof(x.args[0].n)
                self.lost.append(("only a part of the findings of %s is delivered" % t.args[0], c))
            else:
                raise Undecided("findings %s" % rleaf(x)[:100])

    def pieces(self, ps, g, binds, calls):
        if g == 0:
            return
        for p in ps:
            if p[0] == "el":
                self.element(p[1].n, g, binds, calls)
            elif p[0] == "opt":
                self.pieces(p[2], BDD.AND(g, p[1].n), binds, calls)
            elif p[0] == "alt":
                self.collect(p[1].n, g, binds, calls)
            elif p[0] == "sp":
                self.collect(K(p[1]), g, binds, calls)
            elif p[0] == "rep":
                for l, c in self.each(p[1].n, g):
                    if isT(l, "cat"):
                        for path, gd, bind, v in walk(l):
                            ps2 = subst_pieces(p[3], {mk("elem", l, Node(K(p[2]))): v})
                            self.pieces(ps2, BDD.AND(c, gd), binds + tuple(bind), calls)
                    else:
                        self.pieces(p[3], c, binds + ((p[1].n, p[2]),), calls)
            else:
                raise Undecided("list piece " + p[0])

    def element(self, v, g, binds, calls):
        for x, c in self.each(v, g):
            if isT(x, "agg") and x.args[0] == self.data:
                fs = fields_of(x)
                if x.args[1] == self.S.vindex(CF + "CheckFixData", "Item"):
                    for y, d in self.each(fs[0], c):
                        lab = []
                        for f in ("section", "rule", "info"):
                            z = self.S.F(CF + "CheckFixItem", K(y), f)
                            lab.append(z)
                        self.labels(lab, d, binds)
                else:
                    self.collect(fs[0], c, binds, calls)
            elif isT(x, "elem") and isT(x.args[0], "call") and x.args[1].n == K(0):
                calls.setdefault((x.args[0], binds), []).append((c, False))
            else:
                raise Undecided("finding %s" % rleaf(x)[:100])

    def labels(self, lab, g, binds):
        for a, c in self.each(lab[0], g):
            for b, d in self.each(lab[1], c):
                if lab[2] in (0, 1):
                    self.items.append((binds, d, (a, b, bool(lab[2]))))
                    continue
                for i, e in self.each(lab[2], d):
                    self.items.append((binds, e, (a, b, i)))


def asint(x):
    return x if isinstance(x, int) else None


# -- rules -------------------------------------------------------------------------
class Rules(object):
    """expected: {(list or None, label): [conditions]}"""
    def __init__(self, P):
        self.S = Spec(P)
        self.want = {}

    def rule(self, L, sec, num, cond, info=False):
        self.want.setdefault((L, (sec, num, info)), []).append(cond)

    def ne(self, v, n):
        return BDD.NOT(compare("Eq", v, K(n), False))

    def pins(self, sym):
        S = self.S
        L = S.F(SL + "Symbol", sym, "draw")
        i = S.idx(L)
        c = S.is_(SL + "Draw", elem(L, K(i)), "Pin")
        e = exists(L, i, c)
        i, c = close_over(i, c)
        return e, BDD.atom(("ge", mk("count", Node(L), i, Node(c)), 2))

    def graphics(self, sym):
        some_, two = self.pins(sym)
        r = self.S.F(SL + "Symbol", sym, "reference")
        return BDD.AND(starts(r, "#"), BDD.NOT(some_))

    def power(self, sym):
        some_, two = self.pins(sym)
        return BDD.AND(same(self.S.F(SL + "Symbol", sym, "reference"), lit("#PWR")), BDD.AND(some_, BDD.NOT(two)))

    def field(self, L, sym, f, care=1):
        S = self.S
        F = SL + "Field"
        self.rule(L, 4, 8, BDD.AND(care, self.ne(S.F(F, f, "dimension"), 50)))
        vis = asbool(S.F(F, f, "visible"))
        hid = BDD.NOT(vis)
        g, p = self.graphics(sym), self.power(sym)

        def nr(k):
            return compare("Eq", S.F(F, f, "i"), K(k), False)
        c = BDD.AND(nr(0), BDD.ite(g, vis, BDD.AND(hid, BDD.NOT(p))))
        c = BDD.OR(c, BDD.AND(nr(1), BDD.ite(BDD.OR(g, p), vis, hid)))
        c = BDD.OR(c, BDD.AND(BDD.OR(nr(2), nr(3)), vis))
        self.rule(L, 4, 9, BDD.AND(care, c))

    def pin(self, L, p, care=1):
        S = self.S
        T = SL + "Pin"

        def F(n):
            return S.F(T, p, n)

        def rule(num, c, info=False):
            self.rule(L, 4, num, BDD.AND(care, c), info)
        for n, grid in (("x", 100), ("y", 100), ("len", 50)):
            rule(1, self.ne(arith("Rem", F(n), K(grid), False), 0))
        rule(1, compare("Lt", F("len"), K(100), False), True)
        rule(1, compare("Gt", F("len"), K(300), False), True)
        nc = S.is_(SL + "PinType", F("pin_type"), "NotConnected")
        rule(7, BDD.AND(contains(F("name"), "nc"), BDD.NOT(nc)))
        rule(7, BDD.IFF(nc, asbool(F("pin_visible"))))
        rule(8, self.ne(F("num_size"), 50))
        rule(8, self.ne(F("name_size"), 50))

    def rectangle(self, L, r, care=1):
        S = self.S
        self.rule(L, 4, 2, BDD.AND(care, BDD.NOT(S.is_(SL + "Fill", S.F(SL + "Rectangle", r, "fill"), "FilledBackground"))))
        self.rule(L, 4, 2, BDD.AND(care, self.ne(S.F(SL + "Rectangle", r, "thickness"), 10)))

    def draw(self, L, d, care=1):
        S = self.S
        T = SL + "Draw"
        for kind, f in (("Pin", self.pin), ("Rectangle", self.rectangle)):
            c = BDD.AND(care, S.is_(T, d, kind))
            f(L, S.payload(T, d, kind), c)

    def symbol(self, a):
        S = self.S
        T = SL + "Symbol"
        L = S.F(T, a, "fields")
        self.field(L, a, elem(L, K(bound(L))))
        L = S.F(T, a, "draw")
        self.draw(L, elem(L, K(bound(L))), BDD.NOT(BDD.OR(self.graphics(a), self.power(a))))

    def module(self, m, cfg):
        S = self.S
        M, E, X = FP + "Module", FP + "Element", FP + "FpText"
        L = S.F(M, m, "elements")
        cm = S.F(CF + "Config", cfg, "m")
        size, thick = S.F(CF + "ModConfig", cm, "font_size"), S.F(CF + "ModConfig", cm, "font_thickness")

        def off(a, b):
            d = r_fun1("fabs", fsub(a, b))
            return compare("Gt", d, fconst(EPS), True)
        for name, num, value, layer in (("reference", 3, lit("REF**"), "SilkS"), ("value", 4, S.F(M, m, "name"), "Fab"), ("user", 4, lit("%R"), "Fab")):
            o = S.first(L, lambda e: BDD.AND(S.is_(E, e, "FpText"), BDD.restrict(same(S.F(X, S.payload(E, e, "FpText"), "name"), lit(name)), S.is_(E, e, "FpText"))),
                        lambda e: S.payload(E, e, "FpText"))
            there = is_variant(o, 1, 2)
            t = fld(o, 1, 0, (OPT, 1))
            if there not in (0, 1):
                t = BDD.restrict(t, there)
            font = S.F(FP + "Effects", S.F(X, t, "effects"), "font")
            sz = S.F(FP + "Font", font, "size")
            x, y = S.F(FP + "Xy", sz, "x"), S.F(FP + "Xy", sz, "y")

            def rule(c, info=False):
                self.rule(None, 7, num, BDD.AND(there, c), info)
            rule(BDD.NOT(same(S.F(X, t, "value"), value)))
            rule(BDD.NOT(S.is_(FP + "LayerType", S.F(FP + "Layer", S.F(X, t, "layer"), "t"), layer)))
            if name != "user":
                rule(asbool(S.F(X, t, "hide")))
            if name != "value":
                rule(off(x, y))
            rule(off(y, size), True)
            rule(off(x, size), True)
            rule(off(S.F(FP + "Font", font, "thickness"), thick), True)
            self.rule(None, 7, num, BDD.NOT(there))
        i = S.idx(L)
        e = elem(L, K(i))
        ln = S.is_(E, e, "FpLine")
        court = BDD.AND(ln, BDD.restrict(S.is_(FP + "LayerType", S.F(FP + "Layer", S.F(FP + "FpLine", S.payload(E, e, "FpLine"), "layer"), "t"), "CrtYd"), ln))
        j, c = close_over(i, court)
        self.rule(None, 7, 5, BDD.NOT(BDD.atom(("ge", mk("count", Node(L), j, Node(c)), 4))))

        def pad(kind):
            def f(e):
                p = S.is_(E, e, "Pad")
                return BDD.AND(p, BDD.restrict(S.is_(FP + "PadType", S.F(FP + "Pad", S.payload(E, e, "Pad"), "t"), kind), p))
            return S.any(L, f)

        def attr(e):
            p = S.is_(E, e, "Attr")
            return BDD.AND(p, BDD.restrict(same(S.payload(E, e, "Attr"), lit("smd")), p))
        smd, pth, has = pad("Smd"), pad("Pth"), S.any(L, attr)
        self.rule(None, 8, 1, BDD.AND(BDD.AND(smd, BDD.NOT(pth)), BDD.NOT(has)))
        self.rule(None, 9, 1, BDD.AND(BDD.AND(pth, BDD.NOT(smd)), has))


def starts(s, p):
    return BDD.map1(s, lambda x: BDD.atom(("str_starts_with", x, mk("str", p))))


def contains(s, p):
    return BDD.map1(s, lambda x: BDD.atom(("str_contains", mk("str_to_lowercase", x), mk("str", p))))


def bound(L):
    return mk("idx", Node(L), "rule")


# -- characters ----------------------------------------------------------------------
DOMAIN = list(range(0, 0x500)) + [0x2000, 0x3000, 0xffff, 0x10ffff]
ALLOWED = set(map(ord, "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_-."))


def charset(c, t):
    """characters for which a condition on one character holds"""
    if c in (0, 1):
        return set(DOMAIN) if c else set()
    k = BDD.atoms[BDD.var[c]]
    hi, lo = charset(BDD.hi[c], t), charset(BDD.lo[c], t)
    s = None
    if k[0] == "ge":
        const, d = lin_of(k[1])
        if set(d) == {t}:
            s = {x for x in DOMAIN if const + d[t] * x >= k[2]}
    elif k[0] == "ex":
        l = leafof(k[1].n)
        if isT(l, "chars"):
            text = leafof(l.args[0].n) if isinstance(l.args[0], Node) else l.args[0]
            if isT(text, "str"):
                s = set()
                for ch in set(text.args[0]):
                    s |= charset(subst(k[3].n, {mk("elem", l, Node(K(k[2]))): K(ord(ch))}), t)
    if s is None:
        raise Undecided("condition on a character: " + show_key(k)[:200])
    return (s & hi) | (set(DOMAIN) - s) & lo


# -- comparison ------------------------------------------------------------------------
def total(cs):
    n = K(0)
    for c in cs:
        n = add(n, ite(c, K(1), K(0)))
    return n


def label(l):
    return "rule %s.%s%s" % (l[0], l[1], " (information)" if l[2] else "")


def compare_rules(emit, name, I, R):
    have, chars = {}, []
    for binds, g, lab in I.items:
        if len(binds) > 1:
            raise Undecided("findings in nested walks")
        g = canon(g)
        L = None
        if binds:
            L, i = binds[0]
            g = subst(g, {i: K(bound(L))})
        have.setdefault((L, lab), []).append(g)
    facts = BDD.AND(R.S.facts, canon(I.care))
    for key in sorted(set(have) | set(R.want), key=lambda k: (str(k[1]), render(k[0]) if k[0] is not None else "")):
        L, lab = key
        if L is not None and lab[:2] == (1, 7):
            continue
        got, want = total(have.get(key, [])), total(canon(c) for c in R.want.get(key, []))
        ok_ = BDD.OR(BDD.NOT(facts), same(got, want))
        if ok_ not in (0, 1):
            ok_ = BDD.OR(ok_, BDD.NOT(counts(ok_)))
        where = "" if L is None else " for every %s" % {"fields": "field", "draw": "drawn item"}.get(render(L).split(".")[-1], render(L)[:60])
        try:
            r = settle(ok_, "the number of items of %s" % label(lab))
            emit("%s: %s%s" % (name, label(lab), where), "ok" if r is None else "violation", r or "")
        except Undecided as e:
            emit("%s: %s%s" % (name, label(lab), where), "undecided", str(e))
    for text, c in I.lost:
        c = consistent(c) if c not in (0, 1) else c
        if c != 0:
            emit("%s: %s" % (name, text), "violation", "when " + render(c)[:300])
    return have


def names_checked(emit, name, have, text, wholly=False):
    """rule 1.7 for every character of a name"""
    rows = [(L, gs) for (L, lab), gs in have.items() if L is not None and lab == (1, 7, False)]
    if any(lab[:2] == (1, 7) and (L is None or lab[2]) for L, lab in have):
        raise Undecided("rule 1.7 not per character")
    if not rows:
        emit(name + ": rule 1.7", "violation", "the characters of the name are not checked")
        return
    n = {x: K(0) for x in DOMAIN}
    for L, gs in rows:
        for g in gs:
            if not wholly:
                continue
            t = leafof(elem(L, K(bound(L))))
            for x in charset(g, t):
                n[x] = add(n[x], K(1))
    if wholly:
        bad = sorted(x for x in DOMAIN if n[x] != K(0 if x in ALLOWED else 1))
        emit(name + ": rule 1.7", "violation" if bad else "ok", "wrong number of items for the characters %s" % [chr(x) for x in bad[:10]])
        if len(rows) != 1 or not isT(leafof(rows[0][0]), "chars") or rows[0][0] != charlist(text):
            emit(name + ": rule 1.7 walk", "undecided", "walks " + render(rows[0][0])[:200])
        else:
            emit(name + ": rule 1.7 walk", "ok")


def charlist(text):
    return BDD.map1(text, lambda x: K(mk("chars", x)))


def check(prop, P):
    return {"C18": reports, "C17": fixes}[prop](prop, P)


def reports(prop, P):
    R = Report(prop, TECH)
    R.assumptions = ["coordinates and sizes are not NaN"]
    total_items = [0]
    rows = []
    for name, key, fill in (
            ("pin", "sym_pin_check", lambda r: r.pin(None, var("a"))),
            ("rectangle", "sym_rect_check", lambda r: r.rectangle(None, var("a"))),
            ("drawn item", "sym_draw_check", lambda r: r.draw(None, var("a"))),
            ("symbol", "sym_check", lambda r: r.symbol(var("a"))),
            ("footprint", "fp_check", lambda r: r.module(var("a"), var("b"))),
            ("name", "cf_allowed", lambda r: None)):
        def go(name=name, key=key, fill=fill):
            out = []

            def emit(k, s, t=""):
                out.append((k, s, t))
            fns, n = set(), 0
            try:
                r = Rules(P)
                k = r.S.find(key)
                if k is None:
                    raise Undecided("no function " + key)
                fill(r)
                I = Items(r.S, k)
                I.run(k, [var(x) for x in "ab"[:P.fn(k).argc]], 1, ())
                fns = {P.insts[x]["name"] for x in I.keys}
                n = len(I.items)
                have = compare_rules(emit, name, I, r)
                if name == "name":
                    names_checked(emit, name, have, var("a"), True)
                if name == "symbol":
                    symbol_name(emit, r.S, have)
            except Undecided as e:
                emit(name, "undecided", str(e))
            return [(out, fns, n)]
        rows.append((name, go))
    from report import isolated
    for name, go in rows:
        r = isolated(go, 200, name)
        if len(r) == 1 and isinstance(r[0][0], list):
            out, fns, n = r[0]
            R.functions |= fns
            total_items[0] += n
            for k, s, t in out:
                R.add(k, s, t)
        else:
            for k, s, t in r:
                R.add(k, s, t)
    R.many("output", lambda emit: handed_out(emit, Spec(P)))
    R.floor("checks taken apart", len(rows), 6)
    R.counts["items with their conditions"] = total_items[0]
    return R.finish()


def handed_out(emit, S):
    """a finding is handed to the output, a list of findings element by element"""
    D = CF + "CheckFixData"
    key = next((k for k, i in S.P.insts.items() if i["name"] == KP + D + "::dump_on_logger" and S.P.fn(k) is not None), None)
    if key is None:
        raise Undecided("no function that hands the findings out")
    fl, g, cells, v = S.run(key)
    a = var("a")
    item, more = S.is_(D, a, "Item"), S.is_(D, a, "More")
    one, many = 0, 0
    x, L = S.payload(D, a, "Item"), S.payload(D, a, "More")
    for kind, gd, data, where, loops in fl.log:
        if kind != "call" or not isT(data[1], "call"):
            continue
        args = [y.n for y in data[1].args[1:] if isinstance(y, Node)]
        if x in args and not loops:
            one = BDD.OR(one, gd)
        for lid, i in loops:
            if isT(i, "idx") and isinstance(i.args[0], Node) and i.args[0].n == L and elem(L, K(i)) in args:
                c = BDD.restrict(gd, more)
                for u in BDD.support(c):
                    if BDD.atoms[u][0] == "more":
                        c = BDD.restrict(c, BDD.atom(BDD.atoms[u]))
                many = BDD.OR(many, BDD.AND(more, c))
    calls = [d for k, _, d, _, _ in fl.log if k == "call"]
    for what, c in (("a finding", BDD.OR(BDD.NOT(item), one)), ("a list of findings", BDD.OR(BDD.NOT(more), many))):
        if c != 1 and not calls:
            emit("output: " + what, "undecided", "no calls seen")
        else:
            emit("output: " + what, "ok" if c == 1 else "violation", "handed out only when " + render(c)[:300])


def symbol_name(emit, S, have):
    """rule 1.7 covers the name of the symbol without the mark of a hidden name"""
    rows = [(L, gs) for (L, lab), gs in have.items() if lab == (1, 7, False)]
    nm = S.F(SL + "Symbol", var("a"), "name")
    if len(rows) != 1 or rows[0][0] is None:
        emit("symbol: rule 1.7", "violation" if not rows else "undecided", "the name of a symbol is not checked")
        return
    L, gs = rows[0]
    st = starts(nm, "~")
    plain = BDD.restrict(L, BDD.NOT(st))
    c = same(plain, charlist(nm))
    if c != 1 and unknown_ops(c):
        emit("symbol: rule 1.7", "undecided", "walks " + render(plain)[:200])
    else:
        emit("symbol: rule 1.7", "ok" if c == 1 else "violation", "the characters of %s are checked instead of those of the name" % render(plain)[:200])
    hidden = BDD.restrict(L, st)
    if hidden == charlist(nm):
        emit("symbol: rule 1.7 with ~", "violation", "the mark of a hidden name is checked as part of the name")
    else:
        emit("symbol: rule 1.7 with ~", "ok")


def var(n):
    return K(mk("var", n))


# -- C17: the fix ------------------------------------------------------------------------
FTECH = ("The value a footprint has after the fix (gated value graph of the compiler's MIR, for footprints with and without each of the three "
         "texts and any other elements), the check's findings on it, the value after fixing it once more, and the pieces of it that have to be as they were.")
TEXTS = (("r", "reference"), ("v", "value"), ("u", "user"))
# what the rules are about
ADDRESSED = {"value", "hide", "layer.t", "effects.font.size.x", "effects.font.size.y", "effects.font.thickness"}


class Fixed(object):
    """a footprint with given texts before and after the fix"""
    def __init__(self, P, which):
        S = self.S = Spec(P)
        self.which = which
        E, X = FP + "Element", FP + "FpText"
        names = [n for c, n in TEXTS]
        absent = [n for c, n in TEXTS if c not in which]
        W, R = var("W"), var("X")
        for L, without in ((W, names), (R, absent)):
            for n in without:
                c = S.any(L, lambda e: BDD.AND(S.is_(E, e, "FpText"), BDD.restrict(same(S.F(X, S.payload(E, e, "FpText"), "name"), lit(n)), S.is_(E, e, "FpText"))))
                vg.ABSENT.update(BDD.atoms[u] for u in BDD.support(c))
        self.texts = {c: S.with_(X, var(c), name=lit(n)) for c, n in TEXTS if c in which}
        ps = [("sp", leafof(W))] + [("el", Node(S.variant(E, "FpText", self.texts[c]))) for c, n in TEXTS if c in which] + [("sp", leafof(R))]
        self.old = K(cat("l", ps))
        self.m = S.with_(FP + "Module", var("a"), elements=self.old)
        self.inlined = set()
        self.fixed = self.fix(self.m)
        self.rules = Rules(P)

    def fix(self, m):
        def stop(i):
            return "bounding_box" in i["name"] or i["name"].endswith("Module::at")
        fl, g, cells, v = self.S.run(self.S.find("fp_fix"), ["a", "b"], stop=stop, values={"a": m})
        self.inlined |= set(fl.inlined)
        if g != 1:
            raise Undecided("the fix returns only when " + render(g)[:200])
        if set(cells) - {"a"}:
            raise Undecided("the fix changes other things")
        return self.tidy(cells.get("a", m))

    def tidy(self, m):
        return self.S.with_(FP + "Module", m, elements=self.tidy_list(self.S.F(FP + "Module", m, "elements")))

    def tidy_list(self, L):
        if not BDD.is_leaf(L):
            raise Undecided("elements chosen: " + render(L)[:200])
        l = leafof(L)
        if not isT(l, "cat"):
            raise Undecided("elements " + rleaf(l)[:200])
        return K(cat("l", self.tidy_pieces(l.args[1:])))

    def tidy_pieces(self, ps):
        out = []
        for p in ps:
            if p[0] == "opt":
                c = canon(p[1].n)
                c = 0 if c != 1 and consistent(BDD.AND(c, counts(c))) == 0 else c
                if c == 0:
                    continue
                q = self.tidy_pieces(p[2])
                out += q if c == 1 else [("opt", Node(c), tuple(q))]
            elif p[0] == "rep" and BDD.is_leaf(p[1].n) and isT(leafof(p[1].n), "cat"):
                out += self.tidy_pieces(self.spread(p))
            else:
                out.append(p)
        return out

    def spread(self, p):
        """a walk over a list of known pieces as pieces"""
        l = leafof(p[1].n)
        for q in l.args[1:]:
            if q[0] == "el":
                for x in subst_pieces(p[3], {mk("elem", l, Node(K(p[2]))): q[1].n}):
                    yield x
            elif q[0] == "sp":
                i = mk("idx", Node(K(q[1])), "fix")
                yield ("rep", Node(K(q[1])), i, tuple(subst_pieces(p[3], {mk("elem", l, Node(K(p[2]))): elem(K(q[1]), K(i))})))
            else:
                raise Undecided("a walk over " + render(K(l))[:200])


def fixes(prop, P):
    R = Report(prop, FTECH)
    R.assumptions = ["coordinates and sizes are not NaN", "elements in the order: any others, reference, value and second reference text as far as present, any others"]
    from report import isolated
    done = [0, 0]
    for n in range(8):
        which = "".join(c for k, (c, _) in enumerate(TEXTS) if n >> k & 1)
        name = "with " + (", ".join(t for c, t in TEXTS if c in which) or "no") + " text"

        def go(which=which, name=name):
            out, fns = [], set()

            def emit(k, s, t=""):
                out.append(("%s: %s" % (name, k), s, t))
            done = 0
            try:
                F = Fixed(P, which)
                for f in (quiet_after, twice, frame):
                    try:
                        f(emit, F, P)
                        done += 1
                    except Undecided as e:
                        emit(f.__doc__, "undecided", str(e))
                fns = {P.insts[x]["name"] for x in F.inlined}
            except Undecided as e:
                emit("fix", "undecided", str(e))
            return [(out, fns, done)]
        r = isolated(go, 200, name)
        if len(r) == 1 and isinstance(r[0][0], list):
            out, fns, k = r[0]
            R.functions |= fns
            done[0] += k
            for k, s, t in out:
                R.add(k, s, t)
        else:
            for k, s, t in r:
                R.add(k, s, t)
    R.floor("footprints taken apart", 8, 8)
    R.counts["comparisons made"] = done[0]
    return R.finish()


def quiet_after(emit, F, P):
    """no addressed complaint after the fix"""
    S = F.S
    k = S.find("fp_check")
    I = Items(S, k)
    I.run(k, [F.fixed, var("b")], 1, ())
    F.inlined |= I.keys
    have = {}
    for binds, g, lab in I.items:
        g = canon(g)
        if binds:
            c = consistent(g) if g not in (0, 1) else g
            if c == 0:
                continue
            raise Undecided("findings in a walk")
        have.setdefault(lab, []).append(g)
    left = {(7, 3, False): 0 if "r" in F.which else 1, (7, 4, False): 0 if "v" in F.which else 1}
    for lab in sorted(set(have) | set(left) | {(7, 3, True), (7, 4, True), (7, 5, False), (8, 1, False)}, key=str):
        if lab[:2] == (9, 1):
            continue
        got = total(have.get(lab, []))
        more = BDD.map1(got, lambda y: 1 if y > left.get(lab, 0) else 0)
        ok_ = BDD.NOT(more)
        if ok_ not in (0, 1):
            ok_ = BDD.OR(ok_, BDD.NOT(counts(ok_)))
        try:
            r = settle(ok_, "after the fix no item of %s" % label(lab))
            emit(label(lab), "ok" if r is None else "violation", r or "")
        except Undecided as e:
            emit(label(lab), "undecided", str(e))
    for text, c in I.lost:
        raise Undecided(text)


def twice(emit, F, P):
    """fixing again changes nothing"""
    again = F.fix(F.fixed)
    for f in F.S.fields(FP + "Module"):
        a, b = F.S.F(FP + "Module", F.fixed, f), F.S.F(FP + "Module", again, f)
        if a == b:
            emit("fixing twice: " + f, "ok")
            continue
        r = settle(same(a, b), "%s after fixing twice" % f)
        if r is None:
            emit("fixing twice: " + f, "ok")
            continue
        what = ""
        if f == "elements":
            pa, pb = leafof(a).args[1:], leafof(b).args[1:]
            what = "; ".join(render(K(cat("l", [p])))[:200] for p in pb if p not in pa)
        emit("fixing twice: " + f, "violation", "differs: " + (what or r))


def leaves_of(S, t, v, w, path=""):
    """field paths of a text that no rule is about, with both values"""
    for f in S.fields(t):
        p = path + f
        if p in ADDRESSED:
            continue
        a, b = S.F(t, v, f), S.F(t, w, f)
        sub = {"layer": "Layer", "effects": "Effects", "effects.font": "Font", "effects.font.size": "Xy"}.get(p)
        if sub and any(x.startswith(p + ".") for x in ADDRESSED):
            for y in leaves_of(S, FP + sub, a, b, p + "."):
                yield y
        else:
            yield p, a, b


def frame(emit, F, P):
    """what no rule is about stays"""
    S = F.S
    E, X = FP + "Element", FP + "FpText"
    for f in S.fields(FP + "Module"):
        if f != "elements":
            a, b = S.F(FP + "Module", F.m, f), S.F(FP + "Module", F.fixed, f)
            r = settle(same(a, b), "the %s" % f)
            emit("the %s stays" % f, "ok" if r is None else "violation", r or "")
    queue = [(p, 1) for p in leafof(S.F(FP + "Module", F.fixed, "elements")).args[1:]]
    old = list(leafof(F.old).args[1:])
    courtyard, attribute = court_missing(S, F.old), attr_missing(S, F.old)
    while queue:
        p, g = queue.pop(0)
        if p[0] == "opt":
            queue = [(q, BDD.AND(g, p[1].n)) for q in p[2]] + queue
            continue
        if p[0] == "el":
            v = p[1].n
            text = S.is_(E, v, "FpText")
            if old and old[0][0] == "el" and text == 1:
                w = S.payload(E, old[0][1].n, "FpText")
                u = S.payload(E, v, "FpText")
                nm = render(S.F(X, w, "name"))
                if same(S.F(X, u, "name"), S.F(X, w, "name")) == 1:
                    if g != 1:
                        emit("the %s text stays" % nm, "violation", "it is kept only when " + render(g)[:200])
                    for path, a, b in leaves_of(S, X, u, w):
                        r = settle(same(a, b), "%s of the %s text" % (path, nm))
                        emit("%s of the %s text stays" % (path, nm), "ok" if r is None else "violation", r or "")
                    old.pop(0)
                    continue
            if text == 1:
                ok_ = same(S.F(X, S.payload(E, v, "FpText"), "name"), lit("user"))
                if "u" in F.which:
                    ok_ = 0
                what, need = "text", 1
            elif S.is_(E, v, "Attr") == 1:
                ok_ = same(S.payload(E, v, "Attr"), lit("smd"))
                what, need = "placement attribute", attribute
            elif S.is_(E, v, "FpLine") == 1:
                ok_ = S.is_(FP + "LayerType", S.F(FP + "Layer", S.F(FP + "FpLine", S.payload(E, v, "FpLine"), "layer"), "t"), "CrtYd")
                what, need = "courtyard line", courtyard
            else:
                what, ok_, need = "element", 0, 1
            ok_ = BDD.OR(BDD.NOT(g), BDD.AND(ok_, need))
            if ok_ not in (0, 1):
                ok_ = BDD.OR(ok_, BDD.NOT(counts(ok_)))
            r = settle(ok_, "adding the %s" % what)
            emit("%s added only where it is missing" % what, "ok" if r is None else "violation", "%s: %s" % (render(v)[:150], r or ""))
            continue
        if old and p == old[0] and g == 1:
            old.pop(0)
            continue
        if p[0] == "sp" and p[1] in (leafof(var("W")), leafof(var("X"))):
            emit("the other elements stay", "violation", "they are in the list in another place, more than once or only when " + render(g)[:200])
            continue
        if p[0] == "rep" and old and old[0][0] == "sp" and p[1].n == K(old[0][1]):
            e = elem(p[1].n, K(p[2]))
            kept, q = 1, p[3]
            while len(q) == 1 and q[0][0] == "opt":
                kept, q = BDD.AND(kept, q[0][1].n), q[0][2]
            if len(q) == 1 and q[0][0] == "el":
                r = settle(BDD.OR(BDD.NOT(kept), same(q[0][1].n, e)), "another element")
                emit("other elements stay as they were", "ok" if r is None else "violation", r or "")
                r = settle(kept, "keeping another element")
                emit("other elements are kept", "ok" if r is None else "violation", r or "")
                old.pop(0)
                continue
        if p[0] == "rep":
            raise Undecided("elements rebuilt: " + render(K(cat("l", [p])))[:200])
        raise Undecided("elements " + render(K(cat("l", [p])))[:200])
    emit("every element stays", "ok" if not old else "violation", "lost: " + "; ".join(render(K(cat("l", [p])))[:100] for p in old))


def court_missing(S, L):
    E = FP + "Element"

    def w(e):
        ln = S.is_(E, e, "FpLine")
        c = BDD.AND(ln, BDD.restrict(S.is_(FP + "LayerType", S.F(FP + "Layer", S.F(FP + "FpLine", S.payload(E, e, "FpLine"), "layer"), "t"), "CrtYd"), ln)) if ln != 0 else 0
        return ite(c, K(1), K(0))
    i = S.idx(L)
    l = leafof(L)
    const, parts = tally(l.args[1:], w)
    ps = []
    for A, i, n in parts:
        i, c = close_over(i, asbool(BDD.map1(n, lambda y: K(bool(y)))))
        ps.append((A, i, c))
    return BDD.NOT(BDD.map1(const, lambda n: at_least(ps, 4 - n)))


def attr_missing(S, L):
    E = FP + "Element"

    def pad(kind):
        def f(e):
            p = S.is_(E, e, "Pad")
            return BDD.AND(p, BDD.restrict(S.is_(FP + "PadType", S.F(FP + "Pad", S.payload(E, e, "Pad"), "t"), kind), p)) if p != 0 else 0
        return anyof(S, L, f)

    def attr(e):
        p = S.is_(E, e, "Attr")
        return BDD.AND(p, BDD.restrict(same(S.payload(E, e, "Attr"), lit("smd")), p)) if p != 0 else 0
    return BDD.AND(BDD.AND(pad("Smd"), BDD.NOT(pad("Pth"))), BDD.NOT(anyof(S, L, attr)))


def anyof(S, L, f):
    r = 0
    for p in leafof(L).args[1:]:
        r = BDD.OR(r, f(p[1].n) if p[0] == "el" else S.any(K(p[1]), f))
    return r
