"""Writer tables against reader tables for the S-expression formats.

For every type with a writer (into_sexp) and a reader (from_sexp) flow.py gives
  W_T(a)  the list of items the writer emits for a value a, with the condition
          under which each item is present and the field it comes from;
  R_T(s)  the reader's result as an expression of consumption events.
The tables are joined item by item: every event is matched with the item it
meets in the writer table, parts of type U are taken as read back by U's own
pair (checked on its own row).  The row is good when the joined result is the
value that was written.
"""
from vg import *
import vg
from flow import Flow, USER
import prims
from prims import OPT, RES, SEXP, impl_type

IA = prims.IA
STR, LIST, EMPTYV = 0, 1, 2


class alone(object):
    """no join is in progress while a table is extracted"""
    def __enter__(self):
        self.old = active[:]
        active[:] = []

    def __exit__(self, *a):
        active[:] = self.old


class Mismatch(Undecided):
    pass


class Tables(object):
    def __init__(self, P):
        self.P = P
        self.wkey = {}
        self.rkey = {}
        for k, i in P.insts.items():
            if i["crate"] not in USER or P.fn(k) is None:
                continue
            n = i["name"]
            if n.endswith("::into_sexp") and "IntoSexp" in n:
                self.wkey[impl_type(n)] = k
            if n.endswith("::from_sexp") and "FromSexp" in n:
                self.rkey[impl_type(n)] = k
        self.W = {}
        self.R = {}
        self.fty = {}
        for t in P.types:
            if t["k"] == "adt":
                for vi, v in enumerate(t["variants"]):
                    for fi, f in enumerate(v["fields"]):
                        self.fty[(t["name"], vi, fi)] = f[1]
        self.opaque = set()
        self.flows = {}
        self.depth = 0
        self.used = set()

    def flow(self, key, args):
        fl = Flow(self.P)
        fl.sexp_depth = 0
        st = {}
        a = []
        fn = self.P.fn(key)
        for i, n in enumerate(args):
            t = self.P.types[fn.locals[1 + i]]
            v = K(mk("var", n))
            if t["k"] == "ref" and t["mut"]:
                v = K(Ptr(fl.new_cell(st, v), ()))
            a.append(v)
        g, st, v = fl.run_fn(key, a, 1, st)
        return fl, g, st, v

    def writer(self, ty):
        if ty not in self.W:
            k = self.wkey.get(ty)
            if k is None:
                raise Mismatch("no writer for %s" % ty)
            with alone():
                fl, g, st, v = self.flow(k, ["a"])
            self.flows[("w", ty)] = fl
            self.W[ty] = v
        return self.W[ty]

    def reader(self, ty):
        if ty not in self.R:
            k = self.rkey.get(ty)
            if k is None:
                raise Mismatch("no reader for %s" % ty)
            with alone():
                fl, g, st, v = self.flow(k, ["s"])
            self.flows[("r", ty)] = fl
            self.R[ty] = v
        return self.R[ty]

    # -- items -------------------------------------------------------------------
    def open(self, n):
        """expand nonterminals on the leaves of an item node"""
        def f(x):
            if isT(x, "sx"):
                w = self.writer(x.args[0])
                return subst(w, {mk("var", "a"): x.args[1].n})
            return K(x)
        for _ in range(6):
            if not any(isT(BDD.leaf[l], "sx") for l in leaves(n)):
                return n
            n = merge(BDD.map1(n, f))
        raise Mismatch("nested nonterminals")

    def strnode(self, n):
        """(is string, string) of an item"""
        n = self.open(n)
        c = is_variant(n, STR, 3)
        if c == 0:
            return 0, BOT
        return c, spread(fld(n, STR, 0, (SEXP, 1)))

    def listnode(self, n):
        n = self.open(n)
        return is_variant(n, LIST, 3), fld(n, LIST, 0, (SEXP, 1))

    def split_head(self, l):
        """list node -> (nonempty condition, head item node, tail list node)"""
        def f(x):
            ps = pieces(x)
            return self.head(ps)
        return self.map3(l, f)

    def head(self, ps):
        if not ps:
            return 0, BOT, BOT
        p, rest = ps[0], tuple(ps[1:])
        if p[0] == "el":
            return 1, p[1].n, K(cat("l", rest))
        if p[0] == "opt":
            a = self.head(tuple(p[2]) + rest)
            b = self.head(rest)
            g = p[1].n
            return tuple(ite(g, x, y) for x, y in zip(a, b))
        if p[0] == "alt":
            return self.map3(p[1].n, lambda x: self.head(tuple(pieces(x)) + rest))
        if p[0] == "rep":
            ne = nonempty(p[1].n)
            b = self.head(rest)
            h = self.head(tuple(p[3]))
            if h[0] != 1 or len(p[3]) != 1:
                u = K(mk("undecided", "repetition of several items", p))
                return BDD.OR(ne, b[0]), u, u
            first = subst(h[1], {p[2]: K(0)})
            return BDD.OR(ne, b[0]), ite(ne, first, b[1]), ite(ne, K(mk("cat", "l", ("sp", mk("after_first", p)), *rest)), b[2])
        u = K(mk("undecided", "unknown items", p))
        return BDD.atom(("undecided", p)), u, u

    def map3(self, n, f):
        outs = [BDD.map1(n, lambda x, i=i: (BOT if x is BOTT else f(x)[i]) if i else (0 if x is BOTT else f(x)[0])) for i in range(3)]
        return outs[0], merge(clean(outs[1])), merge(clean(outs[2]))

    def exactly2(self, l):
        """list node -> (has exactly two items, first, second)"""
        c1, h, t = self.split_head(l)
        if c1 == 0:
            return 0, BOT, BOT
        c2, h2, t2 = self.split_head(t)
        if c2 == 0:
            return 0, BOT, BOT
        c3 = self.split_head(t2)[0]
        return BDD.AND(BDD.AND(c1, c2), BDD.NOT(c3)), h, h2

    # -- conversions ------------------------------------------------------------------
    def res(self, c, v):
        return ite(c, ok(v), err(ERROR))

    def number(self, ty, s):
        def f(x):
            if x is BOTT:
                return BOT
            if isT(x, "str"):
                t = x.args[0]
                try:
                    if ty in ("f64", "f32"):
                        return ok(fconst(Fraction(t)))
                    if ty.startswith("u") and t.startswith("-"):
                        return err(ERROR)
                    return ok(K(int(t)))
                except ValueError:
                    return err(ERROR)
            if isT(x, "cat") and len(x.args) == 2:
                p = x.args[1]
                if p[0] == "disp" and p[1] == "":
                    k = self.kind(p[2].n)
                    if k == "float" and ty in ("f64",):
                        return ok(p[2].n)
                    if k == "int" and ty in ("i64", "f64"):
                        return ok(p[2].n)
                    if k == "uint" and ty in ("u64", "usize", "i64", "f64"):
                        return ok(p[2].n)
                if p[0] == "alt":
                    return self.number(ty, p[1].n)
            return K(mk("num", ty, x))
        return merge(clean(BDD.map1(s, f)))

    def kind(self, n):
        ks = set()
        for l in leaves(n):
            x = BDD.leaf[l]
            if isinstance(x, FLin) or isT(x) and x.op in ("fmul", "fdiv", "fabs", "fmin", "fmax"):
                ks.add("float")
            elif isinstance(x, (Lin, int)):
                ks.add("int")
            elif isT(x, "fld"):
                t = self.fty.get((x.args[3][0], x.args[1], x.args[2]))
                if t is None or x.args[3][0] in (OPT,):
                    # payload of an option: type of the option's argument
                    y = x.args[0]
                    t2 = None
                    if isT(y, "fld"):
                        ty = self.fty.get((y.args[3][0], y.args[1], y.args[2]))
                        if ty is not None and self.P.types[ty].get("name") == OPT:
                            t2 = [a for a in self.P.types[ty]["args"] if isinstance(a, int)][0]
                    t = t2
                if t is None:
                    ks.add("?")
                    continue
                d = self.P.types[t]
                ks.add("float" if d["k"] == "float" else ("int" if d["k"] == "int" and d["signed"] else "uint" if d["k"] == "int" else d["k"]))
            else:
                ks.add("?")
        return ks.pop() if len(ks) == 1 else "?"

    def named_value(self, v, name):
        c, l = self.listnode(v)
        if c == 0:
            return 0, BOT
        c2, h, x = self.exactly2(l)
        if c2 == 0:
            return 0, BOT
        c3, s = self.strnode(h)
        eqn = same(s, name) if c3 != 0 else 0
        return BDD.AND(BDD.AND(c, c2), BDD.AND(c3, eqn)), x

    def known(self, x):
        return x is BOTT or isT(x, "sx") or (isT(x, "agg") and x.args[0] == SEXP)

    def conv(self, kind, ty, name, v):
        if kind != "t":
            v = self.open(v)
        if kind != "t" and not all(self.known(BDD.leaf[l]) for l in leaves(v)):
            nm = Node(name if name is not None else K(mk("none")))
            return merge(clean(BDD.map1(v, lambda x: self.conv1(kind, ty, name, K(x)) if self.known(x) else K(mk("conv", kind, ty, nm, Node(K(x)))))))
        return self.conv1(kind, ty, name, v)

    def conv1(self, kind, ty, name, v):
        if v == BOT:
            return BOT
        if kind == "s":
            c, s = self.strnode(v)
            return self.res(c, s)
        if kind in ("i", "f"):
            c, s = self.strnode(v)
            if c == 0:
                return err(ERROR)
            return ite(c, self.number({"i": "i64", "f": "f64"}[kind], s), err(ERROR))
        if kind in ("s_in_list", "i_in_list", "f_in_list"):
            c, x = self.named_value(v, name)
            if c == 0:
                return err(ERROR)
            return ite(c, self.conv(kind[0], ty, name, x), err(ERROR))
        if kind == "t":
            return self.parse(ty, v)
        if kind == "t_in_list":
            c, x = self.named_value(v, name)
            if c == 0:
                return err(ERROR)
            return ite(c, self.parse(ty, x), err(ERROR))
        if kind == "literal_s":
            c, s = self.strnode(v)
            if c == 0:
                return err(ERROR)
            return self.res(BDD.AND(c, same(s, name)), s)
        raise Mismatch("event " + kind)

    def parse(self, ty, v):
        def f(x):
            if x is BOTT:
                return BOT
            if isT(x, "sx"):
                if x.args[0] == ty:
                    self.used.add(ty)
                    return ok(x.args[1].n)
                if self.one_row(x):
                    return self.read(ty, K(x))
                return self.parse(ty, self.open(K(x)))
            if isT(x, "agg") and x.args[0] == SEXP:
                return self.read(ty, K(x))
            return K(mk("parse", ty, Node(K(x))))
        return merge(clean(BDD.map1(self.rows(v), f)))

    def one_row(self, x):
        n = self.rows(self.open(K(x)))
        return BDD.is_leaf(n)

    def rows(self, v):
        """an item that is a choice of lists as a choice of items"""
        def item(x):
            if isT(x, "agg") and x.args[0] == SEXP and x.args[1] == LIST:
                return clean(BDD.map1(x.args[2].n, lst))
            return K(x)

        def lst(l):
            if isT(l, "cat") and l.args[1:] and l.args[1][0] == "alt":
                rest = tuple(l.args[2:])
                return BDD.map1(l.args[1][1].n, lambda y: BOT if y is BOTT else lst(cat("l", tuple(pieces(y)) + rest)))
            return BOT if l is BOTT else K(mk("agg", SEXP, LIST, Node(K(l))))
        return clean(BDD.map1(v, item))

    def read(self, ty, item):
        """reader table of ty joined with an item"""
        self.depth += 1
        if self.depth > 12:
            self.depth = 0
            raise Mismatch("reader nesting")
        r = self.reader(ty)
        old = active[:]
        active[:] = [self]
        try:
            return subst(r, {mk("var", "s"): item})
        finally:
            active[:] = old
            self.depth -= 1

    # -- rows ----------------------------------------------------------------------
    def field(self, ty, name):
        """(variant, index, type id) of a field of a struct"""
        for t in self.P.types:
            if t["k"] == "adt" and t["name"] == ty and t["variants"]:
                for i, f in enumerate(t["variants"][0]["fields"]):
                    if f[0] == name:
                        return i, f[1], t
        return None

    def domain_env(self, ty):
        env = {}
        for t, path, kind in KINDS:
            if ty.split("::")[-1] != t:
                continue
            x = K(mk("var", "a"))
            cur = ty
            good = True
            for name in path.split("."):
                if name == "0" and cur == OPT:
                    x = fld(x, 1, 0, (OPT, 1))
                    cur = self.P.types[arg]["name"]
                    continue
                r = self.field(cur, name)
                if r is None:
                    good = False
                    break
                x = fld(x, 0, r[0], (cur, len(r[2]["variants"][0]["fields"])))
                d = self.P.types[r[1]]
                cur = d.get("name")
                if cur == OPT:
                    arg = [a for a in d["args"] if isinstance(a, int)][0]
            if not good:
                continue
            vs = [v["name"] for t2 in self.P.types if t2["k"] == "adt" and t2["name"] == cur for v in t2["variants"]]
            if kind in vs:
                env[leafof(x)] = agg(cur, vs.index(kind), [])
        return env

    def top(self, wkey, rkey):
        """the text entry points: reader of the writer's text"""
        with alone():
            fl, g, st, w = self.flow(wkey, ["a"])
            self.flows[("w", wkey)] = fl
            fl, g, st, r = self.flow(rkey, ["s"])
            self.flows[("r", rkey)] = fl
        with within_domain(self):
            w = subst(w, {})
        active[:] = [self]
        try:
            r = subst(r, {mk("var", "s"): fld(w, 0, 0, (RES, 1))})
        finally:
            active[:] = []
        with within_domain(self):
            okc = subst(BDD.AND(is_variant(w, 0, 2), is_variant(r, 0, 2)), {})
        return okc, fld(r, 0, 0, (RES, 1)), K(mk("var", "a")), {}

    def row(self, ty):
        """join of a type's writer and reader within the domain: (ok condition, value, written value)"""
        a = K(mk("var", "a"))
        with within_domain():
            r = self.parse(ty, self.writer(ty))
        env = self.domain_env(ty)
        opening.append(self)
        try:
            with within_domain(self):
                r = subst(r, env)
        finally:
            opening.pop()
        return is_variant(r, 0, 2), fld(r, 0, 0, (RES, 1)), a, env

    def number_atom(self, k):
        """facts about numbers: equality is order both ways, the display of a
        number is no keyword, unsigned numbers are not negative"""
        if k[0] == "eq":
            x, y = k[1], k[2]
            for a, b in ((x, y), (y, x)):
                if isT(a, "str") and isT(b, "cat") and len(b.args) == 2 and b.args[1][0] == "disp" \
                        and self.kind(b.args[1][2].n) in ("float", "int", "uint"):
                    try:
                        float(a.args[0])
                    except ValueError:
                        return 0
            if isT(x) and isT(y) and self.kind(K(x)) == "float" and self.kind(K(y)) == "float":
                return compare("Eq", K(x), K(y), True)
        if k[0] == "ge" and k[2] == 0 and isT(k[1]) and self.kind(K(k[1])) == "uint":
            return 1
        return None

    # -- events ----------------------------------------------------------------------
    def step(self, kind, ty, name, rem):
        """(result, remaining items) of one consumption event"""
        if kind == "vec":
            return self.vec(ty, rem), EMPTY["l"]
        maybe = kind.startswith("maybe_")
        k = kind[6:] if maybe else kind
        res = BDD.map1(rem, lambda x: BOT if x is BOTT else self.step1(k, ty, name, pieces(x), maybe)[0])
        new = BDD.map1(rem, lambda x: BOT if x is BOTT else self.step1(k, ty, name, pieces(x), maybe)[1])
        return merge(clean(res)), merge_rem(clean(new))

    def step1(self, k, ty, name, ps, maybe):
        if not ps:
            return (NONE if maybe else err(ERROR)), K(cat("l", ps))
        p, rest = ps[0], tuple(ps[1:])
        here = K(mk("cat", "l", *ps))
        if p[0] == "el":
            r = self.conv(k, ty, name, p[1].n)
            if not maybe:
                return r, K(cat("l", rest))
            c = is_variant(r, 0, 2)
            return ite(c, some(fld(r, 0, 0, (RES, 1))), NONE), pick(c, K(mk("cat", "l", *rest)), here)
        if p[0] == "opt":
            a = self.step1(k, ty, name, tuple(p[2]) + rest, maybe)
            b = self.step1(k, ty, name, rest, maybe)
            return ite(p[1].n, a[0], b[0]), pick(p[1].n, a[1], b[1])
        if p[0] == "alt":
            out = [merge(clean(BDD.map1(p[1].n, lambda x, i=i: self.step1(k, ty, name, tuple(pieces(x)) + rest, maybe)[i]))) for i in range(1)]
            rem = clean(BDD.map1(p[1].n, lambda x: self.step1(k, ty, name, tuple(pieces(x)) + rest, maybe)[1]))
            return out[0], rem
        if p[0] == "rep" and maybe:
            # an optional event in front of a repetition must reject its items
            if len(p[3]) == 1 and p[3][0][0] == "el":
                r = self.conv(k, ty, name, p[3][0][1].n)
                if is_variant(r, 0, 2) == 0:
                    b = self.step1(k, ty, name, rest, maybe)
                    ne = nonempty(p[1].n)
                    return ite(ne, NONE, b[0]), pick(ne, here, b[1])
        u = K(mk("undecided", "event %s meets %s" % (k, p[0]), p))
        return u, u

    def vec(self, ty, rem):
        def f(x):
            if x is BOTT:
                return BOT
            okc, ps = self.vecp(ty, pieces(x))
            return self.res(okc, K(cat("l", ps)))
        return merge(clean(BDD.map1(rem, f)))

    def vecp(self, ty, ps):
        c = 1
        out = []
        for p in ps:
            if p[0] == "el":
                r = self.parse(ty, p[1].n)
                c = BDD.AND(c, is_variant(r, 0, 2))
                out.append(("el", Node(fld(r, 0, 0, (RES, 1)))))
            elif p[0] == "opt":
                c2, q = self.vecp(ty, p[2])
                c = BDD.AND(c, BDD.OR(BDD.NOT(p[1].n), c2))
                out.append(("opt", p[1], q))
            elif p[0] == "rep":
                c2, q = self.vecp(ty, p[3])
                c = BDD.AND(c, BDD.NOT(exists(p[1].n, p[2], BDD.NOT(c2))))
                out.append(("rep", p[1], p[2], q))
            elif p[0] == "alt":
                v = BDD.map1(p[1].n, lambda x: K(cat("l", self.vecp(ty, pieces(x))[1])))
                c2 = BDD.map1(p[1].n, lambda x: self.vecp(ty, pieces(x))[0])
                c = BDD.AND(c, c2)
                out.append(("alt", Node(v)))
            else:
                raise Mismatch("vec over %s" % rpiece(p))
        return c, tuple(out)

    def event(self, x, node):
        kind, ty = x.args[0], x.args[1]
        return self.step(kind, ty, node(x.args[2].n), node(x.args[3].n))


def pick(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    return BDD.ite(c, a, b)


def merge_rem(n):
    return n


# values outside the property's domain: free-text layer names have no dot (the
# printed form joins side and name with one)
def tokens(p, sep):
    if p[0] == "sp" and isT(p[1], "fld"):
        c = p[1].args[3][0]
        return sep == "." and c.endswith("::LayerType")
    return False


prims.TOKENS = tokens
active = []
opening = []


# -- domain of the round-trip properties -------------------------------------------------
KINDS = [("FpLine", "start.t", "Start"), ("FpLine", "end.t", "End"), ("FpArc", "start.t", "Start"), ("FpArc", "end.t", "End"),
         ("FpCircle", "center.t", "Center"), ("FpCircle", "end.t", "End"), ("Pad", "size.t", "Size"), ("Font", "size.t", "Xy"),
         ("Pad", "rect_delta.0.t", "RectDelta")]


def free_text(x):
    """free text of an open-ended enum"""
    return isT(x, "fld") and x.args[3][0].endswith("::LayerType")


def free_item(x):
    """an item kept verbatim"""
    if not isT(x) or x.op not in ("elem", "fld"):
        return False
    while isT(x) and x.op in ("elem", "fld"):
        x = x.args[0]
    return isT(x, "var") and x.args[0] != "s"


def domain_atom(k):
    h = k[0]
    if h == "eq":
        for x, y in ((k[1], k[2]), (k[2], k[1])):
            if not isT(x, "str"):
                continue
            if free_text(y):
                return 0
            # name of a verbatim item: not one the format gives a meaning to
            if isT(y, "fld") and isT(y.args[0], "sexp") and y.args[0].args[0] == "list_name" and free_item(leafof(y.args[0].args[1].n)):
                return 0
            if isT(y, "fld") and y.args[3][0].endswith("::SetupElement") and x.args[0] == "pcbplotparams":
                return 0
            if isT(y, "fld") and isT(y.args[0], "fld") and y.args[0].args[3][0].endswith("::Drill"):
                return 1 if x.args[0] == "oval" else 0
    if h in ("is", "bit") and isT(k[1]):
        bit = h == "bit"
        if k[1].op == "parse" and free_item(leafof(k[1].args[1].n)):
            return 1 if (bit or k[2] == 1) else 0
        if k[1].op == "sexp" and k[1].args[0] == "print":
            return 0 if (bit or k[2] == 1) else 1
        if k[1].op == "sexp" and k[1].args[0] in ("list", "list_name") and free_item(leafof(k[1].args[1].n)):
            return 0 if (bit or k[2] == 1) else 1
    if h == "ge" and isT(k[1], "len") and k[2] == 1:
        # a verbatim item is a list that starts with its name
        y = k[1].args[0]
        if isT(y, "fld") and isT(y.args[0], "sexp") and y.args[0].args[0] == "list" and free_item(leafof(y.args[0].args[1].n)):
            return 1
    if h == "named" and free_item(leafof(k[1].n)):
        return 0
    return None


class within_domain(object):
    def __init__(self, t=None):
        self.t = t

    def __enter__(self):
        ASSUME.append(domain_atom)
        if self.t is not None:
            ASSUME.append(self.t.number_atom)

    def __exit__(self, *a):
        ASSUME.pop()
        if self.t is not None:
            ASSUME.pop()


# -- hooks into substitution ---------------------------------------------------------
def raw_ev(x, node, leaf):
    if not active:
        return None
    return active[-1].event(x, node)[0]


def raw_it(x, node, leaf):
    if not active or x.args[0] != "cur":
        return None
    t = active[-1]
    y = x.args[1]
    if isT(y, "ev"):
        return t.event(y, node)[1]
    if isT(y, "head"):
        s = node(y.args[0].n)
        c, l = t.listnode(s)
        if c == 0:
            return BOT
        c2, h, r = t.split_head(l)
        return r
    if isT(y, "list"):
        c, l = t.listnode(node(y.args[0].n))
        return l
    return None


def raw_tail(x, node, leaf):
    if not active:
        return None
    return leaf(x.args[0])


def raw_sexp(x, node, leaf):
    if not active:
        return None
    t = active[-1]
    what = x.args[0]
    s = node(x.args[1].n)
    if what == "parse":
        v = printed(s)
        return None if v is None else ok(v)
    if what == "print":
        return None
    s = t.open(s)
    if not all(t.known(BDD.leaf[l]) for l in leaves(s)):
        more = x.args[2:]
        return merge(clean(BDD.map1(s, lambda y: sexp_get(t, what, x, K(y), node) if t.known(y)
                                    else K(mk("sexp", what, Node(K(y)), *[Node(node(a.n)) for a in more])))))
    return sexp_get(t, what, x, s, node)


def printed(s):
    """the value whose text this is: the parser inverts the printer, and blanks
    around the text do not matter"""
    x = leafof(s)
    if not isT(x):
        return None
    ps = [p for p in pieces(x) if not (p[0] == "lit" and not p[1].strip())]
    if len(ps) == 1 and ps[0][0] == "sp" and isT(ps[0][1], "fld"):
        y = ps[0][1].args[0]
        if isT(y, "sexp") and y.args[0] == "print" and ps[0][1].args[1] == 0:
            return y.args[1].n
    return None


def sexp_get(t, what, x, s, node):
    if s == BOT:
        return BOT
    if what in ("s", "string"):
        return t.conv("s", "", None, s)
    if what in ("f", "i"):
        return t.conv(what, "", None, s)
    if what == "list":
        c, l = t.listnode(s)
        return t.res(c, l)
    if what == "list_name":
        c, l = t.listnode(s)
        if c == 0:
            return err(ERROR)
        c2, h, r = t.split_head(l)
        c3, n = t.strnode(h)
        return t.res(BDD.AND(c, c3), n)
    if what in ("named_value_s", "named_value_i", "named_value_f"):
        return t.conv(what[-1] + "_in_list", "", node(x.args[2].n), s)
    return K(mk("sexp", what, Node(s), *[Node(node(a.n)) for a in x.args[2:]]))


def raw_parse(x, node, leaf):
    if not active:
        return None
    return active[-1].parse(x.args[0], node(x.args[1].n))


def raw_num(x, node, leaf):
    if not active:
        return None
    return active[-1].number(x.args[0], leaf(x.args[1]))


def raw_radix(x, node, leaf):
    if not active:
        return None
    r = leafof(node(x.args[1].n))

    def f(y):
        if isT(y, "cat") and len(y.args) == 2 and y.args[1][0] == "disp" and y.args[1][1] and y.args[1][1][0] == "upper_hex" and r == 16:
            return ok(y.args[1][2].n)
        return K(mk("parse_radix", Node(K(y)), x.args[1]))
    return BDD.map1(node(x.args[0].n), f)


def atom_named(k, node, leaf):
    if not active:
        return None
    t = active[-1]
    name = node(k[2].n)

    def f(x):
        if x is BOTT:
            return BOT
        if not t.known(x):
            return BDD.atom(("named", Node(K(x)), Node(name)))
        c, l = t.listnode(K(x))
        if c == 0:
            return 0
        c2, h, r = t.split_head(l)
        if c2 == 0:
            return 0
        c3, n = t.strnode(h)
        if c3 == 0:
            return 0
        return BDD.AND(BDD.AND(c, c2), BDD.AND(c3, same(n, name)))
    return clean(BDD.map1(t.open(node(k[1].n)), f))


def atom_islist(k, node, leaf):
    if not active:
        return None
    t = active[-1]
    return clean(BDD.map1(t.open(node(k[1].n)), lambda x: BOT if x is BOTT else (t.listnode(K(x))[0] if t.known(x) else BDD.atom(("islist", Node(K(x)))))))


def atom_closed(k, node, leaf):
    if not active:
        return None
    t = active[-1]
    return BDD.NOT(t.split_head(node(k[1].n))[0])


def open_sx(x):
    return active[-1].open(K(x)) if active else None


vg.EXPAND["sx"] = open_sx
def raw_sx(x, node, leaf):
    if opening:
        return node(opening[-1].open(K(x)))
    return None


def raw_unsigned(x, node, leaf):
    if not active:
        return None
    n = node(x.args[0].n) if isinstance(x.args[0], Node) else leaf(x.args[0])
    if active[-1].kind(n) == "uint":
        return n
    return None


RAW.update({"unsigned": raw_unsigned, "sx": raw_sx, "ev": raw_ev, "it": raw_it, "tail": raw_tail, "sexp": raw_sexp, "parse": raw_parse, "num": raw_num,
            "parse_radix": raw_radix})
ARULES.update({"named": atom_named, "islist": atom_islist, "closed": atom_closed})
