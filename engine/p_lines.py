"""C03, C04: line printers and line readers agree."""
import vg
from vg import *
from effects import Spec, compare_value, settle, none, KP
from flow import Flow
from prims import OPT, RES
from lines import *
from report import Report
import p_sexp

# strings that are written as they are and may not contain blanks
WORDS = {("schematic::Description", "size"), ("schematic::Component", "name"), ("schematic::Component", "reference"),
         ("schematic::Sheet", "unique"), ("schematic::Text", "shape"), ("symbol_lib::Symbol", "name"), ("symbol_lib::Symbol", "reference"),
         ("symbol_lib::Pin", "name"), ("symbol_lib::Pin", "number"), ("symbol_lib::Symbol", "aliases")}
# strings that take a whole line
LINES = {("schematic::Component", "u"), ("schematic::Component", "ar_path"), ("schematic::Schematic", "libraries"),
         ("schematic::Schematic", "eelayer"), ("schematic::Text", "text"), ("schematic::Element", "0"), ("symbol_lib::Draw", "0")}


def result_type(P, key):
    t = P.types[P.fn(key).locals[0]]
    if t.get("name") != RES:
        return None
    a = [x for x in t["args"] if isinstance(x, int)]
    return P.tyname(a[0])


# lines that are kept as they are: none of the lines the printer knows
OTHERS = {("schematic::Element", "Other"), ("symbol_lib::Draw", "Other")}
# strings that begin with a fixed text
PREFIX = {("schematic::Component", "u"): "U ", ("schematic::Component", "ar_path"): "AR ", ("schematic::Schematic", "eelayer"): "EELAYER "}
NAMES03 = ("Reference", "Value", "Footprint", "UserDocLink")


class Lines(object):
    def __init__(self, P):
        self.P = P
        self.S = Spec(P)
        self.fty = {}
        for t in P.types:
            if t["k"] == "adt":
                for vi, v in enumerate(t["variants"]):
                    for fi, f in enumerate(v["fields"]):
                        self.fty[(t["name"], vi, fi)] = f
        self.tokenizers = {}
        self.sections = {}
        for k, i in P.insts.items():
            f = P.fn(k)
            if f is None or i["crate"] != "kicad_parse_gen":
                continue
            r = result_type(P, k)
            if r is None:
                continue
            args = [P.tyname(f.locals[1 + j]) for j in range(f.argc)]
            if r.startswith("std::vec::Vec<std::string::String") and args and args[-1] == "&str" and all("u64" in a or "usize" in a for a in args[:-1]):
                self.tokenizers[i["name"]] = k
            if r.startswith(KP) and len(args) >= 1 and args[0].startswith("&mut ") and args[0].endswith("::ParseState"):
                self.sections.setdefault((r, args[0][5:]), []).append(k)
        self.flows = {}
        self.writers = {}
        self.functions = set()

    def stop(self, info):
        return info["name"] in self.tokenizers

    def domain(self, t):
        """what a free string may contain, by the field it is in"""
        x = t
        if isT(x, "remainder"):
            return "word" if isT(x.args[0], "fld") and self.field(x.args[0])[1] == "shape" else "line"
        if isT(x, "elem"):
            x = x.args[0]
        if isT(x, "fld") and x.args[3][0] == OPT:
            x = x.args[0]
        if isT(x, "fld"):
            ty = x.args[3][0].replace(KP, "")
            f = self.fty.get((x.args[3][0], x.args[1], x.args[2]))
            key = (ty, f[0] if f else "?")
            if key in WORDS:
                return "word"
            if key in LINES:
                return "line"
            return "text"
        return None

    def field(self, x):
        """(type, field) of a field term"""
        f = self.fty.get((x.args[3][0], x.args[1], x.args[2]))
        return x.args[3][0].replace(KP, ""), f[0] if f else "?"

    def other(self, x):
        if not isT(x, "fld") or x.args[2] != 0:
            return False
        ty = x.args[3][0]
        t = self.S.infos.get(ty)
        return t is not None and (ty.replace(KP, ""), t["variants"][x.args[1]]["name"]) in OTHERS

    def shapes(self, x):
        """what the fields of the template are allowed to be: term -> value"""
        env = {}
        S = self.S
        for t in terms_in(K(x), lambda t: t.op in ("fld", "elem")):
            if t.op == "fld":
                k = self.field(t)
                b = K(t.args[0])
                if k in (("symbol_lib::Field", "name"), ("schematic::ComponentField", "name")):
                    i = S.F(k[0], b, "i")
                    v = lit(NAMES03[3])
                    for j in (2, 1, 0):
                        v = BDD.ite(compare("Le", i, K(j), False), lit(NAMES03[j]), v)
                    env[t] = BDD.ite(compare("Ge", i, K(4), False), K(t), v)
                elif k == ("schematic::Text", "shape"):
                    ty = S.F(k[0], b, "t")
                    c = BDD.OR(S.is_("schematic::TextType", ty, "Global"), S.is_("schematic::TextType", ty, "Hierarchical"))
                    env[t] = ite(c, some(K(mk("remainder", t))), none())
                elif k in PREFIX and k[1] != "ar_path":
                    env[t] = K(cat("s", [("lit", PREFIX[k]), ("sp", mk("remainder", t))]))
            elif isT(t.args[0], "fld") and self.field(t.args[0]) in PREFIX:
                env[t] = K(cat("s", [("lit", PREFIX[self.field(t.args[0])]), ("sp", mk("remainder", t))]))
        return env

    def facts(self, items):
        """conditions on unrecognised lines and field numbers"""
        heads = {}

        def first(it):
            if isinstance(it, T):
                return [it]
            if isinstance(it, Rep):
                return [x for _, xs in alternatives(it.items) for x in first_of(xs)]
            return []

        def first_of(xs):
            out = []
            for it in xs:
                out += first(it)
                if isinstance(it, T):
                    break
            return out

        def walk(xs):
            for j, it in enumerate(xs):
                if isinstance(it, Rep):
                    cases = alternatives(it.items)
                    mine = [c[0] for _, c in cases if len(c) == 1 and self.other(c[0])]
                    known = [y for _, c in cases for y in first_of(c) if not self.other(y)] + [y for z in xs for y in first(z)]
                    for t in mine:
                        heads.setdefault(t, set()).update(known)
                    for _, c in cases:
                        walk(c)
        for _, xs in alternatives(items):
            walk(xs)
        table = {}
        for t, ls in heads.items():
            hs = set()
            for l in ls:
                ps = pieces(l)
                if ps and ps[0][0] == "lit":
                    hs.add((ps[0][1], len(ps) == 1))
            table[t] = hs
        self.heads = table

        def fact(k):
            if k[0] == "ge" and isT(k[1], "fld") and k[2] <= 0 and self.field(k[1])[1] == "i":
                return 1
            if k[0] == "ge" and isT(k[1], "len"):
                x = k[1].args[0]
                if isT(x) and x.op in ("words", "chars"):
                    x = x.args[0]
                if x in table and k[2] == 1:
                    return 1
            if k[0] == "eq":
                for x, y in ((k[1], k[2]), (k[2], k[1])):
                    if not isT(x, "str") or not isT(y):
                        continue
                    if y in table and any(w and h == x.args[0] for h, w in table[y]):
                        return 0
                    if isT(y, "elem") and isT(y.args[0], "words") and leafof(y.args[1].n) == 0 and y.args[0].args[0] in table:
                        if any(h.split()[:1] == [x.args[0]] and (w or h.split(x.args[0], 1)[1][:1] == " ") for h, w in table[y.args[0].args[0]]):
                            return 0
            if k[0] == "str_starts_with" and k[1] in table and isT(k[2], "str"):
                p = k[2].args[0]
                for h, w in table[k[1]]:
                    first = h.split()[:1]
                    if first and h.startswith(p) and p.startswith(first[0]) and (len(first[0]) > 1 or p[1:2] == " "):
                        return 0
            return None
        return fact

    def flow(self, key, names, stop=None, values=None, counting=False):
        P = self.P
        fl = Flow(P, stop or self.stop)
        fl.counting = counting
        fn = P.fn(key)
        st = {}
        args = []
        cells = {}
        for i, nm in enumerate(names):
            v = (values or {}).get(nm, K(mk("var", nm)))
            t = P.types[fn.locals[1 + i]]
            if t["k"] == "ref" and t["mut"]:
                c = fl.new_cell(st, v)
                cells[nm] = c
                args.append(K(Ptr(c, ())))
            else:
                args.append(v)
        g, st, v = fl.run_fn(key, args, 1, st)
        self.functions |= fl.inlined
        return g, {nm: st.get(c, BOT) for nm, c in cells.items()}, v

    def writer(self, ty):
        """text template of a value named w"""
        if ty not in self.writers:
            k = self.S.method(ty.replace(KP, ""), "std::fmt::Display", "fmt")
            if k is None:
                raise Undecided("no printer of " + ty)
            g, st, v = self.flow(k, ["w", "out"], values={"out": EMPTY["s"]}, stop=lambda i: False, counting=True)
            x = leafof(flat(st["out"], "s"))
            if not isT(x):
                raise Undecided("text of " + ty)
            self.writers[ty] = (x, g)
        return self.writers[ty]

    def reader(self, key, names):
        if key not in self.flows:
            self.flows[key] = self.flow(key, names)
        return self.flows[key]

    # -- tokenizers
    def tokens(self, name):
        key = self.tokenizers[name]
        n = self.P.fn(key).argc
        names = ["t%d" % i for i in range(n)]

        def f(args):
            if key not in self.flows:
                self.flows[key] = self.flow(key, names, stop=lambda i: False)
            g, st, v = self.flows[key]
            return subst(v, {mk("var", nm): a for nm, a in zip(names, args)}), {}
        return f

    def calls(self):
        return {n: self.tokens(n) for n in self.tokenizers}


FILES = {"C03": ("schematic::Schematic", "sch_parse", ("filename",)), "C04": ("symbol_lib::SymbolLib", "sym_read", ())}


def check(prop, P):
    R = Report(prop, "The printer is summarised once as a text template and the parser once as gated values and loop transition tables; the tables "
                   "are composed along the lines of the template (one generic round per repeated group), and what the parser makes of each line "
                   "is compared, attribute by attribute, with the value that was printed.")
    ty, reader, skip = FILES[prop]
    L = Lines(P)
    S = L.S
    t = S.adt(ty)

    k = S.find(reader)
    names = ["a", "b"][:P.fn(k).argc]
    try:
        L.writer(KP + ty)
        rg, st, v = L.flow(k, names)
        for n in L.tokenizers:
            L.tokens(n)([K(mk("var", "t%d" % i)) for i in range(P.fn(L.tokenizers[n]).argc)])
    except Undecided as e:
        R.add(ty, "undecided", str(e))
        return R.finish()
    R.functions |= L.functions
    R.floor("functions analysed", len(R.functions), {"C03": 60, "C04": 40}[prop])

    def go(emit):
        x, g = L.writer(KP + ty)
        env = L.shapes(x)
        x = leafof(flat(subst(K(x), env), "s"))
        items = line_items(x)
        fact = L.facts(items)
        w = K(mk("var", "w"))
        fs = t["variants"][0]["fields"]
        inf = (t["name"], len(fs))
        for cond, its in alternatives(items):
            J = Join(P, L.domain, L.calls(), fact)
            with J:
                J.care = cond
                lay = Layout(its)
                r = subst(v, {mk("lines", mk("var", names[-1])): K(lay.term)})

                def one(key, c, what):
                    c = BDD.OR(BDD.NOT(cond), subst(c, env))
                    try:
                        d = settle(c, what)
                        emit(key, "ok" if d is None else "violation", d or "")
                    except Undecided as e:
                        emit(key, "undecided", "%s [%s]" % (e, "; ".join(J.why[-2:])[:300]))
                one("%s: is read" % ty, is_variant(r, 0, 2), "reading what was printed succeeds, and it")
                val = fld(r, 0, 0, (RES, 1))
                for i, f in enumerate(fs):
                    if f[0] in skip:
                        continue
                    parts(L, one, "%s: %s" % (ty, f[0]), fld(val, 0, i, inf), fld(w, 0, i, inf))
        pass
    R.many(ty, go, 400)
    return R.finish()


def parts(L, one, key, got, want):
    """one obligation per attribute"""
    S = L.S
    x = leafof(got)
    if isT(x, "agg") and x.args[0] in S.infos and x.args[0].startswith(KP) and len(S.infos[x.args[0]]["variants"]) == 1:
        fs = S.infos[x.args[0]]["variants"][0]["fields"]
        for i, f in enumerate(fs):
            parts(L, one, "%s.%s" % (key, f[0]), fld(got, 0, i, (x.args[0], len(fs))), fld(want, 0, i, (x.args[0], len(fs))))
        return
    w = leafof(want)
    if isT(x, "cat") and x.args[0] == "l" and len(x.args) == 2 and x.args[1][0] == "rep" and isT(w) and x.args[1][1].n == want:
        p = x.args[1]
        if len(p[3]) == 1 and p[3][0][0] == "el":
            v = p[3][0][1].n
            e = elem(want, K(p[2]))
            ys = [BDD.leaf[l] for l in leaves(v)]
            ctor = {y.args[0] for y in ys if isT(y, "agg")}
            if len(ctor) == 1 and all(isT(y, "agg") or K(y) == e for y in ys):
                c = ctor.pop()
                t = S.infos.get(c)
                if t is not None and c.startswith(KP):
                    n = len(t["variants"])
                    if n == 1:
                        parts(L, one, key + "[]", v, e)
                        return
                    for vi, var in enumerate(t["variants"]):
                        c2 = is_variant(e, vi, n)
                        vv = BDD.restrict(v, c2)
                        one("%s[]: %s" % (key, var["name"]), BDD.OR(BDD.NOT(c2), is_variant(vv, vi, n)), "the kind of an element")
                        for i, f in enumerate(var["fields"]):
                            inf = (c, len(var["fields"]))

                            def sub(k2, cc, what, c2=c2):
                                one(k2, BDD.OR(BDD.NOT(c2), cc), what)
                            parts(L, sub, "%s[]: %s" % (key, var["name"]) + (".%s" % f[0] if len(var["fields"]) > 1 else ""), BDD.restrict(fld(vv, vi, i, inf), c2), fld(e, vi, i, inf))
                    return
    one(key, same(got, want), "what is read back")
