"""C06: the S-expression readers forget nothing.

From the summary of a reader (when it succeeds, and what it then returns) follow
all the pieces of the list it was given: the cursor has to be closed or walked
to its end, and every piece that was read has to be part of the value, or be
fixed by the condition of success.  Lists that are walked are replaced by two
arbitrary elements, so that one that overwrites the other shows."""
import re

import vg
from vg import *
from prims import OPT, RES
from p_lines import Lines
from p_panic import run, short, IMPL
from report import Report, isolated
import p_sexp
import sexptab          # installs the rules that are wrapped below


# -- occurrences -----------------------------------------------------------------
class Occ(object):
    """condition under which a value contains a piece"""

    def __init__(self, want):
        self.want = want          # term -> True (counts), False (does not, stop), None (look inside)
        self.memo = {}

    def node(self, n):
        k = ("n", n)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = 0
        if BDD.is_leaf(n):
            r = self.arg(BDD.leaf[n])
        else:
            a = BDD.atom(BDD.atoms[BDD.var[n]])
            r = BDD.ite(a, self.node(BDD.hi[n]), self.node(BDD.lo[n]))
        self.memo[k] = r
        return r

    def arg(self, x):
        if isinstance(x, Node):
            return self.node(x.n)
        if isinstance(x, T):
            return self.term(x)
        if isinstance(x, (Lin, FLin)):
            return self.any(t for t, _ in x.ts)
        if isinstance(x, tuple):
            if x and x[0] == "opt" and len(x) == 3 and isinstance(x[1], Node):
                return BDD.AND(x[1].n, self.any(x[2]))
            return self.any(x)
        return 0

    def any(self, xs):
        r = 0
        for x in xs:
            r = BDD.OR(r, self.arg(x))
            if r == 1:
                break
        return r

    def term(self, t):
        if t in self.memo:
            return self.memo[t]
        w = self.want(t)
        if w is None:
            r = 0 if t.op in ("it", "idx", "sexperr", "error") else self.any(t.args)
        else:
            r = 1 if w else 0
        self.memo[t] = r
        return r


def conditions(n, seen=None, out=None):
    """tests that decide something in a value"""
    if seen is None:
        seen, out = set(), set()

    def arg(a):
        if isinstance(a, Node):
            conditions(a.n, seen, out)
        elif isinstance(a, T):
            if a not in seen:
                seen.add(a)
                if a.op not in ("it", "idx", "sexperr", "error"):
                    for b in a.args:
                        arg(b)
        elif isinstance(a, (Lin, FLin)):
            for t, _ in a.ts:
                arg(t)
        elif isinstance(a, tuple):
            for b in a:
                arg(b)
    if ("n", n) in seen:
        return out
    seen.add(("n", n))
    if BDD.is_leaf(n):
        arg(BDD.leaf[n])
    else:
        out.add(BDD.var[n])
        conditions(BDD.lo[n], seen, out)
        conditions(BDD.hi[n], seen, out)
    return out


def depends(c, a):
    """condition under which the outcome of c hangs on the test a"""
    x, y = BDD.restrict(c, a), BDD.restrict(c, BDD.NOT(a))
    return BDD.OR(BDD.AND(x, BDD.NOT(y)), BDD.AND(y, BDD.NOT(x)))


def mentions(x, t):
    o = Occ(lambda y: True if y is t else None)
    return o.arg(x) != 0


def fixed(t, *nodes):
    """condition under which a text or number is a known constant"""
    r = 0
    for v in set().union(*[conditions(n) for n in nodes]):
        k = BDD.atoms[v]
        if k[0] == "eq" and any(isT(x, "str") or isT(x, "chr") or isinstance(x, int) for x in k[1:3]) and mentions(k[1:3], t):
            r = BDD.OR(r, BDD.atom(k))
    return r


def rows(pieces):
    """the lists that pieces with conditions stand for"""
    out = [(1, ())]
    for p in pieces:
        if isinstance(p, tuple) and p and p[0] == "opt" and len(out) < 32:
            new = []
            for g, v in out:
                new.append((BDD.AND(g, p[1].n), v + tuple(p[2])))
                new.append((BDD.AND(g, BDD.NOT(p[1].n)), v))
            out = [(g, v) for g, v in new if g != 0]
        else:
            out = [(g, v + (p,)) for g, v in out]
    return out


def alike(a, b):
    """condition under which two values are built alike"""
    if a == b:
        return 1

    def leaf(x, y):
        if x is y or x == y:
            return 1
        if isT(x, "cat") and isT(y, "cat"):
            r = 0
            for g, v in rows(x.args):
                for h, w in rows(y.args):
                    if v == w:
                        r = BDD.OR(r, BDD.AND(g, h))
            return r
        if isT(x) and isT(y) and x.op == y.op and len(x.args) == len(y.args):
            r = 1
            for p, q in zip(x.args, y.args):
                if isinstance(p, Node) and isinstance(q, Node):
                    r = BDD.AND(r, alike(p.n, q.n))
                elif isT(p) and isT(q):
                    r = BDD.AND(r, leaf(p, q))
                elif p != q:
                    return 0
                if r == 0:
                    break
            return r
        return 0
    return BDD.map1(a, lambda x: BDD.map1(b, lambda y: leaf(x, y)))


# -- choices ---------------------------------------------------------------------
CHOICES = [False]


def each(x, build, node, leaf):
    """an operation on a choice is the choice of the operations"""
    def go(i, acc):
        if i == len(x):
            return build(acc)
        a = x[i]
        if isinstance(a, Node):
            return BDD.map1(node(a.n), lambda y: BOT if y is BOTT else go(i + 1, acc + [Node(K(y))]))
        if isinstance(a, T):
            return BDD.map1(leaf(a), lambda y: BOT if y is BOTT else go(i + 1, acc + [y]))
        return go(i + 1, acc + [a])
    return clean(go(0, []))


def over(op):
    old = vg.RAW.get(op)

    def f(x, node, leaf):
        if CHOICES[0]:
            return each(x.args, lambda acc: K(mk(op, *acc)), node, leaf)
        return old(x, node, leaf) if old else None
    return f


def over_atom(h):
    old = vg.ARULES.get(h)

    def f(k, node, leaf):
        if CHOICES[0]:
            return each(k[1:], lambda acc: BDD.atom(tuple([h] + acc)), node, leaf)
        return old(k, node, leaf) if old else None
    return f


for _o in ("ev", "it", "head", "list", "parse", "sexp", "tail"):
    vg.RAW[_o] = over(_o)
for _o in ("named", "islist", "closed"):
    vg.ARULES[_o] = over_atom(_o)


# -- one reader ------------------------------------------------------------------
def started(h):
    """the cursor could be put on the list"""
    return BDD.atom(("named", h.args[0], h.args[1])) if h.op == "head" else BDD.atom(("islist", h.args[0]))


def same_name(c):
    """a list starts with a word iff that is its name"""
    f = 1
    for v in BDD.support(c):
        k = BDD.atoms[v]
        if k[0] == "named":
            if isT(leafof(k[2].n), "str"):
                s = fld(K(mk("sexp", "list_name", k[1])), 0, 0, (RES, 1))
                f = BDD.AND(f, BDD.IFF(BDD.atom(k), same(s, k[2].n)))
    return f


def element(name):
    return mk("var", name)


class Reader(object):
    def __init__(self, P, name, okc, val, emit):
        self.P, self.name, self.emit = P, name, emit
        self.ok, self.val = okc, val
        self.bad = 0
        self.count = 0
        self.walked = set()
        self.origin = {}

    def report(self, what, c, text):
        self.count += 1
        if c not in (0, 1):
            c = consistent(BDD.AND(c, same_name(c)))
        key = "%s: %s" % (self.name, what)
        if c == 0:
            self.emit(key, "ok")
            return
        vague = sorted({t.op for t in terms_in(c, lambda t: not p_sexp.known(t) and t.op not in OPS)}
                       | {t.op for t in terms_in(self.val, lambda t: not p_sexp.known(t) and t.op not in OPS)})
        self.emit(key, "undecided" if vague else "violation", "%s%s" % (text, "" if c == 1 else " when %s" % render(c)[:500]) +
                  (" (depends on %s)" % ", ".join(vague) if vague else ""))

    def check(self):
        CHOICES[0] = True
        try:
            self.lists(self.ok, self.val, ["a"], 0)
        finally:
            CHOICES[0] = False

    def lists(self, okc, val, elems, depth):
        """replace the lists that are walked, then check what is left"""
        walked = {}
        for t in terms_in(okc, lambda t: t.op == "tail" or self.vec(t)) + terms_in(val, lambda t: t.op == "tail" or self.vec(t)):
            if not self.nested(t):
                walked[t] = 1
        if not walked or depth > 3:
            self.pieces(okc, val, elems)
            return
        env, pair, new = {}, {}, list(elems)
        more = 1
        for t in walked:
            n = len(new)
            es = [element("e%d" % (n + k)) for k in range(2)]
            new += [e.args[0] for e in es]
            pair[t] = es
            for e in es:
                self.origin[e.args[0]] = t.args[0] if t.op == "tail" else leafof(t.args[0].args[3].n)
            env[t] = K(cat("l", [("el", Node(K(e))) for e in es]))
            if t.op == "tail":
                more = BDD.AND(more, BDD.NOT(BDD.atom(("closed", Node(K(t.args[0]))))))
        memo = {}
        ok2 = subst(okc, env, memo)
        ok2 = BDD.AND(ok2, more)
        val2 = subst(val, env, memo)
        self.walked |= set(walked)
        for t in walked:
            self.shows(t, okc, val, env, pair, ok2, val2)
        cut = [t.op for n in (okc, val) for t in terms_in(n, lambda t: t.op in ("take", "slice") and isinstance(t.args[0], Node)
                                                          and any(BDD.leaf[l] in walked for l in leaves(t.args[0].n)))]
        if cut:
            self.emit("%s: walk" % self.name, "violation", "only a part of the list is looked at")
        self.lists(ok2, BDD.restrict(val2, ok2) if ok2 not in (0, 1) else val2, new, depth + 1)

    def shows(self, t, okc, val, env, new, ok2, val2):
        """an element that is a constant word makes a difference to the value"""
        x, y = new[t]
        one = dict(env)
        one[t] = K(cat("l", [("el", Node(K(y)))]))
        memo = {}
        ok1, val1 = subst(okc, one, memo), subst(val, one, memo)
        pins = self.pins(x, ok2, val2)
        for a in pins:
            c = BDD.AND(BDD.AND(ok2, ok1), a)
            if c in (0, 1) or consistent(c) == 0:
                continue
            lost = BDD.AND(c, alike(BDD.restrict(val2, c), BDD.restrict(val1, c)))
            if consistent(BDD.AND(lost, same_name(lost))) != 0:
                self.emit("%s: element of a list" % self.name, "violation", "an element is accepted and forgotten when %s" % render(a)[:300])

    def vec(self, t):
        return t.op == "fld" and t.args[1] == 0 and t.args[2] == 0 and isT(t.args[0], "ev") and t.args[0].args[0] == "vec"

    def nested(self, t):
        """the list belongs to an element of another list that is walked"""
        return bool(terms_in(K(t), lambda x: x.op == "idx" or x is not t and x.op == "tail"))

    # -- cursors -----------------------------------------------------------------
    def root(self, cur):
        """the list a cursor walks"""
        x = cur
        for _ in range(400):
            if isT(x, "it") and x.args[0] == "cur":
                x = x.args[1]
            elif isT(x, "ev"):
                n = x.args[3].n
                x = leafof(n)
            elif isT(x, "head") or isT(x, "list"):
                return x
            else:
                return None
        return None

    def pieces(self, okc, val, elems):
        if okc == 0:
            return
        both = [okc, val]
        terms = []
        for n in both:
            terms += terms_in(n, lambda t: t.op in ("ev", "parse", "head", "list", "sexp"))
        terms = list(dict.fromkeys(terms))
        conds = conditions(val)
        atoms = [BDD.atoms[v] for v in set(BDD.support(okc)) | conds]
        # pieces read
        for t in terms:
            if t.op == "ev" and t.args[0] != "vec":
                self.read(t, okc, val, conds, terms, atoms)
        # lists
        for e in elems:
            x = element(e)
            there = 1
            if e in self.origin:
                h = self.root(self.origin[e])
                if h is not None:
                    there = started(h)
            c = self.consumed(x, okc, val, terms, atoms, 0)
            self.report("list" if e == "a" else "element of a list", BDD.AND(BDD.AND(okc, there), BDD.NOT(c)),
                        "the list is not read to its end" if e == "a" else "an element of a list is accepted and forgotten")

    def read(self, t, okc, val, conds, terms, atoms):
        kind, ty = t.args[0], t.args[1]
        maybe = kind.startswith("maybe")
        here = BDD.atom(("is", t, 1, 2))
        present = here if maybe else BDD.NOT(here)
        need = BDD.AND(BDD.AND(okc, present), self.isread(t, okc, terms, atoms))
        if need == 0:
            return
        pay = [mk("fld", t, 1 if maybe else 0, 0, (OPT if maybe else RES, 1))]
        whole = Occ(lambda y: True if y is t or y in pay else (False if isT(y, "fld") and y.args[0] in pay else None)).node(val)
        got = BDD.OR(whole, fixed(t, okc, val))
        if maybe and BDD.var[here] in conds and kind == "maybe_literal_s":
            got = 1
        if ty and BDD.AND(need, BDD.NOT(got)) != 0:
            got = BDD.OR(got, self.byfield(t, pay[0], ty, need, val))
        what = "%s %s" % (kind, short(ty).split("::")[-1] if ty else "")
        nm = leafof(t.args[2].n)
        if isT(nm, "str"):
            what = "%s %r" % (kind, nm.args[0])
        self.report("%s %s" % (what.strip(), "of a walked list" if self.base(t).startswith("e") else "(number %d)" % self.number(t)),
                    BDD.AND(need, BDD.NOT(got)), "what was read is not part of the value")
        if maybe:
            seen = 1 if BDD.var[here] in conds else whole
            self.report("%s %d presence" % (what, self.number(t)), BDD.AND(need, BDD.NOT(seen)), "the value does not show that it was there")

    def isread(self, t, okc, terms, atoms, depth=0):
        """condition under which the reader got to this piece"""
        a = BDD.atom(("is", t, 1, 2))
        r = depends(okc, a)
        for k in atoms:
            if k[0] == "closed" and any(isT(BDD.leaf[l], "it") and BDD.leaf[l].args[1] is t for l in leaves(k[1].n)):
                r = BDD.OR(r, BDD.AND(BDD.atom(k), depends(okc, BDD.atom(k))))
        for u in terms:
            if u.op == "ev" and any(isT(BDD.leaf[l], "it") and BDD.leaf[l].args[1] is t for l in leaves(u.args[3].n)):
                r = BDD.OR(r, self.isread(u, okc, terms, atoms, depth + 1))
        for w in self.walked:
            c = w.args[0] if w.op == "tail" else leafof(w.args[0].args[3].n)
            if isT(c, "it") and c.args[1] is t:
                r = 1
        return r

    def base(self, t):
        r = self.root(mk("it", "cur", t))
        if r is None:
            return ""
        x = leafof(r.args[0].n)
        return x.args[0] if isT(x, "var") else ""

    def number(self, t):
        n, x = 0, t
        while isT(x, "ev"):
            n += 1
            c = leafof(x.args[3].n)
            x = c.args[1] if isT(c, "it") else None
        return n

    def byfield(self, t, pay, ty, need, val):
        """every field of the piece is in the value, or is fixed"""
        adt = None
        for y in self.P.types.values() if isinstance(self.P.types, dict) else self.P.types:
            if y["k"] == "adt" and self.P.tyname_of(y) == ty if hasattr(self.P, "tyname_of") else y["k"] == "adt" and y["name"] == ty:
                adt = y
        if adt is None or len(adt["variants"]) != 1:
            return 0
        r = 1
        for i, f in enumerate(adt["variants"][0]["fields"]):
            one = fld(K(pay), 0, i, (ty, len(adt["variants"][0]["fields"])))
            x = leafof(one)
            c = Occ(lambda y: True if y is x else None).node(val)
            ft = self.P.types[f[1]]
            if ft["k"] == "adt" and len(ft["variants"]) > 1 and all(not v["fields"] for v in ft["variants"]):
                can = [k for k in range(len(ft["variants"])) if BDD.AND(need, is_variant(one, k, len(ft["variants"]))) != 0]
                if len(can) <= 1:
                    c = 1
            r = BDD.AND(r, c)
        return r

    def consumed(self, x, okc, val, terms, atoms, depth):
        lists = [t for t in terms if t.op == "sexp" and t.args[0] == "list" and leafof(t.args[1].n) is x]
        got = Occ(lambda y: True if y is x else (False if y in lists or y.op in ("head", "list") else None)).node(val)
        got = BDD.OR(got, self.pinned(x, okc, val))
        # cursors on it
        for h in terms:
            if h.op in ("head", "list") and leafof(h.args[0].n) is x:
                for k in atoms:
                    if k[0] == "closed" and any(self.root(BDD.leaf[l]) is h for l in leaves(k[1].n)):
                        got = BDD.OR(got, BDD.atom(k))
        for t in self.walked:
            h = self.root(t.args[0] if t.op == "tail" else leafof(t.args[0].args[3].n))
            if h is not None and leafof(h.args[0].n) is x:
                got = BDD.OR(got, started(h) if t.op == "tail" else BDD.NOT(BDD.atom(("is", t.args[0], 1, 2))))
        # elements taken by position
        for l in lists:
            items = mk("fld", l, 0, 0, (RES, 1))
            n = [k[2] for k in atoms if k[0] == "ge" and k[1] is mk("len", items)]
            used = [t for m in (okc, val) for t in terms_in(m, lambda t: t.op == "elem" and t.args[0] is items)]
            for m in sorted(set(n)):
                exact = BDD.AND(BDD.NOT(BDD.atom(("is", l, 1, 2))), BDD.NOT(ge0(lin_add(mk("len", items), m, -1))))
                if m - 1 > 1:
                    exact = BDD.AND(exact, ge0(lin_add(mk("len", items), m - 1, -1)))
                for i in range(1, m - 1):
                    e = mk("elem", items, Node(K(i)))
                    if e not in used:
                        exact = 0
                        break
                    exact = BDD.AND(exact, self.consumed(e, okc, val, terms, atoms, depth + 1))
                got = BDD.OR(got, exact)
        return got

    def pinned(self, x, okc, val):
        """the element is a constant word"""
        r = 0
        for a in self.pins(x, okc, val):
            r = BDD.OR(r, a)
        return r

    def pins(self, x, okc, val):
        r = []
        for v in sorted(conditions(okc) | conditions(val)):
            k = BDD.atoms[v]
            if k[0] == "eq" and any(isT(y, "str") for y in k[1:3]):
                o = Occ(lambda y: True if y is x else (False if y.op in ("head", "list", "ev", "parse") or y.op == "sexp" and y.args[0] in ("list", "list_name") else None))
                if o.arg(k[1:3]) != 0:
                    r.append(BDD.atom(k))
        return r


OPS = {"ev", "it", "head", "list", "tail", "split", "acc", "folds", "call", "bot", "lowercase"}


def check(prop, P):
    return {"C06": drops}[prop](prop, P)


def readers(P):
    out = []
    for k, i in sorted(P.insts.items(), key=lambda e: e[1]["name"]):
        if P.fn(k) is not None and i["crate"] == "kicad_parse_gen" and re.search(r"FromSexp( for .*)?>::from_sexp$", i["name"]):
            out.append(k)
    return out


def name_of(n):
    m = re.search(r"FromSexp for ([^>]*)>", n) or re.search(r"<([^ ]*) as .*FromSexp>", n)
    return short(m.group(1)) if m else short(n)


def drops(prop, P):
    R = Report(prop, "from the summary of every S-expression reader (gated value graph: condition of success and value): the list is closed or walked to "
                     "its end, every piece that is read is part of the value or fixed by the condition of success, and of two elements of a walked list "
                     "none replaces the other.")
    L = Lines(P)
    todo = readers(P)
    total = [0]

    def one(key):
        out, fns = [], set()
        n = P.insts[key]["name"]
        rd = [0]
        try:
            fl, (g, st, v) = run(P, L, key, "impl")
            fns = set(P.insts[k]["name"] for k in fl.inlined) | {n}
            okc = BDD.AND(g, is_variant(v, 0, 2))
            val = fld(v, 0, 0, (RES, 1))
            if okc not in (0, 1):
                val = BDD.restrict(val, okc)
            r = Reader(P, name_of(n), okc, val, lambda k, s, t="": out.append((k, s, t)))
            r.check()
            rd[0] = r.count
        except Undecided as e:
            out.append((name_of(n), "undecided", str(e)))
        return [(out, fns, rd[0])]
    for key in todo:
        name = P.insts[key]["name"]
        r = isolated(lambda: one(key), 120, name_of(name))
        if len(r) == 1 and len(r[0]) == 3 and isinstance(r[0][0], list):
            out, fns, n = r[0]
            R.functions |= fns
            total[0] += n
            for k, s, t in out:
                R.add(k, s, t)
        else:
            for k, s, t in r:
                R.add(k, s, t)
    R.floor("S-expression readers", len(todo), 40)
    R.floor("pieces that are read", total[0], 150)
    return R.finish()
