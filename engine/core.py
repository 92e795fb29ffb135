"""Hash-consed terms and shared decision diagrams (guards).

A *node* is an integer.  Nodes 0 and 1 are the guards false/true.  Other
terminals carry an arbitrary hashable payload, so that one representation
serves for guards (boolean diagrams) and for gated scalars (diagrams whose
leaves are integers, linear forms or terms).
"""
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)


class T(object):
    """interned uninterpreted term"""
    __slots__ = ("op", "args", "id", "marks")
    table = {}

    def __repr__(self):
        return show_term(self)


def _marks(a):
    if isinstance(a, T):
        return a.marks
    if isinstance(a, (Lin, FLin)):
        return a.marks
    if isinstance(a, Node):
        return BDD.marks(a.n)
    if isinstance(a, tuple):
        m = frozenset()
        for x in a:
            m = m | _marks(x)
        if a and a[0] == "rep":
            m = (m - frozenset([a[2]])) | _marks(a[1])
        return m
    return getattr(a, "marks", None) or frozenset()


class Node(object):
    """wraps a diagram node used as a term argument"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Node) and o.n == self.n

    def __hash__(self):
        return hash(("Node", self.n))

    def __repr__(self):
        return "<%s>" % show(self.n)


# terms (list, index, body...) that bind their index
BINDERS = ("first", "last", "sum", "count", "maplist", "fold", "folds")


def atom_marks(key):
    if type(key) is tuple and key[0] in ("ex", "foldx", "loopx"):
        return (_marks(key) - frozenset([key[2]])) | _marks(key[1])
    return _marks(key)


def mk(op, *args):
    key = (op,) + tuple((type(a), a) for a in args)
    t = T.table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = len(T.table)
        m = frozenset()
        for a in args:
            m = m | _marks(a)
        if op == "idx":
            m = frozenset([t])
        elif op == "mu":
            m = m | frozenset([t])
        elif op == "loop":
            # the cells carried round are bound
            m = frozenset(x for x in _marks(args[2]) | _marks(args[3]) if x.op != "mu" or x.args[0] != args[4]) | _marks(args[1])
        elif op in BINDERS:
            m = (m - frozenset([args[1]])) | _marks(args[0])
        t.marks = m
        T.table[key] = t
    return t


def show_term(t, d=0):
    if isinstance(t, T):
        if t.op == "var":
            return str(t.args[0])
        if t.op == "fld":
            return "%s.%s" % (show_term(t.args[0], d + 1), t.args[1])
        if t.op == "elem":
            return "%s[%s]" % (show_term(t.args[0], d + 1), "" if getattr(t.args[1], "op", None) == "idx" else show_term(t.args[1], d + 1))
        if d > 6:
            return "..."
        return "%s(%s)" % (t.op, ", ".join(show_term(a, d + 1) for a in t.args))
    return repr(t)


class Lin(object):
    """integer linear form  c + sum k*t"""
    __slots__ = ("c", "ts", "marks", "h")

    def __init__(self, c, ts):
        self.c = c
        self.ts = ts
        self.h = hash((c, tuple((t.id, k) for t, k in ts)))
        m = frozenset()
        for t, _ in ts:
            m = m | t.marks
        self.marks = m

    def __eq__(self, o):
        return isinstance(o, Lin) and o.c == self.c and o.ts == self.ts

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "+".join(["%s%r" % ("" if k == 1 else "%d*" % k, t) for t, k in self.ts] + ([str(self.c)] if self.c else []))


class FLin(object):
    """real linear form used for floating point values"""
    __slots__ = ("c", "ts", "marks", "h")

    def __init__(self, c, ts):
        self.c = Fraction(c)
        self.ts = ts
        self.h = hash(("F", self.c, tuple((t.id, k) for t, k in ts)))
        m = frozenset()
        for t, _ in ts:
            m = m | t.marks
        self.marks = m

    def __eq__(self, o):
        return isinstance(o, FLin) and o.c == self.c and o.ts == self.ts

    def __hash__(self):
        return self.h

    def __repr__(self):
        def fr(k):
            return str(float(k)) if k.denominator != 1 else str(k.numerator)
        s = "+".join(["%s%r" % ("" if k == 1 else "%s*" % fr(k), t) for t, k in self.ts])
        if not self.ts or self.c:
            s += ("+" if s else "") + fr(self.c)
        return s


def _lin_norm(c, d):
    ts = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    return c, ts


def lin(c, d):
    c, ts = _lin_norm(c, d)
    if not ts:
        return c
    return Lin(c, ts)


def lin_of(x):
    if isinstance(x, Lin):
        return x.c, dict(x.ts)
    if isinstance(x, T):
        return 0, {x: 1}
    return int(x), {}


def lin_add(a, b, kb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    for t, k in db.items():
        da[t] = da.get(t, 0) + kb * k
    return lin(ca + kb * cb, da)


def lin_scale(a, k):
    c, d = lin_of(a)
    return lin(c * k, {t: v * k for t, v in d.items()})


def flin(c, d):
    c, ts = _lin_norm(Fraction(c), d)
    return FLin(c, ts)


def flin_of(x):
    if isinstance(x, FLin):
        return x.c, dict(x.ts)
    if isinstance(x, T):
        return Fraction(0), {x: Fraction(1)}
    return Fraction(x), {}


def flin_add(a, b, kb=1):
    ca, da = flin_of(a)
    cb, db = flin_of(b)
    for t, k in db.items():
        da[t] = da.get(t, Fraction(0)) + kb * k
    return flin(ca + kb * cb, da)


def flin_scale(a, k):
    k = Fraction(k)
    c, d = flin_of(a)
    return flin(c * k, {t: v * k for t, v in d.items()})


INF = 1 << 60


class Manager(object):
    def __init__(self):
        self.reset()

    def reset(self):
        self.var = [INF, INF]
        self.lo = [None, None]
        self.hi = [None, None]
        self.leaf = [False, True]
        self.uniq = {}
        self.leaves = {(bool, False): 0, (bool, True): 1}
        self.atoms = []           # var -> key
        self.atom_ids = {}
        self.ite_memo = {}
        self.restrict_memo = {}
        self.not_memo = {}
        self.supp_memo = {}
        self.mark_memo = {}

    # -- construction ---------------------------------------------------
    def const(self, payload):
        if payload is True:
            return 1
        if payload is False:
            return 0
        key = (type(payload), payload)
        n = self.leaves.get(key)
        if n is None:
            n = len(self.var)
            self.var.append(INF)
            self.lo.append(None)
            self.hi.append(None)
            self.leaf.append(payload)
            self.leaves[key] = n
        return n

    def mknode(self, v, lo, hi):
        if lo == hi:
            return lo
        key = (v, lo, hi)
        n = self.uniq.get(key)
        if n is None:
            n = len(self.var)
            self.var.append(v)
            self.lo.append(lo)
            self.hi.append(hi)
            self.leaf.append(None)
            self.uniq[key] = n
        return n

    def atom(self, key):
        """boolean variable for a hashable key"""
        v = self.atom_ids.get(key)
        if v is None:
            v = len(self.atoms)
            self.atoms.append(key)
            self.atom_ids[key] = v
        return self.mknode(v, 0, 1)

    def is_leaf(self, n):
        return self.var[n] == INF

    # -- operations -----------------------------------------------------
    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        key = (f, g, h)
        r = self.ite_memo.get(key)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        vf, vg, vh = var[f], var[g], var[h]
        v = vf if vf < vg else vg
        if vh < v:
            v = vh
        f0, f1 = (lo[f], hi[f]) if vf == v else (f, f)
        g0, g1 = (lo[g], hi[g]) if vg == v else (g, g)
        h0, h1 = (lo[h], hi[h]) if vh == v else (h, h)
        r = self.mknode(v, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.ite_memo[key] = r
        return r

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def NOT(self, a):
        if a == 0:
            return 1
        if a == 1:
            return 0
        r = self.not_memo.get(a)
        if r is None:
            r = self.ite(a, 0, 1)
            self.not_memo[a] = r
            self.not_memo[r] = a
        return r

    def IMP(self, a, b):
        return self.ite(a, b, 1)

    def IFF(self, a, b):
        return self.ite(a, b, self.NOT(b))

    def restrict(self, f, c):
        """simplify f assuming c (Coudert-Madre)"""
        if c == 1 or c == 0 or self.var[f] == INF:
            return f
        key = (f, c)
        r = self.restrict_memo.get(key)
        if r is not None:
            return r
        var, lo, hi = self.var, self.lo, self.hi
        vf, vc = var[f], var[c]
        if vc < vf:
            r = self.restrict(f, self.OR(lo[c], hi[c]))
        elif vf < vc:
            r = self.mknode(vf, self.restrict(lo[f], c), self.restrict(hi[f], c))
        else:
            if lo[c] == 0:
                r = self.restrict(hi[f], hi[c])
            elif hi[c] == 0:
                r = self.restrict(lo[f], lo[c])
            else:
                r = self.mknode(vf, self.restrict(lo[f], lo[c]), self.restrict(hi[f], hi[c]))
        self.restrict_memo[key] = r
        return r

    def map1(self, f, fn):
        """apply fn (payload -> node) to every leaf"""
        memo = {}

        def go(n):
            r = memo.get(n)
            if r is not None:
                return r
            if self.var[n] == INF:
                r = fn(self.leaf[n])
            else:
                r = self.ite(self.mknode(self.var[n], 0, 1), go(self.hi[n]), go(self.lo[n]))
            memo[n] = r
            return r
        return go(f)

    def map2(self, f, g, fn):
        memo = {}
        var, lo, hi = self.var, self.lo, self.hi

        def go(a, b):
            k = (a, b)
            r = memo.get(k)
            if r is not None:
                return r
            va, vb = var[a], var[b]
            if va == INF and vb == INF:
                r = fn(self.leaf[a], self.leaf[b])
            else:
                v = va if va < vb else vb
                a0, a1 = (lo[a], hi[a]) if va == v else (a, a)
                b0, b1 = (lo[b], hi[b]) if vb == v else (b, b)
                r = self.ite(self.mknode(v, 0, 1), go(a1, b1), go(a0, b0))
            memo[k] = r
            return r
        return go(f, g)

    def cases(self, f, guard=1):
        """list of (condition, payload) for the leaves reachable under guard"""
        if self.var[f] == INF:
            return [(1, self.leaf[f])]
        f = self.restrict(f, guard)
        acc = {}
        order = []
        memo = {}

        leaves = []
        seen = set()

        def walk(n):
            if n in seen:
                return
            seen.add(n)
            if self.var[n] == INF:
                leaves.append(n)
            else:
                walk(self.lo[n])
                walk(self.hi[n])
        walk(f)
        out = []
        for l in leaves:
            memo = {}

            def cond(n):
                r = memo.get(n)
                if r is not None:
                    return r
                if self.var[n] == INF:
                    r = 1 if n == l else 0
                else:
                    r = self.mknode(self.var[n], cond(self.lo[n]), cond(self.hi[n]))
                memo[n] = r
                return r
            c = cond(f)
            if self.AND(guard, c) != 0:
                out.append((c, self.leaf[l]))
        return out

    def support(self, n):
        r = self.supp_memo.get(n)
        if r is not None:
            return r
        if self.var[n] == INF:
            r = frozenset()
        else:
            r = self.support(self.lo[n]) | self.support(self.hi[n]) | frozenset([self.var[n]])
        self.supp_memo[n] = r
        return r

    def marks(self, n):
        """index and iteration markers mentioned by a diagram"""
        r = self.mark_memo.get(n)
        if r is not None:
            return r
        if self.var[n] == INF:
            p = self.leaf[n]
            r = _marks(p)
        else:
            r = self.marks(self.lo[n]) | self.marks(self.hi[n]) | atom_marks(self.atoms[self.var[n]])
        self.mark_memo[n] = r
        return r


BDD = Manager()


def show_atom(k):
    if isinstance(k, tuple):
        if k[0] == "tag":
            return "%s is %s" % (show_term(k[1]), k[3] if len(k) > 3 else k[2])
        if k[0] == "b":
            return show_term(k[1])
        if k[0] == "ge":
            return "%r>=%d" % (k[1], k[2])
        return "%s(%s)" % (k[0], ",".join(show_atom(x) if isinstance(x, tuple) else (("<%s>" % show(x.n)) if isinstance(x, Node) else repr(x)) for x in k[1:]))
    return repr(k)


def show(n, limit=6):
    """readable rendering of a guard: one satisfying path"""
    if n == 1:
        return "always"
    if n == 0:
        return "never"
    if BDD.is_leaf(n):
        return repr(BDD.leaf[n])
    out = []
    while not BDD.is_leaf(n):
        v = BDD.var[n]
        if BDD.hi[n] != 0 and BDD.lo[n] == 0:
            out.append(show_atom(BDD.atoms[v]))
            n = BDD.hi[n]
        elif BDD.hi[n] == 0:
            out.append("not " + show_atom(BDD.atoms[v]))
            n = BDD.lo[n]
        else:
            # prefer the path that reaches a true leaf
            out.append(show_atom(BDD.atoms[v]))
            n = BDD.hi[n]
    if len(out) > limit:
        out = out[:limit] + ["..."]
    return " and ".join(out)
