"""Values of the gated value graph.

A value is a diagram node (see core.py): control-dependence conditions on the
inner nodes, hash-consed terms on the leaves.  Two expressions with the same
node are the same expression of the same inputs; nothing is ever assigned a
concrete input.

leaves
  T "agg"  (ctor, variant, Node...)     struct / enum / tuple / closure value
  T "cat"  ("l"|"s", piece...)          list or string built by appending
  T "str"  (text)                       literal string
  int / Lin / FLin                      numbers as linear forms
  Ptr                                   mutable reference to an abstract cell
  any other T                           opaque expression

pieces of a "cat"
  ("el", Node v)            one element
  ("sp", T)                 all elements of an opaque list / string
  ("lit", text)             literal text
  ("disp", spec, Node v)    formatted value
  ("opt", Node g, pieces)   pieces present when g holds
  ("alt", Node n)           pieces of one of the lists / strings on n's leaves
  ("rep", Node L, T idx, pieces)   pieces once per element of L
"""
from core import *


class Undecided(Exception):
    pass


class Ptr(object):
    __slots__ = ("cell", "path", "h", "marks")

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = path
        self.marks = frozenset()
        for s in path:
            if s[0] == "e":
                self.marks = self.marks | BDD.marks(s[1].n)
        self.h = hash((cell, path))

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.cell == self.cell and o.path == self.path

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "&mut #%d%s" % (self.cell, "".join(".%s" % (s[2] if s[0] == "f" else "[]") for s in self.path))


K = BDD.const
BOTT = mk("bot")
BOT = K(BOTT)
ERROR = K(mk("error"))


def leafof(n):
    """payload of a single-leaf node, else None"""
    return BDD.leaf[n] if BDD.is_leaf(n) else None


def isT(x, op=None):
    return isinstance(x, T) and (op is None or x.op == op)


def leaves(n):
    seen = set()
    out = []
    st = [n]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if BDD.is_leaf(x):
            out.append(x)
        else:
            st.append(BDD.lo[x])
            st.append(BDD.hi[x])
    return out


EXPAND = {}
TEXT = {}       # lines of a text of known shape (lines.py)
ASSUME = []     # atoms fixed by the domain of a property
ABSENT = set()  # kinds of elements a list is assumed not to have


# -- aggregates ---------------------------------------------------------------
def agg(ctor, variant, fields):
    fields = list(fields)
    if variant == 1 and ctor == "std::result::Result":
        fields = [ERROR]
    # eta: rebuilding a record from its own fields is the record
    if fields:
        x = leafof(fields[0])
        if isT(x, "fld") and x.args[1] == variant and x.args[2] == 0:
            base = x.args[0]
            if x.args[3] == (ctor, len(fields)) and all(leafof(f) is mk("fld", base, variant, i, (ctor, len(fields))) for i, f in enumerate(fields)):
                return K(base)
    return K(mk("agg", ctor, variant, *[Node(f) for f in fields]))


def fields_of(t):
    return [a.n for a in t.args[2:]]


def tup(*fields):
    return agg("()", 0, fields)


UNIT = tup()


def some(v):
    return agg("std::option::Option", 1, [v])


NONE = K(mk("agg", "std::option::Option", 0))


def ok(v):
    return agg("std::result::Result", 0, [v])


def err(v):
    return agg("std::result::Result", 1, [v])


def fld(n, variant, i, info):
    """info = (ctor name, number of fields of the variant)"""
    if not BDD.is_leaf(n):
        nv = VARIANTS(info[0]) if isinstance(info, tuple) else None
        if nv and nv > 1:
            ls = leaves(n)
            if any(isT(BDD.leaf[l], "agg") for l in ls):
                # leaves chosen only where the value is another variant
                for l in ls:
                    x = BDD.leaf[l]
                    if isT(x) and x.op in ("fld", "var", "mu", "elem", "acc") and BDD.AND(indicator(n, {l}), is_variant(l, variant, nv)) == 0:
                        n = replace_leaves(n, {l}, BOT)
                n = clean(n)

    def f(x):
        if isinstance(x, T):
            if x.op == "agg":
                if x.args[1] != variant:
                    return BOT
                if i + 2 < len(x.args):
                    return x.args[2 + i].n
                return BOT
            if x.op == "bot":
                return BOT
            if x.op in EXPAND:
                y = EXPAND[x.op](x)
                if y is not None:
                    return fld(y, variant, i, info)
            return K(mk("fld", x, variant, i, info))
        if isinstance(x, Ptr):
            raise Undecided("field of a pointer")
        return K(mk("fld", mk("raw", Node(K(x))), variant, i, info))
    return clean(BDD.map1(n, f))


def tag(n, nvar):
    """variant index as a node with integer leaves"""
    def f(x):
        if isinstance(x, T):
            if x.op == "agg":
                return K(x.args[1])
            if x.op == "bot":
                return BOT
            if x.op in EXPAND:
                y = EXPAND[x.op](x)
                if y is not None:
                    return tag(y, nvar)
            return tag_of(x, nvar)
        if isinstance(x, int) and not isinstance(x, bool):
            return K(x)
        raise Undecided("variant of %r" % (x,))
    return clean(BDD.map1(n, f))


def tag_of(t, nvar):
    if nvar <= 1:
        return K(0)
    if nvar == 2:
        return BDD.ite(BDD.atom(("is", t, 1, 2)), K(1), K(0))
    bits = (nvar - 1).bit_length()

    def go(i, v):
        if i < 0:
            return K(min(v, nvar - 1))
        return BDD.ite(BDD.atom(("bit", t, i, nvar)), go(i - 1, v | 1 << i), go(i - 1, v))
    return go(bits - 1, 0)


def is_variant(n, v, nvar):
    return clean(BDD.map1(tag(n, nvar), lambda x: BOT if x is BOTT else (1 if x == v else 0)))


def has_bot(n):
    return any(BDD.leaf[x] is BOTT for x in leaves(n))


def clean(n):
    """drop unreachable ("bot") leaves"""
    if BDD.is_leaf(n) or not has_bot(n):
        return n
    care = BDD.map1(n, lambda x: 0 if x is BOTT else 1)
    return BDD.restrict(n, care)


# -- merging --------------------------------------------------------------------
def ctor_of(x):
    if isinstance(x, T):
        if x.op == "agg":
            return (x.args[0], x.args[1])
        if x.op == "cat":
            return ("cat", x.args[0])
    return None


CHOICE = None          # what a check makes of a choice between two values


def ite(c, a, b):
    if c == 1 or a == b:
        return a
    if c == 0:
        return b
    if a == BOT:
        return b
    if b == BOT:
        return a
    return merge(clean(BDD.ite(c, a, b)))


def merge(n):
    """one leaf per constructor: choices are pushed into the fields"""
    if BDD.is_leaf(n):
        return n
    groups = {}
    ls = leaves(n)
    kinds = set()
    for l in ls:
        k = ctor_of(BDD.leaf[l])
        if k is not None:
            groups.setdefault(k, []).append(l)
            if k[0] == "cat":
                kinds.add(k[1])
    for kd in kinds:
        # opaque lists merged with appended lists become appended lists too
        for l in ls:
            x = BDD.leaf[l]
            if isinstance(x, T) and x.op != "cat" and x.op != "agg" and (x.op != "str" or kd == "s"):
                if x.op in ("it", "adv", "bot"):
                    continue
                groups[("cat", kd)].append(l)
    for k, g in groups.items():
        if len(g) < 2:
            continue
        gs = set(g)
        cond = indicator(n, gs)
        if k[0] == "cat":
            v = merge_cats(n, g, cond, k[1])
        else:
            nf = min(len(BDD.leaf[l].args) for l in g) - 2
            fs = []
            for i in range(nf):
                fi = BDD.map1(n, lambda x, i=i: x.args[2 + i].n if ctor_of(x) == k else BOT)
                fi = BDD.restrict(fi, cond)
                fs.append(merge(clean(fi)))
            v = agg(k[0], k[1], fs)
        n = replace_leaves(n, gs, v)
    return n if CHOICE is None else CHOICE(n)


def indicator(n, ls):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if BDD.is_leaf(x):
                r = 1 if x in ls else 0
            else:
                r = BDD.mknode(BDD.var[x], go(BDD.lo[x]), go(BDD.hi[x]))
            memo[x] = r
        return r
    return go(n)


def replace_leaves(n, ls, v):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if BDD.is_leaf(x):
                r = v if x in ls else x
            else:
                r = BDD.ite(BDD.mknode(BDD.var[x], 0, 1), go(BDD.hi[x]), go(BDD.lo[x]))
            memo[x] = r
        return r
    return go(n)


# -- lists and strings -------------------------------------------------------------
def pieces(x, kind=None):
    if isinstance(x, T):
        if x.op == "cat":
            return x.args[1:]
        if x.op == "str":
            return (("lit", x.args[0]),) if x.args[0] else ()
        return (("sp", x),)
    raise Undecided("pieces of %r" % (x,))


def cat(kind, ps):
    out = []
    for p in ps:
        if p[0] == "opt":
            if p[1].n == 0 or not p[2]:
                continue
            if p[1].n == 1:
                for q in p[2]:
                    _app(out, q)
                continue
            if len(p[2]) == 1 and (p[2][0][0] == "sp" and p[1].n == nonempty(K(p[2][0][1])) or p[2][0][0] == "rep" and p[1].n == nonempty(p[2][0][1].n)):
                _app(out, p[2][0])
                continue
            if out and out[-1][0] == "opt" and out[-1][1] == p[1]:
                out[-1] = ("opt", p[1], tuple(_norm(out[-1][2] + p[2])))
                continue
        if p[0] == "rep" and not p[3]:
            continue
        if p[0] == "alt":
            x = leafof(p[1].n)
            if isT(x):
                for q in pieces(x):
                    _app(out, q)
                continue
        _app(out, p)
    if kind == "s":
        if not out:
            return mk("str", "")
        if len(out) == 1 and out[0][0] == "lit":
            return mk("str", out[0][1])
    if len(out) == 1 and out[0][0] == "sp":
        return out[0][1]
    if len(out) == 1 and out[0][0] == "rep":
        # eta: copying a list element by element
        _, L, idx, ps = out[0]
        if len(ps) == 1 and ps[0][0] == "el":
            x = leafof(ps[0][1].n)
            l = leafof(L.n)
            if isT(l) and x is mk("elem", l, Node(K(idx))):
                return l
    return mk("cat", kind, *out)


def _app(out, p):
    if p[0] == "disp" and p[1] == "char":
        x = leafof(p[2].n)
        if isinstance(x, int):
            p = ("lit", chr(x))
        elif x is None and all(isinstance(BDD.leaf[l], int) for l in leaves(p[2].n)):
            p = ("alt", Node(BDD.map1(p[2].n, lambda y: K(mk("str", chr(y))))))
    elif p[0] == "opt" and any(q[0] == "disp" and q[1] == "char" and isinstance(leafof(q[2].n), int) for q in p[2]):
        p = ("opt", p[1], tuple(_norm(p[2])))
    if out and out[-1][0] == "rep" and FRONT:
        q = FRONT[-1](out[-1], p)
        if q is not None:
            out[-1] = q
            return
    if p[0] == "lit":
        if not p[1]:
            return
        if out and out[-1][0] == "lit":
            out[-1] = ("lit", out[-1][1] + p[1])
            return
    out.append(p)


def _norm(ps):
    out = []
    for p in ps:
        _app(out, p)
    return out


EMPTY = {"l": K(mk("cat", "l")), "s": K(mk("str", ""))}


def lit(s):
    return K(mk("str", s))


def flat(n, kind):
    """a gated string as one string with a choice piece"""
    if kind != "s" or BDD.is_leaf(n):
        return n
    n = clean(n)
    if BDD.is_leaf(n) or not all(isT(BDD.leaf[l]) for l in leaves(n)):
        return n
    r = merge_cats(n, leaves(n), 1, kind)
    if BDD.is_leaf(r):
        return r
    return K(cat("s", [choice("s", r)]))


def narrow(n, g):
    """n where g holds, conditions inside its pieces included"""
    if g == 0:
        return n

    def piece(p):
        if p[0] == "opt":
            return ("opt", Node(BDD.restrict(p[1].n, g)), tuple(piece(q) for q in p[2]))
        if p[0] in ("el", "alt"):
            return (p[0], Node(narrow(p[1].n, g)))
        if p[0] == "disp":
            return (p[0], p[1], Node(narrow(p[2].n, g)))
        return p

    def f(x):
        if isT(x, "cat"):
            return K(cat(x.args[0], [piece(p) for p in x.args[1:]]))
        return K(x)
    return BDD.map1(BDD.restrict(n, g), f)


def append(n, kind, ps):
    """n ++ ps"""
    n = flat(n, kind)
    return BDD.map1(n, lambda x: n_bot(x) or K(cat(kind, pieces(x) + tuple(ps))))


def n_bot(x):
    return BOT if x is BOTT else None


def concat(kind, a, b):
    a, b = flat(a, kind), flat(b, kind)
    def f(x, y):
        if x is BOTT or y is BOTT:
            return BOT
        return K(cat(kind, pieces(x) + tuple(pieces(y))))
    return clean(BDD.map2(a, b, f))


def merge_cats(n, g, cond, kind):
    ps = [(l, list(pieces(BDD.leaf[l]))) for l in g]
    pre = []
    while all(p for _, p in ps):
        h = ps[0][1][0]
        if all(p[0] == h for _, p in ps):
            pre.append(h)
            for _, p in ps:
                p.pop(0)
        else:
            if kind == "s" and all(p[0][0] == "lit" for _, p in ps):
                c = _common([p[0][1] for _, p in ps])
                if c:
                    pre.append(("lit", c))
                    for _, p in ps:
                        r = p[0][1][len(c):]
                        if r:
                            p[0] = ("lit", r)
                        else:
                            p.pop(0)
                    continue
            break
    suf = []
    while all(p for _, p in ps):
        h = ps[0][1][-1]
        if all(p[-1] == h for _, p in ps):
            suf.insert(0, h)
            for _, p in ps:
                p.pop()
        else:
            break
    mid = []
    # single elements on both sides: one element with a gated value
    if kind == "l" and all(len(p) == 1 and p[0][0] == "el" for _, p in ps):
        table = {l: p[0][1].n for l, p in ps}
        v = BDD.restrict(_map_leaf_ids(n, table), cond)
        mid = [("el", Node(merge(clean(v))))]
    elif kind == "s" and all(len(p) == 1 and p[0][0] == "disp" and p[0][1] == ps[0][1][0][1] for _, p in ps):
        table = {l: p[0][2].n for l, p in ps}
        v = BDD.restrict(_map_leaf_ids(n, table), cond)
        mid = [("disp", ps[0][1][0][1], Node(merge(clean(v))))]
    else:
        table = {l: as_node(kind, p) for l, p in ps}
        v = clean(BDD.restrict(_map_leaf_ids(n, table), cond))
        if not pre and not suf and kind == "s":
            return v
        mid = [choice(kind, v)]
    return K(cat(kind, tuple(pre) + tuple(mid) + tuple(suf)))


def as_node(kind, ps):
    """list / string of pieces as a node, opening a lone choice"""
    if len(ps) == 1:
        if ps[0][0] == "alt":
            return ps[0][1].n
        if ps[0][0] == "opt":
            return BDD.ite(ps[0][1].n, K(cat(kind, ps[0][2])), EMPTY[kind])
    return K(cat(kind, ps))


def choice(kind, v):
    """one piece for a gated list / string"""
    e = EMPTY[kind]
    ls = [l for l in leaves(v) if l != e]
    if len(ls) == 1 and e in leaves(v):
        return ("opt", Node(indicator(v, set(ls))), tuple(pieces(BDD.leaf[ls[0]])))
    return ("alt", Node(v))


def _map_leaf_ids(n, table):
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if BDD.is_leaf(x):
                r = table.get(x, BOT)
            else:
                r = BDD.ite(BDD.mknode(BDD.var[x], 0, 1), go(BDD.hi[x]), go(BDD.lo[x]))
            memo[x] = r
        return r
    return go(n)


def _common(ss):
    a = min(ss)
    b = max(ss)
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return a[:i]


def length(n):
    def f(x):
        if isT(x, "cat"):
            r = K(0)
            for p in x.args[1:]:
                r = add(r, piece_len(p))
            return r
        if isT(x, "str"):
            return K(len(x.args[0].encode()))
        if isT(x, "bot"):
            return BOT
        if isT(x, "upd"):
            return length(K(x.args[0]))
        return K(mk("len", x))
    return clean(BDD.map1(n, f))


def piece_len(p):
    if p[0] == "el":
        return K(1)
    if p[0] == "sp":
        return length(K(p[1]))
    if p[0] == "lit":
        return K(len(p[1].encode()))
    if p[0] == "opt":
        r = K(0)
        for q in p[2]:
            r = add(r, piece_len(q))
        return ite(p[1].n, r, K(0))
    if p[0] == "alt":
        return length(p[1].n)
    if p[0] == "rep":
        if all(q[0] == "el" for q in p[3]):
            return scale(length(p[1].n), len(p[3]))
        return K(mk("len", mk("cat", "l", p)))
    return K(mk("len", mk("cat", "s", p)))


def elem(n, i):
    """i: node"""
    def f(x, k):
        if isT(x, "bot"):
            return BOT
        if isT(x, "cat") and isinstance(k, int):
            ps = x.args[1:]
            j = 0
            while j < len(ps) and ps[j][0] == "el" and j < k:
                j += 1
            if j == k and j < len(ps) and ps[j][0] == "el":
                return ps[j][1].n
            if all(p[0] == "el" for p in ps):
                return BOT
            if not j and len(ps) == 1 and ps[0][0] == "opt" and len(ps[0][2]) == 1 and ps[0][2][0][0] == "el" and k == 0:
                return ps[0][2][0][1].n
            if j < len(ps) and ps[j][0] == "opt":
                return ite(ps[j][1].n, elem(K(cat(x.args[0], ps[:j] + ps[j][2] + ps[j + 1:])), K(k)), elem(K(cat(x.args[0], ps[:j] + ps[j + 1:])), K(k)))
            if j < len(ps) and ps[j][0] == "alt":
                return BDD.map1(ps[j][1].n, lambda y: BOT if y is BOTT else elem(K(cat(x.args[0], ps[:j] + tuple(pieces(y)) + ps[j + 1:])), K(k)))
        elif isT(x, "cat") and len(x.args) == 2:
            p = x.args[1]
            if p[0] == "el":
                return p[1].n
            if p[0] == "opt" and len(p[2]) == 1 and p[2][0][0] == "el":
                return p[2][0][1].n
        if isT(x, "text") and isinstance(k, int):
            return TEXT["elem"](x, k)
        if isT(x, "upd"):
            i2 = leafof(x.args[1].n)
            if i2 == k and type(i2) == type(k):
                return x.args[2].n
            if isinstance(i2, int) and isinstance(k, int):
                return elem(K(x.args[0]), K(k))
            if isT(k, "idx") and k.args[1] == "upd":
                return ite(BDD.map1(x.args[1].n, lambda q: inteq(k, q)), x.args[2].n, elem(K(x.args[0]), K(k)))
        if isT(k, "pos") and k.args[0] is x:
            return at_path(x, k.args[1:])
        if isT(x, "cat") and slot(x, k) is not None:
            return x.args[1 + slot(x, k)][1].n
        if mapped(x) and not isinstance(k, int):
            p = x.args[1]
            return subst(p[3][0][1].n, {p[2]: K(k)})
        if isT(x, "rest") and not isT(k, "idx"):
            return elem(K(x.args[0]), add(x.args[1].n, K(k)))
        if isinstance(x, T):
            return K(mk("elem", x, Node(K(k))))
        raise Undecided("element of %r" % (x,))
    return clean(BDD.map2(n, i, f))


# -- numbers -------------------------------------------------------------------
def _one(x):
    if isinstance(x, Lin) and x.c == 0 and len(x.ts) == 1 and x.ts[0][1] == 1:
        return x.ts[0][0]
    if isinstance(x, FLin) and x.c == 0 and len(x.ts) == 1 and x.ts[0][1] == 1:
        return x.ts[0][0]
    return x


def isf(x):
    return isinstance(x, FLin)


def _num2(a, b, fi, ff, name):
    def f(x, y):
        if x is BOTT or y is BOTT:
            return BOT
        if isf(x) or isf(y):
            return K(_one(ff(x, y)))
        if isinstance(x, (int, Lin, T)) and isinstance(y, (int, Lin, T)):
            return K(_one(fi(x, y)))
        return K(mk(name, Node(K(x)), Node(K(y))))
    return clean(BDD.map2(a, b, f))


def add(a, b):
    return _num2(a, b, lin_add, flin_add, "add")


def sub(a, b):
    return _num2(a, b, lambda x, y: lin_add(x, y, -1), lambda x, y: flin_add(x, y, -1), "sub")


def fadd(a, b):
    return _num2(a, b, flin_add, flin_add, "add")


def fsub(a, b):
    return _num2(a, b, lambda x, y: flin_add(x, y, -1), lambda x, y: flin_add(x, y, -1), "sub")


def scale(a, k):
    return BDD.map1(a, lambda x: K(_one(lin_scale(x, k))))


def fconst(v):
    return K(FLin(Fraction(v), ()))


def arith(op, a, b, fl):
    if fl:
        if op == "Add":
            return fadd(a, b)
        if op == "Sub":
            return fsub(a, b)
    else:
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)

    def f(x, y):
        if x is BOTT or y is BOTT:
            return BOT
        if fl:
            cx, dx = flin_of(x)
            cy, dy = flin_of(y)
            if op == "Mul":
                if not dx:
                    return K(_one(flin_scale(y, cx)))
                if not dy:
                    return K(_one(flin_scale(x, cy)))
                p, q = sorted((K(x), K(y)))
                return K(mk("fmul", Node(p), Node(q)))
            if op == "Div" and not dy and cy != 0:
                return K(_one(flin_scale(x, 1 / cy)))
            return K(mk("f" + op.lower(), Node(K(x)), Node(K(y))))
        xi = isinstance(x, int)
        yi = isinstance(y, int)
        if op == "Mul":
            if xi:
                return K(_one(lin_scale(y, x)))
            if yi:
                return K(_one(lin_scale(x, y)))
            p, q = sorted((K(x), K(y)))
            return K(mk("mul", Node(p), Node(q)))
        if op == "BitAnd" and (xi and x == 0 or yi and y == 0 or isinstance(x, Ptr)):
            return K(0)
        if xi and yi:
            r = {"BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y,
                 "Shl": lambda: x << y, "Shr": lambda: x >> y}.get(op)
            if r:
                return K(r())
            if op in ("Div", "Rem") and y:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return K(q if op == "Div" else x - q * y)
        return K(mk(op.lower(), Node(K(x)), Node(K(y))))
    return clean(BDD.map2(a, b, f))


def neg(a, fl):
    return BDD.map1(a, lambda x: K(_one(flin_scale(x, -1))) if fl or isf(x) else K(_one(lin_scale(x, -1))))


# -- conditions ------------------------------------------------------------------
def asbool(n):
    def f(x):
        if x is True or x is False:
            return K(x)
        if x is BOTT:
            return BOT
        if isinstance(x, T):
            return boolterm(x)
        if isinstance(x, int):
            return 1 if x else 0
        raise Undecided("condition %r" % (x,))
    return clean(BDD.map1(n, f))


def boolterm(t):
    return BDD.atom(("b", t))


def nonneg(t):
    return t.op in ("len", "idx", "count", "first", "last")


def least(t):
    """lower bound of a term that is never negative"""
    if t.op != "len":
        return 0
    x = t.args[0]
    if isT(x, "chars"):
        x = x.args[0]
    if isT(x, "cat") and len(x.args) == 2 and x.args[1][0] == "disp" and x.args[1][1] in ("", "char"):
        return 1
    return 1 if LEAST and isT(x) and LEAST[-1](x) else 0


LEAST = []      # strings that are not empty (lines.py)


def fact_atom(k):
    for f in ASSUME:
        r = f(k)
        if r is not None:
            return r
    return BDD.atom(k)


def ge0(x):
    """x >= 0 for an integer expression"""
    c, d = lin_of(x)
    if not d:
        return 1 if c >= 0 else 0
    if all(k > 0 and nonneg(t) for t, k in d.items()) and c + sum(k * least(t) for t, k in d.items()) >= 0:
        return 1
    if all(k < 0 and nonneg(t) for t, k in d.items()) and c + sum(k * least(t) for t, k in d.items()) < 0:
        return 0
    if len(d) == 1:
        (t, k), = d.items()
        if t.op == "len" and isT(t.args[0], "text"):
            if k == 1:
                return TEXT["has"](t.args[0], -c - 1)
            if k == -1:
                return BDD.NOT(TEXT["has"](t.args[0], c))
    b = position_bound(c, d)
    if b is not None:
        return b
    g = 0
    from math import gcd
    for k in d.values():
        g = gcd(g, abs(k))
    ts = sorted(d.items(), key=lambda p: p[0].id)
    if ts[0][1] > 0:
        # g*form + c >= 0  <=>  form >= ceil(-c/g)
        form = _one(lin(0, {t: k // g for t, k in ts}))
        return fact_atom(("ge", form, -((c) // g)))
    form = _one(lin(0, {t: -k // g for t, k in ts}))
    # -g*form + c >= 0 <=> form <= floor(c/g) <=> not form >= floor(c/g)+1
    k = c // g + 1
    if all(v > 0 and nonneg(t) for t, v in lin_of(form)[1].items()) and k <= sum(v * least(t) for t, v in lin_of(form)[1].items()):
        return 0
    return BDD.NOT(fact_atom(("ge", form, k)))


def position_bound(c, d):
    """a found position lies within its list"""
    if len(d) != 2:
        return None
    for p, k in d.items():
        if p.op in ("first", "last") and abs(k) == 1 and len(p.args) == 3:
            for t, j in d.items():
                if t.op == "len" and j == -k and K(t.args[0]) == p.args[0].n:
                    # len - pos + c >= 0, or pos - len + c >= 0
                    if k == -1 and c >= -1:
                        return 1
                    if k == 1 and c <= 0:
                        return 0
    return None


def fsign(x):
    """(x > 0, x < 0) for a float expression"""
    c, d = flin_of(x)
    if not d:
        return (1 if c > 0 else 0, 1 if c < 0 else 0)
    ts = sorted(d.items(), key=lambda p: p[0].id)
    k = ts[0][1]
    s = abs(k)
    flip = k < 0
    form = _one(flin(c / (-s if flip else s), {t: v / (-s if flip else s) for t, v in ts}))
    pos = BDD.atom(("fpos", form))
    neg_ = BDD.AND(BDD.NOT(pos), BDD.atom(("fneg", form)))
    if isT(form) and form.op in ("fabs", "sqrt"):
        neg_ = 0
    return (neg_, pos) if flip else (pos, neg_)


def compare(op, a, b, fl):
    def f(x, y):
        if x is BOTT or y is BOTT:
            return BOT
        if fl or isf(x) or isf(y):
            p, m = fsign(flin_add(x, y, -1))
            return {"Lt": m, "Gt": p, "Le": BDD.NOT(p), "Ge": BDD.NOT(m),
                    "Eq": BDD.NOT(BDD.OR(p, m)), "Ne": BDD.OR(p, m)}[op]
        if isinstance(x, bool) or isinstance(y, bool):
            e = BDD.IFF(asbool(K(x)), asbool(K(y)))
            return e if op == "Eq" else BDD.NOT(e)
        if isinstance(x, Ptr) and isinstance(y, int) and y == 0 and op in ("Eq", "Ne"):
            return 0 if op == "Eq" else 1
        if not isinstance(x, (int, Lin, T)) or not isinstance(y, (int, Lin, T)):
            raise Undecided("comparison of %r" % (x,))
        if op == "Lt":
            return BDD.NOT(ge0(lin_add(x, y, -1)))
        if op == "Ge":
            return ge0(lin_add(x, y, -1))
        if op == "Gt":
            return BDD.NOT(ge0(lin_add(y, x, -1)))
        if op == "Le":
            return ge0(lin_add(y, x, -1))
        e = inteq(x, y)
        return e if op == "Eq" else BDD.NOT(e)
    return clean(BDD.map2(a, b, f))


def inteq(x, y):
    d = lin_add(x, y, -1)
    return BDD.AND(ge0(d), ge0(lin_scale(d, -1)))


def same(a, b):
    """structural equality of two values as a condition"""
    if a == b:
        return 1

    def f(x, y):
        if x is BOTT or y is BOTT:
            return BOT
        return same_leaf(x, y)
    return clean(BDD.map2(a, b, f))


def same_leaf(x, y):
    if type(x) is type(y) and x == y:
        return 1
    if isT(x, "stuck") or isT(y, "stuck"):
        return 0
    if isinstance(x, bool) or isinstance(y, bool):
        return BDD.IFF(asbool(K(x)), asbool(K(y)))
    if isf(x) or isf(y):
        if not isinstance(x, (FLin, T)) or not isinstance(y, (FLin, T)):
            return 0
        p, m = fsign(flin_add(x, y, -1))
        return BDD.NOT(BDD.OR(p, m))
    if isinstance(x, (int, Lin)) or isinstance(y, (int, Lin)):
        if isT(x, "chr"):
            x = x.args[0]
        if isT(y, "chr"):
            y = y.args[0]
        if isinstance(x, (int, Lin, T)) and isinstance(y, (int, Lin, T)):
            return inteq(x, y)
        return 0
    if isT(x, "len") or isT(y, "len"):
        return inteq(x, y)
    if isT(x) and isT(y):
        if x.op == "agg" and y.op == "agg":
            if x.args[1] != y.args[1] or len(x.args) != len(y.args):
                return 0
            r = 1
            for p, q in zip(fields_of(x), fields_of(y)):
                r = BDD.AND(r, same(p, q))
            return r
        if x.op == "agg" or y.op == "agg":
            if y.op == "agg":
                x, y = y, x
            fs = fields_of(x)
            r = BDD.atom(("isv", y, x.args[1])) if VARIANTS(x.args[0]) != 1 else 1
            nv = VARIANTS(x.args[0])
            if nv and nv > 1:
                r = is_variant(K(y), x.args[1], nv)
            for i, p in enumerate(fs):
                r = BDD.AND(r, same(p, fld(K(y), x.args[1], i, (x.args[0], len(fs)))))
            return r
        if x.op == "str" and y.op == "str":
            return 1 if x is y else 0
        if {x.op, y.op} <= {"str", "cat"}:
            c = str_incompatible(x, y)
            if c:
                return 0
            if x.op == "str" or y.op == "str":
                m = opened(K(x if y.op == "str" else y))
                if not BDD.is_leaf(m):
                    return same(m, K(y if y.op == "str" else x))
        if x.op == "upd" or y.op == "upd":
            r = same_updated(x, y) if x.op == "upd" else same_updated(y, x)
            if r is not None:
                return r
        if x.op == "cat" and x.args[0] == "l" or y.op == "cat" and y.args[0] == "l":
            r = same_lists(x, y)
            if r is not None:
                return r
        if x.op == "str" and x.args[0] == "":
            return inteq_len0(y)
        if y.op == "str" and y.args[0] == "":
            return inteq_len0(x)
        if x.id > y.id:
            x, y = y, x
        return fact_atom(("eq", x, y))
    return BDD.atom(("eqv", Node(K(x)), Node(K(y))))


def same_updated(x, y):
    """a list with one element replaced against another list"""
    base, p, v = x.args[0], x.args[1].n, x.args[2].n
    if y is base:
        return same(elem(K(base), p), v)
    if length(K(base)) != length(K(y)):
        return None
    r = same(elem(K(y), p), v)
    if y.op == "upd" and y.args[0] is base and y.args[1].n == p:
        return r
    i = mk("idx", Node(K(base)), "upd")
    c = BDD.OR(BDD.map2(K(i), p, inteq), same(elem(K(base), K(i)), elem(K(y), K(i))))
    return BDD.AND(r, BDD.NOT(exists(K(base), i, BDD.NOT(c))))


def same_lists(x, y):
    a, b = pieces(x), pieces(y)
    if len(a) == 1 and a[0][0] == "alt":
        return same(a[0][1].n, K(y))
    if len(b) == 1 and b[0][0] == "alt":
        return same(K(x), b[0][1].n)
    if len(a) != len(b):
        if all(p[0] == "el" for p in a) and all(p[0] == "el" for p in b):
            return 0
        return None
    r = 1
    for p, q in zip(a, b):
        if p == q:
            continue
        if q[0] == "rep" and p[0] != "rep":
            p, q = q, p
        if p[0] == "el" and q[0] == "el":
            r = BDD.AND(r, same(p[1].n, q[1].n))
            continue
        if p[0] == "rep" and len(p[3]) == 1 and p[3][0][0] == "el":
            if q[0] == "sp" and leafof(p[1].n) is q[1]:
                c = same(p[3][0][1].n, elem(K(q[1]), K(p[2])))
                r = BDD.AND(r, BDD.NOT(exists(p[1].n, p[2], BDD.NOT(c))))
                continue
            if q[0] == "rep" and p[1] == q[1] and len(q[3]) == 1 and q[3][0][0] == "el":
                c = same(p[3][0][1].n, subst(q[3][0][1].n, {q[2]: K(p[2])}))
                r = BDD.AND(r, BDD.NOT(exists(p[1].n, p[2], BDD.NOT(c))))
                continue
        if p[0] == "rep" and q[0] == "sp" and leafof(p[1].n) is q[1] and len(p[3]) == 1 and p[3][0][0] == "opt":
            o = p[3][0]
            if len(o[2]) == 1 and o[2][0][0] == "el":
                c = BDD.AND(o[1].n, same(o[2][0][1].n, elem(K(q[1]), K(p[2]))))
                r = BDD.AND(r, BDD.NOT(exists(p[1].n, p[2], BDD.NOT(c))))
                continue
        if p[0] == "opt" and q[0] == "opt":
            # pointwise: one walk's share of a filtered list
            c = same_lists(mk("cat", "l", *p[2]), mk("cat", "l", *q[2]))
            if c is not None:
                r = BDD.AND(r, BDD.AND(BDD.IFF(p[1].n, q[1].n), BDD.OR(BDD.NOT(p[1].n), c)))
                continue
        if p[0] == "rep" and q[0] == "rep" and p[1] == q[1]:
            c = same(K(cat("l", p[3])), subst(K(cat("l", q[3])), {q[2]: K(p[2])}))
            r = BDD.AND(r, BDD.NOT(exists(p[1].n, p[2], BDD.NOT(c))))
            continue
        return None
    return r


def spread(n):
    """strings with choices inside as a choice of strings"""
    def f(x):
        if isT(x, "cat") and x.args[0] == "s" and any(p[0] in ("alt", "opt") for p in x.args[1:]):
            r = EMPTY["s"]
            for p in x.args[1:]:
                if p[0] == "alt":
                    m = spread(p[1].n)
                elif p[0] == "opt":
                    m = BDD.ite(p[1].n, spread(K(cat("s", p[2]))), EMPTY["s"])
                else:
                    m = K(cat("s", [p]))
                r = BDD.map2(r, m, lambda a, b: BOT if a is BOTT or b is BOTT else K(cat("s", tuple(pieces(a)) + tuple(pieces(b)))))
            return r
        return K(x)
    return clean(BDD.map1(n, f))


def opened(n):
    """a text with choices inside as a choice of texts, when there are few"""
    x = leafof(n)
    if isT(x, "cat"):
        k = 1
        for p in x.args[1:]:
            if p[0] == "alt":
                k *= len(leaves(p[1].n))
            elif p[0] == "opt":
                k *= 2
        if 1 < k <= 64:
            return spread(n)
    return n


def inteq_len0(x):
    l = length(K(x))
    return BDD.map1(l, lambda v: inteq(v, 0))


VARIANTS = lambda name: None


def str_incompatible(x, y):
    a, b = pieces(x), pieces(y)
    if a and b and a[0][0] == "lit" and b[0][0] == "lit":
        n = min(len(a[0][1]), len(b[0][1]))
        if a[0][1][:n] != b[0][1][:n]:
            return True
    if a and b and a[-1][0] == "lit" and b[-1][0] == "lit":
        n = min(len(a[-1][1]), len(b[-1][1]))
        if a[-1][1][-n:] != b[-1][1][-n:]:
            return True
    return False


# -- list queries ------------------------------------------------------------------
def exists(L, idx, c):
    """some element (index idx) of L satisfies c"""
    if c == 0:
        return 0
    if idx not in BDD.marks(c):
        return BDD.AND(nonempty(L), c)
    return exists_by(L, idx, by_subst(L, idx, c))


def by_subst(L, idx, c):
    """body c of a walk over L as a function of (new list, element, index)"""
    olds = [BDD.leaf[x] for x in leaves(L)]

    def f(l, v, k):
        env = {mk("elem", y, Node(K(idx))): v for y in olds if isT(y) and y is not l}
        if k is not None:
            env[idx] = k
            if isT(l):
                env[mk("elem", l, Node(K(idx)))] = v
        return subst(c, env) if env else c
    return f


HEIGHT = {}
BOUND = {}
_level = [0]


def height(n):
    """greatest canonical index bound inside a node, plus one"""
    r = HEIGHT.get(n)
    if r is not None:
        return r

    def arg(a):
        if isinstance(a, Node):
            return height(a.n)
        if isinstance(a, T):
            return term(a)
        if isinstance(a, (Lin, FLin)):
            return max([term(t) for t, _ in a.ts] or [0])
        if isinstance(a, tuple):
            r = max([arg(y) for y in a] or [0])
            if a and a[0] in ("ex", "rep"):
                r = max(r, label(a[2]))
            return r
        return 0

    def label(i):
        return i.args[1] + 1 if isT(i, "idx") and i.args[0] == "b" else 0

    def term(t):
        r = HEIGHT.get(t)
        if r is None:
            if t.op == "idx":
                r = 0
            else:
                r = max([arg(a) for a in t.args] or [0])
                if t.op in ("first", "last") and len(t.args) == 3:
                    r = max(r, label(t.args[1]))
            HEIGHT[t] = r
        return r
    if BDD.is_leaf(n):
        r = arg(BDD.leaf[n])
    else:
        r = max(arg(BDD.atoms[BDD.var[n]]), height(BDD.lo[n]), height(BDD.hi[n]))
    HEIGHT[n] = r
    return r


def close_over(idx, c):
    """body c of a walk with its index renamed after the nesting depth"""
    key = (idx, c)
    r = BOUND.get(key)
    if r is None:
        if ASSUME:
            return idx, c
        t = mk("idx", "tmp", _level[0])
        _level[0] += 1
        try:
            c2 = subst(c, {idx: K(t)})
            h = height(c2)
            i = mk("idx", "b", h)
            while i in BDD.marks(c2):
                h += 1
                i = mk("idx", "b", h)
            r = (i, subst(c2, {t: K(i)}))
        finally:
            _level[0] -= 1
        BOUND[key] = r
    return r


def exists_by(L, idx, f):
    def g(l):
        if l is BOTT:
            return BOT
        if isT(l, "cat"):
            r = 0
            for path, gd, bind, v in walk(l):
                k = K(position(l, path, bind, [Node(K(b[1])) for b in bind]))
                e = BDD.AND(gd, f(l, v, k))
                for L2, i in reversed(bind):
                    e = exists(L2, i, e)
                r = BDD.OR(r, e)
            return r
        c = f(l, elem(K(l), K(idx)), None)
        if c == 0:
            return 0
        if idx not in BDD.marks(c):
            return BDD.AND(nonempty(K(l)), c)
        idx2, c2 = close_over(idx, c)
        r = ("ex", Node(K(l)), idx2, Node(c2))
        r = 0 if r in ABSENT else BDD.atom(r)
        if isT(l, "zipped"):
            # a walk in step over two lists of equal length is a walk over the first
            a, b = l.args[0].n, l.args[1].n
            i = mk("idx", Node(a), idx.args[1])
            r = BDD.ite(same(length(a), length(b)), exists(a, i, subst(c, {idx: K(i)})), r)
        return r
    return clean(BDD.map1(L, g))


# -- walking a list that is known piece by piece -----------------------------------
def lists_of(c, idx):
    """lists indexed by idx in c"""
    return set(t.args[0] for t in terms_in(c, lambda t: t.op == "elem" and leafof(t.args[1].n) is idx))


def at_elem(c, l, idx, v, k):
    env = {mk("elem", l, Node(K(idx))): v}
    if k is not None:
        env[idx] = k
    return subst(c, env)


def walk(l):
    """(path, condition, binder stack, value) of every element slot of a cat"""
    out = []

    def go(ps, path, g, bind):
        for k, p in enumerate(ps):
            q = path + (k,)
            if p[0] == "el":
                out.append((q, g, bind, p[1].n))
            elif p[0] == "opt":
                go(p[2], q, BDD.AND(g, p[1].n), bind)
            elif p[0] == "alt":
                for x in leaves(p[1].n):
                    go(pieces(BDD.leaf[x]), q + (BDD.leaf[x],), BDD.AND(g, indicator(p[1].n, {x})), bind)
            elif p[0] == "rep":
                go(p[3], q, g, bind + ((p[1].n, p[2]),))
            elif p[0] == "sp":
                i = mk("idx", Node(K(p[1])), "w")
                out.append((q, g, bind + ((K(p[1]), i),), elem(K(p[1]), K(i))))
            else:
                raise Undecided("list piece " + p[0])
    go(l.args[1:], (), 1, ())
    return out


def mapped(l):
    """a list with one element per element of another list"""
    return isT(l, "cat") and l.args[0] == "l" and len(l.args) == 2 and l.args[1][0] == "rep" and len(l.args[1][3]) == 1 and l.args[1][3][0][0] == "el"


def maplist(L, idx, v):
    """L with every element replaced by v (in terms of the element at idx)"""
    def g(l):
        if l is BOTT:
            return BOT
        if mapped(l):
            p = l.args[1]
            return K(cat("l", [("rep", p[1], p[2], (("el", Node(subst(v, {idx: K(p[2])}))),))]))
        if isT(l, "cat"):
            f = by_subst(K(l), idx, v)
            return K(cat("l", rep_by(K(l), idx, lambda m, e, k: [("el", Node(f(m, e, k)))])))
        return K(cat("l", [("rep", Node(K(l)), idx, (("el", Node(v)),))]))
    return clean(BDD.map1(L, g))


def position(l, path, binds, picks):
    if mapped(l):
        x = leafof(picks[0].n)
        if isinstance(x, (T, int, Lin)):
            return x
    if all(p[0] == "el" for p in l.args[1:path[0] + 1]) and len(path) == 1:
        return path[0]
    if len(path) == 1 and l.args[0] == "l" and all(p[0] in ("el", "sp") for p in l.args[1:path[0] + 1]):
        return leafof(before(l, path[0]))
    return mk("pos", l, path, *picks)


def before(l, k):
    """number of elements before piece k"""
    n = K(0)
    for p in l.args[1:k + 1]:
        n = add(n, K(1) if p[0] == "el" else length(K(p[1])))
    return n


def slot(l, k):
    """the piece that is the element at position k, if known"""
    if isinstance(k, int) or l.args[0] != "l" or not (isinstance(k, Lin) or isT(k, "len")):
        return None
    n = K(0)
    for j, p in enumerate(l.args[1:]):
        if p[0] == "el":
            if n == K(k):
                return j
            n = add(n, K(1))
        elif p[0] == "sp":
            n = add(n, length(K(p[1])))
        else:
            return None
    return None


def at_path(l, a):
    path, picks = a[0], a[1:]
    for q, g, bind, v in walk(l):
        if q == path:
            return subst(v, {b[1]: p.n for b, p in zip(bind, picks)}) if bind else v
    raise Undecided("position")


def pick_pos(which, L, idx, c):
    """index of the first / last element satisfying c"""
    return pick_by(which, L, idx, by_subst(L, idx, c))


def pick_by(which, L, idx, f):
    def g(l):
        if l is BOTT:
            return BOT
        if not isT(l, "cat"):
            i, c = close_over(idx, f(l, elem(K(l), K(idx)), None))
            return K(mk(which, Node(K(l)), i, Node(c)))
        slots = walk(l)
        r = BOT
        for path, gd, bind, v in (slots if which == "last" else slots[::-1]):
            k = K(position(l, path, bind, [Node(K(b[1])) for b in bind]))
            e = BDD.AND(gd, f(l, v, k))
            if e == 0:
                continue
            if not bind:
                r = ite(e, K(position(l, path, (), ())), r)
                continue
            if len(bind) > 1:
                raise Undecided("nested repetition")
            L2, i2 = bind[0]
            at = pick_pos(which, L2, i2, e)
            r = ite(exists(L2, i2, e), BDD.map1(at, lambda z: K(position(l, path, (), [Node(K(z))]))), r)
        return r
    return clean(BDD.map1(L, g))


def rep_by(L, idx, f):
    """pieces f(list, element, index) once per element of L, spread over what
    is known of L"""
    if not BDD.is_leaf(L):
        if not any(isT(BDD.leaf[x], "cat") for x in leaves(L)):
            raise Undecided("repetition over a choice")
        return [("alt", Node(clean(BDD.map1(L, lambda l: BOT if l is BOTT else K(cat("l", rep_by(K(l), idx, f)))))))]
    l = leafof(L)
    if not isT(l, "cat"):
        ps = join_opts(f(l, elem(K(l), K(idx)), None))
        return [("rep", Node(L), idx, ps)] if ps else []

    def go(qs, path, bind):
        res = []
        for k, p in enumerate(qs):
            q = path + (k,)
            if p[0] == "el":
                kk = position(l, q, bind, [Node(K(b)) for b in bind])
                res += f(l, p[1].n, K(kk))
            elif p[0] == "opt":
                res.append(("opt", p[1], tuple(go(p[2], q, bind))))
            elif p[0] == "alt":
                res.append(("alt", Node(BDD.map1(p[1].n, lambda x: BOT if x is BOTT else K(cat("l", go(pieces(x), q + (x,), bind)))))))
            elif p[0] == "rep":
                res.append(("rep", p[1], p[2], join_opts(go(p[3], q, bind + (p[2],)))))
            elif p[0] == "sp":
                i = mk("idx", Node(K(p[1])), "w")
                kk = mk("pos", l, q, *[Node(K(b)) for b in bind + (i,)])
                res.append(("rep", Node(K(p[1])), i, join_opts(f(l, elem(K(p[1]), K(i)), K(kk)))))
            else:
                raise Undecided("list piece " + p[0])
        return res
    return go(l.args[1:], (), ())


def subst_pieces(ps, env):
    t = K(mk("cat", "l", *ps))
    r = subst(t, env)
    x = leafof(r)
    if isT(x):
        return list(pieces(x))
    return [("alt", Node(r))]


def live(ps):
    out = []
    for p in ps:
        if p[0] == "opt":
            q = live(p[2])
            if p[1].n == 0 or not q:
                continue
            if p[1].n == 1:
                out += q
                continue
            p = ("opt", p[1], tuple(q))
        elif p[0] == "rep" and not p[3]:
            continue
        elif p[0] == "alt":
            e = single(p[1].n)
            if e is not None:
                g, v = e
                if g != 0:
                    q = ("el", Node(v))
                    out.append(q if g == 1 else ("opt", Node(g), (q,)))
                continue
        out.append(p)
    return out


def single(n):
    """choice between lists of at most one element as (present, element)"""
    for l in leaves(n):
        x = BDD.leaf[l]
        if x is BOTT:
            continue
        if not isT(x, "cat") or x.args[0] != "l" or len(x.args) > 2 or (len(x.args) == 2 and x.args[1][0] != "el"):
            return None
    g = BDD.map1(n, lambda x: BOT if x is BOTT else (1 if len(x.args) == 2 else 0))
    v = BDD.map1(n, lambda x: BOT if x is BOTT or len(x.args) != 2 else x.args[1][1].n)
    return clean(g), merge(clean(v))


def join_opts(ps):
    """single elements under disjoint conditions are one element"""
    ps = live(ps)
    ps = tuple(ps)
    if len(ps) < 2 or not all(p[0] == "opt" and len(p[2]) == 1 and p[2][0][0] == "el" for p in ps):
        return ps
    u = 0
    v = BOT
    for p in ps:
        if BDD.AND(u, p[1].n) != 0:
            return ps
        u = BDD.OR(u, p[1].n)
        v = BDD.ite(p[1].n, p[2][0][1].n, v)
    e = ("el", Node(merge(clean(v))))
    return (e,) if u == 1 else (("opt", Node(u), (e,)),)


def nonempty(L):
    return compare("Gt", length(L), K(0), False)


def lastsel(L, idx, g, v, init):
    """value of v at the last index satisfying g, else init"""
    e = exists(L, idx, g)
    if e == 0:
        return init
    if idx in BDD.marks(v):
        v = subst(v, {idx: pick_pos("last", L, idx, g)})
    return ite(e, v, init)


# -- signs of linear forms ----------------------------------------------------------------
def feasible(cons):
    """cons: list of (linear form as (const, {term: coeff}), op) with op in
    '>0', '>=0', '=0'; eliminate terms one by one"""
    eqs = []
    ineq = []
    for (c, d), op in cons:
        if op == "=0":
            eqs.append((c, dict(d)))
        else:
            ineq.append((c, dict(d), op == ">0"))
    while eqs:
        c, d = eqs.pop()
        if not d:
            if c != 0:
                return False
            continue
        t = next(iter(d))
        k = d[t]

        def rep(e):
            c2, d2 = e
            if t not in d2:
                return e
            f = -Fraction(d2[t]) / Fraction(k)
            out = {}
            for x in set(d) | set(d2):
                v = Fraction(d2.get(x, 0)) + f * Fraction(d.get(x, 0))
                if v != 0 and x != t:
                    out[x] = v
            return (Fraction(c2) + f * Fraction(c), out)
        eqs = [rep(e) for e in eqs]
        ineq = [rep(e[:2]) + (e[2],) for e in ineq]
    while True:
        for c, d, strict in ineq:
            if not d and (c < 0 or (strict and c == 0)):
                return False
        ineq = [e for e in ineq if e[1]]
        if not ineq:
            return True
        if len(ineq) > 200:
            return True
        t = next(iter(ineq[0][1]))
        pos = [e for e in ineq if e[1].get(t, 0) > 0]
        neg_ = [e for e in ineq if e[1].get(t, 0) < 0]
        ineq = [e for e in ineq if t not in e[1]]
        for a in pos:
            for b in neg_:
                fa, fb = -Fraction(b[1][t]), Fraction(a[1][t])
                d = {}
                for x in set(a[1]) | set(b[1]):
                    v = fa * a[1].get(x, 0) + fb * b[1].get(x, 0)
                    if v != 0 and x != t:
                        d[x] = v
                ineq.append((fa * a[0] + fb * b[0], d, a[2] or b[2]))


def consistent(c, limit=4000):
    """drop the combinations of sign tests that no numbers satisfy: returns the
    condition with every contradictory branch set to true"""
    count = [0]

    def forms(key):
        if key[0] in ("fpos", "fneg"):
            x = key[1]
            cc, d = (x.c, dict(x.ts)) if isinstance(x, FLin) else (0, {x: 1})
            return key[0], cc, d
        if key[0] == "ge":
            cc, d = lin_of(key[1])
            return "ge", cc - key[2], d
        return None

    def neg2(c, d):
        return -c, {t: -v for t, v in d.items()}

    def go(n, cons, signs):
        count[0] += 1
        if count[0] > limit:
            return n
        if BDD.is_leaf(n):
            return n
        f = forms(BDD.atoms[BDD.var[n]])
        if f is None:
            lo = go(BDD.lo[n], cons, signs)
            hi = go(BDD.hi[n], cons, signs)
        else:
            kind, cc, d = f
            if kind == "fpos":
                h, l = ((cc, d), ">0"), (neg2(cc, d), ">=0")
            elif kind == "fneg":
                h, l = (neg2(cc, d), ">0"), ((cc, d), ">=0")
            else:
                h, l = ((cc, d), ">=0"), ((-cc - 1, {t: -v for t, v in d.items()}), ">=0")
            hi = go(BDD.hi[n], cons + [h], signs) if feasible(cons + [h]) else None
            lo = go(BDD.lo[n], cons + [l], signs) if feasible(cons + [l]) else None
            if hi is None and lo is None:
                return 1
            if hi is None:
                return lo
            if lo is None:
                return hi
        return BDD.ite(BDD.atom(BDD.atoms[BDD.var[n]]), hi, lo)
    return go(c, [], {})


# -- recurrences -----------------------------------------------------------------------
def fold_value(L, idx, ini, stp, out):
    """value of out (over the acc cells) after a walk over L"""
    return K(mk("folds", Node(L), idx, ini, stp, Node(out)))


def fold_exit(L, idx, ini, stp, c):
    """does some round of the walk over L satisfy c"""
    return BDD.AND(BDD.atom(("foldx", Node(L), idx, ini, stp, Node(c))), nonempty(L))


def fold_steps(l, idx, n, ini, at, out):
    """run the recurrence along the known pieces of l.  at(l, v, k, state, i)
    gives step i (or the exit condition, i == n); None when a repeated piece
    changes the state."""
    state = list(ini)
    ex = [0]

    def go(ps, path, bind, g, state):
        for k, p in enumerate(ps):
            q = path + (k,)
            if p[0] == "el":
                kk = K(position(l, q, bind, [Node(K(b)) for b in bind]))
                ex[0] = BDD.OR(ex[0], BDD.AND(g, at(p[1].n, kk, state, n))) if out is None else 0
                new = [at(p[1].n, kk, state, i) for i in range(n)]
                if out is None and ex[0] == 1:
                    return state
                state = new
            elif p[0] == "opt":
                new = go(p[2], q, bind, BDD.AND(g, p[1].n), state)
                if new is None:
                    return None
                state = [ite(p[1].n, a, b) for a, b in zip(new, state)]
            elif p[0] in ("rep", "sp"):
                sym = [K(mk("acc", idx, i)) for i in range(n)]
                if p[0] == "sp":
                    i = mk("idx", Node(K(p[1])), "w")
                    els = [elem(K(p[1]), K(i))]
                    kk = K(mk("pos", l, q, *[Node(K(b)) for b in bind + (i,)]))
                elif out is not None and ROUNDS and not all(z[0] == "el" for z in p[3]):
                    state = ROUNDS[-1](p, [], state, sym, lambda v, s: go(p[3], q, bind + (p[2],), g, s))
                    if state is None:
                        return None
                    continue
                else:
                    if not all(z[0] == "el" for z in p[3]):
                        return None
                    els = [z[1].n for z in p[3]]
                    kk = K(mk("pos", l, q + (0,), *[Node(K(b)) for b in bind + (p[2],)]))
                if out is not None and ROUNDS:
                    state = ROUNDS[-1](p, els, state, sym, lambda v, s: [at(v, kk, s, i) for i in range(n)])
                    if state is None:
                        return None
                    continue
                for v in els:
                    for i in range(n):
                        if at(v, kk, sym, i) != sym[i] and at(v, kk, state, i) != state[i]:
                            return None
                    if out is None:
                        c = at(v, kk, state, n)
                        if c != 0:
                            i = mk("idx", Node(K(p[1])), "w") if p[0] == "sp" else p[2]
                            LL = K(p[1]) if p[0] == "sp" else p[1].n
                            ex[0] = BDD.OR(ex[0], BDD.AND(g, exists(LL, i, c)))
            elif p[0] == "alt" and out is not None:
                outs = {}
                for y in leaves(p[1].n):
                    if y == BOT:
                        continue
                    outs[y] = go(pieces(BDD.leaf[y]), q, bind, g, state)
                    if outs[y] is None:
                        return None
                state = [merge(clean(_map_leaf_ids(p[1].n, {y: o[i] for y, o in outs.items()}))) for i in range(n)]
            else:
                return None
        return state
    r = go(live(l.args[1:]), (), (), 1, state)
    if r is None:
        return None
    return ex[0] if out is None else r


# -- substitution --------------------------------------------------------------------
def subst(n, env, memo=None):
    """rewrite leaves/atoms; env maps T -> node"""
    if memo is None:
        memo = {}
    keys = set(env)

    def touches(m):
        return bool(m & keysm) if keysm is not None else True
    keysm = None
    if not ASSUME and all(k.op in ("idx", "mu") for k in keys):
        keysm = frozenset(keys)

    def node(x):
        r = memo.get(x)
        if r is not None:
            return r
        if keysm is not None and not (BDD.marks(x) & keysm):
            memo[x] = x
            return x
        if BDD.is_leaf(x):
            r = leaf(BDD.leaf[x])
        else:
            c = atom(BDD.atoms[BDD.var[x]])
            if c == BOT:
                # meaningless on this side, which may have been excluded by a
                # test further down
                r = node(BDD.hi[x])
                if r != BOT and r != node(BDD.lo[x]):
                    r = BOT
            elif c == 1:
                r = node(BDD.hi[x])
            elif c == 0:
                r = node(BDD.lo[x])
            else:
                r = ite(c, node(BDD.hi[x]), node(BDD.lo[x]))
        memo[x] = r
        return r

    def atom(k):
        mkey = ("atom", k)
        r = memo.get(mkey)
        if r is not None:
            return r
        r = _atom(k)
        if ASSUME and k[0] in ("is", "bit", "eq", "named", "ge"):
            r = assumed(r)
        memo[mkey] = r
        return r

    def assumed(r):
        """what is assumed of the tests that came out"""
        if BDD.is_leaf(r):
            return r
        mkey = ("assumed", r)
        if mkey not in memo:
            k = BDD.atoms[BDD.var[r]]
            c = None
            for f in ASSUME:
                c = f(k)
                if c is not None:
                    break
            if c is None:
                c = BDD.atom(k)
            memo[mkey] = BDD.ite(c, assumed(BDD.hi[r]), assumed(BDD.lo[r]))
        return memo[mkey]

    def _atom(k):
        h = k[0]
        for f in ASSUME:
            r = f(k)
            if r is not None:
                return r
        if h == "b":
            return asbool(leaf(k[1]))
        if h == "is":
            n2 = leaf(k[1])
            return is_variant(n2, k[2], k[3])
        if h == "bit":
            return clean(BDD.map1(tag(leaf(k[1]), k[3]), lambda v: BOT if v is BOTT else (1 if v >> k[2] & 1 else 0)))
        if h == "ge":
            return clean(BDD.map1(leaf(k[1]), lambda y: BOT if y is BOTT else ge0(lin_add(y, k[2], -1))))
        if h == "fpos":
            return clean(BDD.map1(leaf(k[1]), lambda y: BOT if y is BOTT else fsign(y)[0]))
        if h == "fneg":
            return clean(BDD.map1(leaf(k[1]), lambda y: BOT if y is BOTT else fsign(y)[1]))
        if h == "eq":
            return same(leaf(k[1]), leaf(k[2]))
        if h == "ex":
            return exists_by(node(k[1].n), k[2], within(k[1].n, k[2], lambda e: subst(k[3].n, e), lambda: node(k[3].n)))
        if h == "foldx":
            return folding(k[1], k[2], k[3], k[4], k[5], True)
        if h == "eqv":
            return same(node(k[1].n), node(k[2].n))
        if h in ARULES:
            r = ARULES[h](k, node, leaf)
            if r is not None:
                return r
        return BDD.atom(tuple([h] + [rebuild_arg(a) for a in k[1:]]))

    def folding(L, idx, ini, stp, out, exit):
        n = len(ini)
        olds = [BDD.leaf[y] for y in leaves(L.n)]
        L2 = node(L.n)
        ini2 = [node(a.n) for a in ini]

        def f(l):
            if l is BOTT:
                return BOT
            if isT(l, "cat"):
                def at(v, kk, state, i):
                    e = dict(env)
                    for y in olds + [l]:
                        if isT(y):
                            e[mk("elem", y, Node(K(idx)))] = v
                    e[idx] = kk
                    for j in range(n):
                        e[mk("acc", idx, j)] = state[j]
                    return subst((stp[i] if i < n else out).n, e)
                r = fold_steps(l, idx, n, ini2, at, None if exit else out)
                if r is not None:
                    if exit:
                        return r
                    e = dict(env)
                    for j in range(n):
                        e[mk("acc", idx, j)] = r[j]
                    return subst(out.n, e)
            e = dict(env)
            v = elem(K(l), K(idx))
            for y in olds:
                if isT(y):
                    e[mk("elem", y, Node(K(idx)))] = v
            e.pop(idx, None)
            st = tuple(Node(subst(a.n, e)) for a in stp)
            o = subst(out.n, e)
            i3 = tuple(Node(a) for a in ini2)
            if exit:
                return fold_exit(K(l), idx, i3, st, o) if o != 0 else 0
            return fold_value(K(l), idx, i3, st, o)
        return merge(clean(BDD.map1(L2, f))) if not exit else clean(BDD.map1(L2, f))

    def looping(x):
        k, ini, stp, on, lid = x.args
        ini = tuple(Node(node(a.n)) for a in ini)
        f = node
        if any(t.op == "mu" and t.args[0] == lid for t in keys):
            e = {t: v for t, v in env.items() if t.op != "mu" or t.args[0] != lid}
            m2 = {}

            def f(n):
                return subst(n, e, m2)
        stp = tuple(Node(f(a.n)) for a in stp)
        on = Node(f(on.n))
        r = ALONG[-1](ini, stp, on, lid) if ALONG else None
        if r is not None:
            return r[k]
        return K(mk("loop", k, ini, stp, on, lid))

    def within(L, idx, f, same_):
        """body of a walk over L, rewritten together with its element"""
        olds = [BDD.leaf[y] for y in leaves(L)]

        def g(l, v, k):
            if k is None and len(olds) == 1:
                return same_()
            e = dict(env)
            for y in olds:
                if isT(y):
                    e[mk("elem", y, Node(K(idx)))] = v
            if isT(l):
                e[mk("elem", l, Node(K(idx)))] = v
            if k is not None:
                e[idx] = k
            return f(e)
        return g

    def rebuild_arg(a):
        if isinstance(a, Node):
            return Node(node(a.n))
        if isinstance(a, T):
            x = leafof(leaf(a))
            return x if isinstance(x, T) else Node(leaf(a))
        if isinstance(a, tuple):
            return tuple(rebuild_arg(x) for x in a)
        return a

    def leaf(x):
        if isinstance(x, T):
            if x in env:
                return env[x]
            if x.op == "idx":
                return K(x)
            mkey = ("t", x)
            r = memo.get(mkey)
            if r is not None:
                return r
            if keysm is not None and not (x.marks & keysm):
                r = K(x)
            else:
                r = term(x)
            if r is None:
                raise AssertionError("no value for %s" % x.op)
            memo[mkey] = r
            return r
        if isinstance(x, Lin):
            r = K(x.c)
            for t, k in x.ts:
                r = add(r, scale(leaf(t), k))
            return r
        if isinstance(x, FLin):
            r = fconst(x.c)
            for t, k in x.ts:
                r = fadd(r, BDD.map1(leaf(t), lambda y: K(_one(flin_scale(y, k)))))
            return r
        if isinstance(x, Ptr):
            return K(Ptr(x.cell, tuple(s if s[0] != "e" else ("e", Node(node(s[1].n))) for s in x.path)))
        return K(x)

    def piece(p):
        if p[0] == "sp":
            v = leaf(p[1])
            x = leafof(v)
            if isinstance(x, T):
                return list(pieces(x))
            return [("alt", Node(v))]
        if p[0] == "opt":
            g = node(p[1].n)
            if g == 0:
                return []
            q = []
            for z in p[2]:
                q += piece(z)
            return [("opt", Node(g), tuple(q))]
        if p[0] == "alt":
            return [("alt", Node(node(p[1].n)))]
        if p[0] == "rep":
            def plain_():
                q = []
                for z in p[3]:
                    q += piece(z)
                return q
            return rep_by(node(p[1].n), p[2], within(p[1].n, p[2], lambda e: subst_pieces(p[3], e), plain_))
        return [tuple(rebuild_arg(a) for a in p)]

    def term(x):
        op = x.op
        if op == "agg":
            return agg(x.args[0], x.args[1], [node(a.n) for a in x.args[2:]])
        if op == "fld":
            return fld(leaf(x.args[0]), x.args[1], x.args[2], x.args[3])
        if op == "elem":
            return elem(leaf(x.args[0]), node(x.args[1].n))
        if op == "len":
            return length(leaf(x.args[0]))
        if op == "cat":
            ps = []
            for p in x.args[1:]:
                ps += piece(p)
            return K(cat(x.args[0], ps))
        if op == "loop":
            return looping(x)
        if op == "folds":
            return folding(x.args[0], x.args[1], x.args[2], x.args[3], x.args[4], False)
        if op in ("last", "first") and len(x.args) == 3 and isinstance(x.args[1], T):
            return pick_by(op, node(x.args[0].n), x.args[1], within(x.args[0].n, x.args[1], lambda e: subst(x.args[2].n, e), lambda: node(x.args[2].n)))
        if op in RAW:
            r = RAW[op](x, node, leaf)
            if r is not None:
                return r
        if op in RULES:
            return RULES[op](*[node(a.n) if isinstance(a, Node) else (leaf(a) if isinstance(a, T) else a) for a in x.args])
        return K(mk(op, *[rebuild_arg(a) for a in x.args]))
    return node(n)


FRONT = []      # all but the last element of a list, and the last (lines.py)
ROUNDS = []     # repeated text of known shape (lines.py)
ALONG = []      # loops over text whose shape is known (lines.py)
RULES = {}
RAW = {}
ARULES = {}



def rule(name):
    def d(f):
        RULES[name] = f
        return f
    return d


@rule("fmul")
def r_fmul(a, b):
    return arith("Mul", a, b, True)


@rule("fdiv")
def r_fdiv(a, b):
    return arith("Div", a, b, True)


# -- inspection -----------------------------------------------------------------------
def terms_in(n, pred, seen=None, out=None):
    """all terms satisfying pred that occur anywhere in a node"""
    if seen is None:
        seen, out = set(), []

    def arg(a):
        if isinstance(a, Node):
            node(a.n)
        elif isinstance(a, T):
            term(a)
        elif isinstance(a, (Lin, FLin)):
            for t, _ in a.ts:
                term(t)
        elif isinstance(a, tuple):
            for y in a:
                arg(y)

    def term(t):
        if t in seen:
            return
        seen.add(t)
        if pred(t):
            out.append(t)
        if t.op == "idx":
            return
        for a in t.args:
            arg(a)

    def node(x):
        if ("n", x) in seen:
            return
        seen.add(("n", x))
        if BDD.is_leaf(x):
            arg(BDD.leaf[x])
        else:
            key = BDD.atoms[BDD.var[x]]
            if key[0] in OPAQUE_ATOMS:
                term(mk("atom_" + key[0]))
            arg(key)
            node(BDD.lo[x])
            node(BDD.hi[x])
    node(n)
    return out


# tests whose outcome the value graph knows nothing about
OPAQUE_ATOMS = ("foldx", "loopx", "more", "undecided")


BUDGET = [0]


def render(n, depth=0):
    """readable multi-case rendering"""
    if depth == 0 and BUDGET[0] <= 0:
        BUDGET[0] = 4000
        try:
            return render(n, depth)
        finally:
            BUDGET[0] = 0
    BUDGET[0] -= 1
    if BUDGET[0] < 1:
        BUDGET[0] = 1
        return "…"
    if BDD.is_leaf(n):
        return rleaf(BDD.leaf[n], depth)
    if depth > 12:
        return "…"
    key = BDD.atoms[BDD.var[n]]
    if key[0] == "bit":
        alts = {}
        for v in range(key[3]):
            alts.setdefault(BDD.restrict(n, is_variant(K(key[1]), v, key[3])), []).append(str(v))
        return "%s{%s}" % (rleaf(key[1]), "; ".join("%s: %s" % ("|".join(vs), render(m, depth + 1)) for m, vs in alts.items()))
    v = show_key(key)
    if n and BDD.lo[n] == 0 and BDD.hi[n] == 1:
        return v
    if BDD.lo[n] == 1 and BDD.hi[n] == 0:
        return "!" + v
    return "(%s ? %s : %s)" % (v, render(BDD.hi[n], depth + 1), render(BDD.lo[n], depth + 1))


def show_key(k):
    h = k[0]
    if h == "b":
        return rleaf(k[1])
    if h == "is":
        return "%s~%d" % (rleaf(k[1]), k[2])
    if h == "ge":
        return "%s>=%d" % (rleaf(k[1]), k[2])
    if h == "fpos":
        return "%s>0" % rleaf(k[1])
    if h == "fneg":
        return "%s<0" % rleaf(k[1])
    if h == "eq":
        return "%s==%s" % (rleaf(k[1]), rleaf(k[2]))
    if h == "ex":
        return "any(%s: %s)" % (render(k[1].n), render(k[3].n))
    return "%s(%s)" % (h, ", ".join(rarg(a) for a in k[1:]))


def rarg(a):
    if isinstance(a, Node):
        return render(a.n)
    if isinstance(a, tuple):
        return "(" + ", ".join(rarg(x) for x in a) + ")"
    if isinstance(a, (T, Lin, FLin, Ptr)):
        return rleaf(a)
    return str(a)


def rpiece(p):
    if p[0] == "el":
        return render(p[1].n)
    if p[0] == "sp":
        return "..%s" % rleaf(p[1])
    if p[0] == "lit":
        return repr(p[1])
    if p[0] == "disp":
        return "{%s%s}" % (render(p[2].n), ":" + str(p[1]) if p[1] else "")
    if p[0] == "opt":
        return "[%s => %s]" % (render(p[1].n), " ".join(rpiece(q) for q in p[2]))
    if p[0] == "alt":
        return "<%s>" % render(p[1].n)
    if p[0] == "rep":
        return "<for %s: %s>" % (render(p[1].n), " ".join(rpiece(q) for q in p[3]))
    return str(p)


NAMES = {}
SHORT = None
SHORTLOG = []


def rleaf(x, depth=0):
    if isinstance(x, T):
        if x.op == "var":
            return str(x.args[0])
        if x.op == "str":
            return repr(x.args[0])
        if x.op == "fld":
            c = x.args[3][0]
            nm = NAMES.get((c, x.args[1], x.args[2]), str(x.args[2]))
            return "%s.%s" % (rleaf(x.args[0]), nm)
        if x.op == "elem":
            i = leafof(x.args[1].n)
            return "%s[%s]" % (rleaf(x.args[0]), "" if isT(i, "idx") else render(x.args[1].n))
        if x.op == "agg":
            nm = x.args[0].split("::")[-1]
            v = NAMES.get((x.args[0], x.args[1]))
            return "%s%s{%s}" % (nm, "::" + v if v else "", ", ".join(render(f, depth + 1) for f in fields_of(x)))
        if x.op == "ev" and SHORT is not None:
            if x not in SHORT:
                prev = rarg(x.args[3])
                SHORT[x] = "e%d" % len(SHORT)
                SHORTLOG.append("%s = %s%s(%s) after %s" % (SHORT[x], x.args[0], "<%s>" % x.args[1] if x.args[1] else "", rarg(x.args[2]), prev))
            return SHORT[x]
        if x.op == "cat":
            return ("[" if x.args[0] == "l" else "“") + " ".join(rpiece(p) for p in x.args[1:]) + ("]" if x.args[0] == "l" else "”")
        return "%s(%s)" % (x.op, ", ".join(rarg(a) for a in x.args))
    if isinstance(x, FLin) or isinstance(x, Lin):
        return "+".join([("%s*" % k if k != 1 else "") + rleaf(t) for t, k in x.ts] + ([str(x.c)] if x.c or not x.ts else []))
    return repr(x)
