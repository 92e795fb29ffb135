"""Facts about functions outside the analysed crate.

Each entry says how the result and the mutable arguments of one external
function relate to its arguments.  Anything not listed is an opaque
expression of its arguments.
"""
from vg import *
import vg
from flow import rest, USER, ptr_step, upd

TABLE = {}
OPT = "std::option::Option"
RES = "std::result::Result"
SEXP = "kicad_parse_gen::Sexp"


def prim(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def lookup(fl, info, decl):
    if info is not None:
        p = info["path"]
        if info["crate"] in USER and not p.startswith("kicad_parse_gen::Sexp::"):
            if decl == "std::clone::Clone::clone":
                return p_clone
            h = fl.stop and USERHOOKS.get(p.rsplit("::", 1)[-1])
            return h
        f = TABLE.get(p)
        if f is not None:
            return f
        if p.startswith("symbolic_expressions::") or p.startswith("kicad_parse_gen::Sexp::"):
            h = USERHOOKS.get(p.rsplit("::", 1)[-1])
            if h:
                return h
        if p.startswith("core::panicking") or p.startswith("std::rt::begin_panic") or p.startswith("std::rt::panic") or "unwrap_failed" in p or "expect_failed" in p:
            return p_panic
    if decl is not None:
        f = TABLE.get(decl)
        if f is not None and not (info is not None and info["crate"] in USER):
            return f
    return None


USERHOOKS = {}


def impl_type(name):
    """implementing type in an impl path"""
    if name.startswith("<"):
        return name[1:].split(" as ")[0]
    i = name.rfind(" for ")
    j = name.rfind(">::")
    return name[i + 5:j]


def hook_into_sexp(ctx, x):
    """writers of the parts of a value are analysed on their own"""
    if len(ctx.fl.stack) <= ctx.fl.sexp_depth:
        return NotImplemented
    ty = impl_type(ctx.info["name"])
    if not ty.startswith("kicad_parse_gen::"):
        return NotImplemented
    return K(mk("sx", ty, Node(ctx.val(x))))


def hook_from_sexp(ctx, s):
    if len(ctx.fl.stack) <= ctx.fl.sexp_depth:
        return NotImplemented
    nm = ctx.info["name"]
    if nm.startswith("symbolic_expressions::iteratom::from_sexp"):
        ty = ctx.fl.P.tyname(ctx.info["args"][-1])
    else:
        ty = impl_type(nm)
    return K(mk("parse", ty, Node(ctx.val(s))))


USERHOOKS["into_sexp"] = hook_into_sexp
USERHOOKS["from_sexp"] = hook_from_sexp


def p_panic(ctx, *a):
    ctx.fl.panic(ctx.g, "panic " + ctx.info["path"].split("::")[-1])
    ctx.g = 0
    return BOT


# -- S-expression readers ---------------------------------------------------------
IA = "symbolic_expressions::iteratom::IterAtom"


def mkopt(c, v):
    return ite(c, some(v), NONE)


def mkres(c, v, e):
    return ite(c, ok(v), err(e))


@prim(IA + "::<'a>::new")
def p_ia_new(ctx, s, name):
    s = ctx.val(s)
    cur = K(mk("it", "cur", mk("head", Node(s), Node(name))))
    obj = agg(IA, 0, [name, cur])
    return mkres(BDD.atom(("named", Node(s), Node(name))), obj, K(mk("sexperr", "head", Node(s), Node(name))))


@prim(IA + "::<'a>::new_nameless")
def p_ia_nameless(ctx, s, name):
    s = ctx.val(s)
    cur = K(mk("it", "cur", mk("list", Node(s))))
    obj = agg(IA, 0, [name, cur])
    return mkres(BDD.atom(("islist", Node(s))), obj, K(mk("sexperr", "list", Node(s))))


def ia_event(kind):
    def f(ctx, p, name=None):
        ty = None
        if kind in ("t", "maybe_t", "t_in_list", "vec"):
            a = [x for x in ctx.info["args"] if isinstance(x, int)]
            ty = ctx.fl.P.tyname(a[-1])
        obj = ctx.load(p)
        cur = fld(obj, 0, 1, (IA, 2))
        if not kind.endswith(("_in_list", "_literal_s")):
            name = None      # only used in messages
        ev = mk("ev", kind, ty or "", Node(name if name is not None else K(mk("none"))), Node(cur))
        ctx.fl.event("ev", ctx.g, ev)
        nobj = BDD.map1(obj, lambda x: agg(IA, 0, [fld(K(x), 0, 0, (IA, 2)), K(mk("it", "cur", ev))]))
        ctx.store(p, merge(nobj))
        return K(ev)
    return f


for _k in ("i", "f", "s", "s_in_list", "i_in_list", "f_in_list", "t", "t_in_list", "vec",
           "maybe_f", "maybe_i", "maybe_s", "maybe_f_in_list", "maybe_i_in_list", "maybe_s_in_list",
           "maybe_literal_s", "maybe_t"):
    TABLE[IA + "::<'a>::" + _k] = ia_event(_k)


@prim(IA + "::<'a>::close")
def p_close(ctx, obj, v):
    obj = ctx.val(obj)
    cur = fld(obj, 0, 1, (IA, 2))
    return mkres(BDD.atom(("closed", Node(cur))), v, K(mk("sexperr", "close", Node(cur))))


def sx_get(name, what):
    def f(ctx, s, *a):
        s = ctx.val(s)
        t = mk("sexp", what, Node(s), *[Node(ctx.val(x)) for x in a])
        return K(t)
    TABLE["kicad_parse_gen::Sexp::" + name] = f
    TABLE["symbolic_expressions::Sexp::" + name] = f


for _n in ("f", "i", "s", "list", "string", "list_name", "named_value_s", "named_value_i", "named_value_f",
           "list_iter", "slice_atom", "slice_atom_num"):
    sx_get(_n, _n)


@prim("symbolic_expressions::parser::parse_str")
def p_parse_str(ctx, s):
    return K(mk("sexp", "parse", Node(ctx.val(s))))


@prim("symbolic_expressions::ser::to_string_with_formatter")
def p_ser(ctx, s, f):
    return K(mk("sexp", "print", Node(ctx.val(s)), Node(ctx.val(f))))


# -- iterators ------------------------------------------------------------------
def it_list(coll, pos=None):
    return K(mk("it", "list", Node(coll), Node(pos if pos is not None else K(0))))


def as_list(ctx, v):
    return ctx.val(v)


@prim("core::slice::<impl [T]>::iter", "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter", "core::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
      "core::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter",
      "core::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter",
      "std::vec::Vec::<T, A>::drain", "core::array::<impl [T; N]>::iter")
def p_iter(ctx, v, *a):
    l = as_list(ctx, v)
    if leafof(l) is not None and isT(leafof(l), "it"):
        return l
    if ctx.info and ctx.info["path"].endswith("drain"):
        ctx.store(v, EMPTY["l"])
    return it_list(l)


@prim("core::slice::<impl [T]>::iter_mut", "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
      "core::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter")
def p_iter_mut(ctx, p):
    x = leafof(p)
    while isinstance(x, Ptr):
        y = leafof(ctx.fl.read_path(ctx.st.get(x.cell, BOT), x.path))
        if isinstance(y, Ptr):
            x = y
        else:
            break
    if not isinstance(x, Ptr):
        raise Undecided("iter_mut of %r" % (x,))
    return K(mk("it", "mut", x.cell, x.path, Node(ctx.load(K(x)))))


@prim("<I as std::iter::IntoIterator>::into_iter", "std::iter::Iterator::by_ref", "std::iter::Iterator::peekable",
      "std::iter::Iterator::fuse", "std::iter::Iterator::cloned", "std::iter::Iterator::copied")
def p_id_iter(ctx, it):
    return it


@prim("<&'a std::option::Option<T> as std::iter::IntoIterator>::into_iter", "std::option::Option::<T>::iter",
      "<std::option::Option<T> as std::iter::IntoIterator>::into_iter")
def p_opt_iter(ctx, o):
    o = ctx.val(o)
    c = is_variant(o, 1, 2)
    return it_list(K(cat("l", [("opt", Node(c), (("el", Node(fld(o, 1, 0, (OPT, 1)))),))])))


@prim("<&'a mut std::option::Option<T> as std::iter::IntoIterator>::into_iter", "std::option::Option::<T>::iter_mut")
def p_opt_iter_mut(ctx, p):
    p, o = unptr(ctx, p)
    x = leafof(p)
    if not isinstance(x, Ptr):
        raise Undecided("iter_mut of a choice")
    here = K(Ptr(x.cell, x.path + (("f", 1, 0, (OPT, 1)),)))
    return it_list(K(cat("l", [("opt", Node(is_variant(o, 1, 2)), (("el", Node(here)),))])))


def adaptor(kind):
    def f(ctx, it, *a):
        x = leafof(it)
        if not isT(x):
            raise Undecided("iterator choice")
        return K(mk("it", kind, x, *[Node(y) for y in a]))
    return f


for _k in ("map", "filter", "enumerate", "rev", "skip", "take", "filter_map", "zip", "chain", "take_while",
           "skip_while", "flat_map", "inspect", "flatten", "step_by"):
    TABLE["std::iter::Iterator::" + _k] = adaptor(_k)


@prim("std::iter::repeat")
def p_repeat(ctx, v):
    return K(mk("it", "repeat", Node(v)))


def iter_base(x):
    """the list an iterator expression walks, as a node"""
    k = x.args[0]
    if k == "list":
        pos = leafof(x.args[2].n)
        if pos == 0:
            return x.args[1].n
        return K(mk("rest", leafT(x.args[1].n), x.args[2]))
    if k == "mut":
        return x.args[3].n
    if k == "cur":
        return K(mk("tail", x))
    if k in ("map", "filter", "enumerate", "filter_map", "inspect"):
        return iter_base(x.args[1])
    if k == "skip":
        b = iter_base(x.args[1])
        n = leafof(x.args[2].n)
        l = leafof(b) if b is not None else None
        if isT(l) and isinstance(n, int):
            return rest(l, n)
        if isT(l):
            return K(mk("rest", l, x.args[2]))
        return None
    if k == "take":
        b = iter_base(x.args[1])
        if b is None and x.args[1].args[0] == "repeat":
            return K(mk("repeat", x.args[1].args[1], x.args[2]))
        if b is None:
            return None
        return K(mk("take", Node(b), x.args[2]))
    if k == "rev":
        b = iter_base(x.args[1])
        return None if b is None else K(mk("rev", Node(b)))
    if k == "chain":
        a, b = iter_base(x.args[1]), None
        y = leafof(x.args[2].n)
        if isT(y, "it"):
            b = iter_base(y)
        elif isT(y):
            b = K(y)
        if a is None or b is None or not plain(x.args[1]) or (isT(y, "it") and not plain(y)):
            return None
        return concat("l", a, b)
    if k == "zip":
        a = iter_base(x.args[1])
        y = leafof(x.args[2].n)
        b = iter_base(y) if isT(y, "it") else K(y)
        if a is None or b is None:
            return None
        return K(mk("zipped", Node(a), Node(b)))
    return None


def leafT(n):
    x = leafof(n)
    if not isinstance(x, T):
        raise Undecided("choice of lists")
    return x


def plain(x):
    return x.args[0] in ("list", "mut", "cur", "skip", "take", "rev", "chain")


def gen(ctx, x, drv):
    """element produced by one step of the driver iterator: (guard, value)"""
    L, idx = drv["L"], drv["idx"]
    k = x.args[0]
    if k in ("list", "cur", "skip", "take", "rev", "chain"):
        if k in ("skip", "take", "rev") and not plain(x.args[1]):
            raise Undecided("sliced adaptor")
        if k == "take" and x.args[1].args[0] == "repeat":
            return 1, x.args[1].args[1].n
        if k == "rev" and x.args[1].args[0] == "mut":
            raise Undecided("reversed mutable iterator")
        b = leafof(L)
        if k == "rev":
            base = iter_base(x.args[1])
            if base is not None:
                bl = leafof(base)
                if isT(bl):
                    return 1, K(mk("elem", mk("rev", Node(base)), Node(K(idx))))
        return 1, elem(L, K(idx))
    if k == "mut":
        return 1, K(Ptr(x.args[1], x.args[2] + (("e", Node(K(idx))),)))
    if k == "enumerate":
        if has_filter(x.args[1]):
            raise Undecided("enumerate after filter")
        g, v = gen(ctx, x.args[1], drv)
        return g, tup(K(idx), v)
    if k == "map":
        g, v = gen(ctx, x.args[1], drv)
        return g, ctx.call(x.args[2].n, [v])
    if k == "inspect":
        g, v = gen(ctx, x.args[1], drv)
        ctx.call(x.args[2].n, [v])
        return g, v
    if k == "filter":
        g, v = gen(ctx, x.args[1], drv)
        c = asbool(ctx.call(x.args[2].n, [v]))
        return BDD.AND(g, c), v
    if k == "filter_map":
        g, v = gen(ctx, x.args[1], drv)
        o = ctx.call(x.args[2].n, [v])
        return BDD.AND(g, is_variant(o, 1, 2)), fld(o, 1, 0, (OPT, 1))
    if k == "zip":
        y = leafof(x.args[2].n)
        a = iter_base(x.args[1])
        b = iter_base(y) if isT(y, "it") else K(y)
        return 1, tup(elem(a, K(idx)), elem(b, K(idx)))
    raise Undecided("iterator " + k)


def has_filter(x):
    if x.args[0] in ("filter", "filter_map"):
        return True
    return len(x.args) > 1 and isT(x.args[1], "it") and has_filter(x.args[1])


def next_one(ctx, x, peek=False):
    """(condition, value, iterator afterwards) of one step outside a loop"""
    if isT(x, "mu") and x in ctx.fl.drivers:
        drv = ctx.fl.drivers[x]
        g, v = gen(ctx, drv["init"], drv)
        old = drv.get("filter", 1)
        drv["filter"] = g
        if g != 1:
            ctx.g = BDD.AND(ctx.g, BDD.OR(BDD.NOT(drv["more"]), g))
        return drv["more"], v, K(mk("adv", x))
    if isT(x, "it"):
        k = x.args[0]
        if k == "list":
            L, pos = x.args[1].n, x.args[2].n
            c = compare("Lt", pos, length(L), False)
            return c, elem(L, pos), K(mk("it", "list", Node(L), Node(add(pos, K(1)))))
        if k == "mut":
            L = ctx.load(K(Ptr(x.args[1], x.args[2])))
            return nonempty(L), K(Ptr(x.args[1], x.args[2] + (("e", Node(K(0))),))), K(mk("adv", x))
        if k == "map":
            c, v, nx = next_one(ctx, x.args[1])
            g = ctx.g
            r = ctx.call(x.args[2].n, [v])
            nl = leafof(nx)
            if isT(nl, "it"):
                return c, r, K(mk("it", "map", nl, x.args[2]))
            return c, r, K(mk("adv", x))
        if k in ("filter",) and iter_base(x) is not None:
            L = iter_base(x)
            idx = mk("idx", Node(L), 0)
            g, v = gen(ctx, x, {"L": L, "idx": idx})
            pos = pick_pos("first", L, idx, g)
            return exists(L, idx, g), subst(v, {idx: pos}), K(mk("adv", x))
        if k == "cur":
            return BDD.atom(("more", x)), K(mk("item", x)), K(mk("it", "cur", mk("item", x)))
        if k == "rev" and iter_base(x.args[1]) is not None and plain(x.args[1]):
            L = iter_base(x.args[1])
            return nonempty(L), elem(L, sub(length(L), K(1))), K(mk("adv", x))
        if k == "skip" and iter_base(x) is not None:
            L = iter_base(x)
            return nonempty(L), elem(L, K(0)), K(mk("it", "list", Node(L), Node(K(1))))
        if k == "done":
            return 0, BOT, K(x)
    if isT(x, "agg") and x.args[0] == "std::ops::Range":
        a, b = fields_of(x)
        return compare("Lt", a, b, False), a, agg(x.args[0], 0, [add(a, K(1)), b])
    if isT(x):
        return BDD.atom(("more", x)), K(mk("item", x)), K(mk("adv", x))
    raise Undecided("next of %r" % (x,))


def unptr(ctx, p):
    """innermost pointer to a non-pointer"""
    while True:
        v = ctx.load(p)
        if any(isinstance(BDD.leaf[l], Ptr) for l in leaves(v)):
            p = v
        else:
            return p, v


@prim("std::iter::Iterator::next", "<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
      "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
      "std::iter::range::<impl std::iter::Iterator for std::ops::Range<A>>::next",
      "<std::iter::Peekable<I> as std::iter::Iterator>::next", "std::iter::DoubleEndedIterator::next_back")
def p_next(ctx, p):
    if ctx.decl and ctx.decl.endswith("next_back"):
        raise Undecided("next_back")
    p, v = unptr(ctx, p)
    ls = leaves(v)
    if len(ls) == 1:
        c, val, nx = next_one(ctx, leafof(v))
        ctx.store(p, ite(c, nx, v) if isT(leafof(v), "it") and leafof(v).args[0] == "done" else nx)
        return mkopt(c, val)
    res = BOT
    new = BOT
    for l in ls:
        c, val, nx = next_one(ctx, BDD.leaf[l])
        ind = indicator(v, {l})
        res = ite(ind, mkopt(c, val), res) if res != BOT else mkopt(c, val)
        new = ite(ind, nx, new) if new != BOT else nx
    ctx.store(p, new)
    return res


@prim("std::iter::Peekable::<I>::peek")
def p_peek(ctx, p):
    p, v = unptr(ctx, p)
    x = leafof(v)
    if isT(x, "mu") and x in ctx.fl.drivers:
        raise Undecided("peek in driven loop")
    c, val, nx = next_one(ctx, x)
    return mkopt(c, val)


def loop_over(ctx, it, step):
    """run a summarised loop over an iterator value.  step(ctx, v) is one
    iteration and returns a list of early exits (name, guard, state)."""
    fl = ctx.fl
    st = dict(ctx.st)
    cell = fl.new_cell(st, it)

    def body(g, s):
        c = Ctx2(ctx, g, dict(s))
        opt = p_next(c, K(Ptr(cell, ())))
        isn = BDD.AND(c.g, is_variant(opt, 0, 2))
        iss = BDD.AND(c.g, is_variant(opt, 1, 2))
        exits = []
        if isn != 0:
            exits.append(("done", isn, dict(c.st)))
        back = None
        if iss != 0:
            c.g = iss
            v = fld(opt, 1, 0, (OPT, 1))
            ex = step(c, v) or []
            rem = c.g
            for nm, cond, s2 in ex:
                gc = BDD.AND(c.g, cond)
                if gc != 0:
                    exits.append((nm, gc, s2 if s2 is not None else dict(c.st)))
                rem = BDD.AND(rem, BDD.NOT(cond))
            if rem != 0:
                back = (rem, c.st)
        return exits, back
    return fl.run_loop(ctx.g, st, body)


def Ctx2(ctx, g, st):
    c = ctx.__class__()
    for a in ("fl", "key", "info", "gargs", "retty", "argtys", "line"):
        setattr(c, a, getattr(ctx, a))
    c.decl = None
    c.g = g
    c.st = st
    return c


def settle(ctx, outs, pick):
    """join the exits of a summarised loop; pick(name, st) -> value"""
    cur = None
    for nm, g, st in outs:
        st = dict(st)
        st[-1] = pick(nm, st)
        cur = ctx.fl.join(cur, (g, st))
    if cur is None:
        ctx.g = 0
        return BOT
    ctx.g = cur[0]
    st = dict(cur[1])
    v = st.pop(-1)
    ctx.st = st
    return v


def rng(ctx, it):
    return ctx.val(it) if isinstance(leafof(it), Ptr) else it


@prim("std::iter::Iterator::collect")
def p_collect(ctx, it):
    it = rng(ctx, it)
    t = ctx.fl.P.types[ctx.retty] if ctx.retty is not None else {"k": "?"}
    nm = t.get("name", "")
    x = leafof(it)
    if nm == "std::string::String":
        st = ctx.st
        cell = ctx.fl.new_cell(st, EMPTY["s"])

        def step(c, v):
            cur = c.st[cell]
            c.st[cell] = append(cur, "s", [("disp", "", Node(v))])
        outs = loop_over(ctx, it, step)
        return settle(ctx, outs, lambda n, s: s[cell])
    if nm == "std::vec::Vec":
        if isT(x, "it") and x.args[0] == "list" and leafof(x.args[2].n) == 0:
            return x.args[1].n
        cell = ctx.fl.new_cell(ctx.st, EMPTY["l"])

        def step(c, v):
            c.st[cell] = append(c.st[cell], "l", [("el", Node(v))])
        outs = loop_over(ctx, it, step)
        return settle(ctx, outs, lambda n, s: s[cell])
    if nm == RES:
        cell = ctx.fl.new_cell(ctx.st, EMPTY["l"])
        ecell = ctx.fl.new_cell(ctx.st, BOT)

        def step(c, v):
            c.st[cell] = append(c.st[cell], "l", [("el", Node(fld(v, 0, 0, (RES, 1))))])
            s2 = dict(c.st)
            s2[ecell] = fld(v, 1, 0, (RES, 1))
            return [("err", is_variant(v, 1, 2), s2)]
        outs = loop_over(ctx, it, step)
        return settle(ctx, outs, lambda n, s: ok(s[cell]) if n == "done" else err(s[ecell]))
    return K(mk("collect", Node(it)))


@prim("std::vec::Vec::<T, A>::extend", "<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend",
      "<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend", "std::iter::Extend::extend")
def p_extend(ctx, p, it):
    x = leafof(it)
    if not isT(x, "it"):
        v = ctx.val(it)
        if isT(leafof(v)):
            ctx.store(p, concat("l", ctx.load(p), v))
            return UNIT

    def step(c, v):
        c.store(p, append(c.load(p), "l", [("el", Node(v))]))
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: UNIT)


@prim("std::vec::Vec::<T, A>::extend_from_slice")
def p_extend_slice(ctx, p, l):
    ctx.store(p, concat("l", ctx.load(p), ctx.val(l)))
    return UNIT


@prim("std::iter::Iterator::for_each")
def p_for_each(ctx, it, f):
    def step(c, v):
        c.call(f, [v])
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: UNIT)


def search(kind):
    def f(ctx, it, fn):
        it2 = it
        cell = ctx.fl.new_cell(ctx.st, BOT)

        def step(c, v):
            r = c.call(fn, [v])
            s2 = None
            if kind == "find_map":
                s2 = dict(c.st)
                s2[cell] = r
                return [("hit", is_variant(r, 1, 2), s2)]
            cond = asbool(r)
            if kind == "all":
                cond = BDD.NOT(cond)
            s2 = dict(c.st)
            s2[cell] = v
            return [("hit", cond, s2)]
        if isinstance(leafof(it), Ptr):
            it2 = ctx.val(it)
        outs = loop_over(ctx, it2, step)
        if isinstance(leafof(it), Ptr):
            ctx.store(it, K(mk("adv", leafof(it2) if isT(leafof(it2)) else mk("x"))))

        def pick(n, s):
            if kind == "any":
                return 1 if n == "hit" else 0
            if kind == "all":
                return 0 if n == "hit" else 1
            if kind == "find":
                return some(s[cell]) if n == "hit" else NONE
            if kind == "find_map":
                return s[cell] if n == "hit" else NONE
        return settle(ctx, outs, pick)
    return f


for _k in ("any", "all", "find", "find_map"):
    TABLE["std::iter::Iterator::" + _k] = search(_k)
    TABLE["<std::slice::Iter<'a, T> as std::iter::Iterator>::" + _k] = search(_k)
    TABLE["<std::slice::IterMut<'a, T> as std::iter::Iterator>::" + _k] = search(_k)


@prim("std::iter::Iterator::position", "<std::slice::Iter<'a, T> as std::iter::Iterator>::position")
def p_position(ctx, it, fn):
    it = rng(ctx, it)
    L = iter_base(leafof(it))
    cell = ctx.fl.new_cell(ctx.st, BOT)
    cnt = ctx.fl.new_cell(ctx.st, K(0))

    def step(c, v):
        r = c.call(fn, [v])
        s2 = dict(c.st)
        lp = c.fl.loops[-1]
        s2[cell] = K(lp[1]) if lp else K(mk("pos"))
        return [("hit", asbool(r), s2)]
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: some(s[cell]) if n == "hit" else NONE)


@prim("std::iter::Iterator::fold")
def p_fold(ctx, it, init, fn):
    cell = ctx.fl.new_cell(ctx.st, init)

    def step(c, v):
        c.st[cell] = c.call(fn, [c.st[cell], v])
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: s[cell])


@prim("std::iter::Iterator::count", "std::iter::ExactSizeIterator::len")
def p_count(ctx, it):
    it = rng(ctx, it)
    x = leafof(it)
    if isT(x, "it") and plain(x) and iter_base(x) is not None:
        return length(iter_base(x))
    cell = ctx.fl.new_cell(ctx.st, K(0))

    def step(c, v):
        c.st[cell] = add(c.st[cell], K(1))
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: s[cell])


@prim("std::iter::Iterator::sum")
def p_sum(ctx, it):
    fl = ctx.fl.P.types[ctx.retty]["k"] == "float"
    cell = ctx.fl.new_cell(ctx.st, fconst(0) if fl else K(0))

    def step(c, v):
        c.st[cell] = arith("Add", c.st[cell], c.val(v), fl)
    return settle(ctx, loop_over(ctx, it, step), lambda n, s: s[cell])


@prim("std::iter::Iterator::nth")
def p_nth(ctx, p, n):
    p, v = unptr(ctx, p)
    k = leafof(n)
    x = leafof(v)
    if isT(x, "it") and x.args[0] == "list":
        L, pos = x.args[1].n, add(x.args[2].n, n)
        ctx.store(p, K(mk("it", "list", Node(L), Node(add(pos, K(1))))))
        return mkopt(compare("Lt", pos, length(L), False), elem(L, pos))
    ctx.store(p, K(mk("adv", x if isT(x) else mk("x"))))
    return K(mk("nth", Node(v), Node(n)))


@prim("std::iter::Iterator::last", "std::iter::DoubleEndedIterator::next_back")
def p_it_last(ctx, it):
    v = ctx.val(it)
    x = leafof(v)
    if isT(x, "it") and plain(x) and iter_base(x) is not None:
        L = iter_base(x)
        return mkopt(nonempty(L), elem(L, sub(length(L), K(1))))
    return K(mk("lastof", Node(v)))


# -- vectors -------------------------------------------------------------------------
@prim("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
def p_vec_new(ctx, *a):
    return EMPTY["l"]


@prim("std::vec::Vec::<T, A>::push")
def p_push(ctx, p, v):
    p, l = unptr(ctx, p)
    ctx.store(p, append(l, "l", [("el", Node(v))]))
    return UNIT


@prim("std::vec::Vec::<T, A>::append")
def p_vappend(ctx, p, q):
    p, l = unptr(ctx, p)
    q, m = unptr(ctx, q)
    ctx.store(p, concat("l", l, m))
    ctx.store(q, EMPTY["l"])
    return UNIT


@prim("std::vec::Vec::<T, A>::insert")
def p_insert(ctx, p, i, v):
    p, l = unptr(ctx, p)
    if leafof(i) == 0:
        ctx.store(p, BDD.map1(l, lambda x: K(cat("l", (("el", Node(v)),) + tuple(pieces(x))))))
    else:
        ctx.store(p, K(mk("inserted", Node(l), Node(i), Node(v))))
    return UNIT


@prim("std::vec::Vec::<T, A>::clear")
def p_vclear(ctx, p):
    ctx.store(p, EMPTY["l"])
    return UNIT


@prim("std::vec::Vec::<T, A>::retain")
def p_retain(ctx, p, fn):
    p, l = unptr(ctx, p)
    cell = ctx.fl.new_cell(ctx.st, EMPTY["l"])

    def step(c, v):
        c.st[cell] = append(c.st[cell], "l", [("el", Node(v))])
    it = K(mk("it", "filter", leafof(it_list(l)), Node(fn)))
    r = settle(ctx, loop_over(ctx, it, step), lambda n, s: s[cell])
    ctx.store(p, r)
    return UNIT


@prim("std::vec::Vec::<T, A>::truncate", "std::vec::Vec::<T, A>::dedup",
      "core::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_by", "core::slice::<impl [T]>::reverse",
      "std::slice::<impl [T]>::sort", "std::slice::<impl [T]>::sort_by", "std::slice::<impl [T]>::sort_by_key",
      "core::slice::<impl [T]>::sort_unstable", "core::slice::<impl [T]>::swap", "std::vec::Vec::<T, A>::remove")
def p_vmut(ctx, p, *a):
    p, l = unptr(ctx, p)
    nm = ctx.info["path"].split("::")[-1] if ctx.info else "mut"
    ctx.store(p, K(mk("vec_" + nm, Node(l), *[Node(x) for x in a])))
    if nm == "remove":
        bad = BDD.NOT(compare("Lt", a[0], length(l), False))
        ctx.panic(bad, "remove")
        return elem(l, a[0])
    return UNIT


@prim("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::shrink_to_fit", "std::string::String::reserve")
def p_nop(ctx, *a):
    return UNIT


@prim("std::vec::Vec::<T, A>::pop")
def p_pop(ctx, p):
    p, l = unptr(ctx, p)
    x = leafof(l)
    if isT(x, "cat"):
        ps = x.args[1:]
        if ps and ps[-1][0] == "el":
            ctx.store(p, K(cat("l", ps[:-1])))
            return some(ps[-1][1].n)
        if not ps:
            return NONE
    v = elem(l, sub(length(l), K(1)))
    c = nonempty(l)
    ctx.store(p, BDD.map1(l, lambda y: K(mk("popped", y))))
    return mkopt(c, v)


@prim("std::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def p_len(ctx, l):
    return length(ctx.val(l))


@prim("std::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def p_is_empty(ctx, l):
    return BDD.NOT(nonempty(ctx.val(l)))


@prim("core::slice::<impl [T]>::last")
def p_last(ctx, l):
    l = ctx.val(l)
    return mkopt(nonempty(l), elem(l, sub(length(l), K(1))))


@prim("core::slice::<impl [T]>::first")
def p_first(ctx, l):
    l = ctx.val(l)
    return mkopt(nonempty(l), elem(l, K(0)))


@prim("core::slice::<impl [T]>::get")
def p_get(ctx, l, i):
    l = ctx.val(l)
    if isT(leafof(i), "agg"):
        return K(mk("getslice", Node(l), Node(i)))
    return mkopt(compare("Lt", i, length(l), False), elem(l, i))


@prim("core::slice::<impl [T]>::get_mut")
def p_get_mut(ctx, p, i):
    p, l = unptr(ctx, p)
    return mkopt(compare("Lt", i, length(l), False), ptr_step(p, ("e", Node(i))))


@prim("core::slice::<impl [T]>::first_mut")
def p_first_mut(ctx, p):
    p, l = unptr(ctx, p)
    return mkopt(nonempty(l), ptr_step(p, ("e", Node(K(0)))))


@prim("core::slice::<impl [T]>::contains")
def p_contains_slice(ctx, l, v):
    l, v = ctx.val(l), ctx.val(v)
    idx = mk("idx", Node(l), 0)
    return exists(l, idx, same(elem(l, K(idx)), v))


def index_range(ctx, l, i):
    x = leafof(i)
    nm = x.args[0]
    fs = fields_of(x)
    if nm == "std::ops::RangeFrom":
        a = fs[0]
        bad = BDD.NOT(compare("Le", a, length(l), False))
        return bad, a, None
    if nm == "std::ops::Range":
        bad = BDD.NOT(BDD.AND(compare("Le", fs[0], fs[1], False), compare("Le", fs[1], length(l), False)))
        return bad, fs[0], fs[1]
    if nm == "std::ops::RangeTo":
        bad = BDD.NOT(compare("Le", fs[0], length(l), False))
        return bad, K(0), fs[0]
    if nm == "std::ops::RangeFull":
        return 0, K(0), None
    raise Undecided("index " + nm)


@prim("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "core::slice::index::<impl std::ops::Index<I> for [T]>::index",
      "core::array::<impl std::ops::Index<I> for [T; N]>::index")
def p_index(ctx, l, i):
    l = ctx.val(l)
    x = leafof(i)
    if isT(x, "agg"):
        bad, a, b = index_range(ctx, l, i)
        ctx.panic(bad, "slice")
        if b is None:
            k = leafof(a)
            if isinstance(k, int):
                return BDD.map1(l, lambda y: rest(y, k))
        return K(mk("subslice", Node(l), Node(a), Node(b if b is not None else length(l))))
    ctx.panic(BDD.NOT(compare("Lt", i, length(l), False)), "index")
    return elem(l, i)


@prim("<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut", "core::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut")
def p_index_mut(ctx, p, i):
    p, l = unptr(ctx, p)
    x = leafof(i)
    if isT(x, "agg"):
        bad, a, b = index_range(ctx, l, i)
        if b is None and leafof(a) == 0:
            return p
        raise Undecided("mutable slice")
    ctx.panic(BDD.NOT(compare("Lt", i, length(l), False)), "index")
    return ptr_step(p, ("e", Node(i)))


@prim("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
      "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_str", "std::vec::Vec::<T, A>::as_slice",
      "std::vec::Vec::<T, A>::as_mut_slice", "<std::path::PathBuf as std::ops::Deref>::deref",
      "<std::string::String as std::convert::AsRef<str>>::as_ref", "<str as std::convert::AsRef<str>>::as_ref",
      "<str as std::convert::AsRef<std::path::Path>>::as_ref", "std::convert::AsRef::as_ref", "std::path::Path::new",
      "std::path::PathBuf::as_path", "std::borrow::Borrow::borrow", "std::path::Path::to_path_buf",
      "<std::string::String as std::convert::From<&str>>::from", "<std::string::String as std::convert::From<&'a str>>::from",
      "<str as std::string::ToString>::to_string", "<std::string::String as std::string::ToString>::to_string",
      "std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::str::<impl str>::to_owned", "std::borrow::ToOwned::to_owned",
      "std::string::String::into_string", "core::str::<impl str>::as_bytes", "std::string::String::as_bytes", "std::string::String::into_bytes",
      "std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec", "<T as std::string::ToString>::to_string_str",
      "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
      "<std::boxed::Box<T, A> as std::ops::Deref>::deref", "std::boxed::Box::<T>::new", "std::hint::must_use",
      "std::convert::identity", "core::str::<impl str>::to_string", "std::path::PathBuf::from",
      "<std::path::PathBuf as std::convert::From<&T>>::from", "std::boxed::Box::<T, A>::into_inner",
      "<T as std::convert::Into<T>>::into", "<T as std::convert::From<T>>::from",
      "<str as std::string::SpecToString>::spec_to_string", "<std::string::String as std::string::SpecToString>::spec_to_string")
def p_same(ctx, v, *a):
    return v


@prim("std::path::Path::parent")
def p_parent(ctx, p):
    return K(mk("path_parent", Node(ctx.val(p))))


def path_join(p, x):
    return K(mk("path_join", Node(p), Node(x)))


@prim("std::path::Path::join")
def p_join_path(ctx, p, x):
    return path_join(ctx.val(p), ctx.val(x))


@prim("std::path::Path::with_file_name")
def p_with_file_name(ctx, p, x):
    return path_join(fld(K(mk("path_parent", Node(ctx.val(p)))), 1, 0, (OPT, 1)), ctx.val(x))


@prim("std::path::PathBuf::push")
def p_path_push(ctx, p, x):
    ctx.store(p, path_join(ctx.load(p), ctx.val(x)))
    return UNIT


@prim("std::path::PathBuf::pop")
def p_path_pop(ctx, p):
    o = K(mk("path_parent", Node(ctx.load(p))))
    c = is_variant(o, 1, 2)
    ctx.store(p, ite(c, fld(o, 1, 0, (OPT, 1)), ctx.load(p)))
    return c


@prim("std::boxed::box_assume_init_into_vec_unsafe")
def p_into_vec(ctx, v):
    v = ctx.val(v)
    while isT(leafof(v), "agg") and leafof(v).args[0] in ("std::mem::MaybeUninit", "std::mem::ManuallyDrop", "std::mem::MaybeDangling"):
        v = fields_of(leafof(v))[-1]
    return v


@prim("std::boxed::Box::<T>::new_uninit")
def p_uninit(ctx):
    return K(Ptr(ctx.fl.new_cell(ctx.st, BOT), ()))


@prim("std::clone::Clone::clone", "<std::vec::Vec<T, A> as std::clone::Clone>::clone", "std::option::Option::<&T>::cloned",
      "std::option::Option::<&T>::copied", "std::option::Option::<&mut T>::cloned")
def p_clone(ctx, v):
    return ctx.val(v) if isinstance(leafof(v), Ptr) else v


@prim("std::clone::Clone::clone_from")
def p_clone_from(ctx, p, v):
    ctx.store(p, ctx.val(v))
    return UNIT


@prim("std::mem::swap")
def p_swap(ctx, a, b):
    x, y = ctx.load(a), ctx.load(b)
    ctx.store(a, y)
    ctx.store(b, x)
    return UNIT


@prim("std::mem::replace")
def p_replace(ctx, a, v):
    x = ctx.load(a)
    ctx.store(a, v)
    return x


@prim("std::mem::take")
def p_take(ctx, a):
    x = ctx.load(a)
    y = leafof(x)
    t = ctx.fl.P.types[ctx.retty] if ctx.retty is not None else {}
    if t.get("name") == "std::vec::Vec":
        ctx.store(a, EMPTY["l"])
    elif t.get("name") == "std::string::String":
        ctx.store(a, EMPTY["s"])
    elif t.get("name") == OPT:
        ctx.store(a, NONE)
    else:
        ctx.store(a, K(mk("default")))
    return x


@prim("std::mem::drop", "std::mem::forget", "log::__private_api_log", "log::__log")
def p_drop(ctx, *a):
    return UNIT


@prim("log::__static_max_level", "log::max_log_level")
def p_loglevel(ctx, *a):
    return K(mk("loglevel"))


# logging is not part of any result
@prim("std::cmp::PartialOrd::le", "std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::ge", "std::cmp::PartialOrd::gt")
def p_ord(ctx, a, b):
    a, b = ctx.val(a), ctx.val(b)
    op = ctx.decl.split("::")[-1]
    if any(isT(BDD.leaf[l], "loglevel") for l in leaves(a) + leaves(b)) or (ctx.info and "LogLevel" in ctx.info["name"]) or (ctx.info and "log::" in ctx.info["name"]):
        return 0
    fl = False
    if ctx.argtys:
        t = ctx.fl.P.types[ctx.argtys[0]]
        while "to" in t:
            t = ctx.fl.P.types[t["to"]]
        fl = t["k"] == "float"
        if t["k"] not in ("float", "int", "char"):
            return K(mk("cmp", op, Node(a), Node(b)))
    return compare({"le": "Le", "lt": "Lt", "ge": "Ge", "gt": "Gt"}[op], a, b, fl)


@prim("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def p_eq(ctx, a, b):
    P = ctx.fl.P
    t = None
    if ctx.argtys:
        t = peel(P, ctx.argtys[0])
        if t["k"] == "adt" and t["crate"] in USER:
            own = P.eq_impl(t["name"])
            if own is not None:
                r = asbool(call_eq(ctx, own, ctx.val(a), ctx.val(b)))
                return BDD.NOT(r) if ctx.decl.endswith("ne") else r
    a, b = ctx.val(a), ctx.val(b)

    def user(u, x, y):
        own = P.eq_impl(u["name"])
        return None if own is None else asbool(call_eq(ctx, own, x, y))
    r = eq_by_type(P, t, a, b, user) if t is not None else same(a, b)
    return BDD.NOT(r) if ctx.decl.endswith("ne") else r


def call_eq(ctx, key, a, b):
    fl = ctx.fl
    ctx.g, ctx.st, v = fl.call(key, "", [a, b], ctx.g, ctx.st, [], None, None, ctx.line)
    return v


def peel(P, i):
    t = P.types[i]
    while "to" in t:
        t = P.types[t["to"]]
    return t


def eq_by_type(P, t, a, b, user):
    """equality of two values of type t; user(type, a, b) decides for the types of the program"""
    k = t["k"]
    if a == b and k != "adt":
        return 1
    if k == "float":
        return compare("Eq", a, b, True)
    if k == "int":
        return compare("Eq", a, b, False)
    if k == "bool":
        return BDD.IFF(asbool(a), asbool(b))
    if k == "adt" and t["crate"] in USER:
        r = user(t, a, b)
        return same(a, b) if r is None else r
    if k == "adt" and t["name"] in (OPT, "std::boxed::Box", "std::vec::Vec") or k in ("slice", "array"):
        i = t.get("elem")
        if i is None:
            i = [x for x in t["args"] if isinstance(x, int)][0]
        e = peel(P, i)
        if k == "adt" and t["name"] == OPT:
            f = lambda v: fld(v, 1, 0, (OPT, 1))
            sa, sb = is_variant(a, 1, 2), is_variant(b, 1, 2)
            both = BDD.AND(sa, sb)
            return BDD.ite(both, eq_by_type(P, e, BDD.restrict(f(a), both), BDD.restrict(f(b), both), user), BDD.NOT(BDD.OR(sa, sb))) if both != 0 else BDD.IFF(sa, sb)
        if k == "adt" and t["name"] == "std::boxed::Box":
            return eq_by_type(P, e, a, b, user)
        if e["k"] != "adt" or e["crate"] not in USER:
            return same(a, b)
        n = same(length(a), length(b))
        if n == 0:
            return 0
        i = mk("idx", Node(a), "eq")
        c = eq_by_type(P, e, elem(a, K(i)), elem(b, K(i)), user)
        return BDD.AND(n, BDD.NOT(exists(a, i, BDD.NOT(c))))
    return same(a, b)


@prim("std::intrinsics::discriminant_value", "core::intrinsics::discriminant_value", "std::mem::discriminant")
def p_discr(ctx, v):
    v = ctx.val(v)
    a = [x for x in ctx.info["args"] if isinstance(x, int)] if ctx.info else []
    ty = a[0]
    return ctx.fl.discr(v, ty)


# -- numbers -----------------------------------------------------------------------
def fun1(name):
    def f(ctx, a):
        a = ctx.val(a)
        return r_fun1(name, a)
    return f


def r_fun1(name, a):
    def f(x):
        if x is BOTT:
            return BOT
        if name == "fabs":
            c, d = flin_of(x)
            if not d:
                return fconst(abs(c))
            p, m = fsign(x)
            s = _lead(x)
            return K(mk("fabs", Node(K(s))))
        return K(mk(name, Node(K(x))))
    return BDD.map1(a, f)


def _lead(x):
    c, d = flin_of(x)
    ts = sorted(d.items(), key=lambda p: p[0].id)
    if ts[0][1] < 0:
        return vg._one(flin_scale(x, -1))
    return x


for _n, _p in (("abs", "fabs"), ("sqrt", "sqrt"), ("sin", "sin"), ("cos", "cos"), ("to_radians", "radians"), ("floor", "floor"), ("round", "round"), ("ceil", "ceil")):
    TABLE["core::f64::<impl f64>::" + _n] = fun1(_p)
    TABLE["std::f64::<impl f64>::" + _n] = fun1(_p)
RULES["fabs"] = lambda a: r_fun1("fabs", a)


def fminmax(name):
    def f(ctx, a, b):
        return r_minmax(name, a, b)
    return f


def r_minmax(name, a, b):
    return BDD.map2(a, b, lambda x, y: minmax(name, x, y))


def minmax(name, *xs):
    args = set()
    for x in xs:
        if isT(x, name):
            args |= set(a.n for a in x.args)
        else:
            args.add(K(x))
    cs = [a for a in args if isf(leafof(a)) and not leafof(a).ts]
    if len(cs) > 1:
        m = (min if name == "fmin" else max)(cs, key=lambda a: leafof(a).c)
        args -= set(cs)
        args.add(m)
    if len(args) == 1:
        return list(args)[0]
    return K(mk(name, *[Node(a) for a in sorted(args)]))


for _n, _p in (("min", "fmin"), ("max", "fmax")):
    TABLE["core::f64::<impl f64>::" + _n] = fminmax(_p)
    TABLE["std::f64::<impl f64>::" + _n] = fminmax(_p)


def _rmm(name):
    def f(*args):
        r = args[0]
        for a in args[1:]:
            r = r_minmax(name, r, a)
        return r
    return f


RULES["fmin"] = _rmm("fmin")
RULES["fmax"] = _rmm("fmax")


@prim("core::num::<impl i64>::abs")
def p_iabs(ctx, a):
    return BDD.map1(a, lambda x: K(abs(x)) if isinstance(x, int) else K(mk("iabs", Node(K(x)))))


@prim("std::cmp::Ord::max", "std::cmp::max")
def p_imax(ctx, a, b):
    return ite(compare("Lt", a, b, False), b, a)


@prim("std::cmp::Ord::min", "std::cmp::min")
def p_imin(ctx, a, b):
    return ite(compare("Lt", b, a, False), b, a)


@prim("core::num::<impl i64>::from_str_radix", "core::num::<impl u64>::from_str_radix", "core::num::<impl i32>::from_str_radix")
def p_radix(ctx, s, r):
    return K(mk("parse_radix", Node(ctx.val(s)), Node(r)))


# -- strings ---------------------------------------------------------------------
@prim("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default")
def p_string_new(ctx, *a):
    return EMPTY["s"]


@prim("std::default::Default::default")
def p_default(ctx):
    t = ctx.fl.P.types[ctx.retty] if ctx.retty is not None else {"k": "?"}
    if ctx.info is not None and ctx.info["crate"] in USER:
        return NotImplemented
    k = t["k"]
    if k == "float":
        return fconst(0)
    if k == "int":
        return K(0)
    if k == "bool":
        return 0
    if t.get("name") == OPT:
        return NONE
    if t.get("name") == "std::vec::Vec":
        return EMPTY["l"]
    if t.get("name") == "std::string::String" or k == "str":
        return EMPTY["s"]
    return NotImplemented


for _n in ("f64", "i64", "u64", "usize", "bool", "u32", "i32"):
    TABLE["<%s as std::default::Default>::default" % _n] = p_default
TABLE["<std::option::Option<T> as std::default::Default>::default"] = p_default


@prim("std::string::String::push_str")
def p_push_str(ctx, p, s):
    p, l = unptr(ctx, p)
    ctx.store(p, concat("s", l, ctx.val(s)))
    return UNIT


def char_pieces(c):
    x = leafof(c)
    if isinstance(x, int) and not isinstance(x, bool):
        return (("lit", chr(x)),)
    if x is None and all(isinstance(BDD.leaf[l], int) for l in leaves(c)):
        return (("alt", Node(BDD.map1(c, lambda y: lit(chr(y))))),)
    return (("disp", "char", Node(c)),)


@prim("std::string::String::push")
def p_spush(ctx, p, c):
    p, l = unptr(ctx, p)
    ctx.store(p, append(l, "s", char_pieces(c)))
    return UNIT


@prim("std::string::String::insert")
def p_sinsert(ctx, p, i, c):
    p, l = unptr(ctx, p)
    if leafof(i) == 0:
        ctx.store(p, BDD.map1(l, lambda x: K(cat("s", char_pieces(c) + tuple(pieces(x))))))
    else:
        ctx.store(p, K(mk("str_insert", Node(l), Node(i), Node(c))))
    return UNIT


@prim("std::string::String::clear")
def p_sclear(ctx, p):
    ctx.store(p, EMPTY["s"])
    return UNIT


@prim("std::string::String::remove")
def p_sremove(ctx, p, i):
    p, l = unptr(ctx, p)
    ctx.panic(BDD.NOT(compare("Lt", i, length(l), False)), "string remove")
    ctx.store(p, K(mk("str_remove", Node(l), Node(i))))
    return elem(BDD.map1(l, lambda x: K(mk("chars", x))), i)


@prim("<std::string::String as std::ops::Add<&str>>::add")
def p_sadd(ctx, a, b):
    return concat("s", a, ctx.val(b))


@prim("<std::string::String as std::ops::AddAssign<&str>>::add_assign")
def p_saddassign(ctx, p, b):
    p, l = unptr(ctx, p)
    ctx.store(p, concat("s", l, ctx.val(b)))
    return UNIT


@prim("std::string::String::len", "core::str::<impl str>::len")
def p_slen(ctx, s):
    return length(ctx.val(s))


@prim("std::string::String::is_empty", "core::str::<impl str>::is_empty")
def p_sempty(ctx, s):
    return BDD.NOT(nonempty(ctx.val(s)))


def str_pred(kind):
    def f(ctx, s, p):
        s, p = ctx.val(s), ctx.val(p)
        if any(isT(BDD.leaf[l], "agg") and BDD.leaf[l].args[0].startswith("closure") for l in leaves(p)):
            return K(mk("str_" + kind, Node(s), Node(p)))

        return str_test(kind, s, p)
    return f


def str_test(kind, s, p):
    if True:
        def h(x, y):
            if x is BOTT or y is BOTT:
                return BOT
            if isT(x, "str") and (isT(y, "str") or isinstance(y, int)):
                y2 = y.args[0] if isT(y) else chr(y)
                return 1 if {"starts_with": x.args[0].startswith, "ends_with": x.args[0].endswith, "contains": x.args[0].__contains__}[kind](y2) else 0
            if isinstance(y, int):
                y = mk("str", chr(y))
            if isT(x) and isT(y):
                if kind == "starts_with" and isT(x, "cat") and isT(y, "str"):
                    f0 = x.args[1]
                    if f0[0] == "lit" and len(f0[1]) >= len(y.args[0]):
                        return 1 if f0[1].startswith(y.args[0]) else 0
                    if f0[0] == "lit" and not y.args[0].startswith(f0[1]):
                        return 0
                    m = opened(K(x))
                    if not BDD.is_leaf(m):
                        return str_test(kind, m, K(y))
                return fact_atom(("str_" + kind, x, y))
            return K(mk("str_" + kind, Node(K(x)), Node(K(y))))
        return BDD.map2(s, p, h)


for _k in ("starts_with", "ends_with", "contains"):
    TABLE["core::str::<impl str>::" + _k] = str_pred(_k)
    ARULES["str_" + _k] = lambda k, node, leaf, _k=_k: clean(str_test(_k, leaf(k[1]), leaf(k[2])))


def str_fun(name, op):
    def f(ctx, *a):
        vs = [ctx.val(x) for x in a]
        if len(vs) == 1:
            return BDD.map1(vs[0], lambda x: BOT if x is BOTT else K(mk(op, x)) if isT(x) else K(mk(op, Node(K(x)))))
        return K(mk(op, *[Node(v) for v in vs]))
    TABLE[name] = f


for _n in ("trim", "trim_left", "trim_right", "trim_start", "trim_end", "trim_matches", "trim_end_matches", "trim_start_matches",
           "to_lowercase", "to_uppercase", "replace", "replacen", "strip_prefix", "strip_suffix", "find", "rfind", "split_at", "splitn", "rsplitn", "get"):
    str_fun("core::str::<impl str>::" + _n, "str_" + _n)
    str_fun("std::str::<impl str>::" + _n, "str_" + _n)


@prim("core::str::<impl str>::chars")
def p_chars(ctx, s):
    return it_list(BDD.map1(ctx.val(s), lambda x: EMPTY["l"] if isT(x, "str") and not x.args[0] else K(mk("chars", x))))


@prim("core::str::<impl str>::char_indices")
def p_char_indices(ctx, s):
    return K(mk("it", "enumerate", leafof(p_chars(ctx, s))))


@prim("core::str::<impl str>::lines")
def p_lines(ctx, s):
    return it_list(BDD.map1(ctx.val(s), lambda x: K(mk("lines", x))))


@prim("core::str::<impl str>::split_whitespace")
def p_splitws(ctx, s):
    return it_list(BDD.map1(ctx.val(s), lambda x: EMPTY["l"] if isT(x, "str") and not x.args[0].split() else K(mk("words", x))))


@prim("core::str::<impl str>::split")
def p_split(ctx, s, p):
    return it_list(do_split(ctx.val(s), ctx.val(p)))


TOKENS = lambda p, sep: False      # pieces known not to contain a separator


def do_split(s, p):
    sep = leafof(p)
    if isinstance(sep, int) and not isinstance(sep, bool):
        sep = chr(sep)
    elif isT(sep, "str"):
        sep = sep.args[0]

    def f(x):
        if x is BOTT:
            return BOT
        if isinstance(sep, str) and isT(x) and (x.op in ("str", "cat") or TOKENS(("sp", x), sep)):
            out = [[]]
            for q in pieces(x):
                if q[0] == "lit":
                    parts = q[1].split(sep)
                    out[-1].append(("lit", parts[0]))
                    for z in parts[1:]:
                        out.append([("lit", z)])
                elif TOKENS(q, sep):
                    out[-1].append(q)
                else:
                    return K(mk("split", x, Node(p)))
            return K(cat("l", [("el", Node(K(cat("s", o)))) for o in out]))
        return K(mk("split", x, Node(p)))
    return BDD.map1(s, f)


RULES["split"] = do_split


@prim("core::str::<impl str>::bytes")
def p_bytes(ctx, s):
    return it_list(BDD.map1(ctx.val(s), lambda x: K(mk("bytesof", x))))


@prim("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index",
      "core::str::traits::<impl std::ops::Index<std::ops::RangeFrom<usize>> for str>::index")
def p_strindex(ctx, s, i):
    s = ctx.val(s)
    bad, a, b = index_range(ctx, s, i)
    ctx.panic(bad, "string slice")
    k = leafof(a)
    x = leafof(s)
    if k == 0 and b is None:
        return s
    if isT(x, "str") and isinstance(k, int) and (b is None or isinstance(leafof(b), int)):
        return lit(x.args[0][k:leafof(b) if b is not None else None])
    return K(mk("substr", Node(s), Node(a), Node(b if b is not None else K(mk("end")))))


@prim("core::str::<impl str>::parse", "std::str::FromStr::from_str")
def p_parse(ctx, s):
    if ctx.info is not None and ctx.info["crate"] in USER:
        return NotImplemented
    s = ctx.val(s)
    t = ctx.fl.P.types[ctx.retty] if ctx.retty is not None else None
    ty = "?"
    if t and t.get("name") == RES:
        a = [x for x in t["args"] if isinstance(x, int)]
        ty = ctx.fl.P.tyname(a[0])
        if ctx.fl.P.types[a[0]].get("crate") in USER:
            return NotImplemented
    return BDD.map1(s, lambda x: BOT if x is BOTT else K(mk("num", ty, x)))


@prim("std::string::String::from_utf8")
def p_utf8(ctx, v):
    return K(mk("utf8", Node(ctx.val(v))))


@prim("<std::string::String as std::convert::From<char>>::from")
def p_fromchar(ctx, c):
    return K(cat("s", char_pieces(c)))


# -- formatting ----------------------------------------------------------------------
FMT = {}


def fmt_target(fl, key):
    r = FMT.get(key)
    if r is None:
        fn = fl.P.fn(key)
        r = False
        if fn is not None:
            for b in fn.blocks:
                ops = []
                for s in b["s"]:
                    if s[0] == "=" and s[2][0] == "cast":
                        ops.append(s[2][2])
                if b["t"][0] == "call":
                    ops += b["t"][2]
                for o in ops:
                    if o[0] == "const":
                        t = fl.P.types[o[1]]
                        if t["k"] == "fndef" and t["name"].endswith("::fmt"):
                            r = t["inst"]
        FMT[key] = r
    return r


def fmt_arg(kind):
    def f(ctx, v):
        tgt = fmt_target(ctx.fl, ctx.key) if kind in ("display",) else None
        return K(mk("fmtarg", kind, tgt or "", Node(v)))
    return f


for _k in ("display", "debug", "upper_hex", "lower_hex", "lower_exp"):
    TABLE["core::fmt::rt::Argument::<'_>::new_" + _k] = fmt_arg(_k)


@prim("std::fmt::Arguments::<'a>::new")
def p_args(ctx, t, a):
    return K(mk("fmtargs", Node(ctx.val(t)), Node(ctx.val(a))))


@prim("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def p_args_str(ctx, s):
    return K(mk("fmtlit", Node(s)))


def bytes_of(n):
    x = leafof(n)
    if isT(x, "bytes"):
        return bytes(x.args[0])
    if isT(x, "str"):
        return x.args[0].encode("latin-1")
    if isT(x, "cat"):
        return bytes(leafof(p[1].n) for p in x.args[1:])
    raise Undecided("format template %r" % (x,))


def emit_fmt(ctx, p, args):
    """append formatted text to the string cell behind p"""
    args = ctx.val(args)
    x = leafof(args)
    if isT(x, "fmtlit"):
        ctx.store(p, concat("s", ctx.load(p), x.args[0].n))
        return
    if not isT(x, "fmtargs"):
        raise Undecided("format arguments")
    tmpl = bytes_of(x.args[0].n)
    items = pieces(leafT(x.args[1].n))
    argv = [q[1].n for q in items]
    i = nxt = 0
    while i < len(tmpl):
        b = tmpl[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            ctx.store(p, append(ctx.load(p), "s", [("lit", tmpl[i:i + b].decode())]))
            i += b
            continue
        if b == 0x80:
            n = tmpl[i] | tmpl[i + 1] << 8
            i += 2
            ctx.store(p, append(ctx.load(p), "s", [("lit", tmpl[i:i + n].decode())]))
            i += n
            continue
        idx = nxt
        spec = []
        if b & 1:
            spec.append(("flags", int.from_bytes(tmpl[i:i + 4], "little")))
            i += 4
        if b & 2:
            spec.append(("width", int.from_bytes(tmpl[i:i + 2], "little")))
            i += 2
        if b & 4:
            spec.append(("prec", int.from_bytes(tmpl[i:i + 2], "little")))
            i += 2
        if b & 8:
            idx = int.from_bytes(tmpl[i:i + 2], "little")
            i += 2
        nxt = idx + 1
        emit_arg(ctx, p, argv[idx], tuple(spec))


def emit_arg(ctx, p, a, spec):
    x = leafT(a)
    kind, tgt, v = x.args[0], x.args[1], x.args[2].n
    if kind == "display" and tgt:
        info = ctx.fl.P.insts[tgt]
        v = ctx.val(v)
        if info["crate"] in USER:
            r = ctx.call(K(mk("fn", tgt)), [v, p])
            return
        ty = info["args"][0] if info["args"] and isinstance(info["args"][0], int) else None
        t = ctx.fl.P.types[ty] if ty is not None else None
        # Display of &T forwards to T
        hops = 0
        name = info["name"]
        while t is not None and t["k"] == "ref":
            ty = t["to"]
            t = ctx.fl.P.types[ty]
        if t is not None and t["k"] == "adt" and t["crate"] in USER:
            k2 = user_display(ctx.fl, t["name"])
            if k2:
                ctx.call(K(mk("fn", k2)), [v, p])
                return
        strs = t is not None and (t["k"] == "str" or t.get("name") == "std::string::String")
        if strs or "for str>" in name or "String as" in name or "<str as" in name:
            if not spec:
                ctx.store(p, concat("s", ctx.load(p), v))
                return
        y = leafof(v)
        if isinstance(y, int) and not isinstance(y, bool) and not spec:
            s = chr(y) if "char" in name else str(y)
            ctx.store(p, append(ctx.load(p), "s", [("lit", s)]))
            return
        if not spec and "char" in name:
            ctx.store(p, append(ctx.load(p), "s", char_pieces(v)))
            return
        ctx.store(p, append(ctx.load(p), "s", [("disp", spec or "", Node(v))]))
        return
    v = ctx.val(v)
    ctx.store(p, append(ctx.load(p), "s", [("disp", (kind,) + spec, Node(v))]))


def user_display(fl, tyname):
    for k, i in fl.P.insts.items():
        if i["crate"] in USER and i["name"].endswith("::fmt") and "Display" in i["name"] and impl_type(i["name"]) == tyname:
            return k
    return None


@prim("std::fmt::format")
def p_format(ctx, args):
    c = ctx.fl.new_cell(ctx.st, EMPTY["s"])
    emit_fmt(ctx, K(Ptr(c, ())), args)
    return ctx.st[c]


@prim("std::fmt::Formatter::<'a>::write_fmt", "std::fmt::Write::write_fmt")
def p_write_fmt(ctx, p, args):
    p, l = unptr(ctx, p)
    emit_fmt(ctx, p, args)
    return ok(UNIT)


@prim("std::fmt::Formatter::<'a>::write_str", "std::fmt::Write::write_str")
def p_write_str(ctx, p, s):
    p, l = unptr(ctx, p)
    ctx.store(p, concat("s", l, ctx.val(s)))
    return ok(UNIT)


@prim("std::fmt::Write::write_char")
def p_write_char(ctx, p, c):
    p, l = unptr(ctx, p)
    ctx.store(p, append(l, "s", char_pieces(c)))
    return ok(UNIT)


@prim("std::string::ToString::to_string", "<T as std::string::ToString>::to_string")
def p_to_string(ctx, v):
    v = ctx.val(v)
    a = [x for x in ctx.info["args"] if isinstance(x, int)] if ctx.info else []
    t = ctx.fl.P.types[a[0]] if a else {"k": "?"}
    while t.get("k") == "ref":
        t = ctx.fl.P.types[t["to"]]
    if t["k"] == "str" or t.get("name") == "std::string::String":
        return v
    if t["k"] == "adt" and t["crate"] in USER:
        k2 = user_display(ctx.fl, t["name"])
        if k2:
            c = ctx.fl.new_cell(ctx.st, EMPTY["s"])
            ctx.call(K(mk("fn", k2)), [v, K(Ptr(c, ()))])
            return ctx.st[c]
    if t["k"] == "char":
        return K(cat("s", char_pieces(v)))
    return K(cat("s", [("disp", "", Node(v))]))


@prim("std::fmt::Display::fmt")
def p_display_fmt(ctx, v, p):
    # str / String / numbers printed through their own fmt
    p, l = unptr(ctx, p)
    v = ctx.val(v)
    nm = ctx.info["name"] if ctx.info else ""
    if "String" in nm or "str" in nm:
        ctx.store(p, concat("s", l, v))
    else:
        ctx.store(p, append(l, "s", [("disp", "", Node(v))]))
    return ok(UNIT)


# -- output buffers -------------------------------------------------------------------
@prim("std::io::Write::write_all")
def p_write_all(ctx, w, b):
    b = ctx.val(b)
    t = mk("io", "write_all", Node(ctx.val(w)), Node(b))
    ctx.fl.event("io", ctx.g, t)
    return K(t)


@prim("std::io::Write::write_fmt")
def p_io_fmt(ctx, w, a):
    c = ctx.fl.new_cell(ctx.st, EMPTY["s"])
    emit_fmt(ctx, K(Ptr(c, ())), a)
    t = mk("io", "write_all", Node(ctx.val(w)), Node(ctx.st[c]))
    ctx.fl.event("io", ctx.g, t)
    return K(t)


@prim("std::io::Write::write")
def p_io_write(ctx, w, b):
    t = mk("io", "write", Node(ctx.val(w)), Node(ctx.val(b)))
    ctx.fl.event("io", ctx.g, t)
    return K(t)


@prim("std::io::_print", "std::io::_eprint")
def p_print(ctx, a):
    ctx.fl.event("print", ctx.g, mk("print", Node(a)))
    return UNIT


# -- Option / Result helpers whose std bodies are awkward -------------------------------
def unwrap_like(variant, nm, info):
    def f(ctx, v, *a):
        v2 = ctx.val(v) if isinstance(leafof(v), Ptr) else v
        ctx.panic(BDD.NOT(is_variant(v2, variant, 2)), nm)
        return fld(v2, variant, 0, info)
    return f


TABLE["std::option::Option::<T>::unwrap"] = unwrap_like(1, "unwrap", (OPT, 1))
TABLE["std::option::Option::<T>::expect"] = unwrap_like(1, "expect", (OPT, 1))
TABLE["std::result::Result::<T, E>::unwrap"] = unwrap_like(0, "unwrap", (RES, 1))
TABLE["std::result::Result::<T, E>::expect"] = unwrap_like(0, "expect", (RES, 1))


@prim("std::option::Option::<T>::as_ref", "std::option::Option::<T>::as_deref")
def p_as_ref(ctx, v):
    return ctx.val(v)


@prim("std::option::Option::<T>::as_mut")
def p_as_mut(ctx, p):
    p, v = unptr(ctx, p)
    c = is_variant(v, 1, 2)
    return mkopt(c, ptr_step(p, ("f", 1, 0, (OPT, 1))))


@prim("std::option::Option::<T>::take")
def p_opt_take(ctx, p):
    p, v = unptr(ctx, p)
    ctx.store(p, NONE)
    return v


@prim("std::convert::From::from", "std::convert::Into::into")
def p_from(ctx, v):
    return NotImplemented


@prim("std::ops::FromResidual::from_residual", "<std::result::Result<T, F> as std::ops::FromResidual<std::result::Result<std::convert::Infallible, E>>>::from_residual")
def p_residual(ctx, v):
    # the converted error is one opaque value; only its presence matters
    t = ctx.fl.P.types[ctx.retty] if ctx.retty is not None else {"name": RES}
    if t.get("name") == OPT:
        return NONE
    e = fld(v, 1, 0, (RES, 1))
    return BDD.map1(e, lambda x: err(K(x)))


def raw_rest(x, node, leaf):
    from flow import rest
    a = leafof(node(x.args[1].n))
    if not isinstance(a, int):
        return None
    return clean(BDD.map1(leaf(x.args[0]), lambda y: BOT if y is BOTT else rest(y, a)))


RAW["rest"] = raw_rest
