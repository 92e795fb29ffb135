"""C24: keyword tables.

Two rules.  For each enumerated type with a reader of its own, the text written
for what was read is the text that was read, and what is read back from what
was written is the value written.  For every reading function, the token tests
its outcome depends on form a decision table; the column of all other
spellings must be an error or carry the token in the result, and no two
spellings may give the same outcome."""
import vg
from vg import *
from effects import *
from p_lines import Lines
from report import Report

TECH = ("Reader and printer of every enumerated type are summarised by a gated dataflow over the compiler's MIR and composed both ways "
        "(text read then written, value written then read); in every reading function the comparisons of a token with constants are "
        "arranged as a decision table whose column for all other spellings has to be rejected and whose other columns have to differ.")
RES = "std::result::Result"
MARK = {"symbol_lib::PinShape": "N"}          # the pin's visibility shares the word with its shape


def atoms_of(n, seen, out):
    stack = [n]
    while stack:
        x = stack.pop()
        if x in seen or BDD.is_leaf(x):
            continue
        seen.add(x)
        out.add(BDD.atoms[BDD.var[x]])
        stack.append(BDD.lo[x])
        stack.append(BDD.hi[x])


def all_atoms(n):
    """keys of every test in n, also inside the payloads"""
    out, seen, terms = set(), set(), set()

    def node(x):
        before = set(out)
        atoms_of(x, seen, out)
        for k in out - before:
            for y in k:
                term(y)
        for l in leaves(x):
            term(BDD.leaf[l])

    def term(t):
        if isinstance(t, Node):
            node(t.n)
        elif isinstance(t, T):
            if t in terms:
                return
            terms.add(t)
            for a in t.args:
                term(a)
        elif isinstance(t, Lin):
            for y, _ in t.ts:
                term(y)
        elif isinstance(t, tuple):
            for a in t:
                term(a)
    node(n)
    return out, terms


def token(key):
    """(token term, constant) of a comparison with a constant, or None"""
    if key[0] == "eq":
        for x, y in ((key[1], key[2]), (key[2], key[1])):
            if isT(y, "str") and isT(x) and x.op not in ("str", "cat"):
                return x, y.args[0]
            if isT(y, "chr") and isT(x) and x.op not in ("chr",):
                return x, code(y)
    if key[0] == "ge" and isT(key[1], "elem") and isT(key[1].args[0], "chars"):
        return key[1], None
    return None


def code(t):
    a = t.args[0]
    if isinstance(a, Node):
        a = leafof(a.n)
    return a


class Column(object):
    """assumption that a token has one spelling (or none of those compared with)"""
    def __init__(self, t, spelling, prefix=None):
        self.t, self.s, self.prefix = t, spelling, prefix

    def __call__(self, k):
        if k[0] == "eq":
            tk = token(k)
            if tk is not None and tk[0] is self.t:
                return 1 if tk[1] == self.s else 0
        if k[0] == "ge" and k[1] is self.t and isinstance(self.s, int):
            return 1 if self.s >= k[2] else 0
        if k[0] == "ge" and isT(k[1], "len") and k[1].args[0] is self.t and k[2] <= 1 and not isinstance(self.s, int):
            return 0 if self.s == "" else 1
        if k[0] == "str_starts_with" and k[1] is self.t and isT(k[2], "str"):
            if isinstance(self.s, str):
                return 1 if self.s.startswith(k[2].args[0]) else 0
            return 1 if k[2].args[0] == self.prefix else 0
        return None

    def of(self, n):
        vg.ASSUME.append(self)
        try:
            return subst(n, {})
        finally:
            vg.ASSUME.remove(self)


def columns(t, keys):
    """spellings a token is compared with, and the columns of all others"""
    lits, cuts, pre = set(), set(), set()
    for k in keys:
        tk = token(k)
        if tk is not None and tk[0] is t:
            if tk[1] is not None:
                lits.add(tk[1])
            else:
                cuts.add(k[2])
        if k[0] == "str_starts_with" and k[1] is t and isT(k[2], "str"):
            pre.add(k[2].args[0])
        if k[0] == "ge" and isT(k[1], "len") and k[1].args[0] is t and k[2] == 1:
            lits.add("")
    # a character compared by value: x >= k and not x >= k + 1
    for k in cuts:
        if k + 1 in cuts:
            lits.add(k)
    named = [Column(t, l) for l in sorted(lits, key=str)]
    if cuts or any(isinstance(l, int) for l in lits):
        marks = sorted(cuts | {l for l in lits if isinstance(l, int)} | {l + 1 for l in lits if isinstance(l, int)} | {0})
        others = [Column(t, m) for m in marks if m not in lits]
    else:
        if any(isT(x, "substr") and leafof(x.args[0].n) is t for k in keys for x in k[1:]):
            pre = ()            # what follows the prefix is looked at as a token of its own
        others = [Column(t, None)] + [Column(t, None, p) for p in sorted(pre)]
    return named, others


PART = ("words", "chars", "split", "substr", "trim", "call", "it", "rest")


def sources(t):
    """the token and the texts it is cut from"""
    out = [t]
    while isT(t):
        x = t
        if x.op in ("elem", "fld"):
            x = x.args[0]
            if isinstance(x, Node):
                x = leafof(x.n)
            if isT(x, "fld"):
                x = x.args[0]
        if not isT(x) or x.op not in PART:
            break
        a = x.args[1] if x.op == "call" and len(x.args) > 1 else x.args[0]
        if isinstance(a, Node):
            a = leafof(a.n)
        if not isT(a):
            break
        out.append(a)
        t = a
    return out


def outcome(L, key):
    """(condition of success, outcome) of a reading function"""
    P = L.P
    fn = P.fn(key)
    names = ["a", "b", "c", "d", "e", "f"][:fn.argc]
    g, st, v = L.flow(key, names)
    ok = BDD.AND(g, is_variant(v, 0, 2))
    outs = [fld(v, 0, 0, (RES, 1))]
    for i, nm in enumerate(names):
        if nm in st and not P.tyname(fn.locals[1 + i]).endswith("ParseState"):
            outs.append(st[nm])
    return ok, [BDD.restrict(o, ok) if ok not in (0, 1) else o for o in outs]


def tables(L, key, emit, label):
    ok, outs = outcome(L, key)
    if ok == 0:
        return 0
    whole = [ok] + outs
    keys, terms = set(), set()
    for o in whole:
        a, b = all_atoms(o)
        keys |= a
        terms |= b
    if any(t.op == "lines" for t in terms):
        return 0
    toks = []
    for k in sorted(keys, key=repr):
        tk = token(k)
        if tk is not None and tk[0] not in toks and tk[0].op in ("elem", "var", "fld", "substr", "str_to_lowercase", "str_to_uppercase") and not round_of(tk[0]):
            toks.append(tk[0])
    n = 0
    for t in toks:
        named, others = columns(t, keys)
        if not named:
            continue
        rows = []
        for c in named + others:
            o = c.of(ok)
            rows.append((c, o, [c.of(x) for x in outs] if o != 0 else None))
        live = [r for r in rows if r[1] != 0]
        if len(live) < 2:
            continue
        n += 1
        vg.SHORT = {}
        name = "%s: %s" % (label, render(K(t))[:120])

        def differ(r, s):
            d = 0
            for x, y in zip(r[2], s[2]):
                d = BDD.OR(d, BDD.NOT(same(x, y)))
            return BDD.AND(BDD.AND(r[1], s[1]), d)
        dep = 0
        for i, r in enumerate(live):
            for s in live[:i]:
                dep = BDD.OR(dep, differ(r, s))
        src = sources(t)

        def lost(r, bad):
            """the part of bad where the token is not carried in the result"""
            for o in r[2]:
                if bad != 0:
                    bad = BDD.AND(bad, BDD.NOT(carried(o, src)))
            return bad
        for r in live:
            if r[0] in others:
                verdict(emit, name + ": other spellings", lost(r, BDD.AND(r[1], dep)), "a spelling that belongs to no value is accepted", PLACES)
        for i, r in enumerate(live):
            for s in live[:i]:
                if r[0] in others or s[0] in others:
                    continue
                alike = BDD.AND(BDD.AND(r[1], s[1]), BDD.NOT(differ(r, s)))
                verdict(emit, name + ": spellings differ", lost(r, BDD.AND(alike, dep)),
                        "the spellings %s and %s are read as the same value" % (show(s[0].s), show(r[0].s)), PLACES)
    return n


def carried(n, ts):
    """condition under which one of the texts is part of the value n"""
    ts = set(ts)
    memo = {}

    def term(x):
        if isinstance(x, Node):
            return node(x.n)
        if isinstance(x, T):
            if x in ts:
                return 1
            if x.op in PART:
                return 0
            if x not in memo:
                memo[x] = args(x.args)
            return memo[x]
        if isinstance(x, tuple):
            if x and x[0] == "opt":
                return BDD.AND(x[1].n, args(x[2:]))
            return args(x)
        if isinstance(x, Lin):
            return args([y for y, _ in x.ts])
        return 0

    def args(xs):
        r = 0
        for a in xs:
            r = BDD.OR(r, term(a))
            if r == 1:
                break
        return r

    def node(m):
        k = ("n", m)
        if k not in memo:
            if BDD.is_leaf(m):
                memo[k] = term(BDD.leaf[m])
            else:
                memo[k] = ite(BDD.atom(BDD.atoms[BDD.var[m]]), node(BDD.hi[m]), node(BDD.lo[m]))
        return memo[k]
    return node(n)


def show(s):
    return repr(chr(s)) if isinstance(s, int) else repr(s)


# operations that only say where in the input something is read
PLACES = {"call", "end", "head", "it", "tail", "ev", "closed", "named", "split", "loop", "mu", "str_remove"}


def round_of(t):
    """the token is one of a repetition"""
    return any(x.op in ("mu", "idx", "acc") for x in all_atoms(K(t))[1])


def verdict(emit, key, bad, what, places=()):
    bad = consistent(bad) if bad not in (0, 1) else bad
    if bad == 0:
        return emit(key, "ok", "")
    ops = [o for o in unknown_ops(bad) if o not in places]
    if ops:
        return emit(key, "undecided", "depends on " + ", ".join(ops))
    vg.SHORT = {}
    emit(key, "violation", "%s when %s" % (what, render(bad)[:400]))


def spelling(L, ty, val):
    """text written for a value of the type, or None"""
    S = L.S
    k = S.method(ty.replace(KP, ""), "std::fmt::Display", "fmt") or named(L.P, "std::fmt::Display", ty, "fmt")
    if k is not None:
        g, st, v = L.flow(k, ["w", "out"], values={"w": val, "out": EMPTY["s"]}, stop=lambda i: False, counting=True)
        return flat(st["out"], "s")
    k = named(L.P, "symbolic_expressions::sexp::IntoSexp", ty, "into_sexp")
    if k is None:
        return None
    g, st, v = L.flow(k, ["w"], values={"w": val}, stop=lambda i: False)
    return v


def named(P, trait, ty, fn):
    for k, i in P.insts.items():
        if i["name"].endswith("<impl %s for %s>::%s" % (trait, ty, fn)) and P.fn(k) is not None:
            return k
    return None


def keyword_types(P):
    out = {}
    for t in P.types:
        if t["k"] == "adt" and t["name"].startswith(KP) and len(t["variants"]) > 1 and not any(v["fields"] for v in t["variants"]):
            out[t["name"]] = t
    return out


def literal(n):
    x = leafof(n)
    if isT(x, "agg") and x.args[0].endswith("Sexp") and len(x.args) > 2:
        a = x.args[2]
        x = leafof(a.n if isinstance(a, Node) else a[0].n)
    x = leafof(flat(K(x), "s")) if isT(x) else None
    if isT(x, "str"):
        return x.args[0]
    return x.args[1][1] if isT(x, "cat") and len(x.args) == 2 and x.args[1][0] == "lit" else "" if x is leafof(EMPTY["s"]) else None


def spellings(L, t):
    return [literal(spelling(L, t["name"], agg(t["name"], i, [])) or BOT) for i in range(len(t["variants"]))]


def readers(P, ty):
    """functions that make a value of the type from one text or character"""
    out = []
    for k, i in sorted(P.insts.items()):
        fn = P.fn(k)
        if fn is None or fn.argc != 1 or not i["name"].startswith(KP) or "str_error" in i["name"]:
            continue
        if not P.tyname(fn.locals[0]).startswith("%s<%s," % (RES, ty)):
            continue
        a = P.tyname(fn.locals[1])
        if a in ("&str", "char", "std::string::String", "&std::string::String", "&&str"):
            out.append((k, i["name"], a))
    return out


def is_text(x, kind, s):
    """the text or character x is spelled s"""
    if kind == "char":
        return BDD.atom(("eq", x, mk("chr", ord(s)))) if len(s) == 1 else 0
    return same(K(x), lit(s))


def pairs(L, t, emit):
    """reader and printer of one enumerated type"""
    ty = t["name"]
    label = ty[len(KP):]
    sp = spellings(L, t)
    n = len(sp)
    if all(s is None for s in sp):
        return 0
    for i in range(n):
        for j in range(i):
            if sp[i] is not None and sp[i] == sp[j]:
                emit("%s: written spellings" % label, "violation", "%s and %s are both written %r" % (t["variants"][j]["name"], t["variants"][i]["name"], sp[i]))
    emit("%s: written spellings" % label, "ok" if None not in sp else "undecided", "")
    x = mk("var", "a")
    for k, name, kind in readers(L.P, ty):
        g, st, v = L.flow(k, ["a"])
        ok = BDD.AND(g, is_variant(v, 0, 2))
        val = fld(v, 0, 0, (RES, 1))
        for i, s in enumerate(sp):
            if s is None:
                continue
            what = "%s: %s" % (name[len(KP):], t["variants"][i]["name"])
            # the spelling written for the value is read as it
            want = BDD.AND(ok, is_variant(val, i, n))
            if kind == "char":
                r = Column(x, ord(s)).of(want) if len(s) == 1 else 0
            else:
                r = subst(want, {x: lit(s)})
            verdict(emit, what + ": read", BDD.NOT(r), "%r is not read as %s" % (s, t["variants"][i]["name"]))
            # and no other spelling is
            e = is_text(x, kind, s)
            m = MARK.get(label)
            if m is not None:
                cut = subst(want, {x: K(cat("s", [("lit", m), ("sp", mk("var", "b"))]))})
                verdict(emit, what + ": other spellings", BDD.AND(cut, BDD.NOT(is_text(mk("var", "b"), kind, s))),
                        "a spelling other than %r is read as %s" % (m + s, t["variants"][i]["name"]))
                want = Column(x, None).of(want) if s == "" else BDD.AND(want, BDD.NOT(BDD.atom(("str_starts_with", x, mk("str", m)))))
                if s == "":
                    want = 0
            verdict(emit, what + ": other spellings", BDD.AND(want, BDD.NOT(e)), "a spelling other than %r is read as %s" % (s, t["variants"][i]["name"]))
    return 1


def layer(L, emit):
    """a layer is written with the name it was read from: without, with one and with more dots"""
    S = L.S
    x, p, q, r = (mk("var", n) for n in "apqr")
    for k, name, kind in readers(L.P, KP + "footprint::Layer"):
        g, st, v = L.flow(k, ["a"])
        txt = spelling(L, KP + "footprint::Layer", fld(v, 0, 0, (RES, 1)))
        ok = BDD.AND(g, is_variant(v, 0, 2))
        sp = mk("split", x, Node(K(46)))
        el = [("el", Node(K(y))) for y in (p, q, r)]
        dot = ("lit", ".")
        for what, parts, whole in (("no dot", [("el", Node(K(x)))], x),
                                   ("one dot", el[:2], cat("s", [("sp", p), dot, ("sp", q)])),
                                   ("more dots", el + [("sp", mk("var", "more"))], None)):
            env = {sp: K(cat("l", parts))}
            o, t = subst(ok, env), subst(txt, env)
            keys = all_atoms(o)[0] | all_atoms(t)[0]
            bad = 0
            rows = [(o, t, K(whole or x))]
            for y in (x, p, q):
                named, others = columns(y, keys)
                if named:
                    rows = [(c.of(a), c.of(b), subst(w, {y: lit(c.s)}) if c.s is not None else w)
                            for a, b, w in rows for c in named + others if whole is not None or c.s is None or c.s.count(".") > 1]
            for a, b, w in rows:
                bad = BDD.OR(bad, BDD.AND(a, BDD.NOT(same(flat(b, "s"), w))))
            verdict(emit, "%s: name with %s" % (name[len(KP):], what), bad, "the layer is not written as it was read")


def check(prop, P):
    R = Report(prop, TECH)
    R.assumptions = ["a one-letter token is judged by its first letter"]
    L = Lines(P)
    types = keyword_types(P)
    for n in sorted(types):
        if "checkfix" in n or n.endswith("::Expected"):
            continue
        R.many(n[len(KP):], lambda emit, t=types[n]: pairs(L, t, emit))
    R.many("layer", lambda emit: layer(L, emit))
    k = 0
    for key, i in sorted(P.insts.items(), key=lambda x: x[1]["name"]):
        fn = P.fn(key)
        n = i["name"]
        if fn is None or not n.startswith(KP) or not P.tyname(fn.locals[0]).startswith(RES + "<"):
            continue
        if "str_error" in n or "Display" in n or "closure" in n or "::read_" in n or "::all_components" in n or "_file" in n:
            continue
        R.many(n, lambda emit, key=key, n=n: tables(L, key, emit, n.replace(KP, "").replace("symbolic_expressions::iteratom::", "")))
        R.functions.add(key)
        k += 1
    R.floor("reading functions", k, 60)
    return R.finish()
