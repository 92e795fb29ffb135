"""C08: no input makes a reader or a printer panic.

Every place where a function of a reader or printer can abort - indexing,
slicing, unwrapping, removing, arithmetic, panic! and unreachable! - is found
while the functions are summarised, together with the condition under which it
is reached.  The place is safe when that condition contradicts itself."""
import re

import vg
from vg import *
from flow import Flow
from prims import OPT, RES
from p_lines import Lines
from p_pure import READERS, WRITERS, graph
from report import Report, isolated
import p_sexp

KP = "kicad_parse_gen::"
SX = KP + "Sexp::"


# -- operations that abort and are not already recorded ---------------------------
def empty_list(ctx, s, *a):
    s = ctx.val(s)
    l = K(mk("sexp", "list", Node(s)))
    ctx.panic(BDD.AND(is_variant(l, 0, 2), BDD.NOT(nonempty(fld(l, 0, 0, (RES, 1))))), "empty list")


def boundary(x, k):
    """position k of a text is not inside a character"""
    if isinstance(k, int):
        if k == 0:
            return 1
        if isT(x, "str"):
            b = x.args[0].encode()
            return 1 if k == len(b) or k < len(b) and b[k] & 0xC0 != 0x80 else 0
    elif isT(k, "len") and k.args[0] is x or isT(k, "fld") and isT(k.args[0], "str_find") and leafof(k.args[0].args[0].n) is x:
        return 1
    return BDD.atom(("boundary", x, Node(K(k))))


def str_cut(ctx, s, i):
    s = ctx.val(s)
    r = leafof(i)
    if not isT(r, "agg"):
        return
    for f in fields_of(r):
        bad = BDD.map2(s, f, lambda x, k: BDD.NOT(boundary(x, k)) if isT(x) and (isinstance(k, int) or isT(k)) else 0)
        ctx.panic(bad, "string slice inside a character")


def str_at(ctx, s, i):
    s, i = ctx.val(s), ctx.val(i)
    ctx.panic(BDD.NOT(compare("Le", i, length(s), False)), "split_at")
    ctx.panic(BDD.map2(s, i, lambda x, k: BDD.NOT(boundary(x, k)) if isT(x) and (isinstance(k, int) or isT(k)) else 0), "split_at inside a character")


def at_most(kind):
    def f(ctx, l, i, *a):
        ctx.panic(BDD.NOT(compare("Le", ctx.val(i), length(ctx.val(l)), False)), kind)
    return f


def below(kind):
    def f(ctx, l, i, *a):
        ctx.panic(BDD.NOT(compare("Lt", ctx.val(i), length(ctx.val(l)), False)), kind)
    return f


def ranged(ctx, l, r, *a):
    from prims import index_range
    if isT(leafof(r), "agg"):
        ctx.panic(index_range(ctx, ctx.val(l), r)[0], "drain")


def positive(ctx, l, n, *a):
    ctx.panic(compare("Le", ctx.val(n), K(0), False), "zero size")


PARTIAL = {SX + "list_name": empty_list, SX + "slice_atom": empty_list, SX + "slice_atom_num": empty_list}
for _p in ("core::str::traits::<impl std::ops::Index<I> for str>::index", "<std::string::String as std::ops::Index<I>>::index"):
    PARTIAL[_p] = str_cut
for _p in ("core::str::<impl str>::split_at", "std::str::<impl str>::split_at"):
    PARTIAL[_p] = str_at
PARTIAL["core::slice::<impl [T]>::split_at"] = at_most("split_at")
PARTIAL["std::vec::Vec::<T, A>::split_off"] = at_most("split_off")
PARTIAL["std::vec::Vec::<T, A>::insert"] = at_most("insert")
PARTIAL["std::string::String::split_off"] = at_most("split_off")
PARTIAL["std::string::String::insert"] = at_most("insert")
PARTIAL["std::string::String::insert_str"] = at_most("insert")
PARTIAL["std::vec::Vec::<T, A>::swap_remove"] = below("swap_remove")
PARTIAL["core::slice::<impl [T]>::swap"] = below("swap")
PARTIAL["std::vec::Vec::<T, A>::drain"] = ranged
PARTIAL["std::string::String::drain"] = ranged
for _p in ("core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks_exact", "std::iter::Iterator::step_by"):
    PARTIAL[_p] = positive
# operations that abort under conditions that are not modelled
ABORTS = re.compile(r"RefCell::<.*>::borrow|copy_from_slice|clone_from_slice|::rotate_(left|right)|split_at_mut|String::replace_range|"
                    r"::from_digit|char::to_digit|char>::to_digit|select_nth|::array_chunks|std::process::(abort|exit)|std::thread::|"
                    r"::copy_within|HashMap<.* as std::ops::Index<|BTreeMap<.* as std::ops::Index<|VecDeque|::rsplit_at|Duration|Instant|::clamp|::ilog|::pow$|::isqrt|"
                    r"std::slice::from_raw|::to_str_unchecked|assert_failed")


# -- facts about texts -------------------------------------------------------------
def number(n):
    x = leafof(n)
    return x if isinstance(x, int) else None


class Facts(object):
    def __init__(self, L):
        self.counted = {n for n, k in L.tokenizers.items() if L.P.fn(k).argc == 2}
        self.all = set(L.tokenizers)

    def of(self, g, bad):
        """what is known of the texts that the condition bad speaks of"""
        todo = [BDD.atoms[v] for v in BDD.support(bad)]
        about = set()
        f = 1
        for k in todo:
            f = BDD.AND(f, self.atom(k, g))
            about |= {k[1], k[1].args[0] if isT(k[1]) and k[1].args else None}
        for v in BDD.support(g):
            k = BDD.atoms[v]
            if any(x in about for x, lit, e in self.spelled(k)):
                f = BDD.AND(f, self.atom(k, g))
        return f

    def atom(self, k, g):
        f = 1
        for x, lit, exact in self.spelled(k):
            a = BDD.atom(k)
            b = lit.encode()
            ln = mk("len", x)
            f = BDD.AND(f, BDD.OR(BDD.NOT(a), ge0(lin_add(ln, len(b), -1))))
            if exact:
                f = BDD.AND(f, BDD.OR(BDD.NOT(a), BDD.NOT(ge0(lin_add(ln, len(b) + 1, -1)))))
            for i in range(1, len(b) + 1):
                if i == len(b) or b[i] & 0xC0 != 0x80:
                    f = BDD.AND(f, BDD.OR(BDD.NOT(a), BDD.atom(("boundary", x, Node(K(i))))))
        if k[0] == "ge" and isT(k[1], "len"):
            x = k[1].args[0]
            a = BDD.atom(k)
            if isT(x, "rest") and isinstance(k[2], int) and k[2] >= 1:
                n = number(x.args[1].n) if isinstance(x.args[1], Node) else x.args[1]
                if isinstance(n, int):
                    f = BDD.AND(f, BDD.IFF(a, ge0(lin_add(mk("len", x.args[0]), n + k[2], -1))))
            if isT(x, "chars") and k[2] == 1:
                f = BDD.AND(f, BDD.IFF(a, ge0(lin_add(mk("len", x.args[0]), 1, -1))))
            y = self.count(x)
            if y is not None and k[2] <= y:
                f = BDD.AND(f, a)
            if isT(x, "elem") and isT(x.args[0], "words") and k[2] == 1:
                f = BDD.AND(f, a)
        if k[0] == "boundary" or k[0] == "ge" and isT(k[1], "len") and k[2] == 1:
            x = k[1] if k[0] == "boundary" else k[1].args[0]
            one = k[0] != "boundary" or number(k[2].n) == 1
            line = self.first(x, g)
            for t in [x] + ([line] if line is not None else []):
                if one and isT(t):
                    c = mk("elem", mk("chars", t), Node(K(0)))
                    ok = BDD.AND(ge0(lin_add(mk("len", mk("chars", t)), 1, -1)), BDD.NOT(ge0(lin_add(c, 128, -1))))
                    if t is line:
                        ok = BDD.AND(ok, BDD.AND(BDD.NOT(inteq(c, 32)), BDD.NOT(inteq(c, 34))))
                    f = BDD.AND(f, BDD.OR(BDD.NOT(ok), BDD.atom(k)))
        return f

    def spelled(self, k):
        """(text, literal, whole) that the atom says"""
        if k[0] == "str_starts_with" and isT(k[1]) and isT(k[2], "str"):
            yield k[1], k[2].args[0], False
        if k[0] == "eq":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if isT(x) and isT(y, "str"):
                    yield x, y.args[0], True

    def count(self, x):
        """least number of columns that a successful split gives"""
        if isT(x, "fld") and x.args[1] == 0 and isT(x.args[0], "call") and x.args[0].args[0] in self.counted:
            n = leafof(x.args[0].args[1].n)
            if isT(n, "agg") and len(fields_of(n)) == 1:          # Some(n)
                return number(fields_of(n)[0])
            return number(x.args[0].args[1].n)
        return None

    def first(self, x, g):
        """the line a text is the first column of"""
        if isT(x, "elem") and number(x.args[1].n) == 0 and isT(x.args[0], "fld") and isT(x.args[0].args[0], "call") and x.args[0].args[0].args[0] in self.all:
            n = x.args[0].args[0].args[-1].n
            l = leafof(BDD.restrict(n, g)) if not BDD.is_leaf(n) else leafof(n)
            return l
        return None


# -- arithmetic ------------------------------------------------------------------
def counters(P):
    """fields that only ever hold constants, or themselves changed by a constant"""
    good, bad = set(), set()

    def given(o, defs, argc, depth=0):
        """a constant or an argument"""
        if o[0] == "const":
            return True
        if o[1][1] or depth > 5:
            return False
        if 1 <= o[1][0] <= argc and not defs.get(o[1][0]):
            return True
        ds = defs.get(o[1][0])
        return bool(ds) and all(d[0] == "use" and given(d[1], defs, argc, depth + 1) for d in ds)
    for key, f in P.raw.items():
        fn = P.fn(key)
        if P.insts[key]["crate"] not in ("kicad_parse_gen", "symbolic_expressions"):
            continue
        defs = {}
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] == "=" and not s[1][1]:
                    defs.setdefault(s[1][0], []).append(s[2])
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if rv[0] == "ref" and rv[2] and rv[1][1] and rv[1][1][-1][0] == "field":
                    w = owner(P, fn, rv[1])
                    if w is not None:
                        bad.add(w)
                if pl[1] and pl[1][-1][0] == "field":
                    w = owner(P, fn, pl)
                    if w is None:
                        continue
                    (good if stays(P, fn, w, rv, defs) else bad).add(w)
                if rv[0] == "agg" and rv[1][0] == "adt":
                    t = P.types[rv[1][1]]
                    v = rv[1][2] if len(rv[1]) > 2 and isinstance(rv[1][2], int) else 0
                    if v >= len(t["variants"]):
                        continue
                    for i, o in enumerate(rv[2]):
                        if i < len(t["variants"][v]["fields"]):
                            w = (t["name"], v, i)
                            ok = given(o, defs, fn.argc)
                            (good if ok else bad).add(w)
            if b["t"][0] == "call":
                pl = b["t"][3]
                if pl and pl[1] and pl[1][-1][0] == "field":
                    w = owner(P, fn, pl)
                    if w is not None:
                        bad.add(w)
    return good - bad


def owner(P, fn, pl):
    ty = fn.locals[pl[0]]
    var = 0
    try:
        for p in pl[1][:-1]:
            t = P.types[ty]
            if p[0] == "deref":
                ty = t["to"] if t["k"] in ("ref", "ptr") else None
            elif p[0] == "downcast":
                var = p[1]
                continue
            elif p[0] == "field":
                ty = p[2] if len(p) > 2 else t["variants"][var]["fields"][p[1]][1]
            else:
                return None
            var = 0
    except (KeyError, IndexError, TypeError):
        return None
    t = P.types[ty] if ty is not None else None
    if t is None or t["k"] != "adt":
        return None
    return (t["name"], var, pl[1][-1][1])


def stays(P, fn, w, rv, defs):
    if rv[0] == "use" and rv[1][0] == "const":
        return True
    if rv[0] == "use" and rv[1][0] in ("move", "copy"):
        pl = rv[1][1]
        for d in defs.get(pl[0], []):
            if d[0] in ("cbin", "bin") and d[1].replace("WithOverflow", "").replace("Unchecked", "") in ("Add", "Sub"):
                a, b = d[2], d[3]
                if b[0] == "const" and a[0] in ("copy", "move") and a[1][1] and owner(P, fn, a[1]) == w:
                    return True
    return False


def small(n):
    return all(BDD.leaf[l] is BOTT or isinstance(BDD.leaf[l], int) and abs(BDD.leaf[l]) <= 1 << 16 for l in leaves(n))


def counting(n, fields):
    """counts of things that are in memory, up to a constant"""
    def one(t):
        if t.op in ("mu", "idx", "len", "count", "pos", "first", "last", "loop", "folds", "enum", "bot"):
            return True
        if t.op == "fld":
            nm = t.args[3][0] if isinstance(t.args[3], tuple) else None
            return (nm, t.args[1], t.args[2]) in fields
        return False
    for l in leaves(n):
        x = BDD.leaf[l]
        if isinstance(x, (int, bool)) or x is BOTT:
            continue
        c, d = lin_of(x)
        if any(abs(v) > 1 << 16 for v in d.values()) or not all(one(t) for t in d):
            return False
    return True


# -- functions -------------------------------------------------------------------
IMPL = re.compile(r"FromSexp( for .*)?>::from_sexp$|IntoSexp( for .*)?>::into_sexp$")
SHOW = re.compile(r"^<?kicad_parse_gen.*(fmt::Display|str::FromStr|string::ToString)( for .*)?>::(fmt|from_str|to_string)$")
FORMAT = re.compile(r"KicadFormatter( as .*)?(>)?::\w+(::<.*)?$")
DEP = re.compile(r"^symbolic_expressions::(parser::|iteratom::IterAtom|ser::|formatter::)|^kicad_parse_gen::Sexp::")


def entries(P):
    """(key, which functions to leave alone)"""
    out = []
    for n in READERS:
        out.append((P.root(n), "whole"))
    for k, i in sorted(P.insts.items(), key=lambda e: e[1]["name"]):
        if P.fn(k) is None:
            continue
        n = i["name"]
        if IMPL.search(n) and i["crate"] == "kicad_parse_gen":
            out.append((k, "impl"))
        elif SHOW.search(n) and i["crate"] == "kicad_parse_gen":
            out.append((k, "whole"))
        elif i["crate"] == "kicad_parse_gen" and FORMAT.search(n) and not i["closure"]:
            out.append((k, "whole"))
    return out


def run(P, L, key, mode):
    me = P.insts[key]["name"]

    def stop(info):
        return info["name"] != me and mode == "impl" and bool(IMPL.search(info["name"])) or info["name"] in L.tokenizers and info["name"] != me
    fl = Flow(P, stop)
    fl.partial = PARTIAL
    fl.counting = mode != "lines"
    fn = P.fn(key)
    st, args = {}, []
    for i in range(fn.argc):
        v = K(mk("var", "abcdefgh"[i]))
        t = P.types[fn.locals[1 + i]]
        if t["k"] == "ref" and t["mut"]:
            v = K(Ptr(fl.new_cell(st, v), ()))
        args.append(v)
    r = fl.run_fn(key, args, 1, st)
    return fl, r


# conditions that are understood well enough to blame an input for them
PLAIN = p_sexp.KNOWN | {"lines", "words", "num", "substr", "end", "mu", "idx", "len", "sexp", "chars", "elem", "fld", "var", "rest", "str", "text", "item", "adv", "it"}


def vague(n, L):
    return sorted({t.op for t in terms_in(n, lambda t: not (t.op in PLAIN or t.op == "call" and (t.args[0] in L.tokenizers or t.args[0] in p_sexp.TRUSTED)
                                                            or t.op.startswith("str_")))} - {"bot"})


def short(n):
    return n.replace(KP, "").replace("symbolic_expressions::", "")


def sites(fl, L, F, fields, emit):
    """verdict for every place that can abort"""
    n = 0
    for g, kind, where, stack, loops, bad in fl.panics:
        n += 1
        if isinstance(kind, tuple):
            key = "%s: arithmetic" % short(where)
            op, a, b = kind[1], kind[2], kind[3]
            g2 = consistent(g)
            if g2 == 0:
                emit(key, "ok")
            elif op in ("Add", "Sub") and (counting(a, fields) and (small(b) or counting(b, fields)) or small(a) and counting(b, fields)):
                emit(key, "ok")
            elif op in ("Rem", "Div") and all(isinstance(BDD.leaf[l], int) and BDD.leaf[l] not in (0, -1) for l in leaves(b)):
                emit(key, "ok")
            else:
                v = vague(a, L) + vague(b, L)
                t = "%s %s %s can overflow" % (render(a)[:200], op, render(b)[:100])
                emit(key, "undecided" if v else "violation", t + (" (depends on %s)" % ", ".join(v) if v else ""))
            continue
        key = "%s: %s" % (short(where), kind)
        f = F.of(g, bad)
        g2 = consistent(BDD.AND(g, f))
        if g2 == 0:
            emit(key, "ok")
            continue
        v = vague(bad, L) if bad != 1 else vague(BDD.restrict(g, f), L)
        t = "reached when %s" % render(BDD.restrict(g2, f))[:600]
        via = " > ".join(short(x) for x in stack[-4:])
        if v and bad != 1:
            emit(key, "undecided", "%s [%s], depends on %s" % (t, via, ", ".join(v)))
        else:
            emit(key, "violation", "%s [%s]" % (t, via))
    return n


def contract(P, L, emit):
    """a split into n columns that succeeds has at least n columns"""
    for name, key in sorted(L.tokenizers.items()):
        fn = P.fn(key)
        if fn.argc != 2:
            continue
        fl = Flow(P)
        args = [K(mk("var", "n")), K(mk("var", "s"))]
        if P.tyname(fn.locals[1]).startswith("std::option"):
            args[0] = agg(OPT, 1, [K(mk("var", "n"))])
        g, st, v = fl.run_fn(key, args, 1, {})
        ok = is_variant(v, 0, 2)
        bad = BDD.AND(BDD.AND(g, ok), compare("Lt", length(fld(v, 0, 0, (RES, 1))), K(mk("var", "n")), False))
        bad = consistent(bad)
        emit("%s: columns" % short(name), "ok" if bad == 0 else "violation", "" if bad == 0 else "fewer columns than asked for when %s" % render(bad)[:400])


def check(prop, P):
    return {"C08": panics}[prop](prop, P)


def panics(prop, P):
    R = Report(prop, "every place that can abort in the functions of readers and printers, with the condition under which it is reached (gated value "
                     "graph); the condition has to contradict itself. Arithmetic has to be on counts of things in memory or on constants.")
    L = Lines(P)
    F = Facts(L)
    fields = counters(P)
    todo = entries(P)
    for n, k in sorted(L.tokenizers.items()):
        todo.append((k, "whole"))
    line = {P.root("sym_read"), P.root("sch_parse"), P.root("sch_read")}
    count = 0

    def one(key, mode):
        out, seen = [], [set(), 0]
        try:
            fl, r = run(P, L, key, "lines" if key in line else mode)
            seen[0] = set(P.insts[k]["name"] for k in fl.inlined) | {P.insts[key]["name"]}
            seen[1] = sites(fl, L, F, fields, lambda k, s, t="": out.append((k, s, t)))
        except Undecided as e:
            out.append((short(P.insts[key]["name"]), "undecided", str(e)))
        except RecursionError:
            out.append((short(P.insts[key]["name"]), "undecided", "recursion limit"))
        return [(out, seen[0], seen[1])]
    for key, mode in todo:
        name = P.insts[key]["name"]
        r = isolated(lambda: one(key, mode), 120, short(name))
        if len(r) == 1 and len(r[0]) == 3 and isinstance(r[0][0], list):
            out, fns, n = r[0]
            R.functions |= fns
            count += n
            if not any(s != "ok" for k, s, t in out):
                R.add(short(name), "ok")
            for k, s, t in out:
                R.add(k, s, t)
        else:
            for k, s, t in r:
                R.add(k, s, t)
    R.many("columns", lambda emit: contract(P, L, emit))
    R.floor("readers and printers", len(todo), 100)
    R.floor("places that can abort", count, 150)
    return R.finish()
