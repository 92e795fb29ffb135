"""C07: the line readers forget nothing.

From the summary of every function that takes a line apart follow its columns:
each column that can be there when reading succeeds has to be part of what is
returned or stored, or be fixed by the condition of success; one column behind
the last one that is looked at stands for all further columns.  A round of a
loop that moves over a line has to store something, unless the line is one that
the printer writes by itself; a line that is passed outside of loops has to be
looked at; and the text is read to its end."""
import re

import vg
from vg import *
from flow import Flow
from prims import RES
from p_lines import Lines, FILES
from p_drop import Occ, conditions, depends, fixed, mentions
from p_panic import number, short, vague
from p_pure import graph
from p_term import Rounds, unchanged
from report import Report, isolated

KP = "kicad_parse_gen::"
TOP = ("sch_parse", "sym_read")
SPLIT = "core::str::<impl str>::split_whitespace"
TECH = ("From the gated value graph of every line reader: each column that success allows is part of the value or fixed by the condition of success, "
        "one further column included; each round of a loop over lines stores something; lines passed outside of loops are looked at; the text is read to its end.")


# -- columns ---------------------------------------------------------------------
def rows_of(n, L):
    """the lists of columns that occur in a value"""
    def pred(t):
        return t.op == "words" or t.op == "fld" and t.args[1] == 0 and t.args[2] == 0 and isT(t.args[0], "call") and t.args[0].args[0] in L.tokenizers
    return terms_in(n, pred)


def indices(n, v):
    out = set()
    for t in terms_in(n, lambda t: t.op == "elem" and t.args[0] is v):
        for l in leaves(t.args[1].n):
            out.add(BDD.leaf[l])
    return out


def exact(P, L):
    """the splits into n columns that never give more than n"""
    out = set()
    for name, key in sorted(L.tokenizers.items()):
        fn = P.fn(key)
        if fn.argc != 2 or P.tyname(fn.locals[1]) != "u64":
            continue
        g, st, v = Flow(P).run_fn(key, [K(mk("var", "n")), K(mk("var", "s"))], 1, {})
        bad = BDD.AND(BDD.AND(g, is_variant(v, 0, 2)), compare("Gt", length(fld(v, 0, 0, (RES, 1))), K(mk("var", "n")), False))
        if bad == 0 or bad != 1 and consistent(bad) == 0:
            out.add(name)
    return out


def skips(n, v):
    """how many columns are left out where the rest is used"""
    return [leafof(t.args[1].n) for t in terms_in(n, lambda t: t.op == "rest" and t.args[0] is v) if isinstance(leafof(t.args[1].n), int)]


class Columns(object):
    def __init__(self, L, full, name, okc, vals, emit):
        self.full = full
        self.L, self.name, self.ok, self.vals, self.emit = L, name, okc, vals, emit
        self.count = 0

    def check(self):
        found = {}
        for n in [self.ok] + self.vals:
            for v in rows_of(n, self.L):
                if not self.inner(v):
                    found[v] = 1
        for v in found:
            self.row(v, found)

    def row(self, v, found):
        used = set()
        for n in [self.ok] + self.vals:
            used |= indices(n, v)
        if v.op == "words" and used <= {0}:
            return          # only the keyword is looked at
        nums = sorted(i for i in used if isinstance(i, int))
        for n in self.vals:
            nums += [k + 1 for k in skips(n, v)]
        last = max(nums) + 1 if nums else 0
        there = 0
        for a in BDD.support(self.ok):
            k = BDD.atoms[a]
            if mentions(k, v) or v.op == "fld" and mentions(k, v.args[0]):
                there = BDD.OR(there, depends(self.ok, BDD.atom(k)))
        for j in range(last + 1):
            if j == 0 and 0 not in used:
                continue          # the keyword: decided by the caller
            e = mk("elem", v, Node(K(j)))
            whole = j < last

            def want(t):
                if t is e or t is v:
                    return True
                if t.op == "rest" and t.args[0] is v and isinstance(leafof(t.args[1].n), int):
                    return leafof(t.args[1].n) <= j
                if t.op == "take" and not whole and mentions(t, v):
                    return False
                if t.op in ("elem", "len") and t.args[0] is v and (t.op == "len" or isinstance(leafof(t.args[1].n), int)):
                    return False
                return None
            got = BDD.OR(fixed(e, self.ok, *self.vals), self.short(e))
            for n in self.vals:
                got = BDD.OR(got, Occ(want).node(n))
            lost = BDD.AND(BDD.AND(self.ok, there), BDD.AND(BDD.NOT(got), ge(length(K(v)), j + 1)))
            if v.op == "fld" and v.args[0].args[0] in self.full and number(v.args[0].args[1].n) == j:
                lost = 0
            lost = consistent(lost) if lost not in (0, 1) else lost
            self.count += 1
            key = "%s: %s" % (self.name, "column %d" % j if j < last else "columns from %d on" % j)
            key += " of %s" % self.which(v, found) if len(found) > 1 else ""
            if lost == 0:
                self.emit(key, "ok")
            else:
                w = unsure(lost, self.L)
                self.emit(key, "undecided" if w else "violation", "accepted and forgotten when %s%s" % (render(lost)[:200], " (depends on %s)" % w if w else ""))

    def short(self, e):
        """the column is empty, or just a beginning that is tested"""
        r = BDD.NOT(ge(length(K(e)), 1))
        for n in [self.ok] + self.vals:
            for a in conditions(n):
                k = BDD.atoms[a]
                if not mentions(k, e):
                    continue
                c = BDD.atom(k)
                for t in terms_in(c, lambda t: t.op == "len"):
                    if mentions(t, e):
                        r = BDD.OR(r, BDD.NOT(ge(K(t), 1)))
                for t in k[1:]:
                    t = leafof(t.n) if isinstance(t, Node) else t
                    if k[0] == "str_starts_with" and isT(t, "str"):
                        r = BDD.OR(r, BDD.AND(c, BDD.NOT(ge(length(K(e)), len(t.args[0].encode()) + 1))))
        return r

    def line(self, v):
        x = v.args[0] if v.op == "words" else v.args[0].args[-1]
        return x.n if isinstance(x, Node) else K(x)

    def inner(self, v):
        """a line of a loop: belongs to the function that takes it apart"""
        for l in leaves(self.line(v)):
            x = BDD.leaf[l]
            if isT(x, "elem"):
                i = leafof(x.args[1].n)
                if i is not None and any(isT(t, "mu") for t in lin_of(i)[1]):
                    return True
        return False

    def which(self, v, found):
        """line of the row, by its distance from the first"""
        for t in terms_in(self.line(v), lambda t: t.op == "elem"):
            c, d = lin_of(leafof(t.args[1].n)) if leafof(t.args[1].n) is not None else (0, {})
            if any(isT(y, "loop") for y in d):
                return "a line after a loop"
            return "line %d" % c
        return "the line"


def unsure(c, L):
    return [x for x in vague(c, L) if x != "loop"]


def ge(n, k):
    return BDD.map1(n, lambda x: ge0(add_int(x, -k)))


def add_int(x, k):
    return leafof(add(K(x), K(k)))


# -- functions -------------------------------------------------------------------
def cursor_field(P, t):
    """which field of a cursor into lines is the position"""
    while t["k"] == "ref":
        t = P.types[t["to"]]
    if t["k"] != "adt" or t["kind"] != "struct":
        return None
    fs = [P.tyname(f[1]) for f in t["variants"][0]["fields"]]
    if len(fs) == 2 and {f.split("<")[0] for f in fs} == {"u64", "std::vec::Vec"}:
        return fs.index("u64"), (t["name"], 2)
    return None


def summary(P, L, key):
    fl = Flow(P, lambda info: info["name"] in L.tokenizers)
    fl.counting = False
    fn = P.fn(key)
    st, args, cells = {}, [], {}
    for i in range(fn.argc):
        n = "abcdefgh"[i]
        v = K(mk("var", n))
        t = P.types[fn.locals[1 + i]]
        if t["k"] == "ref" and t["mut"]:
            cells[n] = fl.new_cell(st, v)
            v = K(Ptr(cells[n], ()))
        args.append(v)
    g, st, v = fl.run_fn(key, args, 1, st)
    return fl, g, {n: st.get(c, BOT) for n, c in cells.items()}, v


def cursor_new(P, k):
    """makes a cursor"""
    f = P.fn(k)
    return f is not None and P.types[f.locals[0]]["k"] == "adt" and cursor_field(P, P.types[f.locals[0]]) is not None


def readers(P, L):
    """the functions below the line readers that take lines apart"""
    succ, _ = graph(P)
    seen, todo = set(), [P.root(n) for n in TOP]
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += succ.get(k, ())
    out = []
    for k in sorted(seen, key=lambda k: P.insts[k]["name"]):
        i = P.insts[k]
        if P.fn(k) is None or i["crate"] != "kicad_parse_gen" or i["closure"] or "{closure" in i["name"] or i["name"] in L.tokenizers:
            continue
        ts = [P.types[l] for l in P.fn(k).locals[1:1 + P.fn(k).argc]]
        if any(cursor_field(P, t) for t in ts) and P.types[P.fn(k).locals[0]].get("name") == RES or \
                any(P.insts[x]["name"] in L.tokenizers or P.insts[x]["name"].startswith(SPLIT) or
                    P.types[P.fn(k).locals[0]].get("name") == RES and cursor_new(P, x) for x in succ.get(k, ())):
            out.append(k)
    return out


def inside(n, mu):
    return any(t is mu for t in BDD.marks(n)) or bool(terms_in(n, lambda t: t is mu))


def idle(n, mu):
    """condition under which a carried cell stays as it is"""
    def f(x):
        if x is mu:
            return 1
        if isT(x, "cat"):
            r = 1
            for p in x.args[1:]:
                if p[0] == "sp" and (p[1] is mu or isinstance(p[1], Node) and leafof(p[1].n) is mu):
                    continue
                if p[0] == "opt":
                    r = BDD.AND(r, BDD.NOT(p[1].n))
                elif p[0] == "alt":
                    r = BDD.AND(r, BDD.map1(p[1].n, lambda y: 1 if isT(y, "cat") and len(y.args) == 1 else 0))
                else:
                    return 0
            return r
        return 0
    return BDD.map1(n, f)


def pinned(c, line, words):
    """the line is one of the printer's own"""
    r = 0
    for v in BDD.support(c):
        k = BDD.atoms[v]
        if k[0] == "eq" and mentions(k[1:3], line):
            if any(isT(x, "str") and x.args[0].strip() and x.args[0].strip() in words for x in k[1:3]):
                r = BDD.OR(r, BDD.atom(k))
    return r


def before_loops(okc):
    """what success says about the parts that no loop has touched"""
    c = okc
    for v in sorted(BDD.support(okc)):
        a = BDD.atom(BDD.atoms[v])
        if terms_in(a, lambda t: t.op == "loop"):
            c = BDD.OR(BDD.restrict(c, a), BDD.restrict(c, BDD.NOT(a))) if c not in (0, 1) else c
    return c


def loops(W, L, fl, me, words, okc, emit):
    n = 0
    done = {}
    for r in fl.rounds:
        where, drv, inits, step, on, lid = r
        if drv is not None or where != me:
            continue
        for k in range(len(step)):
            mu = W.mu(lid, k)
            lines = [t for x in [on] + list(step) for t in terms_in(x, lambda t: t.op == "elem" and leafof(t.args[1].n) is mu)]
            lines = [t for t in dict.fromkeys(lines) if isT(t.args[0], "lines") or isT(t.args[0], "fld")]
            if not lines:
                continue
            n += 1
            c = BDD.AND(on, before_loops(okc))
            for j in range(len(step)):
                m = W.mu(lid, j)
                if j != k and inside(step[j], m):
                    c = BDD.AND(c, idle(step[j], m))
            for l in lines:
                c = BDD.AND(c, BDD.NOT(pinned(c, l, words)))
            c = consistent(c) if c not in (0, 1) else c
            done[where] = done.get(where, 0) + 1
            key = "%s: lines of loop %d" % (short(where), done[where])
            if c == 0:
                emit(key, "ok")
            else:
                w = unsure(c, L)
                emit(key, "undecided" if w else "violation", "a line is accepted and forgotten when %s%s" % (render(c)[:400] , " (depends on %s)" % w if w else ""))
    return n


def passed(P, name, okc, vals, fl, pos, emit):
    """lines that are passed without a look"""
    everything = [okc] + vals + [x for r in fl.rounds for x in [r[4]] + list(r[2]) + list(r[3])]
    looked = set()
    for x in everything:
        for t in terms_in(x, lambda t: t.op == "elem"):
            for l in leaves(t.args[1].n):
                looked.add(form(BDD.leaf[l]))
    ends = {}
    for n in pos:
        for l in leaves(n):
            f = form(BDD.leaf[l])
            if f and f[1]:
                ends[f[1]] = max(ends.get(f[1], 0), f[0])
    for base, c in ends.items():
        what = "line %d" if not any(isT(t, "loop") for t, _ in base) else "line %d after a loop"
        for k in range(c):
            ok = (k, base) in looked
            emit("%s: %s" % (name, what % k), "ok" if ok else "violation", "" if ok else "the line is passed without a look at it")


def form(x):
    if isinstance(x, int) or isinstance(x, Lin) or isT(x):
        c, d = lin_of(x)
        return c, frozenset(d.items())
    return None


def ends(W, L, name, okc, fl, emit):
    """the text is read to its end"""
    top = fl.rounds[-1]
    for r in fl.rounds:
        if r[1] is None and short(r[0]) == name:
            top = r
    for t in terms_in(okc, lambda t: t.op == "loop" and t.args[3].n == top[4]):
        k = t.args[0]
        mu = W.mu(top[5], k)
        ls = [x.args[0] for x in terms_in(top[4], lambda x: x.op == "elem" and leafof(x.args[1].n) is mu and isT(x.args[0], "lines"))]
        if not ls:
            continue
        more = BDD.map1(sub(length(K(ls[0])), K(t)), lambda x: ge0(leafof(add(K(x), K(-1)))))
        c = BDD.AND(okc, more)
        c = consistent(c) if c not in (0, 1) else c
        emit("%s: end of the text" % name, "ok" if c == 0 else "violation", "" if c == 0 else "lines are left when reading ends")
        return True
    emit("%s: end of the text" % name, "violation", "nothing shows that the text is read to its end")


def texts(x, seen=None, out=None):
    """the constant texts of a template"""
    if seen is None:
        seen, out = set(), []
    if isinstance(x, str):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x[1:]:
            texts(y, seen, out)
    elif isinstance(x, Node):
        for l in leaves(x.n):
            texts(BDD.leaf[l], seen, out)
    elif isinstance(x, T) and x not in seen:
        seen.add(x)
        for y in x.args:
            texts(y, seen, out)
    return out


def kind(k):
    for pat, what in ((r": columns from", "further columns"), (r": column \d", "a column"), (r": lines of loop", "lines of a loop"),
                      (r": line \d", "a line outside of loops"), (r": end of", "the rest of the text")):
        if re.search(pat, k):
            return what
    return "other"


def check(prop, P):
    R = Report(prop, TECH)
    L = Lines(P)
    words = {}
    for p, n in (("C03", "sch_parse"), ("C04", "sym_read")):
        x, g = L.writer(KP + FILES[p][0])
        # a text that goes on with a value is not a line
        words[n] = [y.strip() for w in texts(x) for y in w.split("\n")[:-1]]
    todo = readers(P, L)
    full = exact(P, L)
    total = [0, 0]

    def one(key):
        out, fns, cnt, lp = [], set(), 0, 0
        name = short(P.insts[key]["name"])

        def emit(k, s, t=""):
            out.append((k, s, t))
        try:
            fl, g, cells, v = summary(P, L, key)
            fns = {P.insts[k]["name"] for k in fl.inlined}
            okc = BDD.AND(g, is_variant(v, 0, 2))
            W = Rounds(fl)
            lp = loops(W, L, fl, P.insts[key]["name"], words["sch_parse"] + words["sym_read"], okc, emit)
            if not any(cursor_field(P, P.types[l]) for l in P.fn(key).locals[1:1 + P.fn(key).argc]) and lp:
                ends(W, L, name, okc, fl, emit)
                return [(out, fns, 0, lp)]
            val = fld(v, 0, 0, (RES, 1))
            fn = P.fn(key)
            vals, pos = [val], []
            for i in range(fn.argc):
                n = "abcdefgh"[i]
                if n in cells:
                    c = cursor_field(P, P.types[fn.locals[1 + i]])
                    if c:
                        pos.append(fld(cells[n], 0, c[0], c[1]))
                        for r in fl.rounds:
                            if r[1] is None:
                                pos += [x for x in r[2]]
                    else:
                        vals.append(cells[n])
            if okc not in (0, 1):
                vals = [BDD.restrict(x, okc) for x in vals]
                pos = [BDD.restrict(x, okc) for x in pos]
            C = Columns(L, full, name, okc, vals, emit)
            C.check()
            cnt = C.count
            passed(P, name, okc, vals, fl, pos, emit)
        except Undecided as e:
            out.append((name, "undecided", str(e)))
        return [(out, fns, cnt, lp)]
    lost = {}
    for key in todo:
        r = isolated(lambda: one(key), 200, short(P.insts[key]["name"]))
        if len(r) == 1 and len(r[0]) == 4:
            out, fns, n, lp = r[0]
            R.functions |= fns
            total[0] += n
            total[1] += lp
            r = out
        for k, s, t in r:
            if s == "violation":
                lost.setdefault((k.split("::")[0], kind(k)), []).append((k, t))
            else:
                R.add(k, s, t)
    # numbered for each file format, so that names of functions do not matter
    for (m, what), ks in sorted(lost.items()):
        for n, (k, t) in enumerate(sorted(ks)):
            R.add("%s: %s (%d)" % (m, what, n + 1), "violation", "%s: %s" % (k, t))
    R.floor("line readers", len(todo), 20)
    R.floor("columns", total[0], 80)
    R.floor("loops over lines", total[1], 5)
    return R.finish()
