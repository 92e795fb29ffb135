"""C09: reading always terminates.

Every repetition of the functions of a reader is found while the functions are
summarised.  A repetition that walks over a list ends with the list.  Every
other one needs a measure: a carried number that each further round raises and
that the condition for a further round keeps below the length of something
fixed (or the mirror image, or a carried list that gets shorter)."""
import re

import vg
from vg import *
from p_lines import Lines
from p_pure import READERS, graph
from p_panic import IMPL, entries, run, short, vague
from report import Report, isolated
import p_sexp

KP = "kicad_parse_gen::"
PARSE = re.compile(r"FromSexp( for .*)?>::from_sexp$|FromStr( for .*)?>::from_str$")
# sources of endless iterators
ENDLESS = re.compile(r"std::iter::(repeat|repeat_with|from_fn|successors)(::<|$)|Iterator::cycle|RangeFrom<[^<>]*> as std::iter|std::iter::(Cycle|Repeat|FromFn|Successors)")


class Rounds(object):
    """the loops of one summary"""

    def __init__(self, fl):
        self.fl = fl
        self.by = {}
        for r in fl.rounds:
            self.by.setdefault(r[5], []).append(r)
        self.memo = {}

    def mu(self, lid, k):
        return self.fl.mu(lid, k)

    def least(self, n, mu, on=1):
        """greatest c with n >= mu + c on every branch, None if there is none"""
        best = None
        for l in leaves(BDD.restrict(n, on) if on not in (0, 1) else n):
            x = BDD.leaf[l]
            if x is BOTT:
                continue
            c = self.least1(x, mu)
            if c is None:
                return None
            best = c if best is None else min(best, c)
        return best

    def least1(self, x, mu):
        if not isinstance(x, int) and not isT(x) and not isinstance(x, Lin):
            return None
        c, d = lin_of(x)
        d = dict(d)
        if d.pop(mu, 0) == 1:
            return c if all(v > 0 and self.natural(t) for t, v in d.items()) else None
        for t in list(d):
            if d[t] == 1 and isT(t, "loop"):
                rest = {u: v for u, v in d.items() if u is not t}
                if not all(v > 0 and self.natural(u) for u, v in rest.items()):
                    continue
                k, ini, stp, on, lid = t.args
                key = ("grows", t.args)
                if key not in self.memo:
                    self.memo[key] = None
                    s = self.least(stp[k].n, self.mu(lid, k), on.n)
                    self.memo[key] = s is not None and s >= 0
                if self.memo[key]:
                    b = self.least(ini[k].n, mu)
                    if b is not None:
                        return b + c
        return None

    def natural(self, t):
        return t.op in ("len", "idx", "count", "pos")


def mentions(n, lid):
    return {m.args[1] for m in BDD.marks(n) if m.op == "mu" and m.args[0] == lid}


def relevant(step, on, lid):
    """carried cells that decide how often the loop goes round"""
    out = set()
    todo = list(mentions(on, lid))
    while todo:
        k = todo.pop()
        if k not in out:
            out.add(k)
            todo += mentions(step[k], lid)
    return out


def unchanged(n, mu):
    return indicator(n, {l for l in leaves(n) if BDD.leaf[l] is mu})


def judge(W, r, L):
    """(verdict, text) for one loop"""
    where, drv, inits, step, on, lid = r
    if drv is not None:
        v = {t.op for t in terms_in(drv, lambda t: t.op in ("repeat", "cycle", "from_fn", "successors"))}
        return ("undecided", "walks over %s" % render(drv)[:200]) if v else ("ok", "walks over %s" % render(drv)[:60])
    on = consistent_true(on)
    if on == 0:
        return "ok", "never repeated"
    for k in range(len(step)):
        mu = W.mu(lid, k)
        s = BDD.restrict(step[k], on)
        # an iterator that moves on
        if all(BDD.leaf[l] is BOTT or BDD.leaf[l] is mk("adv", mu) for l in leaves(s)) and BDD.AND(on, BDD.NOT(BDD.atom(("more", mu)))) == 0:
            return "ok", "moves along an iterator"
        up = W.least(s, mu)
        if up is not None and up >= 1:
            for c, d in bounds(on, mu):
                if any(t.op == "mu" and t.args[0] == lid for u in d for t in u.marks):
                    continue
                if consistent(BDD.AND(on, BDD.NOT(ge0(_lin(c, d, mu))))) == 0:
                    return "ok", "a number that grows by %d or more stays below %s" % (up, render_lin(c, d))
        down = falls(s, mu)
        if down and any(consistent(BDD.AND(on, BDD.NOT(ge0(lin_add(mu, b, -1))))) == 0 for b in range(-2, 3)):
            return "ok", "a number that falls stays above a constant"
        if shorter(s, mu) and consistent(BDD.AND(on, BDD.NOT(nonempty(K(mu))))) == 0:
            return "ok", "a list that gets shorter"
    rel = relevant(step, on, lid)
    same = on
    for k in sorted(rel):
        same = BDD.AND(same, unchanged(step[k], W.mu(lid, k)))
    same = consistent(same)
    if same != 0:
        v = vague(same, L)
        t = "a further round can start with nothing changed, when %s" % render(same)[:500]
        return ("undecided" if v else "violation"), t + (" (depends on %s)" % ", ".join(v) if v else "")
    for k in sorted(rel):
        mu = W.mu(lid, k)
        s = BDD.restrict(step[k], on)
        up = W.least(s, mu)
        if up is None or up < 1:
            continue
        past = on
        for v in BDD.support(on):
            a = BDD.atoms[v]
            if a[0] == "ge" and lin_of(a[1])[1].get(mu, 0) < 0:
                past = BDD.AND(past, BDD.NOT(BDD.atom(a)))
        past = consistent(past)
        if past == 0:
            continue
        v = vague(past, L)
        t = "goes on after the end of the input, when %s" % render(past)[:500]
        return ("undecided" if v else "violation"), t + (" (depends on %s)" % ", ".join(v) if v else "")
    return "undecided", "no measure found for the loop, continued when %s" % render(on)[:300]


def consistent_true(on):
    return on if consistent(on) != 0 else 0


def _lin(c, d, mu):
    e = dict(d)
    e[mu] = e.get(mu, 0) - 1
    return lin_add_all(c - 1, e)


def lin_add_all(c, d):
    x = c
    for t, v in d.items():
        x = lin_add(x, scale1(t, v), 1)
    return x


def scale1(t, v):
    x = leafof(scale(K(t), v))
    return x


def render_lin(c, d):
    return " + ".join(["%s%s" % ("" if v == 1 else "%d*" % v, render(K(t))[:80]) for t, v in d.items()] + ([str(c)] if c else []))


def bounds(on, mu):
    """upper bounds of mu that the condition speaks of: mu < bound"""
    out = []
    for v in sorted(BDD.support(on)):
        k = BDD.atoms[v]
        if k[0] != "ge":
            continue
        c, d = lin_of(k[1])
        d = dict(d)
        m = d.pop(mu, 0)
        # c + d - mu >= k
        if m == -1:
            b = (c - k[2] + 1, d)
        elif m == 1:
            # mu + d + c >= k is false below the bound
            b = (k[2] - c, {t: -x for t, x in d.items()})
        else:
            continue
        if b not in out:
            out.append(b)
    return out


def falls(n, mu):
    for l in leaves(n):
        x = BDD.leaf[l]
        if x is BOTT:
            continue
        if not isinstance(x, Lin) or x.ts != ((mu, 1),) or x.c >= 0:
            return False
    return True


def shorter(n, mu):
    for l in leaves(n):
        x = BDD.leaf[l]
        if x is BOTT:
            continue
        if not (isT(x, "rest") and x.args[0] is mu or isT(x, "init") and x.args[0] is mu):
            return False
    return True


# -- recursion ---------------------------------------------------------------------
def cycles(P, roots, succ):
    """functions of the analysed code that can call themselves again"""
    seen, todo = set(), list(roots)
    while todo:
        k = todo.pop()
        if k not in seen:
            seen.add(k)
            todo += [x for x in succ.get(k, ()) if x in P.raw]
    out = []
    for k in sorted(seen, key=lambda k: P.insts[k]["name"]):
        if P.insts[k]["crate"] != "kicad_parse_gen":
            continue
        s, todo = set(), list(succ.get(k, ()))
        while todo:
            x = todo.pop()
            if x not in s and x in seen:
                s.add(x)
                todo += list(succ.get(x, ()))
        out.append((k, k in s))
    return out


def check(prop, P):
    R = Report(prop, "every repetition in the functions of readers, with the carried state, its change in one round and the condition for a further "
                     "round (gated value graph): it walks over a list, or has a bounded measure that every round moves; no recursion among the readers")
    L = Lines(P)
    todo = [(k, m) for k, m in entries(P) if PARSE.search(P.insts[k]["name"]) or k in {P.root(n) for n in READERS}]
    todo += [(k, "whole") for n, k in sorted(L.tokenizers.items())]
    line = {P.root("sym_read"), P.root("sch_parse"), P.root("sch_read")}
    total = [0, 0]

    def one(key, mode):
        out, fns, n = [], set(), [0, 0]
        try:
            fl, r = run(P, L, key, "lines" if key in line else mode)
            fns = set(P.insts[k]["name"] for k in fl.inlined) | {P.insts[key]["name"]}
            W = Rounds(fl)
            for q in fl.rounds:
                n[0] += 1
                n[1] += q[1] is None
                s, t = judge(W, q, L)
                out.append(("%s: %s" % (short(q[0]), "repetition" if q[1] is None else "walk"), s, t))
        except Undecided as e:
            out.append((short(P.insts[key]["name"]), "undecided", str(e)))
        except RecursionError:
            out.append((short(P.insts[key]["name"]), "undecided", "recursion limit"))
        return [(out, fns, n)]
    for key, mode in todo:
        name = P.insts[key]["name"]
        r = isolated(lambda: one(key, mode), 120, short(name))
        if len(r) == 1 and isinstance(r[0][0], list):
            out, fns, n = r[0]
            R.functions |= fns
            total[0] += n[0]
            total[1] += n[1]
            if not any(s != "ok" for k, s, t in out):
                R.add(short(name), "ok")
            for k, s, t in out:
                R.add(k, s, t)
        else:
            for k, s, t in r:
                R.add(k, s, t)
    succ, stat = graph(P)
    roots = [P.root(n) for n in READERS] + [k for k, m in todo]
    cyc = cycles(P, roots, succ)
    for k, bad in cyc:
        n = short(P.insts[k]["name"])
        if bad:
            R.add("%s: calls itself" % n, "undecided", "a recursive reader")
        else:
            R.add("%s: no recursion" % n, "ok")
        for x in succ.get(k, ()):
            m = x if isinstance(x, str) and x not in P.insts else P.insts[x]["name"]
            if ENDLESS.search(m):
                R.add("%s: %s" % (n, m), "undecided", "an iterator without end")
    R.floor("readers", len(todo), 60)
    R.floor("repetitions", total[0], 15)
    R.floor("functions of readers", len(cyc), 100)
    return R.finish()
