"""Join of a line printer's templates with a line reader's tables.

The printer of a type is summarised once as a text template (literal text,
displayed fields, repetitions over lists).  The reader is summarised once as
a gated value over lines, words and characters it takes from the text; its
loops are transition tables (carried cells, their next values, the condition
to go round).  The join lays the tables along the template: a look-up of a
line, word or character becomes the part of the template it falls on, a loop
goes once over each part, and over a repetition with one generic element."""
import vg
from vg import *
from sexptab import Tables

QUOTE, NL = 34, 10
BLANKS = (32, 9, 10, 13)


# -- characters of a template -------------------------------------------------------
def text_of(p):
    """piece as a string term"""
    return p[1] if p[0] == "sp" else cat("s", [p])


def padded(p):
    return p[0] == "disp" and p[1] and p[1][0] != "debug" and any(isinstance(s, tuple) and s[0] == "width" for s in p[1]) and not any(
        isinstance(s, tuple) and s[0] == "precision" for s in p[1])


def inner(p):
    """pieces of the value of a padded display"""
    x = leafof(p[2].n)
    if isT(x) and x.op in ("cat", "str"):
        return list(pieces(x))
    if x is None and all(isT(BDD.leaf[l]) and BDD.leaf[l].op in ("cat", "str") for l in leaves(p[2].n)):
        return [("alt", p[2])]
    return [("disp", "", p[2])]


def pad(p, side):
    L = K(mk("pad", side, p[2], p[1]))
    return ("rep", Node(L), mk("idx", Node(L), 0), (("el", Node(K(32))),))


def char_list(x):
    out = []
    for p in pieces(x):
        if p[0] == "lit":
            out += [("el", Node(K(ord(c)))) for c in p[1]]
        elif padded(p):
            out.append(pad(p, "l"))
            out += pieces(char_list(cat("s", inner(p))), "l")
            out.append(pad(p, "r"))
        elif p[0] == "alt":
            ns = BDD.map1(p[1].n, lambda y: BOT if y is BOTT else K(char_list(y)))
            ls = [BDD.leaf[l] for l in leaves(ns) if l != BOT]
            if all(isT(l, "cat") and all(q[0] == "el" for q in l.args[1:]) for l in ls) and len({len(l.args) for l in ls}) == 1:
                for j in range(len(ls[0].args) - 1):
                    out.append(("el", Node(elem(ns, K(j)))))
            else:
                out.append(("alt", Node(ns)))
        elif p[0] == "opt":
            out.append(("opt", p[1], tuple(pieces(char_list(cat("s", p[2]))))))
        elif p[0] == "rep":
            out.append(("rep", p[1], p[2], tuple(pieces(char_list(cat("s", p[3]))))))
        else:
            out.append(("sp", mk("chars", text_of(p))))
    return cat("l", out)


def shaped(x):
    return isT(x) and x.op in ("cat", "str") or JOIN and isT(x) and JOIN[-1].free(x) is not None


def raw_chars(x, node, leaf):
    if not JOIN:
        return None
    return clean(BDD.map1(leaf(x.args[0]), lambda y: BOT if y is BOTT else K(char_list(y)) if isT(y) and y.op in ("cat", "str") else K(mk("chars", y))))


def fits(p, sep):
    """no separator inside the piece"""
    if p[0] == "lit":
        return not any(c in sep for c in p[1])
    if p[0] == "disp":
        return not padded(p)
    if p[0] == "sp":
        return JOIN[-1].free(p[1]) == "word"
    if p[0] == "alt":
        return all(l == BOT or all(fits(q, sep) for q in pieces(BDD.leaf[l])) for l in leaves(p[1].n))
    if p[0] in ("opt", "rep"):
        return all(fits(q, sep) for q in p[-1])
    return False


def word_list(x):
    """words of a template: list term, or None when it is not clear"""
    ps = []
    for p in pieces(x):
        if padded(p):
            ps += [("lit", " ")] if ps and False else []
            ps.append(("blank?",))
            ps += inner(p)
            ps.append(("blank?",))
        else:
            ps.append(p)
    out = []
    cur = []

    def flush():
        if cur:
            out.append(("el", Node(opened(K(cat("s", list(cur)))))))
            del cur[:]
    for i, p in enumerate(ps):
        if p[0] == "blank?":
            # only next to a blank does it not matter whether it is there
            before = i == 0 or ps[i - 1][0] == "lit" and ps[i - 1][1][-1:].isspace() or ps[i - 1][0] == "blank?"
            after = i + 1 == len(ps) or ps[i + 1][0] == "lit" and ps[i + 1][1][:1].isspace() or ps[i + 1][0] == "blank?"
            if not before and not after:
                return None
            continue
        if p[0] == "lit":
            parts = []
            w = ""
            for c in p[1]:
                if c.isspace():
                    if w:
                        cur.append(("lit", w))
                        w = ""
                    flush()
                else:
                    w += c
            if w:
                cur.append(("lit", w))
            continue
        if fits(p, " \t\n\r"):
            cur.append(p)
            continue
        if p[0] == "opt" and not cur:
            w = word_list(cat("s", p[2]))
            last = p[2][-1]
            if w is None or not (i + 1 == len(ps) or last[0] == "lit" and last[1][-1:].isspace()):
                return None
            out.append(("opt", p[1], tuple(pieces(w))))
            continue
        return None
    flush()
    return cat("l", out)


def raw_words(x, node, leaf):
    if not JOIN:
        return None

    def f(y):
        if y is BOTT:
            return BOT
        if isT(y) and (y.op in ("cat", "str") or JOIN[-1].free(y) == "word"):
            w = word_list(y)
            if w is not None:
                return K(w)
            # the first word is known as soon as it ends
            head = []
            ps = list(pieces(y))
            for i, p in enumerate(ps):
                if p[0] == "lit":
                    s = p[1] if head else p[1].lstrip()
                    k = min([s.find(c) for c in " \t" if c in s] or [-1])
                    if k >= 0:
                        head += [("lit", s[:k])] if k else []
                        if not head:
                            break
                        rest = cat("s", [("lit", s[k:])] + ps[i + 1:])
                        return K(cat("l", [("el", Node(opened(K(cat("s", head))))), ("sp", mk("words", rest))]))
                    head += [("lit", s)] if s else []
                elif fits(p, " \t\n\r") and (p[0] == "disp" or p[0] == "sp" or head):
                    head.append(p)
                else:
                    break
        return K(mk("words", y))
    return clean(BDD.map1(leaf(x.args[0]), f))


def drop_front(y, n):
    """string without its first n (one-byte) characters, or None"""
    ps = list(pieces(y))
    while n and ps:
        p = ps[0]
        if p[0] != "lit":
            return None
        if len(p[1]) > n:
            ps[0] = ("lit", p[1][n:])
            n = 0
        else:
            n -= len(p[1])
            ps.pop(0)
    return None if n else cat("s", ps)


def raw_remove(x, node, leaf):
    s, i = node(x.args[0].n), node(x.args[1].n)
    if leafof(i) == 0:
        def f(y):
            if y is BOTT:
                return BOT
            r = drop_front(y, 1) if isT(y) and y.op in ("cat", "str") else None
            return K(r) if r is not None else K(mk("str_remove", Node(K(y)), Node(i)))
        return clean(BDD.map1(s, f))
    return None


def raw_substr(x, node, leaf):
    s, i, j = [node(a.n) for a in x.args]
    k = leafof(i)
    if isinstance(k, int) and isT(leafof(j), "end"):
        def f(y):
            if y is BOTT:
                return BOT
            r = drop_front(y, k) if isT(y) and y.op in ("cat", "str") else None
            return K(r) if r is not None else K(mk("substr", Node(K(y)), Node(i), Node(j)))
        return clean(BDD.map1(s, f))
    return None


RAW.update({"chars": raw_chars, "words": raw_words, "str_remove": raw_remove, "substr": raw_substr})
_num = RAW["num"]


def raw_num(x, node, leaf):
    if JOIN:
        return JOIN[-1].tables.number(x.args[0], leaf(x.args[1]))
    return _num(x, node, leaf)


RAW["num"] = raw_num
JOIN = []


# -- lines ----------------------------------------------------------------------------
class Rep(object):
    """lines repeated for each element of L"""
    def __init__(self, L, idx, items):
        self.L, self.idx, self.items = L, idx, items


class Opt(object):
    def __init__(self, g, items):
        self.g, self.items = g, items


class Pick(object):
    """groups of lines chosen by the leaves of n"""
    def __init__(self, n, table):
        self.n, self.table = n, table


def has_nl(p):
    if p[0] == "lit":
        return "\n" in p[1]
    if p[0] == "alt":
        return any(l != BOT and any(has_nl(q) for q in pieces(BDD.leaf[l])) for l in leaves(p[1].n))
    if p[0] in ("opt", "rep"):
        return any(has_nl(q) for q in p[-1])
    return False


def ends_line(ps):
    p = ps[-1] if ps else None
    return p is not None and (p[0] == "lit" and p[1].endswith("\n") or p[0] == "alt" and all(
        l == BOT or ends_line(pieces(BDD.leaf[l])) for l in leaves(p[1].n)) or p[0] in ("rep", "opt") and ends_line(p[-1]))


def line_items(x):
    """template -> items: line texts (T), Rep, Opt, Pick"""
    out = []
    cur = []
    ps = list(pieces(x))
    while ps:
        p = ps.pop(0)
        if p[0] == "lit" and "\n" in p[1]:
            parts = p[1].split("\n")
            for s in parts[:-1]:
                cur.append(("lit", s))
                out.append(cat("s", [q for q in cur if q[0] != "lit" or q[1]]))
                del cur[:]
            if parts[-1]:
                cur.append(("lit", parts[-1]))
        elif has_nl(p):
            if cur:
                raise Undecided("repeated or optional lines inside a line")
            if p[0] == "alt" and not ends_line([p]):
                if not ps or ps[0][0] != "lit" or not ps[0][1].startswith("\n"):
                    raise Undecided("lines that are chosen do not end")
                ps[0] = ("lit", ps[0][1][1:])
                if not ps[0][1]:
                    ps.pop(0)
                p = ("alt", Node(BDD.map1(p[1].n, lambda y: BOT if y is BOTT else K(cat("s", tuple(pieces(y)) + (("lit", "\n"),))))))
            if p[0] == "rep":
                out.append(Rep(p[1].n, p[2], line_items(cat("s", p[3]))))
            elif p[0] == "opt":
                out.append(Opt(p[1].n, line_items(cat("s", p[2]))))
            else:
                out.append(Pick(p[1].n, {l: line_items(BDD.leaf[l]) for l in leaves(p[1].n) if l != BOT}))
        else:
            cur.append(p)
    if cur:
        out.append(cat("s", cur))
    return out


def alternatives(items):
    """[(condition, items)] without optional or chosen lines"""
    outs = [(1, [])]
    for it in items:
        if isinstance(it, Opt):
            alts = [(BDD.AND(it.g, g), ys) for g, ys in alternatives(it.items)] + [(BDD.NOT(it.g), [])]
        elif isinstance(it, Pick):
            alts = [(BDD.AND(indicator(it.n, {l}), g), ys) for l in it.table for g, ys in alternatives(it.table[l])]
        elif isinstance(it, T) and it.op == "cat" and it.args[1][0] == "alt":
            m = it.args[1][1].n
            alts = [(indicator(m, {l}), [cat("s", tuple(pieces(BDD.leaf[l])) + it.args[2:])]) for l in leaves(m) if l != BOT]
        else:
            for g, xs in outs:
                xs.append(it)
            continue
        outs = [(BDD.AND(g, g2), xs + ys) for g, xs in outs for g2, ys in alts]
        outs = [(g, xs) for g, xs in outs if g != 0]
    return outs


class Layout(object):
    """positions of the lines of a text: one position per line and one per
    repeated group; the lines of a group have a range of positions of their
    own for every shape its round can take"""
    def __init__(self, items, more=False):
        self.lines = {}          # position -> text
        self.groups = {}         # position -> (Rep, [(condition, first position, end position)])
        self.ranges = 0
        self.more = more
        self.term = mk("text", len(LAYOUTS))
        LAYOUTS[self.term] = self
        self.end = self.place(items, 0)

    def place(self, items, c):
        for it in items:
            if isinstance(it, Rep):
                cases = []
                for g, xs in alternatives(it.items):
                    self.ranges += 1
                    b = 10000 * self.ranges
                    cases.append((g, b, self.place(xs, b)))
                self.groups[c] = (it, cases)
            else:
                self.lines[c] = it
            c += 1
        return c

    def has(self, k):
        """is there a line at position k"""
        if k < 0 or k in self.lines:
            return 1
        if k == self.end and not self.more:
            return 0
        if k < 10000 and k > self.end and not self.more:
            return 0
        if k in self.groups:
            rest = [j for j in self.lines if k < j < k + 5000]
            return 1 if rest else nonempty(self.groups[k][0].L)
        if k >= 10000 and k - 1 in self.lines or k - 1 in self.groups:
            # the end of a round: lines of the enclosing text follow
            return 1 if any(j in self.lines for j in range(self.end)) and self.end - 1 in self.lines else BDD.atom(("undecided", "line %d" % k))
        return BDD.atom(("undecided", "line %d" % k))

    def at(self, k):
        if k in self.lines:
            return K(self.lines[k])
        return K(mk("elem", self.term, Node(K(k))))


LAYOUTS = {}
vg.TEXT["elem"] = lambda x, k: LAYOUTS[x].at(k)
vg.TEXT["has"] = lambda x, k: LAYOUTS[x].has(k)


def raw_call(x, node, leaf):
    if JOIN and x.args[0] in JOIN[-1].calls:
        r = JOIN[-1].calls[x.args[0]]([node(a.n) if isinstance(a, Node) else leaf(a) for a in x.args[1:]])
        return r[0] if r is not None else None
    return None


def raw_after(x, node, leaf):
    c = x.args[0]
    if JOIN and isT(c, "call") and c.args[0] in JOIN[-1].calls:
        r = JOIN[-1].calls[c.args[0]]([node(a.n) if isinstance(a, Node) else leaf(a) for a in c.args[1:]])
        return r[1].get(x.args[1]) if r is not None else None
    return None


RAW["remainder"] = lambda x, node, leaf: K(x)
RAW.update({"call": raw_call, "after": raw_after})


# -- the join -------------------------------------------------------------------------
class Giveup(Exception):
    pass


class Join(object):
    """free: field -> 'word' | 'text' | 'line' by (type, field)"""
    def __init__(self, P, domain, calls=None, fact=lambda k: None):
        self.P = P
        self.fact = fact
        self.tables = Tables(P)
        self.domain = domain
        self.calls = calls or {}
        self.care = 1
        self.memo = {}
        self.why = []

    def __enter__(self):
        JOIN.append(self)
        ALONG.append(self.along)
        ROUNDS.append(self.rounds)
        ASSUME.append(self.assume)
        LEAST.append(lambda x: self.free(x) == "word")
        FRONT.append(self.front)
        return self

    def __exit__(self, *a):
        JOIN.pop()
        ALONG.pop()
        ROUNDS.pop()
        ASSUME.pop()
        LEAST.pop()
        FRONT.pop()

    # -- what the values are allowed to be
    def free(self, t):
        """what a free string may contain"""
        if isT(t, "cat") and t.args[0] == "s" and len(t.args) == 2 and t.args[1][0] == "disp" and t.args[1][1] == "":
            return "word"
        return self.domain(t)

    def assume(self, k):
        if k[0] == "ge" and isT(k[1], "len") and k[2] == 1 and isT(k[1].args[0]) and self.free(k[1].args[0]) == "word":
            return 1
        if k[0] == "ge" and isT(k[1], "len") and k[2] == 1 and isT(k[1].args[0], "chars") and self.free(k[1].args[0].args[0]) == "word":
            return 1
        if k[0] == "eq":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                if isT(x, "str") and isT(y) and not x.args[0] and self.free(y) == "word":
                    return 0
        return self.fact(k)

    def char_fact(self, c):
        """what is known of a character of a free string"""
        x = leafof(c)
        if not (isT(x, "elem") and isT(x.args[0], "chars")):
            return 1
        kind = self.free(x.args[0].args[0])
        bad = ()
        if kind == "word":
            bad = BLANKS + (QUOTE,)
        elif kind == "text":
            bad = (NL, QUOTE)
        elif kind == "line":
            bad = (NL,)
        f = 1
        for b in bad:
            e = BDD.OR(inteq(x, b), BDD.atom(("eq", x, mk("chr", b))))
            f = BDD.AND(f, BDD.NOT(e))
        return f

    # -- repeated characters
    def rounds(self, p, els, state, sym, at):
        n = len(state)
        L = p[1].n if p[0] == "rep" else K(p[1])
        fact = self.care
        for v in els:
            fact = BDD.AND(fact, self.char_fact(v))

        def one(s):
            for v in els or (None,):
                s = at(v, s)
                if s is None:
                    return None
                s = [narrow(x, fact) for x in s]
            return s
        # nothing depends on the round: settles after the first
        if p[0] == "rep" and els and all(BDD.is_leaf(v) and isinstance(BDD.leaf[v], int) for v in els):
            s1 = one(state)
            if one(s1) == s1:
                c = nonempty(L)
                return [ite(c, a, b) for a, b in zip(s1, state)]
        idx = p[2] if p[0] == "rep" else leafof_idx(els[0])
        moving = set()
        while True:
            cur = [sym[i] if i in moving else state[i] for i in range(n)]
            new = one(cur)
            if new is None:
                return None
            more = {i for i in range(n) if i not in moving and new[i] != cur[i]}
            if not more:
                break
            moving |= more
        r = self.shifted(L, idx, state, sym, one, moving)
        if r is not None:
            return r
        out = list(state)
        for i in moving:
            s = leafof(sym[i])
            x = leafof(new[i])
            ok_ = isT(x, "cat") and x.args[1:] and x.args[1] == ("sp", s)
            if not ok_ or any(t.op == "acc" for q in x.args[2:] for t in piece_terms(q)):
                self.why.append("repeated text changes %s" % render(new[i])[:200])
                return None
            out[i] = append(state[i], x.args[0], self.whole(L, idx, x.args[2:], els))
        return out

    def shifted(self, L, idx, state, sym, one, moving):
        """cells that every round sets anew, and lists that take up what the
        round before has left there"""
        n = len(state)
        l = leafof(L)
        if not isT(l):
            return None
        before = mk("idx", Node(L), "before")

        def prev(v):
            return subst(v, {idx: K(before)})
        s1 = one(state)
        s2 = one([prev(s1[i]) for i in range(n)]) if s1 else None
        if s2 is None:
            return None
        fresh = {i for i in moving if s1[i] == s2[i]}
        if not fresh:
            return None
        grows = moving - fresh
        first = one([sym[i] if i in grows else state[i] for i in range(n)])
        later = one([sym[i] if i in grows else prev(s1[i]) for i in range(n)])
        if first is None or later is None or any(first[i] != s1[i] or later[i] != s1[i] for i in range(n) if i not in grows):
            return None
        out = list(state)
        for i in grows:
            s = leafof(sym[i])
            xs = [leafof(first[i]), leafof(later[i])]
            if not all(isT(x, "cat") and x.args[1:] and x.args[1] == ("sp", s) for x in xs):
                return None
            head, rest = xs[0].args[2:], xs[1].args[2:]
            if any(t.op == "acc" or t is idx for q in head + rest for t in piece_terms(q)):
                return None
            body = subst_pieces(rest, {before: K(idx)})
            out[i] = append(append(state[i], xs[0].args[0], head), xs[1].args[0], [("rep", Node(K(mk("front", l))), idx, tuple(body))])
        last = add(length(L), K(-1))
        for i in fresh:
            out[i] = subst(s1[i], {idx: last})
        c = nonempty(L)
        return [ite(c, a, b) for a, b in zip(out, state)]

    def front(self, r, p):
        """all but the last element followed by the last one"""
        l = leafof(r[1].n)
        if not isT(l, "front") or len(r[3]) != 1 or r[3][0][0] != p[0]:
            return None
        L = K(l.args[0])
        want = subst_pieces(r[3], {r[2]: add(length(L), K(-1))})
        if len(want) == 1 and want[0] == p:
            return ("rep", Node(L), r[2], r[3])
        return None

    def whole(self, L, idx, ps, els):
        """characters of a string put together again are the string"""
        l = leafof(L)
        if isT(l, "chars") and len(ps) == 1 and ps[0][0] == "disp" and ps[0][1] == "char" and ps[0][2].n == els[0]:
            return list(pieces(l.args[0]))
        return [("rep", Node(L), idx, tuple(ps))]

    # -- loops over lines
    def along(self, ini, stp, on, lid):
        key = (ini, stp, on, lid, self.care)
        if key in self.memo:
            return self.memo[key]
        try:
            r = self.walk([a.n for a in ini], [a.n for a in stp], on.n, lid)
        except Giveup as e:
            self.why.append(str(e))
            r = None
        self.memo[key] = r
        return r

    def cursor(self, stp, on, lid):
        """(which cell, layout) the lines are looked up with"""
        found = set()
        for n in stp + [on]:
            for t in terms_in(n, lambda t: t.op == "elem" and isT(t.args[0], "text")):
                x = leafof(t.args[1].n)
                m = x.ts[0][0] if isinstance(x, Lin) and len(x.ts) == 1 and x.ts[0][1] == 1 else x
                if isT(m, "mu") and m.args[0] == lid:
                    found.add((m.args[1], t.args[0]))
        if len(found) != 1:
            raise Giveup("%d cursors" % len(found))
        k, t = found.pop()
        return k, LAYOUTS[t]

    def walk(self, state, stp, on, lid):
        kc, lay = self.cursor(stp, on, lid)
        mus = [mk("mu", lid, k) for k in range(len(state))]

        def ev(n, st):
            r = subst(n, dict(zip(mus, st)))
            return narrow(r, self.care)

        def go(state, end, left):
            """(state where the loop is left or the end is reached)"""
            while left:
                left -= 1
                c = leafof(state[kc])
                if c is None:
                    outs = {}
                    for l in leaves(state[kc]):
                        if l == BOT:
                            continue
                        g = indicator(state[kc], {l})
                        outs[l] = go([l if i == kc else BDD.restrict(s, g) for i, s in enumerate(state)], end, left)
                    return [merge(clean(vg._map_leaf_ids(state[kc], {l: o[i] for l, o in outs.items()}))) for i in range(len(state))]
                if not isinstance(c, int):
                    raise Giveup("cursor is %s" % render(state[kc])[:100])
                if c == end:
                    return state
                if c in lay.groups:
                    after = self.group(lay, c, state, go, mus, kc)
                    if after is None:
                        skip = [K(c + 1) if i == kc else x for i, x in enumerate(state)]
                        rest = go(skip, end, left)
                        if rest == skip:
                            return state
                        any_ = nonempty(lay.groups[c][0].L)
                        return [ite(any_, x, y) for x, y in zip(state, rest)]
                    state = after
                    continue
                if c not in lay.lines and lay.has(c) not in (0, 1):
                    raise Giveup("reads on past a repeated group: %d, to be left at %s" % (c, end))
                go_on = clean(ev(on, state))
                if any(l not in (0, 1) for l in leaves(go_on)):
                    raise Giveup("no condition to go round")
                if go_on == 0:
                    return state
                new = [ev(s, state) for s in stp]
                if go_on != 1:
                    saved = self.care
                    self.care = BDD.AND(saved, go_on)
                    try:
                        rest = go([BDD.restrict(x, go_on) for x in new], end, left)
                    finally:
                        self.care = saved
                    return [ite(go_on, x, y) for x, y in zip(rest, state)]
                state = new
            raise Giveup("too many rounds")
        return go(state, None, 200)

    def group(self, lay, c, state, go, mus, kc):
        """one generic round of a repeated group of lines; None when the loop
        does not take these lines"""
        n = len(state)
        it, cases = lay.groups[c]
        results = []
        saved = self.care
        stuck = 0
        left = 0
        for cond, b, e in cases:
            if BDD.AND(cond, saved) == 0:
                continue
            self.care = BDD.AND(cond, saved)
            try:
                moving = set()
                while True:
                    cur = [K(b) if i == kc else K(mus[i]) if i in moving else BDD.restrict(state[i], cond) for i in range(n)]
                    new = go(cur, e, 60)
                    end = leafof(new[kc])
                    if end != e:
                        # some lines that are written make the loop end
                        good = BDD.AND(indicator(new[kc], {K(e)}), self.care) if end is None else 0
                        bad = BDD.AND(self.care, BDD.NOT(good))
                        stuck = BDD.OR(stuck, exists(it.L, it.idx, bad))
                        if good == 0:
                            left += end == b
                            new = None
                            break
                        self.care = good
                        new = [BDD.restrict(x, good) for x in new]
                    more = {i for i in range(n) if i != kc and i not in moving and new[i] != cur[i]}
                    if not more:
                        break
                    moving |= more
                if new is not None:
                    results.append((self.care, moving, new))
            finally:
                self.care = saved
        if not results and left:
            return None
        out = list(state)
        out[kc] = K(c + 1)
        for i in set().union(*[m for _, m, _ in results]):
            parts = []
            kind = None
            count = []
            for care, moving, new in results:
                if i not in moving:
                    parts.append((care, ()))
                    count.append(0)
                    continue
                x = leafof(new[i])
                if isinstance(x, Lin) and x.ts == ((mus[i], 1),):
                    count.append(x.c)
                    continue
                if not (isT(x, "cat") and x.args[1:] and x.args[1] == ("sp", mus[i])):
                    raise Giveup("a repeated line changes %s" % render(new[i])[:200])
                parts.append((care, x.args[2:]))
                kind = x.args[0]
            if len(count) == len(results) and len(set(count)) == 1:
                out[i] = add(state[i], scale(length(it.L), count[0]))
                continue
            if kind is None:
                raise Giveup("a repeated line counts")
            if len(parts) == 1:
                body = parts[0][1]
            elif all(len(ps) == 1 and ps[0][0] == "el" for _, ps in parts):
                v = BOT
                for care, ps in parts:
                    v = BDD.ite(care, ps[0][1].n, v)
                body = (("el", Node(merge(clean(v)))),)
            else:
                body = tuple(("opt", Node(care), tuple(ps)) for care, ps in parts if ps)
            out[i] = append(state[i], kind, [("rep", Node(it.L), it.idx, tuple(body))])
        if stuck != 0:
            out = [x if i == kc else ite(stuck, K(mk("stuck", c)), x) for i, x in enumerate(out)]
        return out


def piece_terms(p):
    return terms_in(K(mk("cat", "l", p)), lambda t: True)


def leafof_idx(v):
    x = leafof(v)
    if isT(x, "elem"):
        return leafof(x.args[1].n)
    raise Undecided("walk without index")
