"""C12: pretty-printing adds only whitespace.

Everything the formatter writes is found in the summaries of its operations:
whatever the state of the formatter is, opening a list writes one "(" and
closing it one ")", everything else is blank, and a blank precedes every text
that is not the first element.  The printing functions return what the
serializer gives for the value's own S-expression and may add blanks only."""
import re

import vg
from vg import *
from flow import Flow
from prims import OPT, RES
from report import Report
from p_panic import short, FORMAT

FORMATTER = re.compile(r"^<(.*) as symbolic_expressions::formatter::Formatter>::(open|element|close)(::<.*>)?$")
SER = re.compile(r"^symbolic_expressions::ser::\w+(::<.*>)?$")
INTO = re.compile(r"(IntoSexp|Into<kicad_parse_gen::Sexp>|IntoSexp for .*)>::into(_sexp)?$")
BLANK = set(b" \n\t\r")


class Out(object):
    """the bytes an operation can write"""

    def __init__(self, P, fields):
        self.P = P
        self.fields = fields

    def text(self, n):
        """list of (guard, bytes) or None"""
        out = []
        for l in leaves(n):
            b = self.leaf(BDD.leaf[l])
            if b is None:
                return None
            if b is not BOTT:
                out.append((indicator(n, {l}), b))
        return out

    def leaf(self, x):
        if x is BOTT:
            return BOTT
        if isT(x, "bytes"):
            return bytes(x.args[0])
        if isT(x, "str"):
            return x.args[0].encode()
        if isT(x, "cat"):
            r = b""
            for p in x.args[1:]:
                if p[0] == "lit":
                    r += p[1].encode()
                elif p[0] == "el" and isinstance(leafof(p[1].n), int):
                    r += bytes([leafof(p[1].n) & 255]) if x.args[0] == "l" else chr(leafof(p[1].n)).encode()
                elif p[0] == "sp":
                    b = self.leaf(p[1])
                    if b is None or b is BOTT:
                        return None
                    r += b
                elif p[0] == "rep":
                    b = self.leaf(mk("cat", x.args[0], *p[3]))
                    if b is None or b is BOTT or set(b) - BLANK:
                        return None
                    r += b
                else:
                    return None
            return r
        if isT(x, "fld") and x in self.fields:
            return self.fields[x]
        return None


def made(P, F, emit):
    """what the byte fields of the formatter hold: constant and set where it is made"""
    ty = None
    for k, i in P.insts.items():
        m = FORMATTER.match(i["name"])
        if m and i["crate"] == "kicad_parse_gen":
            ty = m.group(1)
    for t in P.types:
        if isinstance(t, dict) and t.get("k") == "adt" and t["name"] == ty:
            break
    else:
        return {}
    names = [f[0] for f in t["variants"][0]["fields"]]
    vals = {}
    dirty = set()
    for k in sorted(P.raw, key=lambda k: P.insts[k]["name"]):
        if P.insts[k]["crate"] != "kicad_parse_gen":
            continue
        fn = P.fn(k)
        makes = False
        for b in fn.blocks:
            for s in b["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "agg" and rv[1][0] == "adt" and P.types[rv[1][1]].get("name") == ty:
                    makes = True
                places = [s[1]]
                if rv[0] in ("ref", "rawptr") and rv[2]:
                    places.append(rv[1])
                for pl in places:
                    for i in touched(P, fn, pl, ty):
                        dirty.add(i)
            if b["t"][0] == "call" and b["t"][3]:
                for i in touched(P, fn, b["t"][3], ty):
                    dirty.add(i)
        if makes:
            fl = Flow(P)
            g, st, v = fl.run_fn(k, [K(mk("var", "abcdefgh"[i])) for i in range(fn.argc)], 1, {})
            for i in range(len(names)):
                vals.setdefault(i, []).append(fld(v, 0, i, (ty, len(names))))
    out = {}
    plain = Out(P, {})
    for i, vs in vals.items():
        bs = {plain.leaf(leafof(v)) if leafof(v) is not None else None for v in vs}
        if i not in dirty and len(bs) == 1 and isinstance(list(bs)[0], bytes):
            out[i] = list(bs)[0]
    return {"ty": ty, "n": len(names), "bytes": out}


def touched(P, fn, pl, ty):
    """fields of the type that a place lies in"""
    cur = fn.locals[pl[0]]
    var = 0
    for p in pl[1]:
        t = P.types[cur]
        if p[0] == "deref":
            if t["k"] not in ("ref", "ptr"):
                return
            cur = t["to"]
        elif p[0] == "downcast":
            var = p[1]
            continue
        elif p[0] == "field":
            if t["k"] != "adt":
                if len(p) > 2:
                    cur = p[2]
                    continue
                return
            if t.get("name") == ty:
                yield p[1]
            cur = p[2] if len(p) > 2 else t["variants"][var]["fields"][p[1]][1]
        else:
            return
        var = 0


def run(P, key, stop=None):
    fl = Flow(P, stop)
    fl.counting = True
    fn = P.fn(key)
    st, args = {}, []
    for i in range(fn.argc):
        v = K(mk("var", "abcdefgh"[i]))
        t = P.types[fn.locals[1 + i]]
        if t["k"] == "ref" and t["mut"]:
            v = K(Ptr(fl.new_cell(st, v), ()))
        args.append(v)
    g, st, v = fl.run_fn(key, args, 1, st)
    return fl, g, st, v


def never_empty(L):
    x = leafof(L)
    if isT(x, "range"):
        a, b = leafof(x.args[0].n), leafof(x.args[1].n)
        return isinstance(a, int) and isinstance(b, int) and a < b
    return False


def once(L):
    x = leafof(L)
    if isT(x, "range"):
        a, b = leafof(x.args[0].n), leafof(x.args[1].n)
        return isinstance(a, int) and isinstance(b, int) and b - a == 1
    return False


def operation(P, key, what, F, emit):
    fl, g, st, v = run(P, key)
    name = short(P.insts[key]["name"])
    fields = {}
    if F:
        for i, b in F["bytes"].items():
            x = leafof(fld(K(mk("var", "a")), 0, i, (F["ty"], F["n"])))
            fields[x] = b
    O = Out(P, fields)
    fine = 1
    evs = []
    for kind, ge, data, where, loops in fl.log:
        if kind == "print":
            emit("%s: prints" % name, "undecided", "standard output")
            continue
        if kind != "io":
            emit("%s: %s" % (name, kind), "undecided", "an effect that is not a write")
            continue
        if data.args[0] != "write_all":
            emit("%s: %s" % (name, data.args[0]), "undecided", "may write a part only")
            continue
        fine = BDD.AND(fine, BDD.NOT(is_variant(K(data), 1, 2)))
        evs.append((ge, data.args[2].n, where, loops))
    paren = {"open": b"(", "close": b")", "element": b""}[what]
    one, blank, bad = [], 0, False
    clear = True
    for ge, n, where, loops in evs:
        ge = consistent(BDD.AND(ge, fine))
        if ge == 0:
            continue
        ts = O.text(n)
        if ts is None:
            clear = False
            lit = literal(n)
            if lit is not None and set(lit) - BLANK - set(paren):
                emit("%s: %s" % (name, short(where)), "violation", "writes %r together with data" % lit)
            else:
                emit("%s: %s" % (name, short(where)), "undecided", "writes %s" % render(n)[:200])
            continue
        for c, b in ts:
            c = consistent(BDD.AND(ge, c))
            if c == 0:
                continue
            if set(b) - BLANK - set(paren):
                bad = True
                emit("%s: %s" % (name, short(where)), "violation", "writes %r when %s" % (b, render(c)[:300]))
                continue
            k = sum(b.count(bytes([x])) for x in paren)
            if k:
                if [l for l in loops if l and not once(l[0] if isinstance(l, tuple) else l)]:
                    emit("%s: %s" % (name, short(where)), "undecided" if k == 1 else "violation", "writes %r in a loop" % b)
                    clear = False
                    continue
                one.append((c, k, where))
            if b and set(b) <= BLANK and all(not l or never_empty(l[0] if isinstance(l, tuple) else l) for l in loops):
                for l in loops:
                    if l and isinstance(l, tuple) and len(l) > 1:
                        c = drop(c, l[1])
                blank = BDD.OR(blank, c)
    done = BDD.AND(BDD.AND(g, fine), is_variant(v, 0, 2))
    if what in ("open", "close") and clear:
        tot = 0
        ok = True
        for c, k, where in one:
            two = c if k > 1 else consistent(BDD.AND(tot, c))
            if two != 0:
                ok = False
                emit("%s: %r once" % (name, paren.decode()), "violation", "written twice when %s" % render(two)[:400])
            tot = BDD.OR(tot, c)
        none = consistent(BDD.AND(done, BDD.NOT(tot)))
        if none != 0:
            ok = False
            emit("%s: %r once" % (name, paren.decode()), "violation", "not written when %s" % render(none)[:400])
        if ok:
            emit("%s: %r once" % (name, paren.decode()), "ok")
    if what == "element" and clear:
        text = is_variant(K(mk("var", "c")), 0, 3)
        none = consistent(BDD.AND(BDD.AND(done, text), BDD.NOT(blank)))
        emit("%s: separates texts" % name, "ok" if none == 0 else "violation", "" if none == 0 else "no blank before a text when %s" % render(none)[:400])
    if not bad:
        emit("%s: writes only blanks%s" % (name, " and %r" % paren.decode() if paren else ""), "ok" if clear else "undecided", "" if clear else "see above")
    return fl


def drop(c, idx):
    """the condition of the first round"""
    return subst(c, {idx: K(0)}) if isT(idx) else c


def literal(n):
    """constant text that is certainly part of what is written"""
    x = leafof(n)
    if isT(x, "cat"):
        return b"".join(p[1].encode() for p in x.args[1:] if p[0] == "lit")
    return None


def printer(P, key, emit):
    name = short(P.insts[key]["name"])

    def stop(info):
        return bool(SER.match(info["name"]) or INTO.search(info["name"]) or FORMAT.search(info["name"]))
    fl, g, st, v = run(P, key, stop)
    ok = is_variant(v, 0, 2)
    t = fld(v, 0, 0, (RES, 1))
    for l in leaves(BDD.restrict(t, ok) if ok not in (0, 1) else t):
        x = BDD.leaf[l]
        if x is BOTT:
            continue
        r = plain(x)
        if r is None:
            emit("%s: text" % name, "undecided", render(K(x))[:300])
            continue
        core, extra = r
        if set(extra) - BLANK:
            emit("%s: text" % name, "violation", "adds %r" % extra)
            continue
        a = leafof(core.args[0].args[1].n)
        if not (isT(a, "sx") and leafof(a.args[1].n) is mk("var", "a")):
            emit("%s: text" % name, "undecided", "prints %s" % render(core.args[0].args[1].n)[:200])
            continue
        emit("%s: text" % name, "ok")


def plain(x):
    """(serializer's text, what is added) or None"""
    if isT(x, "fld") and isT(x.args[0], "sexp") and x.args[0].args[0] == "print":
        return x, b""
    if isT(x, "cat"):
        core, extra = None, b""
        for p in x.args[1:]:
            if p[0] == "sp" and plain(p[1]) is not None and core is None:
                core, e = plain(p[1])
                extra += e
            elif p[0] == "lit":
                extra += p[1].encode()
            elif p[0] == "el" and isinstance(leafof(p[1].n), int):
                extra += chr(leafof(p[1].n)).encode()
            else:
                return None
        return (core, extra) if core is not None else None
    return None


def check(prop, P):
    R = Report(prop, "all writes of the formatter's operations with their conditions (gated value graph): one parenthesis for each list, otherwise blanks, "
                     "a blank before every text; the printing functions return the serializer's text of the value's own S-expression")
    ops = [(k, FORMATTER.match(i["name"]).group(2)) for k, i in sorted(P.insts.items(), key=lambda e: e[1]["name"])
           if i["crate"] == "kicad_parse_gen" and FORMATTER.match(i["name"]) and P.fn(k) is not None]
    F = made(P, None, None)
    R.functions |= {P.insts[k]["name"] for k, w in ops}
    for k, w in ops:
        R.many(w, lambda emit: operation(P, k, w, F, emit))
    calls = []
    for k in sorted(P.raw, key=lambda k: P.insts[k]["name"]):
        if P.insts[k]["crate"] == "kicad_parse_gen" and any(b["t"][0] == "call" and b["t"][1][0] == "fn" and SER.match(callee(P, b["t"][1])) for b in P.fn(k).blocks):
            calls.append(k)
    for k in calls:
        R.functions.add(P.insts[k]["name"])
        R.many(short(P.insts[k]["name"]), lambda emit: printer(P, k, emit))
    R.floor("operations of the formatter", len(ops), 3)
    R.floor("printing functions", len(calls), 3)
    return R.finish()


def callee(P, f):
    return P.insts[f[1]]["name"] if f[1] in P.insts else f[2]
