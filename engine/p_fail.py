"""C10: every failure is reported.

Part one is a typestate analysis of each function of the library: a value of
type Result starts out unexamined; examining it splits the state into success
and failure; a failure is discharged when the function returns an error, and
nowhere else.  Dropping an unexamined result, converting it to a default or
leaving the function with anything but an error while a failure is pending is a
violation at the call that failed.

Part two decides, on the summaries of the functions that touch files, that
success is returned only when the complete data was handed over."""
import re

import vg
from vg import *
from prims import OPT, RES
from report import Report
from effects import Spec, KP, none
from p_lookup import one, var
import p_sexp

KEEP = {"map_err", "map", "and_then", "and", "inspect", "inspect_err", "copied", "cloned", "as_ref", "as_mut", "as_deref", "as_deref_mut"}
LOSE = {"unwrap_or", "unwrap_or_else", "unwrap_or_default", "map_or", "map_or_else", "or", "or_else", "iter", "into_iter", "iter_mut", "is_some_and",
        "is_ok_and", "is_err_and", "unwrap_unchecked", "flatten", "err"}
STRICT = {"unwrap", "expect", "unwrap_err", "expect_err", "into_ok"}
LIMIT = 400


class Fail(object):
    def __init__(self, P):
        self.P = P
        self.always_err = set()
        self.inputs = {}
        self._defs = {}

    def root(self, fn, op):
        """the variable an operand is or points to"""
        if op[0] not in ("move", "copy"):
            return None
        defs = self._defs.get(fn.key)
        if defs is None:
            defs = self._defs[fn.key] = {}
            for b in fn.blocks:
                for st in b["s"]:
                    if st[0] == "=" and not st[1][1]:
                        defs.setdefault(st[1][0], []).append(st[2])
                t = b["t"]
                if t[0] == "call" and not t[3][1]:
                    defs.setdefault(t[3][0], []).append(("call", t))
        l, proj = op[1]
        for n in range(20):
            if any(p[0] != "deref" for p in proj):
                return None
            d = defs.get(l, [])
            if len(d) != 1:
                return l
            d = d[0]
            if d[0] == "use" and d[1][0] in ("move", "copy"):
                nl, proj = d[1][1]
            elif d[0] == "ref":
                nl, proj = d[1]
            elif d[0] == "call" and d[1][1][0] == "fn" and (d[1][1][2] or "").split("::")[-1] in ("deref", "as_str", "as_ref", "borrow") and d[1][2][0][0] in ("move", "copy"):
                nl, proj = d[1][2][0][1]
            else:
                return l
            if any(p[0] != "deref" for p in proj):
                return l
            l = nl
        return None

    def result(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and t["name"] == RES

    def kind(self, ty):
        t = self.P.types[ty]
        if t["k"] == "adt":
            if t["name"] == RES:
                return "res"
            if t["name"] == OPT:
                return "opt"
            if t["name"].endswith("ControlFlow"):
                return "cf"
        return None

    def run(self, fn, exempt=()):
        """({site: why}, {site: why undecided}, kinds of returned values, sites)"""
        P = self.P
        viol, und, rets, sites = {}, {}, set(), set()
        start = (frozenset(), frozenset(), frozenset())
        seen = {}
        work = [(0, start)]
        first = True
        while work:
            b, s = work.pop()
            ss = seen.setdefault(b, set())
            if s in ss:
                continue
            ss.add(s)
            if len(ss) > LIMIT:
                und["too many states"] = "too many states"
                break
            for nb, ns in self.block(fn, b, s, viol, und, rets, sites, exempt):
                work.append((nb, ns))
        return viol, und, rets, sites

    def block(self, fn, b, s, viol, und, rets, sites, exempt):
        P = self.P
        vals = dict(s[0])
        pend = set(s[1])
        un = set(s[2])
        blk = fn.blocks[b]

        def carried(site, but=None):
            return any(t[1] == site for l, t in vals.items() if l != but and t[0] in ("res", "opt", "cf") and len(t) > 1)

        def gone(l, why):
            t = vals.pop(l, None)
            if t is not None and t[0] in ("res", "opt", "cf") and t[1] in un:
                if not carried(t[1]):
                    un.discard(t[1])
                    viol.setdefault(t[1], why)

        def place(p):
            l, proj = p
            if not proj:
                return l
            if proj == [["deref"]]:
                t = vals.get(l)
                if t and t[0] == "ref":
                    return t[1]
            return None

        def take(op):
            """tag of an operand; a moved local loses it"""
            if op[0] not in ("move", "copy"):
                return None
            l, proj = op[1]
            if proj:
                return None
            t = vals.get(l)
            if op[0] == "move" and t is not None:
                del vals[l]
            return t

        def escape(t, why):
            if t and t[0] in ("res", "opt", "cf") and t[1] in un:
                un.discard(t[1])
                und.setdefault(t[1], why)

        for st in blk["s"]:
            if st[0] == "dead":
                gone(st[1], "the result is never examined")
            elif st[0] == "=":
                dst, rv = st[1], st[2]
                whole = not dst[1]
                new = None
                if rv[0] == "use":
                    new = take(rv[1])
                elif rv[0] == "ref":
                    l, proj = rv[1]
                    if not proj and l in vals and vals[l][0] != "ref":
                        new = ("ref", l)
                    elif proj == [["deref"]] and vals.get(l, ("",))[0] == "ref":
                        new = vals[l]
                elif rv[0] == "discr":
                    l = place(rv[1])
                    t = vals.get(l)
                    if t and t[0] in ("res", "opt", "cf"):
                        new = ("disc", t[0], t[1], l)
                    elif t and t[0] in ("err", "fine"):
                        new = ("const", t[1])
                elif rv[0] == "agg":
                    ts = [take(o) for o in rv[2]]
                    k = rv[1]
                    if k[0] == "adt" and self.result(k[1]):
                        new = ("err", 1) if k[2] == 1 else ("fine", 0)
                    for t in ts:
                        escape(t, "the result becomes part of another value")
                elif rv[0] == "cast":
                    for o in rv[1:]:
                        if isinstance(o, list) and o and o[0] in ("move", "copy"):
                            escape(take(o), "the result is converted")
                elif rv[0] == "un" and len(rv) > 2 and isinstance(rv[2], list) and rv[2] and rv[2][0] in ("move", "copy"):
                    t = take(rv[2])
                    if t and t[0] == "bool":
                        new = ("bool", t[1], 1 - t[2], t[3])
                if whole:
                    gone(dst[0], "the result is overwritten before it is examined")
                    if new is not None:
                        vals[dst[0]] = new
                else:
                    escape(new, "the result is stored")

        def out(nb):
            return (nb, (frozenset(vals.items()), frozenset(pend), frozenset(un)))

        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [out(t[1])]
        if k == "drop":
            l, proj = t[1]
            if not proj:
                gone(l, "the result is dropped without being examined")
            return [out(t[2])]
        if k == "assert":
            return [out(t[4])]
        if k == "switch":
            tag = take(t[1])
            edges = [(int(v), tb) for v, tb in t[2]]
            if tag is None:
                return [out(tb) for _, tb in edges] + [out(t[3])]
            if tag[0] == "const":
                for v, tb in edges:
                    if v == tag[1]:
                        return [out(tb)]
                return [out(t[3])]
            if tag[0] == "disc":
                bad = 0 if tag[1] == "opt" else 1
                site, l = tag[2], tag[3]
            elif tag[0] == "bool":
                bad = tag[2]
                site, l = tag[1], tag[3]
            else:
                return [out(tb) for _, tb in edges] + [out(t[3])]
            res = []
            done = set()
            for v, tb in edges + [(None, t[3])]:
                if v is None:
                    left = [x for x in (0, 1) if x not in done]
                    if not left or fn.blocks[tb]["t"][0] == "unreachable":
                        continue
                else:
                    left = [v]
                    done.add(v)
                for x in left:
                    sv = dict(vals)
                    sp, su = set(pend), set(un)
                    su.discard(site)
                    knd = sv.get(l, ("",))[0]
                    for q, tq in list(sv.items()):
                        if tq[0] in ("res", "opt", "cf") and tq[1] == site:
                            if x == bad:
                                sv[q] = ("err", 1) if tq[0] != "opt" else ("none", 0)
                            else:
                                sv[q] = ("fine", 0) if tq[0] != "opt" else ("some", 1)
                    if x == bad and site not in exempt:
                        sp.add(site)
                    res.append((tb, (frozenset(sv.items()), frozenset(sp), frozenset(su))))
            return res
        if k == "return":
            r = vals.get(0)
            rk = r[0] if r else None
            rets.add("err" if rk == "err" else "other")
            if rk in ("res", "cf", "opt"):
                un.discard(r[1])
            for x in sorted(un):
                if not carried(x, 0):
                    continue
                viol.setdefault(x, "the function returns without examining the result")
            for x in sorted(pend):
                if rk != "err":
                    viol.setdefault(x, "the function goes on and returns something else than an error after the call failed")
            return []
        if k != "call":
            return []
        callee, args, dst, nb = t[1], t[2], t[3], t[4]
        tags = [take(a) for a in args]
        key = callee[1] if callee[0] == "fn" else None
        info = P.insts.get(key) if key else None
        path = (info["path"] if info else None) or (callee[2] if len(callee) > 2 else "?") or "?"
        decl = callee[2] if len(callee) > 2 else path
        last = path.split("::")[-1]
        dlast = (decl or "").split("::")[-1]
        isres = "result::Result" in path or "result::Result" in (decl or "")
        isopt = "option::Option" in path or "option::Option" in (decl or "")
        retty = fn.locals[dst[0]] if not dst[1] else None
        new = None
        a0 = tags[0] if tags else None
        through = a0
        if a0 and a0[0] == "ref":
            through = vals.get(a0[1])
        where = "%s#%s" % (decl if decl and not decl.startswith("std::ops::Fn") else path, "")
        handled = False
        if through and through[0] in ("res", "opt", "cf", "err", "fine", "none", "some"):
            tt = through
            site = tt[1] if tt[0] in ("res", "opt", "cf") else None
            if dlast == "branch":
                handled = True
                new = ("cf", site) if site is not None else tt
                if tt[0] == "none":
                    new = ("err", 1)
                elif tt[0] == "some":
                    new = ("fine", 0)
            elif (isres or isopt) and last in KEEP:
                handled = True
                new = tt
            elif (isres and last == "ok"):
                handled = True
                new = ("opt", site) if site is not None else {"err": ("none", 0), "fine": ("some", 1)}.get(tt[0])
            elif isopt and last in ("ok_or", "ok_or_else"):
                handled = True
                new = ("res", site) if site is not None else {"none": ("err", 1), "some": ("fine", 0)}.get(tt[0])
            elif (isres or isopt) and last in ("is_ok", "is_some") and site is not None:
                handled = True
                new = ("bool", site, 0, a0[1] if a0[0] == "ref" else -1)
            elif (isres or isopt) and last in ("is_err", "is_none") and site is not None:
                handled = True
                new = ("bool", site, 1, a0[1] if a0[0] == "ref" else -1)
            elif (isres or isopt) and last in LOSE:
                handled = True
                if site is not None and site in un and site not in exempt:
                    un.discard(site)
                    viol.setdefault(site, "the failure is replaced by another value (%s)" % last)
            elif (isres or isopt) and last in STRICT:
                handled = True
                un.discard(site)
            elif dlast in ("clone",):
                handled = True
                new = tt
        if not handled:
            for tg in tags:
                if tg and tg[0] != "ref":
                    escape(tg, "the result is passed to %s" % path)
        if pend and (retty is not None and self.result(retty) or dlast in ("clone", "to_owned", "to_string", "push", "into", "from")):
            # the input that was rejected is read in another way, or kept as it is
            rs = [self.root(fn, x) for x in args]
            for p in list(pend):
                r = self.inputs.get((fn.key, p))
                if r is not None and r in rs:
                    pend.discard(p)
        if dlast == "from_residual":
            # None or Err, by the type that is returned
            new = ("err", 1)
        elif key in self.always_err:
            new = ("err", 1)
        elif new is None and retty is not None and self.result(retty) and not handled and nb >= 0:
            site = (where[:-1], b)
            sites.add(site)
            if len(args) == 1:
                self.inputs[fn.key, site] = self.root(fn, args[0])
            un.add(site)
            new = ("res", site)
        if nb < 0:
            return []
        if not dst[1]:
            gone(dst[0], "the result is overwritten before it is examined")
            if new is not None:
                vals[dst[0]] = new
        else:
            escape(new, "the result is stored")
        return [out(nb)]


# -- what is handed over ---------------------------------------------------------------
def text_of(fl, n):
    """the text a formatting argument stands for"""
    from flow import Ctx
    from prims import emit_fmt, EMPTY
    x = leafof(n)
    if not (isT(x, "fmtargs") or isT(x, "fmtlit")):
        return n
    c = Ctx()
    c.fl, c.st, c.g, c.info, c.key, c.decl, c.gargs, c.retty, c.argtys, c.line = fl, {}, 1, None, None, None, [], None, [], 0
    cell = fl.new_cell(c.st, EMPTY["s"])
    emit_fmt(c, K(Ptr(cell, ())), n)
    return c.st[cell]


def calls_in(n, *parts):
    return terms_in(n, lambda t: t.op == "call" and any(p in t.args[0] for p in parts))


def written(fl, v, path, data, what, emit):
    """success means that exactly the data was written to a file made at the path"""
    good = is_variant(v, 0, 2)
    if good == 0:
        emit(what + " can succeed", "violation", "%s never succeeds" % what)
        return
    chunks = []
    part, buffered, flushed = None, False, False
    where = []
    for kind, g, d, fn, loops in fl.log:
        if kind == "io":
            name, t = d.args[0], d
            if name == "write":
                part = fn
                continue
            w, b = t.args[1].n, t.args[2].n
        elif kind == "call":
            name, t = d
            last = name.split("::")[-1]
            if name.startswith("std::fs::write::") or name == "std::fs::write":
                w, b = None, t.args[2].n
                where.append(t.args[1].n)
            elif last in ("write_fmt", "write_all") and "io::" in name:
                w, b = t.args[1].n, t.args[2].n
            elif last in ("flush", "into_inner", "sync_all", "sync_data", "finish"):
                if BDD.AND(good, BDD.NOT(g)) == 0:
                    flushed = True
                continue
            elif last in ("write", "write_vectored") and "io::" in name:
                part = fn
                continue
            elif last == "set_len" or "OpenOptions" in name or "seek" in last:
                emit(what, "undecided", "uses %s" % name)
                return
            else:
                continue
        else:
            continue
        if loops and any(loops):
            emit(what, "undecided", "writes in a loop")
            return
        if w is not None:
            if calls_in(w, "BufWriter", "LineWriter"):
                buffered = True
            made = calls_in(w, "fs::File::create", "fs::File::open", "fs::File::options")
            where += [c.args[1].n for c in made if "create" in c.args[0]]
            if not made:
                emit(what, "undecided", "writes to something that is not a created file")
                return
        chunks.append((g, K(t), text_of(fl, b)))
    if part is not None:
        emit(what, "violation", "%s: a single write may hand over a part of the data only (in %s)" % (what, part))
        return
    if buffered and not flushed:
        emit(what, "violation", "%s: the data stays in a buffer whose last failure is not seen" % what)
        return
    if not chunks:
        emit(what, "violation", "%s succeeds without writing" % what)
        return
    allg = 1
    acc = lit("")
    for g, t, b in chunks:
        allg = BDD.AND(allg, BDD.AND(g, is_variant(t, 0, 2)))
        acc = concat("s", acc, b)
    c = BDD.OR(BDD.NOT(good), allg)
    emit(what + " only after writing", "ok" if c == 1 else "violation", "%s: success although writing failed or was left out" % what)
    same_data = same(BDD.restrict(acc, good), BDD.restrict(data, good))
    one(emit, what + " writes the data", same_data, "the data written by " + what)
    for w in where:
        one(emit, what + " writes to the path", same(w, path), "the file written by " + what)


# -- reading ---------------------------------------------------------------------------
def io_call(n):
    return n.startswith("std::fs::") or " as std::io::" in n or n.startswith("std::io::")


def contents(v, path):
    """terms in v that are the whole text of the file at the path, and the condition that reading it works"""
    out = []
    for t in terms_in(v, lambda t: t.op == "after" and t.args[1] == 1 and isT(t.args[0], "call") and t.args[0].args[0].endswith("read_to_string")):
        c = t.args[0]
        f = c.args[1].n
        o = leafof(f)
        if isT(o, "fld") and isT(o.args[0], "call") and "fs::File::open" in o.args[0].args[0] and same(o.args[0].args[1].n, path) == 1 \
                and same(c.args[2].n, lit("")) == 1:
            out.append((t, BDD.AND(is_variant(K(o.args[0]), 0, 2), is_variant(K(c), 0, 2))))
    for t in terms_in(v, lambda t: t.op == "call" and t.args[0].startswith("std::fs::read_to_string")):
        if same(t.args[1].n, path) == 1:
            x = leafof(fld(K(t), 0, 0, (RES, 1)))
            out.append((x, is_variant(K(t), 0, 2)))
    return out


KINDS = [("Module", "footprint::parse", "f_read_module"), ("Schematic", "schematic::parse", "f_read_schematic"), ("Layout", "layout::parse", "f_read_layout"),
         ("SymbolLib", "symbol_lib::parse_str", "f_read_symbol_lib"), ("Project", "project::parse_str", "f_read_project"),
         ("FpLibTable", "fp_lib_table::parse", "f_read_fp_lib_table")]


def dispatch(R, P):
    """C11"""
    S = Spec(P)
    names = set(KP + x[1] for x in KINDS)
    KF, EX = "KicadFile", "Expected"

    def prepare(name):
        key = P.root(name)
        fl, g, cells, v = S.run(key, stop=lambda i: i["path"] in names)
        R.functions.update(fl.entered if hasattr(fl, "entered") else ())
        for t in terms_in(v, lambda t: t.op == "call" and io_call(t.args[0])):
            p_sexp.TRUSTED.add(t.args[0])
        p_sexp.TRUSTED.update(names)
        return fl, g, v

    def parts(v):
        a = var("a")
        cs = contents(v, a)
        if not cs:
            raise Undecided("the contents of the file are not recognised")
        text, readable = cs[0]
        calls = {}
        for kind, fn, _ in KINDS:
            if fn == "schematic::parse":
                calls[kind] = K(mk("call", KP + fn, Node(some(a)), Node(K(text))))
            else:
                calls[kind] = K(mk("call", KP + fn, Node(K(text))))
        return a, K(text), readable, calls

    def arms(v):
        """(condition, kind, payload) of the successful outcomes"""
        good = is_variant(v, 0, 2)
        x = fld(v, 0, 0, (RES, 1))
        out = []
        for kind in S.cases_of(KF) if hasattr(S, "cases_of") else [y["name"] for y in S.infos[KP + KF]["variants"]]:
            c = BDD.AND(good, S.is_(KF, x, kind))
            if c != 0:
                out.append((c, kind, S.payload(KF, x, kind)))
        return out

    def any_kind(emit):
        fl, g, v = prepare("f_read_any")
        one(emit, "read_kicad_file returns", g, "read_kicad_file returns")
        a, text, readable, calls = parts(v)
        b = var("b")
        acc = dict((k, is_variant(c, 0, 2)) for k, c in calls.items())
        nobody = 1
        for c in acc.values():
            nobody = BDD.AND(nobody, BDD.NOT(c))
        for c, kind, x in arms(v):
            if kind == "Unknown":
                one(emit, "unknown only when rejected", BDD.OR(BDD.NOT(c), BDD.AND(nobody, readable)), "answering unknown")
                one(emit, "unknown carries the path", BDD.OR(BDD.NOT(c), same_where(x, a, c)), "the path of an unknown file")
                asked = BDD.NOT(S.is_(EX, b, "Any"))
                one(emit, "unknown only when anything is expected", BDD.OR(BDD.NOT(c), BDD.NOT(asked)), "answering unknown although a kind is expected")
                continue
            if kind not in calls:
                emit("kind " + kind, "undecided", "a kind without a known parser")
                continue
            one(emit, kind + " only when accepted", BDD.OR(BDD.NOT(c), BDD.AND(acc[kind], readable)), "answering %s" % kind)
            want = fld(calls[kind], 0, 0, (RES, 1))
            one(emit, kind + " carries what was parsed", BDD.OR(BDD.NOT(c), same_where(x, want, c)), "what a file of kind %s carries" % kind)
        bad = is_variant(v, 1, 2)
        why = BDD.NOT(readable)
        for kind, _, _ in KINDS:
            why = BDD.OR(why, BDD.AND(S.is_(EX, b, kind), BDD.NOT(acc[kind])))
        one(emit, "fails only when unreadable or rejected", BDD.OR(BDD.NOT(bad), why), "failing")
        one(emit, "unreadable files fail", BDD.OR(readable, bad), "reading a file that cannot be read")
        for kind, _, _ in KINDS:
            got = 0
            for c, k2, x in arms(v):
                if k2 == kind:
                    got = BDD.OR(got, c)
            only = BDD.AND(readable, acc[kind])
            for k2 in acc:
                if k2 != kind:
                    only = BDD.AND(only, BDD.NOT(acc[k2]))
            for e in [kind, "Any"]:
                one(emit, "%s recognised when %s is expected" % (kind, e), BDD.OR(BDD.NOT(BDD.AND(only, S.is_(EX, b, e))), got), "recognising a file that is only a %s" % kind)
    R.many("read_kicad_file", any_kind)

    def one_kind(kind, fn, root):
        def go(emit):
            fl, g, v = prepare(root)
            one(emit, root + " returns", g, root + " returns")
            a, text, readable, calls = parts(v)
            acc = dict((k, is_variant(c, 0, 2)) for k, c in calls.items())
            good = is_variant(v, 0, 2)
            one(emit, "%s only when accepted" % root, BDD.OR(BDD.NOT(good), BDD.AND(readable, acc[kind])), "returning a %s" % kind)
            x = fld(v, 0, 0, (RES, 1))
            want = fld(calls[kind], 0, 0, (RES, 1))
            one(emit, "%s returns what was parsed" % root, BDD.OR(BDD.NOT(good), same_where(x, want, good)), "the %s that is returned" % kind)
            only = BDD.AND(readable, acc[kind])
            for k2 in acc:
                if k2 != kind:
                    only = BDD.AND(only, BDD.NOT(acc[k2]))
            one(emit, "%s accepts its kind" % root, BDD.OR(BDD.NOT(only), good), "reading a file that is only a %s" % kind)
        R.many(root, go)
    for kind, fn, root in KINDS:
        one_kind(kind, fn, root)
    for kind, fn, root in KINDS + [("", "", "f_read_any")]:
        R.functions.add(P.root(root))
    R.floor("kinds", len(KINDS), 6)
    R.floor("parsers found", len(set(i["path"] for i in P.insts.values() if i["path"] in names)), 6)


def same_where(a, b, care):
    return same(BDD.restrict(a, care), BDD.restrict(b, care))


TECH10 = ("Typestate analysis of every function of the library over the compiler's MIR: each value of type Result is unexamined, successful or "
          "failed; a failure is discharged only by returning an error (or by handing the same input to an alternative), and dropping, "
          "defaulting or ignoring one is a violation at that call. For the functions that read and write files the dataflow summary is compared "
          "with the required one: the text returned is the whole contents, success implies that exactly the given data was written to the given path.")
TECH11 = ("The gated dataflow summary of read_kicad_file and of the six read functions, with the parsers left uninterpreted, is a decision table over "
          "(file readable, which parsers accept, expected kind); every row is compared with the specified outcome for all combinations at once.")


def check(prop, P):
    # texts that are changed on the way are not the text
    p_sexp.KNOWN |= {"str_trim", "str_trim_start", "str_trim_end", "str_trim_left", "str_trim_right", "str_replace", "str_repeat"}
    if prop == "C11":
        R = Report(prop, TECH11)
        R.assumptions = ["a parser applied to the same text gives the same outcome (C22)", "errors are not told apart, only their presence"]
        dispatch(R, P)
        return R.finish()
    R = Report(prop, TECH10)
    typestate(R, P)
    S = Spec(P)
    outs = {"f_write_layout": (KP + "layout::layout_to_string", "layout"), "f_write_module": (KP + "footprint::module_to_string", "module")}
    names = set(x[0] for x in outs.values())

    def wf(emit):
        fl, g, cells, v = S.run(P.root("f_write_file"))
        trust(v)
        written(fl, v, var("a"), var("b"), "write_file", emit)
    R.many("write_file", wf)
    for root, (printer, what) in sorted(outs.items()):
        def wl(emit, root=root, printer=printer):
            fl, g, cells, v = S.run(P.root(root), stop=lambda i: i["path"] in names)
            trust(v)
            p_sexp.TRUSTED.update(names)
            calls = terms_in(v, lambda t: t.op == "call" and t.args[0] == printer)
            if len(calls) != 1 or same(calls[0].args[1].n, var("a")) != 1:
                emit(root + " prints the value", "violation" if len(calls) < 2 else "undecided", "%s does not print the value it is given" % root)
                return
            written(fl, v, var("b"), fld(K(calls[0]), 0, 0, (RES, 1)), root, emit)
        R.many(root, wl)

    def rf(emit):
        fl, g, cells, v = S.run(P.root("f_read_file"))
        trust(v)
        cs = contents(v, var("a"))
        good = is_variant(v, 0, 2)
        if not cs:
            emit("read_file", "violation" if not terms_in(v, lambda t: t.op == "call") else "undecided", "the whole contents are not recognised")
            return
        t, c = cs[0]
        one(emit, "read_file only when read", BDD.OR(BDD.NOT(good), c), "success of read_file")
        one(emit, "read_file returns the contents", BDD.OR(BDD.NOT(good), same_where(fld(v, 0, 0, (RES, 1)), K(t), good)), "the text returned by read_file")
    R.many("read_file", rf)
    R.assumptions = ["functions of the standard library report their failures in their results",
                     "ordering keys (reference_ord) are no operation that can fail"]
    return R.finish()


def trust(v):
    for t in terms_in(v, lambda t: t.op == "call" and io_call(t.args[0])):
        p_sexp.TRUSTED.add(t.args[0])


def typestate(R, P):
    from p_pure import graph
    succ, _ = graph(P)
    F = Fail(P)

    def reach(st):
        seen = set()
        while st:
            k = st.pop()
            if k not in seen:
                seen.add(k)
                st += list(succ[k])
        return seen
    keys = reach([k for n, k in P.roots.items() if n.endswith("ref_ord")]) - reach([k for n, k in P.roots.items() if not n.endswith("ref_ord")])
    live = set(P.raw) - keys
    fns = [(k, P.fn(k)) for k in sorted(live) if P.insts[k]["crate"] == "kicad_parse_gen" and P.fn(k) is not None]
    kf = KP + "KicadFile"
    for rnd in range(4):
        n = len(F.always_err)
        for k, fn in fns:
            if F.result(fn.locals[0]) and F.run(fn)[2] == {"err"}:
                F.always_err.add(k)
        if len(F.always_err) == n:
            break
    total, ret = 0, 0
    for k, fn in fns:
        name = P.insts[k]["name"].replace(KP, "")
        viol, und, rets, sites = F.run(fn)
        total += len(sites)
        R.functions.add(name)
        # which parser accepts a file of unknown kind is C11
        t = P.types[fn.locals[0]]
        tries = t.get("name") == RES and kf in P.tyname(fn.locals[0])
        for (c, b) in sorted(sites):
            key = "%s: %s" % (name, c.replace(KP, ""))
            w = viol.get((c, b))
            if w and tries and c in set(KP + x[1] for x in KINDS):
                w = None
            if w:
                blk = fn.blocks[b]["t"]
                R.add(key, "violation", "%s: a failure of %s is not reported: %s (%s:%s)" % (name, c, w, blk[6], blk[5]))
            elif (c, b) in und:
                R.add(key, "undecided", und[(c, b)])
            else:
                R.add(key, "ok")
        if "too many states" in und:
            R.add(name, "undecided", "too many states")
    R.floor("fallible calls", total, 700)
    R.floor("functions that always fail", len(F.always_err), 5)
