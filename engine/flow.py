"""Forward dataflow over the compiler's intermediate representation.

Every block of a body is visited once in topological order.  The state maps
abstract cells to values of the value graph (vg.py); at joins the values are
merged under the control condition of the incoming edges.  A loop body is
analysed with its loop-carried cells replaced by loop variables until the set
of carried cells is stable, and is then summarised (append, map, search, last
assignment, sum, or opaque).  No loop is unrolled and no path is enumerated.
Calls into the analysed crate are analysed in the context of the call;
everything else is described by prims.py or stays an opaque expression.
"""
import struct
from vg import *
import vg
from program import Program, region_order, reachable

USER = ("kicad_parse_gen", "probe")


class Ctx(object):
    """one call being modelled"""
    __slots__ = ("fl", "key", "info", "decl", "gargs", "retty", "st", "g", "argtys", "line")

    def load(self, p):
        return self.fl.deref(p, self.st)

    def store(self, p, v):
        self.fl.store(p, v, self.st, self.g)

    def val(self, v):
        """value behind pointers"""
        n = 0
        while any(isinstance(BDD.leaf[l], Ptr) for l in leaves(v)):
            v = self.fl.deref(v, self.st)
            n += 1
            if n > 10:
                raise Undecided("pointer chain")
        return v

    def call(self, f, args):
        """call a function value (closure, fn item, fn pointer)"""
        g, st, v = self.fl.call_value(f, args, self.g, self.st, None)
        self.g = g
        self.st = st
        return v

    def panic(self, bad, kind):
        b = BDD.AND(self.g, bad)
        if b != 0:
            self.fl.panic(b, kind, bad)
            self.g = BDD.AND(self.g, BDD.NOT(bad))


class Flow(object):
    def __init__(self, P, stop=None):
        self.P = P
        self.cells = 1
        self.log = []
        self.panics = []
        self.rounds = []          # loops: (function, list walked or None, inits, steps, continue condition, loop number)
        self.notes = []
        self.sexp_depth = 0
        self.stack = []
        self.loops = []
        self.drivers = {}
        self.stop = stop or (lambda info: False)
        self.blocks = 0
        self.inlined = set()
        self.limit = 400000
        self.ctxmemo = {}
        self.opaque = {}
        self.partial = {}         # operations that abort, with a function that records when
        self.counting = True      # give index-driven loops the list they walk
        import prims
        self.prims = prims
        nv = {}
        for t in P.types:
            if t["k"] == "adt":
                nv[t["name"]] = len(t["variants"])
                for vi, v in enumerate(t["variants"]):
                    NAMES.setdefault((t["name"], vi), v["name"] if t["kind"] == "enum" else "")
                    for fi, f in enumerate(v["fields"]):
                        NAMES[(t["name"], vi, fi)] = f[0]
        vg.VARIANTS = lambda name: nv.get(name, 1 if name == "()" or name.startswith("closure") else None)

    # -- logs ----------------------------------------------------------------
    def marks(self):
        return (len(self.log), len(self.panics), len(self.notes), len(self.rounds))

    def truncate(self, m):
        del self.log[m[0]:]
        del self.panics[m[1]:]
        del self.notes[m[2]:]
        del self.rounds[m[3]:]

    def site(self):
        return tuple(k for k in self.stack)

    def where(self):
        for k in reversed(self.stack):
            i = self.P.insts[k]
            if i["crate"] in USER:
                return i["name"]
        return self.P.insts[self.stack[-1]]["name"] if self.stack else "?"

    def event(self, kind, g, data):
        self.log.append((kind, g, data, self.where(), tuple(self.loops)))
        return len(self.log) - 1

    def panic(self, g, kind, bad=1):
        self.panics.append((g, kind, self.where(), tuple(self.P.insts[k]["name"] for k in self.stack), tuple(self.loops), bad))

    # -- types ----------------------------------------------------------------
    def boxy(self, ty):
        t = self.P.types[ty]
        return t["k"] == "adt" and t.get("box")

    def ctor(self, ty, variant=0):
        t = self.P.types[ty]
        k = t["k"]
        if k == "adt":
            if variant >= len(t["variants"]):
                return (t["name"], 0)
            return (t["name"], len(t["variants"][variant]["fields"]))
        if k == "tuple":
            return ("()", len(t["elems"]))
        if k == "closure":
            return ("closure:%d" % ty, len(t["upvars"]))
        return ("?" + k, 1)

    def place_ty(self, fn, place):
        ty = fn.locals[place[0]]
        for p in place[1]:
            ty = self.proj_ty(ty, p)
        return ty

    def proj_ty(self, ty, p):
        t = self.P.types[ty]
        if p[0] == "field":
            return p[2]
        if p[0] == "deref":
            if "to" in t:
                return t["to"]
            if t["k"] == "adt" and t.get("box"):
                a = [x for x in t["args"] if isinstance(x, int)]
                return a[0] if a else ty
            return ty
        if p[0] in ("index", "cindex"):
            return t.get("elem", ty)
        return ty

    # -- cells ----------------------------------------------------------------
    def alloc(self, n=1):
        c = self.cells
        self.cells += n
        return c

    def new_cell(self, st, v):
        c = self.alloc()
        st[c] = v
        return c

    def read_path(self, v, path):
        for s in path:
            if s[0] == "f":
                v = fld(v, s[1], s[2], s[3])
            else:
                v = elem(v, s[1].n)
        return v

    def write_path(self, v, path, new):
        if not path:
            return new
        s = path[0]
        rest = path[1:]
        if s[0] == "f":
            variant, i, info = s[1], s[2], s[3]

            def f(x):
                if isT(x, "agg"):
                    if x.args[1] != variant:
                        return K(x)
                    fs = fields_of(x)
                    while len(fs) <= i:
                        fs.append(BOT)
                    fs[i] = self.write_path(fs[i], rest, new)
                    return agg(x.args[0], variant, fs)
                if x is BOTT:
                    fs = [BOT] * max(info[1], i + 1)
                    fs[i] = self.write_path(BOT, rest, new)
                    return agg(info[0], variant, fs)
                if isinstance(x, T):
                    fs = [K(mk("fld", x, variant, j, info)) for j in range(max(info[1], i + 1))]
                    fs[i] = self.write_path(fs[i], rest, new)
                    r = agg(info[0], variant, fs)
                    nv = vg.VARIANTS(info[0])
                    if nv and nv > 1:
                        return ite(is_variant(K(x), variant, nv), r, K(x))
                    return r
                return BOT if rest else new
            return merge(BDD.map1(v, f))
        i = s[1].n

        def h(x):
            if x is BOTT:
                return BOT
            old = elem(K(x), i)
            nv = self.write_path(old, rest, new)
            if nv == old:
                return K(x)
            return upd(x, i, nv)
        return BDD.map1(v, h)

    def deref(self, p, st):
        """contents behind pointers; other leaves are shared references"""
        def f(x):
            if isinstance(x, Ptr):
                c = st.get(x.cell)
                if c is None:
                    return BOT
                return self.read_path(c, x.path)
            return K(x)
        if BDD.is_leaf(p):
            return f(BDD.leaf[p])
        return merge(clean(BDD.map1(p, f)))

    def store(self, p, v, st, g):
        if BDD.is_leaf(p):
            x = BDD.leaf[p]
            if isinstance(x, Ptr):
                st[x.cell] = self.write_path(st.get(x.cell, BOT), x.path, v)
                return
            self.notes.append(("store through unknown reference", self.where()))
            return
        for l in leaves(p):
            x = BDD.leaf[l]
            c = BDD.restrict(indicator(p, {l}), g)
            if isinstance(x, Ptr):
                old = self.read_path(st.get(x.cell, BOT), x.path)
                st[x.cell] = self.write_path(st.get(x.cell, BOT), x.path, ite(c, v, old))

    # -- places ---------------------------------------------------------------
    def read_place(self, fn, base, place, st):
        l, proj = place
        v = st.get(base + l, BOT)
        if not proj:
            return v
        ty = fn.locals[l]
        variant = 0
        for p in proj:
            k = p[0]
            if k == "deref":
                v = self.deref(v, st)
            elif k == "field":
                if not self.boxy(ty):
                    v = fld(v, variant, p[1], self.ctor(ty, variant))
            elif k == "index":
                v = elem(v, st.get(base + p[1], BOT))
            elif k == "cindex":
                if p[3]:
                    v = elem(v, sub(length(v), K(p[1])))
                else:
                    v = elem(v, K(p[1]))
            elif k == "subslice":
                v = sub_slice(v, p[1], p[2], p[3])
            if k == "downcast":
                variant = p[1]
            else:
                variant = 0
                ty = self.proj_ty(ty, p)
        return v

    def address(self, fn, base, place, st):
        """node of Ptr leaves for a place (None when it is behind a shared reference)"""
        l, proj = place
        ptr = K(Ptr(base + l, ()))
        ty = fn.locals[l]
        variant = 0
        for p in proj:
            k = p[0]
            if k == "deref":
                v = self.deref(ptr, st)
                if not (self.P.types[ty]["k"] == "adt"):
                    if any(isinstance(BDD.leaf[x], Ptr) for x in leaves(v)):
                        ptr = v
                    else:
                        # shared or opaque reference: keep the value itself in place
                        pass
            elif k == "field":
                if not self.boxy(ty):
                    info = self.ctor(ty, variant)
                    ptr = ptr_step(ptr, ("f", variant, p[1], info))
            elif k == "index":
                ptr = ptr_step(ptr, ("e", Node(st.get(base + p[1], BOT))))
            elif k == "cindex":
                ptr = ptr_step(ptr, ("e", Node(K(p[1]))))
            elif k == "subslice":
                pass
            if k == "downcast":
                variant = p[1]
            else:
                variant = 0
                ty = self.proj_ty(ty, p)
        return ptr

    def write_place(self, fn, base, place, v, st, g):
        l, proj = place
        if not proj:
            st[base + l] = v
            return
        self.store(self.address(fn, base, place, st), v, st, g)

    # -- operands ---------------------------------------------------------------
    def operand(self, fn, base, o, st):
        k = o[0]
        if k in ("copy", "move"):
            return self.read_place(fn, base, o[1], st)
        if k == "const":
            return self.const(o[1], o[2])
        return 0

    def const(self, ty, c):
        d = self.P.types[ty]
        k = c["c"]
        if k == "bits":
            return self.bits(ty, d, int(c["v"]))
        if k == "str":
            return lit(c["v"])
        if k == "ref":
            if isinstance(c.get("to"), dict):
                return self.const(d["to"], c["to"])
            return self.const(d["to"], c["v"])
        if k == "array":
            return K(cat("l", [("el", Node(self.const(d["elem"], x))) for x in c["v"]]))
        if k == "bytes":
            if isinstance(c["v"], str):
                return lit(c["v"])
            return K(mk("bytes", tuple(c["v"])))
        if k == "adt":
            if d["k"] == "tuple":
                return agg("()", 0, [self.const(t, x) for t, x in zip(d["elems"], c["v"])])
            if d["k"] == "closure":
                return agg("closure:%d" % ty, 0, [self.const(t, x) for t, x in zip(d["upvars"], c["v"])])
            vi = c.get("variant", 0)
            if d["name"] == "std::vec::Vec":
                return EMPTY["l"]
            if d["name"] == "std::string::String":
                return EMPTY["s"]
            fs = [self.const(ft, x) for (_, ft), x in zip(d["variants"][vi]["fields"], c["v"])]
            return agg(d["name"], vi, fs)
        if k == "fn":
            return K(mk("fn", c["inst"]))
        if k == "zst":
            return self.zst(ty)
        return K(mk("const", ty, repr(sorted(c.items(), key=lambda p: p[0]))))

    def zst(self, ty):
        d = self.P.types[ty]
        k = d["k"]
        if k == "fndef":
            return K(mk("fn", d["inst"]))
        if k == "tuple":
            return agg("()", 0, [self.zst(t) for t in d["elems"]])
        if k == "closure":
            return agg("closure:%d" % ty, 0, [self.zst(t) for t in d["upvars"]])
        if k == "array":
            return EMPTY["l"]
        if k == "adt" and d["variants"]:
            return agg(d["name"], 0, [self.zst(t) for _, t in d["variants"][0]["fields"]])
        return UNIT

    def bits(self, ty, d, v):
        k = d["k"]
        if k == "bool":
            return 1 if v else 0
        if k == "int":
            if d["signed"] and v >= 1 << (d["bits"] - 1):
                v -= 1 << d["bits"]
            return K(v)
        if k == "char":
            return K(v)
        if k == "float":
            x = struct.unpack("<d", struct.pack("<Q", v))[0]
            if x != x or x in (float("inf"), float("-inf")):
                return K(mk("fconst", str(x)))
            return fconst(Fraction(repr(x)))
        if k == "adt" and d["kind"] == "enum":
            for i, var in enumerate(d["variants"]):
                if int(var["discr"]) == v:
                    return agg(d["name"], i, [])
        return K(mk("addr", v))

    # -- rvalues -----------------------------------------------------------------
    def rvalue(self, fn, base, rv, st, g):
        k = rv[0]
        if k == "use":
            return self.operand(fn, base, rv[1], st)
        if k == "ref":
            if rv[2]:
                return self.address(fn, base, rv[1], st)
            return self.read_place(fn, base, rv[1], st)
        if k == "agg":
            kind = rv[1]
            ops = [self.operand(fn, base, o, st) for o in rv[2]]
            if kind[0] == "tuple":
                return agg("()", 0, ops)
            if kind[0] == "closure":
                return agg("closure:%d" % kind[1], 0, ops)
            if kind[0] == "array":
                return K(cat("l", [("el", Node(o)) for o in ops]))
            if kind[0] == "adt":
                d = self.P.types[kind[1]]
                if d.get("box") and ops:
                    return ops[0]
                return agg(d["name"], kind[2], ops)
            if kind[0] == "rawptr":
                return ops[0]
            raise Undecided("aggregate " + kind[0])
        if k == "bin":
            return self.binop(rv[1], self.operand(fn, base, rv[2], st), self.operand(fn, base, rv[3], st), rv[4])
        if k == "cbin":
            a = self.operand(fn, base, rv[2], st)
            b = self.operand(fn, base, rv[3], st)
            v = self.binop(rv[1], a, b, rv[4])
            return agg("()", 0, [v, self.overflow(rv[1], v, rv[4])])
        if k == "cast":
            return self.cast(rv[1], self.operand(fn, base, rv[2], st), rv[3], rv[4])
        if k == "discr":
            v = self.read_place(fn, base, rv[1], st)
            ty = self.place_ty(fn, rv[1])
            return self.discr(v, ty)
        if k == "len":
            return length(self.read_place(fn, base, rv[1], st))
        if k == "repeat":
            v = self.operand(fn, base, rv[1], st)
            n = int(rv[2])
            if n > 64:
                return K(mk("repeat", Node(v), n))
            return K(cat("l", [("el", Node(v))] * n))
        if k == "un":
            a = self.operand(fn, base, rv[2], st)
            if rv[1] == "Not":
                t = self.P.types[rv[3]]
                if t["k"] == "bool":
                    return BDD.NOT(asbool(a))
                return BDD.map1(a, lambda x: K(~x) if isinstance(x, int) else K(mk("bitnot", Node(K(x)))))
            if rv[1] == "Neg":
                return neg(a, self.P.types[rv[3]]["k"] == "float")
            if rv[1] == "PtrMetadata":
                v = a
                while any(isinstance(BDD.leaf[l], Ptr) for l in leaves(v)):
                    v = self.deref(v, st)
                return length(v)
            raise Undecided("unop " + rv[1])
        raise Undecided("rvalue " + k)

    def discr(self, v, ty):
        t = self.P.types[ty]
        if t["k"] != "adt":
            return K(0)
        vs = t["variants"]
        n = tag(v, len(vs))
        return BDD.map1(n, lambda i: BOT if i is BOTT else K(int(vs[i]["discr"])))

    def binop(self, op, a, b, ty):
        op = op.replace("Unchecked", "").replace("WithOverflow", "")
        t = self.P.types[ty]
        fl = t["k"] == "float"
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if t["k"] == "bool":
                e = BDD.IFF(asbool(a), asbool(b))
                if op == "Eq":
                    return e
                if op == "Ne":
                    return BDD.NOT(e)
                raise Undecided("bool order")
            return compare(op, a, b, fl)
        if t["k"] == "bool" and op in ("BitAnd", "BitOr", "BitXor"):
            a, b = asbool(a), asbool(b)
            if op == "BitAnd":
                return BDD.AND(a, b)
            if op == "BitOr":
                return BDD.OR(a, b)
            return BDD.NOT(BDD.IFF(a, b))
        return arith(op, a, b, fl)

    def overflow(self, op, v, ty):
        d = self.P.types[ty]
        if d["k"] != "int":
            return 0
        bits, signed = d["bits"], d["signed"]
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)

        def f(x):
            if isinstance(x, int):
                return 0 if lo <= x <= hi else 1
            if not signed and isinstance(x, (Lin, T)) and op.startswith("Sub"):
                return BDD.NOT(ge0(x))
            return 0
        return BDD.map1(v, f)

    def cast(self, kind, v, ty, srcty):
        d, s = self.P.types[ty], self.P.types[srcty]
        if kind == "IntToInt":
            if s["k"] == "bool":
                return ite(asbool(v), K(1), K(0))

            def f(x):
                if isinstance(x, bool):
                    return K(int(x))
                if isT(x, "agg"):
                    vs = s.get("variants")
                    return K(int(vs[x.args[1]]["discr"])) if vs else K(x.args[1])
                if isinstance(x, int):
                    if d["k"] == "int":
                        m = 1 << d["bits"]
                        x %= m
                        if d["signed"] and x >= m >> 1:
                            x -= m
                    return K(x)
                if d["k"] == "int" and s["k"] == "int" and s["signed"] and not d["signed"]:
                    return K(mk("unsigned", Node(K(x)), d["bits"]))
                if d["k"] == "int" and s["k"] == "int" and d["bits"] < s["bits"]:
                    return K(mk("trunc", Node(K(x)), d["bits"]))
                return K(x)
            return BDD.map1(v, f)
        if kind == "IntToFloat":
            def f(x):
                c, dd = lin_of(x)
                return K(_one(flin(c, {t: Fraction(k) for t, k in dd.items()})))
            return BDD.map1(v, f)
        if kind == "FloatToInt":
            return BDD.map1(v, lambda x: K(mk("f2i", Node(K(x)), d.get("bits", 0))))
        return v

    # -- control flow ---------------------------------------------------------------
    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        g1, s1 = a
        g2, s2 = b
        if g1 == 0:
            return b
        if g2 == 0:
            return a
        g = BDD.OR(g1, g2)
        if s1 is s2:
            return (g, s1)
        c = BDD.restrict(g1, g)
        if len(s1) < len(s2):
            s1, s2 = s2, s1
            c = BDD.NOT(c)
        out = dict(s1)
        for k, y in s2.items():
            x = s1.get(k)
            if x == y:
                continue
            if x is None:
                out[k] = y
            else:
                out[k] = ite(c, x, y)
        return (g, out)

    def run_fn(self, key, args, g, st):
        fn = self.P.fn(key)
        if len(args) != fn.argc:
            raise Undecided("argument count of %s: %d/%d" % (fn.path, len(args), fn.argc))
        base = self.alloc(len(fn.locals))
        st = dict(st)
        for i, a in enumerate(args):
            st[base + 1 + i] = a
        self.inlined.add(key)
        self.stack.append(key)
        depth = len(self.loops)
        try:
            exits, _ = self.run_region(fn, base, reachable(fn), None, 0, g, st)
        finally:
            self.stack.pop()
            del self.loops[depth:]
        cur = None
        for tgt, g2, st2 in exits:
            cur = self.join(cur, (g2, st2))
        if cur is None:
            return 0, st, BOT
        g2, st2 = cur
        v = st2.get(base, BOT)
        if v == BOT:
            t = self.P.types[fn.locals[0]]
            if t["k"] == "tuple" and not t["elems"]:
                v = UNIT
        top = base + len(fn.locals)
        refs = self.referenced(v)
        st2 = dict((k, x) for k, x in st2.items() if k < base or k >= top or k in refs)
        return g2, st2, v

    def referenced(self, v):
        out = set()
        st = [v]
        seen = set()
        while st:
            n = st.pop()
            if n in seen:
                continue
            seen.add(n)
            for l in leaves(n):
                x = BDD.leaf[l]
                if isinstance(x, Ptr):
                    out.add(x.cell)
                elif isT(x, "agg"):
                    st.extend(fields_of(x))
        return out

    def run_region(self, fn, base, blocks, header, entry, g, st):
        order = region_order(fn, blocks, header)
        pending = {entry: (g, st)}
        exits = []
        back = None
        first = True
        for item in order:
            if type(item) is int:
                cur = pending.pop(item, None)
                if cur is None:
                    continue
                outs = self.run_block(fn, base, item, cur[0], dict(cur[1]))
            else:
                cur = pending.pop(item[1], None)
                if cur is None:
                    continue
                outs = self.run_mir_loop(fn, base, item[2], item[1], cur[0], cur[1])
            for tgt, g2, st2 in outs:
                if g2 == 0:
                    continue
                if tgt == header and not (tgt == entry and first and False):
                    back = self.join(back, (g2, st2))
                elif tgt == "ret" or tgt not in blocks:
                    exits.append((tgt, g2, st2))
                else:
                    pending[tgt] = self.join(pending.get(tgt), (g2, st2))
        if pending:
            raise Undecided("irreducible flow in %s" % fn.path)
        return exits, back

    def run_block(self, fn, base, b, g, st):
        self.blocks += 1
        if self.blocks > self.limit:
            raise Undecided("work limit")
        blk = fn.blocks[b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(fn, base, s[2], st, g)
                self.write_place(fn, base, s[1], v, st, g)
            elif k == "dead":
                pass
            elif k == "setdiscr":
                pass
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], g, st)]
        if k == "return":
            return [("ret", g, st)]
        if k == "switch":
            return self.switch(fn, base, t, g, st)
        if k == "drop":
            return [(t[2], g, st)]
        if k == "call":
            return self.call_term(fn, base, t, g, st)
        if k == "assert":
            c = asbool(self.operand(fn, base, t[1], st))
            ok_ = c if t[2] else BDD.NOT(c)
            bad = BDD.AND(g, BDD.NOT(ok_))
            if bad != 0:
                self.panic(bad, "assert " + t[3][0], BDD.NOT(ok_))
                g = BDD.AND(g, ok_)
                if g == 0:
                    return []
            elif t[3][0] == "overflow":
                ops = [self.operand(fn, base, o, st) for o in t[3][2:4]]
                if not all(isinstance(leafof(o), int) for o in ops):
                    self.panic(g, ("overflow", t[3][1]) + tuple(ops))
            return [(t[4], g, st)]
        if k in ("resume", "abort", "unreachable"):
            return []
        raise Undecided("terminator " + k)

    def switch(self, fn, base, t, g, st):
        n = self.operand(fn, base, t[1], st)
        ty = self.P.types[t[4]] if isinstance(t[4], int) else t[4]
        outs = {}
        rem = g
        if ty["k"] == "bool":
            n = asbool(n)
        n = BDD.restrict(clean(n), g)
        for val, tgt in t[2]:
            val = int(val)
            if ty["k"] == "bool":
                c = n if val else BDD.NOT(n)
            else:
                c = self.eq_const(n, val, ty)
            gc = BDD.AND(rem, c)
            rem = BDD.AND(rem, BDD.NOT(c))
            if gc != 0:
                outs[tgt] = BDD.OR(outs.get(tgt, 0), gc)
        if rem != 0:
            outs[t[3]] = BDD.OR(outs.get(t[3], 0), rem)
        if len(outs) == 1:
            return [(list(outs)[0], g, st)]
        return [(tgt, gc, dict(st)) for tgt, gc in outs.items()]

    def eq_const(self, n, val, ty):
        if ty["k"] == "int" and ty["signed"] and val >= 1 << (ty["bits"] - 1):
            val -= 1 << ty["bits"]

        def f(x):
            if isinstance(x, bool):
                return 1 if int(x) == val else 0
            if isinstance(x, int):
                return 1 if x == val else 0
            if x is BOTT:
                return 0
            if isinstance(x, T) and ty["k"] == "char":
                return chareq(x, val)
            if isinstance(x, (Lin, T)):
                return inteq(x, val)
            raise Undecided("switch on %r" % (x,))
        return BDD.map1(n, f)

    # -- calls --------------------------------------------------------------------
    def call_term(self, fn, base, t, g, st):
        callee, args, dest, target = t[1], t[2], t[3], t[4]
        vals = [self.operand(fn, base, a, st) for a in args]
        retty = self.place_ty(fn, dest)
        argtys = t[7] if len(t) > 7 else None
        if callee[0] == "fn":
            g2, st2, v = self.call(callee[1], callee[2], vals, g, st, callee[3], retty, argtys, t[5])
        else:
            f = self.operand(fn, base, callee[1], st)
            g2, st2, v = self.call_value(f, vals, g, st, retty)
        if target < 0 or g2 == 0:
            return []
        if st2 is st:
            st2 = dict(st)
        self.write_place(fn, base, dest, v, st2, g2)
        return [(target, g2, st2)]

    def call_value(self, f, vals, g, st, retty):
        while any(isinstance(BDD.leaf[l], Ptr) for l in leaves(f)):
            f2 = self.deref(f, st)
            x = leafof(f2)
            if isT(x, "agg") and x.args[0].startswith("closure"):
                return self.call_closure(x, f, vals, g, st, retty)
            f = f2
        x = leafof(f)
        if x is None:
            acc = None
            for l in leaves(f):
                c = BDD.AND(g, indicator(f, {l}))
                if c == 0:
                    continue
                g2, s2, v = self.call_value(l, vals, c, dict(st), retty)
                s2 = dict(s2)
                s2[-1] = v
                acc = self.join(acc, (g2, s2))
            if acc is None:
                return 0, st, BOT
            s = dict(acc[1])
            v = s.pop(-1)
            return acc[0], s, v
        if isT(x, "agg") and x.args[0].startswith("closure"):
            return self.call_closure(x, f, vals, g, st, retty)
        if isT(x, "fn"):
            return self.call(x.args[0], None, vals, g, st, None, retty, None, 0)
        return self.opaque_call("apply", [f] + vals, g, st, retty)

    def call_closure(self, x, f, vals, g, st, retty):
        ty = int(x.args[0].split(":")[1])
        key = None
        for ik in reversed(self.P.types[ty]["insts"]):
            if ik is not None and self.P.fn(ik) is not None and self.P.insts[ik]["kind"] == "item":
                key = ik
                break
        if key is None:
            raise Undecided("closure body")
        fn = self.P.fn(key)
        want = self.P.types[fn.locals[1]]
        env = f
        st = dict(st)
        if want["k"] == "ref" and want["mut"]:
            if not isinstance(leafof(f), Ptr):
                env = K(Ptr(self.new_cell(st, f), ()))
        elif isinstance(leafof(f), Ptr):
            env = self.deref(f, st)
        if len(vals) == fn.argc - 1:
            return self.run_fn(key, [env] + vals, g, st)
        raise Undecided("closure arguments")

    def call(self, key, decl, vals, g, st, gargs, retty, argtys, line):
        info = self.P.insts.get(key) if key is not None else None
        m = self.prims.lookup(self, info, decl)
        h = self.partial.get(info["path"]) if info is not None else None
        if m is not None or h is not None:
            ctx = Ctx()
            ctx.fl, ctx.key, ctx.info, ctx.decl, ctx.gargs = self, key, info, decl, gargs
            ctx.retty, ctx.st, ctx.g, ctx.argtys, ctx.line = retty, dict(st), g, argtys, line
            if h is not None:
                h(ctx, *vals)
                g = ctx.g
            r = m(ctx, *vals) if m is not None else NotImplemented
            if r is not NotImplemented:
                return ctx.g, ctx.st, r
        if info is None:
            return self.opaque_call(decl or "?", vals, g, st, retty)
        name = info["path"]
        last = name.split("::")[-1]
        if last in ("call", "call_mut", "call_once") and len(vals) == 2 and (info["kind"] == "shim" or info["closure"] or "ops::function" in name or "FnOnce" in name or "FnMut" in name):
            tupn = vals[1]
            x = leafof(tupn)
            if isT(x, "agg") and x.args[0] == "()":
                return self.call_value(vals[0], fields_of(x), g, st, retty)
        if info["closure"] and decl and decl.startswith("std::ops::Fn"):
            x = leafof(vals[1])
            return self.call_value(vals[0], fields_of(x), g, st, retty)
        fn = self.P.fn(key)
        if fn is None:
            # constructor function of a tuple struct / variant
            r = self.ctor_fn(info, vals, retty)
            if r is not None:
                return g, st, r
            return self.opaque_call(info["name"], vals, g, st, retty)
        if self.stop(info) or self.stack.count(key) >= 1 or len(self.stack) > 150:
            return self.opaque_call(info["name"], vals, g, st, retty)
        m = self.marks()
        depth = len(self.stack)
        try:
            return self.run_fn(key, vals, g, st)
        except Undecided as e:
            del self.stack[depth:]
            self.truncate(m)
            self.notes.append(("undecided: %s" % e, info["name"]))
            if g == 0:
                raise
            return self.opaque_call(info["name"], vals, g, st, retty)

    def ctor_fn(self, info, vals, retty):
        """tuple constructors have no body"""
        if retty is None:
            # used as a value: the type is the one the path lies in
            path = info["path"].split("::")
            for t in self.P.types:
                if t["k"] == "adt" and t["name"].split("<")[0].split("::") in (path, path[:-1]):
                    for vi, v in enumerate(t["variants"]):
                        if v["name"] == path[-1] and len(v["fields"]) == len(vals):
                            return agg(t["name"], vi, vals)
            return None
        t = self.P.types[retty]
        if t["k"] == "adt":
            nm = info["path"].split("::")[-1]
            for vi, v in enumerate(t["variants"]):
                if v["name"] == nm and len(v["fields"]) == len(vals) and info["path"].startswith(t["name"].split("<")[0].rsplit("::", 1)[0]):
                    return agg(t["name"], vi, vals)
        return None

    def opaque_call(self, name, vals, g, st, retty):
        st = dict(st)
        targs = []
        ptrs = []
        for i, v in enumerate(vals):
            w = v
            if any(isinstance(BDD.leaf[l], Ptr) for l in leaves(w)):
                ptrs.append((i, v))
                n = 0
                while any(isinstance(BDD.leaf[l], Ptr) for l in leaves(w)) and n < 5:
                    w = self.deref(w, st)
                    n += 1
            targs.append(Node(w))
        t = mk("call", name, *targs)
        self.opaque[name] = self.opaque.get(name, 0) + 1
        self.event("call", g, (name, t))
        for i, v in ptrs:
            self.store(v, K(mk("after", t, i)), st, g)
        if retty is not None:
            d = self.P.types[retty]
            if d["k"] == "tuple" and not d["elems"]:
                return g, st, UNIT
            if d["k"] == "never":
                self.panic(g, "diverge " + name)
                return 0, st, BOT
        return g, st, K(t)

    # -- loops ----------------------------------------------------------------------
    def run_mir_loop(self, fn, base, blocks, header, g, st):
        def body(g1, st1):
            return self.run_region(fn, base, blocks, header, header, g1, st1)
        return self.run_loop(g, st, body)

    def run_loop(self, g0, st0, body):
        """body(g, st) -> ([(target, g, st)], back (g, st) or None)"""
        depth = len(self.loops)
        mark = self.marks()
        paths = []           # carried (cell, path)
        counters = {}        # index in paths -> start value replaced by idx form
        drv = None
        self.loops.append(None)
        lid = sum(1 for x in self.loops if x is None or x) - 1
        try:
            for rnd in range(25):
                self.truncate(mark)
                st = dict(st0)
                for k, (c, p) in enumerate(paths):
                    v = counters.get(k)
                    if v is None:
                        v = K(self.mu(lid, k))
                    st[c] = self.write_path(st[c], p, v)
                if drv is not None:
                    self.loops[depth] = (drv["L"], drv["idx"])
                exits, back = body(g0, st)
                new = []
                if back is not None:
                    for c, v in st.items():
                        w = back[1].get(c)
                        if w is not None and w != v:
                            self.diff(c, (), v, w, back[0], new, lid, drv)
                new = [(c, p) for c, p in new if not any(c2 == c and p[:len(p2)] == p2 for c2, p2 in paths)]
                if new:
                    paths = self.add_paths(paths, new)
                    counters = {}
                    if drv is not None:
                        self.drivers.pop(drv.get("mu"), None)
                    drv = None
                    continue
                if back is None or drv is not None:
                    break
                drv = self.find_driver(paths, st0, st, exits, back, g0, lid)
                if drv is None:
                    break
                if "counter" in drv:
                    counters[drv["counter"]] = drv["value"]
                else:
                    self.drivers[drv["mu"]] = drv
            else:
                raise Undecided("loop does not stabilise")
            return self.finish_loop(paths, counters, drv, st0, st, exits, back, g0, lid)
        finally:
            if drv is not None and "mu" in drv:
                self.drivers.pop(drv["mu"], None)
            del self.loops[depth:]

    def mu(self, lid, k):
        return mk("mu", lid, k)

    def add_paths(self, paths, new):
        out = list(paths)
        for c, p in new:
            out = [(c2, p2) for c2, p2 in out if not (c2 == c and p2[:len(p)] == p)]
            if not any(c2 == c and p[:len(p2)] == p2 for c2, p2 in out):
                out.append((c, p))
        return out

    def diff(self, c, path, a, b, gb, out, lid, drv):
        if a == b:
            return
        b2 = BDD.restrict(b, gb)
        if a == b2:
            return
        x, y = leafof(a), leafof(b2)
        if isT(y, "upd") and (y.args[0] is x or isT(x, "upd") and x.args[:2] == y.args[:2]):
            # one element of a list, fixed for the whole loop
            i = y.args[1].n
            ms = BDD.marks(i)
            if not any(m.op == "mu" and m.args[0] == lid for m in ms) and not (drv is not None and drv["idx"] in ms):
                self.diff(c, path + (("e", y.args[1]),), elem(a, i), y.args[2].n, gb, out, lid, drv)
                return
        i = self.chosen_update(a, b2, lid, drv)
        if i is not None:
            self.diff(c, path + (("e", Node(i)),), elem(a, i), elem(b2, i), gb, out, lid, drv)
            return
        if isT(x) and isT(y) and x.op != "agg" and y.op == "agg" and y.args[1] == 0 and vg.VARIANTS(y.args[0]) == 1:
            n = len(y.args) - 2
            for i, q in enumerate(fields_of(y)):
                self.diff(c, path + (("f", 0, i, (y.args[0], n)),), fld(a, 0, i, (y.args[0], n)), q, gb, out, lid, drv)
            return
        if isT(x, "agg") and isT(y, "agg") and x.args[:2] == y.args[:2] and len(x.args) == len(y.args) and len(x.args) > 2:
            n = len(x.args) - 2
            for i, (p, q) in enumerate(zip(fields_of(x), fields_of(y))):
                self.diff(c, path + (("f", x.args[1], i, (x.args[0], n)),), p, q, gb, out, lid, drv)
            return
        r = self.inside(a, b2, gb)
        if r is None:
            out.append((c, path))
            return
        for v, info in r:
            for i in range(info[1]):
                self.diff(c, path + (("f", v, i, info),), fld(a, v, i, info), fld(b2, v, i, info), gb, out, lid, drv)

    def chosen_update(self, a, b, lid, drv):
        """index of the one element in which b may differ from a, when it is
        fixed for the whole loop"""
        old, i = leaves(a), None
        for l in leaves(b):
            y = BDD.leaf[l]
            if l in old:
                continue
            if not isT(y, "upd") or i is not None and i != y.args[1].n:
                return None
            if K(y.args[0]) not in old and not any(isT(x, "upd") and x.args[:2] == y.args[:2] for x in map(BDD.leaf.__getitem__, old)):
                return None
            i = y.args[1].n
        if i is None:
            return None
        ms = BDD.marks(i)
        if any(m.op == "mu" and m.args[0] == lid for m in ms) or drv is not None and drv["idx"] in ms:
            return None
        return i

    def inside(self, a, b, g):
        """variants whose payload may differ between a and b, when the variant
        itself stays what it was"""
        out = []
        for la in leaves(a):
            ca = BDD.AND(g, indicator(a, {la}))
            if ca == 0:
                continue
            x = BDD.leaf[la]
            for lb in leaves(BDD.restrict(b, ca)):
                c = BDD.AND(ca, indicator(b, {lb}))
                if c == 0 or la == lb:
                    continue
                y = BDD.leaf[lb]
                if not isT(x) or not isT(y, "agg"):
                    return None
                nv = vg.VARIANTS(y.args[0])
                v = y.args[1]
                if x.op == "agg":
                    if x.args[:2] != y.args[:2] or len(x.args) != len(y.args):
                        return None
                elif not nv or nv > 1 and BDD.AND(c, BDD.NOT(is_variant(K(x), v, nv))) != 0:
                    return None
                e = (v, (y.args[0], len(y.args) - 2))
                if e[1][1] == 0:
                    continue
                if e not in out:
                    out.append(e)
        return out or None

    def find_driver(self, paths, st0, st, exits, back, g0, lid):
        gb, sb = back
        for k, (c, p) in enumerate(paths):
            mu = self.mu(lid, k)
            init = self.read_path(st0[c], p)
            step = BDD.restrict(self.read_path(sb[c], p), gb)
            if leafof(step) is mk("adv", mu):
                x = leafof(init)
                if isT(x, "it"):
                    base = self.prims.iter_base(x)
                    if base is None:
                        continue
                    idx = self.fresh_idx(base)
                    return {"mu": mu, "init": x, "L": base, "idx": idx, "more": BDD.atom(("more", mu)), "k": k}
        for k, (c, p) in enumerate(paths if self.counting else ()):
            mu = self.mu(lid, k)
            init = self.read_path(st0[c], p)
            step = BDD.restrict(self.read_path(sb[c], p), gb)
            s = leafof(step)
            if isinstance(s, Lin) and s.c == 1 and s.ts == ((mu, 1),):
                bound = self.find_bound(mu, exits, g0, paths, lid)
                if bound is None:
                    continue
                a = leafof(init)
                b = leafof(bound)
                L = None
                if a == 0 and isT(b, "len"):
                    L = K(b.args[0])
                elif a is not None and b is not None:
                    L = K(mk("range", Node(init), Node(bound)))
                if L is None:
                    continue
                idx = self.fresh_idx(L)
                v = add(init, K(idx))
                more = compare("Lt", v, bound, False)
                return {"counter": k, "L": L, "idx": idx, "value": v, "more": more, "k": k, "bound": bound}
        return None

    def fresh_idx(self, L):
        d = sum(1 for x in self.loops[:-1] if x and x[0] == L)
        return mk("idx", Node(L), d)

    def find_bound(self, mu, exits, g0, paths, lid):
        mus = set(self.mu(lid, k) for k in range(len(paths)))
        for tgt, g, st in exits:
            n = BDD.restrict(g, g0)
            if BDD.is_leaf(n) or not BDD.is_leaf(BDD.lo[n]) or not BDD.is_leaf(BDD.hi[n]):
                continue
            pos = BDD.hi[n] == 1 and BDD.lo[n] == 0
            ng = BDD.hi[n] == 0 and BDD.lo[n] == 1
            key = BDD.atoms[BDD.var[n]]
            if key[0] != "ge":
                continue
            c, d = lin_of(key[1])
            km = d.pop(mu, 0)
            if any(mus & t.marks for t in d):
                continue
            if pos and km == 1:
                # exit when mu + r >= k
                return K(_one(lin(key[2] - c, {t: -v for t, v in d.items()})))
            if ng and km == -1:
                # continue while -mu + r >= k
                return K(_one(lin(c - key[2] + 1, d)))
        return None

    def finish_loop(self, paths, counters, drv, st0, st, exits, back, g0, lid):
        mus = [self.mu(lid, k) for k in range(len(paths))]
        muset = frozenset(mus)
        final = {}
        if back is None:
            # executed at most once
            return exits
        gb, sb = back
        more = drv["more"] if drv else None
        step = []
        for k, (c, p) in enumerate(paths):
            s = BDD.restrict(self.read_path(sb[c], p), gb)
            care = gb
            if more is not None:
                s = BDD.restrict(s, more)
                care = BDD.restrict(gb, more)
            step.append(merge(independent(clean(s), care, muset)))
        brk = []
        normal = []
        for tgt, g, s in exits:
            if more is None:
                brk.append((tgt, g, s))
                continue
            gn = BDD.AND(g, BDD.NOT(more))
            gm = BDD.AND(g, more)
            if gn != 0:
                normal.append((tgt, gn, s))
            if gm != 0:
                brk.append((tgt, gm, s))
        env = {}
        self.rounds.append((self.where(), drv["L"] if drv else None, [self.read_path(st0[c], p) for c, p in paths], step,
                            BDD.restrict(gb, g0), lid))
        if drv is not None:
            L, idx = drv["L"], drv["idx"]
            fg = drv.get("filter", 1)
            for k, (c, p) in enumerate(paths):
                init = self.read_path(st0[c], p)
                if k == drv["k"]:
                    if "counter" in drv:
                        env[mus[k]] = drv["bound"]
                    else:
                        env[mus[k]] = K(mk("it", "done", Node(L)))
                    continue
                s = ite(BDD.restrict(fg, more), step[k], K(mus[k])) if fg != 1 else step[k]
                if fg != 1:
                    step[k] = s
            c1 = at_most_one(L)
            if c1 is not None:
                inits = [self.read_path(st0[c], p) for c, p in paths]
                once = dict(zip(mus, inits))
                once[idx] = K(0)
                for k in range(len(paths)):
                    if k != drv["k"]:
                        env[mus[k]] = merge(ite(c1, subst(step[k], once), inits[k]))
            for k, (c, p) in enumerate(paths):
                if k != drv["k"] and c1 is None:
                    env[mus[k]] = self.closed(L, idx, mus, k, self.read_path(st0[c], p), step, [self.read_path(st0[c2], p2) for c2, p2 in paths], drv["k"])
        else:
            ini = tuple(Node(self.read_path(st0[c], p)) for c, p in paths)
            stp = tuple(Node(s) for s in step)
            on = Node(BDD.restrict(gb, g0))
            for k in range(len(paths)):
                env[mus[k]] = K(mk("loop", k, ini, stp, on, lid))
        outs = []
        memo = {}
        btot = 0
        for tgt, g, s in brk:
            c = g
            if more is not None:
                c = BDD.restrict(c, more)
            btot = BDD.OR(btot, BDD.restrict(c, g0))
        if drv is not None:
            L, idx = drv["L"], drv["idx"]
            if drv.get("filter", 1) != 1:
                btot = BDD.AND(btot, BDD.restrict(drv["filter"], more))
            if BDD.marks(btot) & muset:
                ex = self.exit_fold(L, idx, mus, drv, paths, st0, step, btot)
            else:
                ex = exists(L, idx, btot)
            pos = self.exit_pos(L, idx, btot)
            for tgt, g, s in normal:
                gg = BDD.AND(g0, BDD.NOT(ex))
                g2 = subst(BDD.restrict(BDD.restrict(g, BDD.NOT(more)), g0), env, memo)
                g2 = BDD.AND(gg, g2)
                if g2 == 0:
                    continue
                outs.append((tgt, g2, self.subst_state(s, env, memo, BDD.NOT(more))))
            if brk:
                benv = {idx: pos}
                for k, m in enumerate(mus):
                    if k == drv["k"]:
                        benv[m] = K(mk("it", "at", Node(L), Node(pos)))
                        if "counter" in drv:
                            benv[m] = subst(add(drv["value"], K(0)), {idx: pos})
                    else:
                        init = self.read_path(st0[paths[k][0]], paths[k][1])
                        benv[m] = K(mk("before", Node(env[m]), Node(pos))) if env[m] != init and c1 is None else init
                bmemo = {}
                single = len(brk) == 1
                for tgt, g, s in brk:
                    c = BDD.restrict(BDD.restrict(g, more), g0)
                    if drv.get("filter", 1) != 1:
                        c = BDD.AND(c, BDD.restrict(drv["filter"], more))
                    if single:
                        g2 = BDD.AND(g0, ex)
                    else:
                        g2 = BDD.AND(BDD.AND(g0, ex), subst(BDD.restrict(c, btot), benv, bmemo))
                    if g2 == 0:
                        continue
                    outs.append((tgt, g2, self.subst_state(s, benv, bmemo, BDD.AND(more, c))))
        else:
            for tgt, g, s in brk:
                g2 = subst(BDD.restrict(g, g0), env, memo)
                g2 = BDD.AND(g0, g2)
                if len(brk) == 1:
                    g2 = g0
                if g2 == 0:
                    continue
                outs.append((tgt, g2, self.subst_state(s, env, memo, g)))
        return outs

    def exit_pos(self, L, idx, c):
        """index of the round that leaves the loop"""
        try:
            return vg.pick_pos("first", L, idx, c)
        except Undecided:
            return K(mk("first", Node(L), idx, Node(c)))

    def subst_state(self, s, env, memo, care):
        out = {}
        keys = frozenset(env)
        for c, v in s.items():
            if BDD.marks(v) & keys or not BDD.is_leaf(v):
                v2 = BDD.restrict(v, care)
                v = subst(v2, env, memo) if BDD.marks(v2) & keys else v2
            out[c] = v
        return out

    def exit_fold(self, L, idx, mus, drv, paths, st0, step, btot):
        """an early exit that depends on what earlier rounds left behind"""
        if btot == 0:
            return 0
        inits = [self.read_path(st0[c], p) for c, p in paths]
        r = self.joint(L, idx, mus, [j for j in range(len(mus)) if mus[j] in BDD.marks(btot)], inits, step, drv["k"])
        if r is None:
            ex = BDD.atom(("loopx", Node(L), idx, Node(btot)))
            return BDD.AND(ex, nonempty(L))
        env, ini, stp = r
        return vg.fold_exit(L, idx, ini, stp, subst(btot, env))

    def joint(self, L, idx, mus, need, inits, step, kd):
        """recurrence of the carried cells in need and those they depend on"""
        need = list(need)
        for j in need:
            for i in range(len(mus)):
                if mus[i] in BDD.marks(step[j]) and i not in need:
                    need.append(i)
        if kd in need:
            return None
        need.sort()
        env = {mus[j]: K(mk("acc", idx, n)) for n, j in enumerate(need)}
        return env, tuple(Node(inits[j]) for j in need), tuple(Node(subst(step[j], env)) for j in need)

    def closed(self, L, idx, mus, k, init, step, inits, kd):
        """value of a carried cell after the loop over L"""
        mu = mus[k]
        s = step[k]
        muset = frozenset(mus)
        x = leafof(s)
        if x is mu:
            return init
        # cells that only count the rounds
        env = {}
        for j, m in enumerate(mus):
            y = leafof(step[j])
            if m is not mu and m in BDD.marks(s) and isinstance(y, Lin) and y.ts == ((m, 1),):
                env[m] = add(inits[j], scale(K(idx), y.c))
        if env:
            s = subst(s, env)
            step = step[:k] + [s] + step[k + 1:]
            x = leafof(s)
        # append
        if isT(x, "cat") and x.args[1:] and x.args[1] == ("sp", mu):
            rest = x.args[2:]
            if not any(vg_marks(p) & muset for p in rest):
                return append(init, x.args[0], [("rep", Node(L), idx, tuple(rest))])
        # elementwise update
        if isT(x, "upd") and x.args[0] is mu and leafof(x.args[1].n) is idx:
            v = subst(x.args[2].n, {mu: init})
            if not (BDD.marks(v) & muset):
                return maplist(init, idx, v)
        r = elementwise(s, mu, idx, init, muset)
        if r is not None:
            return r
        ms = BDD.marks(s)
        # sum
        if isinstance(x, (Lin, FLin)):
            d = dict(x.ts)
            if d.get(mu) == 1:
                if isinstance(x, Lin):
                    r = lin_add(x, mu, -1)
                else:
                    r = flin_add(x, mu, -1)
                if not (BDD.marks(K(r)) & muset):
                    if idx not in BDD.marks(K(r)) and isinstance(r, int):
                        return add(init, scale(length(L), r))
                    return (add if isinstance(x, Lin) else fadd)(init, K(mk("sum", Node(L), idx, Node(K(r)))))
        # last assignment: ite(g, v, mu)
        gk = BDD.NOT(indicator(s, {K(mu)}))
        if not (BDD.marks(gk) & muset) and gk != 1:
            v = BDD.restrict(s, gk)
            if not (BDD.marks(v) & muset):
                return lastsel(L, idx, gk, v, init)
            lv = leafof(v)
            if isinstance(lv, (Lin, FLin)) and dict(lv.ts).get(mu) == 1:
                r = lin_add(lv, mu, -1) if isinstance(lv, Lin) else flin_add(lv, mu, -1)
                if not (BDD.marks(K(r)) & muset):
                    w = ite(gk, K(r), K(0) if isinstance(lv, Lin) else fconst(0))
                    return (add if isinstance(lv, Lin) else fadd)(init, K(mk("sum", Node(L), idx, Node(w))))
            if isT(lv, "upd") and lv.args[0] is mu and leafof(lv.args[1].n) is idx:
                w = subst(lv.args[2].n, {mu: init})
                gg = gk
                if not (BDD.marks(w) & muset):
                    old = elem(init, K(idx))
                    return maplist(init, idx, ite(gg, w, old))
        if not (ms & muset):
            return lastsel(L, idx, 1, s, init)
        r = self.joint(L, idx, mus, [k], inits, step, kd)
        if r is not None:
            env, ini, stp = r
            v = vg.fold_value(L, idx, ini, stp, env[mu])
            if BDD.is_leaf(L) and isT(leafof(L), "cat") and all(p[0] in ("el", "opt") for p in leafof(L).args[1:]):
                return subst(v, {mk("var", "$"): v})
            return v
        return K(mk("fold", Node(L), idx, Node(init), Node(s), k))


def independent(s, care, muset):
    """s without the tests of carried cells whose outcome makes no difference where care holds"""
    for v in [v for v in BDD.support(care) if atom_marks(BDD.atoms[v]) & muset]:
        a = BDD.atom(BDD.atoms[v])
        c1, c0 = BDD.restrict(care, a), BDD.restrict(care, BDD.NOT(a))
        s2 = without(s, a, c1, c0)
        if s2 is not None:
            s, care = s2, BDD.OR(c1, c0)
    return s


def without(s, a, c1, c0):
    """s without the test a, or None when the outcome matters"""
    if not BDD.is_leaf(s):
        s1, s0 = BDD.restrict(s, a), BDD.restrict(s, BDD.NOT(a))
        both = BDD.AND(c1, c0)
        if s1 != s0 and BDD.ite(both, s1, BOT) != BDD.ite(both, s0, BOT):
            return None
        s = s1 if s1 == s0 else BDD.ite(c1, s1, s0)
    out = {}
    for l in leaves(s):
        x = BDD.leaf[l]
        if isT(x, "cat") and any(p[0] == "alt" for p in x.args[1:]):
            ps = []
            for p in x.args[1:]:
                if p[0] == "alt":
                    n = without(p[1].n, a, c1, c0)
                    if n is None:
                        return None
                    p = ("alt", Node(n))
                ps.append(p)
            out[l] = K(cat(x.args[0], ps))
    return replace_each(s, out) if out else s


def replace_each(n, out):
    memo = {}

    def go(x):
        if x not in memo:
            memo[x] = out.get(x, x) if BDD.is_leaf(x) else BDD.ite(BDD.atom(BDD.atoms[BDD.var[x]]), go(BDD.hi[x]), go(BDD.lo[x]))
        return memo[x]
    return go(n)


def elementwise(s, mu, idx, init, muset):
    """a choice of updates of the current element as one map"""
    for l in leaves(s):
        x = BDD.leaf[l]
        if x is not mu and not (isT(x, "upd") and x.args[0] is mu and leafof(x.args[1].n) is idx):
            return None
    cur = mk("elem", mu, Node(K(idx)))
    cell = mk("var", "elem")
    w = subst(elem(s, K(idx)), {cur: K(cell)})
    if BDD.marks(w) & muset:
        return None
    return maplist(init, idx, subst(w, {cell: elem(init, K(idx))}))


def at_most_one(L):
    """condition under which a list of at most one element has it"""
    x = leafof(L)
    if not isT(x, "cat") or x.args[0] != "l" or len(x.args) != 2:
        return None
    p = x.args[1]
    if p[0] == "el":
        return 1
    if p[0] == "opt" and len(p[2]) == 1 and p[2][0][0] == "el":
        return p[1].n
    return None


def vg_marks(p):
    from core import _marks
    return _marks(p)


_one = vg._one


def upd(x, i, v):
    if isT(x, "upd") and x.args[1].n == i:
        x = x.args[0]
    if isT(x, "cat") and isinstance(leafof(i), int):
        k = leafof(i)
        ps = list(x.args[1:])
        if k < len(ps) and all(p[0] == "el" for p in ps[:k + 1]):
            ps[k] = ("el", Node(v))
            return K(cat("l", ps))
    k = vg.slot(x, leafof(i)) if isT(x, "cat") and BDD.is_leaf(i) else None
    if k is not None:
        ps = list(x.args[1:])
        ps[k] = ("el", Node(v))
        return K(cat("l", ps))
    if elem(K(x), i) == v:
        return K(x)
    return K(mk("upd", x, Node(i), Node(v)))


@rule("upd")
def r_upd(a, i, v):
    return BDD.map1(a, lambda x: BOT if x is BOTT else upd(x, i, v))


def ptr_step(ptr, s):
    def f(x):
        if isinstance(x, Ptr):
            return K(Ptr(x.cell, x.path + (s,)))
        raise Undecided("address of %r" % (x,))
    return BDD.map1(ptr, f)


def sub_slice(v, a, b, fromend):
    def f(x):
        if isT(x, "cat"):
            ps = x.args[1:]
            if all(p[0] == "el" for p in ps):
                return K(cat("l", ps[a:len(ps) - b] if fromend else ps[a:b]))
        if fromend and b == 0:
            return rest(x, a)
        return K(mk("slice", Node(K(x)), a, b, fromend))
    return BDD.map1(v, f)


def rest(x, a):
    if a == 0:
        return K(x)
    if isT(x, "cat"):
        ps = list(x.args[1:])
        k = a
        while k and ps and ps[0][0] == "el":
            ps.pop(0)
            k -= 1
        if k == 0:
            return K(cat("l", ps))
    return K(mk("rest", x, Node(K(a))))


def chareq(t, val):
    return BDD.atom(("eq", t, mk("chr", val)))
