"""C19, C20: lookups, targeted edits and the field bookkeeping of components."""
from vg import *
from effects import *
from report import Report
from prims import RES
from p_sexp import TRUSTED

TECH = ("The result and the final state of every lookup, collecting operation and targeted edit are computed as values over the parts of "
        "their arguments by a gated dataflow over the compiler's MIR (loops with an early exit become 'first element satisfying', loops "
        "that push become filtered walks, element stores become updates at an index), and compared attribute by attribute with the value "
        "the property requires.")
FPM, FPE, FPT = "footprint::Module", "footprint::Element", "footprint::FpText"
LAY, LAE = "layout::Layout", "layout::Element"
SCH, SCE, CMP, CFD = "schematic::Schematic", "schematic::Element", "schematic::Component", "schematic::ComponentField"
SYM, SYL = "symbol_lib::Symbol", "symbol_lib::SymbolLib"
UNITV = agg("()", 0, [])


def var(n):
    return K(mk("var", n))


def applied(f, x):
    """what a function argument leaves of the item it is applied to"""
    return K(mk("after", mk("call", "apply", Node(f), Node(x)), 1))


def of_kind(S, ety, kind, more=None):
    """condition: element of the kind (and more holds of its payload)"""
    def c(e):
        r = S.is_(ety, e, kind)
        if more is not None:
            r = BDD.AND(r, BDD.restrict(more(S.payload(ety, e, kind)), r))
        return r
    return c


def unwrap(o, default):
    return ite(is_variant(o, 1, 2), fld(o, 1, 0, (OPT, 1)), default)


def ok(v):
    return agg(RES, 0, [v])


def err():
    return agg(RES, 1, [ERROR])


def rows(S):
    """(label, probe function, what it must return, final state of its first
    argument) -- None where the property says nothing"""
    a, b, c, d = var("a"), var("b"), var("c"), var("d")
    out = []

    def row(label, fn, res=None, state=None, ty=None, sty=None, through=False):
        out.append((label, fn, res, state, ty, sty, through))

    # footprints
    els = S.F(FPM, a, "elements")

    def text(which):
        return of_kind(S, FPE, "FpText", lambda t: same(S.F(FPT, t, "name"), lit(which)))

    def item(ety, kind):
        return lambda e: S.payload(ety, e, kind)
    is_ref = of_kind(S, FPE, "FpText", lambda t: BDD.AND(same(S.F(FPT, t, "name"), lit("reference")), same(S.F(FPT, t, "value"), b)))
    row("Module::append", "fp_append", None, lambda: S.with_(FPM, a, elements=append(els, "l", [("el", Node(b))])), None, FPM)
    row("Module::is_reference_with_name", "fp_is_ref", lambda: S.any(els, is_ref))
    for nm, fn, which in (("reference", "fp_get_reference_text", "reference"), ("user", "fp_get_reference2_text", "user"), ("value", "fp_get_value_text", "value")):
        row("Module::get_%s text" % nm, fn, lambda which=which: S.first(els, text(which), item(FPE, "FpText")))
        row("Module::get_%s text mutably" % nm, fn + "_mut", lambda which=which: S.first(els, text(which), item(FPE, "FpText")), lambda: a, None, FPM, True)
    row("Module::get_reference", "fp_get_reference", lambda: S.first(els, text("reference"), lambda e: S.F(FPT, S.payload(FPE, e, "FpText"), "value")))
    row("Module::has_smd_attr", "fp_has_smd_attr", lambda: S.any(els, of_kind(S, FPE, "Attr", lambda t: same(t, lit("smd")))))
    for kind, fn in (("TStamp", "fp_get_tstamp"), ("TEdit", "fp_get_tedit")):
        row("Module::get_" + kind.lower(), fn, lambda kind=kind: S.first(els, of_kind(S, FPE, kind), item(FPE, kind)))
    row("Module::set_reference", "fp_set_reference", None, lambda: S.with_(FPM, a, elements=S.map(els, lambda e: ite(
        is_ref(e), S.variant(FPE, "FpText", S.with_(FPT, S.payload(FPE, e, "FpText"), value=c)), e))), None, FPM)
    at = of_kind(S, FPE, "At")

    def first_at(f):
        return lambda: S.first(els, at, lambda e: S.F("footprint::At", S.payload(FPE, e, "At"), f))
    row("Module::at", "fp_at", lambda: agg("()", 0, [unwrap(first_at("x")(), fconst(0)), unwrap(first_at("y")(), fconst(0))]))
    row("Module::get_rotation", "fp_get_rotation", lambda: unwrap(first_at("rot")(), fconst(0)))
    row("Module::adjust_at", "fp_adjust_at", None, lambda: S.with_(FPM, a, elements=S.map(els, lambda e: S.cases(FPE, e, {"At": lambda t: S.with_(
        "footprint::At", t, x=fadd(S.F("footprint::At", t, "x"), b), y=fadd(S.F("footprint::At", t, "y"), c))}))), None, FPM)
    row("Module::is_front", "fp_is_front", lambda: asbool(unwrap(S.first(els, of_kind(S, FPE, "Layer"), lambda e: S.is_(
        "footprint::LayerSide", S.F("footprint::Layer", S.payload(FPE, e, "Layer"), "side"), "Front")), 1)))
    row("Module::pads", "fp_pads", lambda: S.filter(els, of_kind(S, FPE, "Pad"), item(FPE, "Pad")))
    row("Module::lines", "fp_lines", lambda: S.filter(els, of_kind(S, FPE, "FpLine"), item(FPE, "FpLine")))
    row("Layers::append", "fp_layers_append", None, lambda: S.with_("footprint::Layers", a, layers=append(
        S.F("footprint::Layers", a, "layers"), "l", [("el", Node(b))])), None, "footprint::Layers")
    row("Pad::set_net", "fp_pad_set_net", None, lambda: S.with_("footprint::Pad", a, net=some(b)), None, "footprint::Pad")
    row("Pad::set_drill", "fp_pad_set_drill", None, lambda: S.with_("footprint::Pad", a, drill=some(b)), None, "footprint::Pad")

    # boards
    bels = S.F(LAY, a, "elements")
    for kind, fn in (("Net", "lay_nets"), ("NetClass", "lay_netclasses"), ("Module", "lay_get_modules")):
        row("Layout: every " + kind, fn, lambda kind=kind: S.filter(bels, of_kind(S, LAE, kind), item(LAE, kind)))
    has_ref = of_kind(S, LAE, "Module", lambda m: S.any(S.F(FPM, m, "elements"), is_ref))
    row("Layout::get_module", "lay_get_module", lambda: S.first(bels, has_ref, item(LAE, "Module")))

    def module_edit(e):
        return S.variant(LAE, "Module", applied(c, S.payload(LAE, e, "Module")))
    row("Layout::modify_module", "lay_modify_module", lambda: ite(S.any(bels, has_ref), ok(UNITV), err()),
        lambda: S.with_(LAY, a, elements=S.replace_first(bels, has_ref, module_edit)[1]), None, LAY)
    row("Layout::add_net", "lay_add_net", None, lambda: S.with_(LAY, a, elements=append(bels, "l", [("el", Node(S.variant(LAE, "Net", agg(
        KP + "footprint::Net", 0, [b, agg(KP + "footprint::NetName", 0, [c])]))))])), None, LAY)
    nc = "layout::NetClass"
    ns = S.fields(nc)
    names = ["v%d" % i for i in range(len(ns))]
    row("Layout::add_netclass", "lay_add_netclass", None, lambda: S.with_(LAY, a, elements=append(bels, "l", [("el", Node(S.variant(
        LAE, "NetClass", agg(KP + nc, 0, [var(n) if f != "nets" else S.map(var(n), lambda e: agg(KP + "footprint::NetName", 0, [e]))
                                          for n, f in zip(names, ns)]))))])), None, LAY)
    row("NetClass::has_net", "lay_nc_has_net", lambda: S.any(S.F(nc, a, "nets"), lambda e: same(S.F("footprint::NetName", e, "0"), b)))
    se = "layout::SetupElement"
    sels = S.F("layout::Setup", a, "elements")
    named = lambda e: same(S.F(se, e, "name"), b)
    row("Setup::get", "lay_setup_get", lambda: S.first(sels, named, lambda e: S.F(se, e, "value1")))

    def setup_state():
        ex, l = S.replace_first(sels, named, lambda e: S.with_(se, e, value1=c))
        return S.with_("layout::Setup", a, elements=ite(ex, l, append(sels, "l", [("el", Node(agg(KP + se, 0, [b, c, none()])))])))
    row("Setup::update_element", "lay_setup_update", None, setup_state, None, "layout::Setup")

    # schematics
    ces = S.F(SCH, a, "elements")
    comp = of_kind(S, SCE, "Component")
    refd = of_kind(S, SCE, "Component", lambda t: same(S.F(CMP, t, "reference"), b))

    def comp_edit(f):
        return lambda e: S.variant(SCE, "Component", applied(f, S.payload(SCE, e, "Component")))
    row("Schematic::modify_component", "sch_modify_component", None, lambda: S.with_(SCH, a, elements=S.replace_first(ces, refd, comp_edit(c))[1]), None, SCH)
    row("Schematic::modify_components", "sch_modify_components", None, lambda: S.with_(SCH, a, elements=S.map(ces, lambda e: ite(comp(e), comp_edit(b)(e), e))), None, SCH)
    row("Schematic::components", "sch_components", lambda: S.filter(ces, comp, item(SCE, "Component")))
    row("Schematic::collect_components", "sch_collect_components", None, lambda: append(b, "l", list(
        pieces(leafof(S.filter(ces, comp, item(SCE, "Component")))))), None, None)
    row("Schematic::increment_sheet_count", "sch_increment_sheet_count", None, lambda: S.with_(SCH, a, description=S.with_(
        "schematic::Description", S.F(SCH, a, "description"), sheet_count=add(S.F("schematic::Description", S.F(SCH, a, "description"), "sheet_count"), K(1)))), None, SCH)
    fs = S.F(CMP, a, "fields")
    fnamed = lambda e: same(S.F(CFD, e, "name"), b)
    row("Component::get_field_value", "comp_get_field_value", lambda: S.first(fs, fnamed, lambda e: S.F(CFD, e, "value")))
    row("Component::get_field", "comp_get_field", lambda: S.first(fs, fnamed, lambda e: e))

    # symbol libraries
    row("SymbolLib::find", "sym_find", lambda: S.first(S.F(SYL, a, "symbols"), lambda e: asbool(K(mk("call", "apply", Node(b), Node(e)))), lambda e: e))
    row("Symbol::pins", "sym_pins", lambda: S.filter(S.F(SYM, a, "draw"), of_kind(S, "symbol_lib::Draw", "Pin"), item("symbol_lib::Draw", "Pin")))
    return out


def run_row(S, R, label, fn, res, state, ty, sty, through):
    key = S.find(fn)
    if key is None:
        return False

    def go(emit):
        names = None
        if S.P.fn(key).argc > 6:
            names = ["a"] + ["v%d" % i for i in range(S.P.fn(key).argc - 1)]
        fl, g, cells, v = S.run(key, names)
        S.facts = 1
        one(emit, label + " returns", g, label + " returns")
        if res is not None:
            if through:
                v = behind(S, fl, v)
            want = res()
            compare_value(S, emit, label + ": result", ty, v, want, BDD.AND(g, S.facts), "the result of " + label)
        if state is not None:
            S.facts = 1
            want = state()
            nm = "a" if "a" in cells else sorted(cells)[0]
            compare_value(S, emit, label + ": afterwards", sty, cells[nm], want, BDD.AND(g, S.facts), "the state left by " + label)
    R.many(label, go)
    R.functions.add(key)
    return True


def behind(S, fl, v):
    """an optional mutable reference as an optional value"""
    return BDD.map1(v, lambda x: K(x) if not isT(x, "agg") or x.args[1] == 0 else some(fl.deref(x.args[2].n, S.state)))


def one(emit, k, c, what):
    try:
        r = settle(c, what)
        emit(k, "ok" if r is None else "violation", r or "")
    except Undecided as e:
        emit(k, "undecided", str(e))


# -- C20 -----------------------------------------------------------------------
def flat(L):
    """a list that is a choice of lists as the choice"""
    return BDD.map1(L, lambda x: x.args[1][1].n if isT(x, "cat") and len(x.args) == 2 and x.args[1][0] == "alt" else K(x))


def above_all(N, L, f):
    """N exceeds f(e) for every element e of L: None, or why not"""
    i = mk("idx", Node(L), "above")
    c = BDD.NOT(exists(L, i, compare("Ge", f(elem(L, K(i))), N, False)))
    c = consistent(c)
    if c == 1:
        return None
    if not BDD.is_leaf(N):
        und = None
        for l in leaves(N):
            care = BDD.AND(indicator(N, {l}), nonempty(L))
            if care == 0:
                continue
            try:
                r = above_all(l, L, f)
            except Undecided as e:
                und = e
                continue
            if r is not None:
                return r
        if und is not None:
            raise und
        return None
    d = lin_of(leafof(N))
    if d is not None:
        k, ts = d
        if len(ts) == 1 and list(ts.values()) == [1] and k >= 1:
            t = list(ts)[0]
            if t.op == "folds" and t.args[0].n == L and len(t.args[2]) == 1:
                acc = K(mk("acc", t.args[1], 0))
                s = t.args[3][0].n
                x = f(elem(L, K(t.args[1])))
                if t.args[4].n == acc and consistent(compare("Ge", s, acc, False)) == 1 and consistent(compare("Ge", s, x, False)) == 1:
                    return None
                if not set(unknown_ops(s)) - {"acc"}:
                    return "the number chosen is not above every number in use: a running value that becomes %s" % render(s)[:200]
    bad = unknown_ops(N)
    if bad:
        raise Undecided("the number chosen depends on " + ", ".join(bad))
    return "the number chosen is above every number in use only if %s" % render(c)[:300]


class Fields(object):
    def __init__(self, S, emit):
        self.S = S
        self.emit = emit
        self.a = var("a")
        self.fs = S.F(CMP, self.a, "fields")

    def one(self, key, c, what):
        one(self.emit, key, c, what)

    def kept(self, label, got, care, but=()):
        """the other attributes of the component"""
        S = self.S
        for f in S.fields(CMP):
            if f != "fields" and f not in but:
                self.one("%s: keeps %s" % (label, f), BDD.OR(BDD.NOT(care), same(S.F(CMP, got, f), S.F(CMP, self.a, f))), "%s of the component after %s" % (f, label))

    def each(self, label, L, care, value, skip=("visible",)):
        """the fields in L are those of the component, in order, with the text
        value(field, new text) accepts"""
        S = self.S
        L = BDD.restrict(flat(L), care)
        self.one(label + ": as many fields", BDD.OR(BDD.NOT(care), same(length(L), length(self.fs))), "the number of fields after " + label)
        i = mk("idx", Node(self.fs), "each")
        e, e2 = elem(self.fs, K(i)), elem(L, K(i))
        for f in S.fields(CFD):
            if f in skip:
                continue
            if f == "value":
                c = value(e, S.F(CFD, e2, f))
            else:
                c = same(S.F(CFD, e, f), S.F(CFD, e2, f))
            self.one("%s: %s of every field" % (label, f), BDD.OR(BDD.NOT(care), BDD.NOT(exists(self.fs, i, BDD.NOT(c)))), "%s of every field after %s" % (f, label))

    def chosen(self, label, L, care, name, value):
        """the first field called name has the text value"""
        S = self.S
        L = BDD.restrict(flat(L), care)
        i = mk("idx", Node(self.fs), "each")
        cond = same(S.F(CFD, elem(self.fs, K(i)), "name"), name)
        ex = exists(self.fs, i, cond)
        pos = pick_pos("first", self.fs, i, cond)
        c = same(S.F(CFD, elem(L, pos), "value"), value)
        c = BDD.OR(BDD.NOT(BDD.AND(care, BDD.AND(ex, subst(cond, {i: pos})))), c)
        self.one(label + ": text of the named field", c, "the text of the field of that name after " + label)


def numbered(S, F, label, key, attr, number):
    fl, g, cells, v = S.run(key)
    got = cells["a"]
    b = var("b")
    F.one(label + " returns", g, label + " returns")
    F.one("%s: sets %s" % (label, attr), BDD.OR(BDD.NOT(g), same(S.F(CMP, got, attr), b)), "%s of the component after %s" % (attr, label))
    F.kept(label, got, g, (attr,))
    F.each(label, S.F(CMP, got, "fields"), g, lambda e, v2: same(v2, ite(BDD.map1(S.F(CFD, e, "i"), lambda x: inteq(x, number)), b, S.F(CFD, e, "value"))), ())


def by_name(S, F, label, L, care, name, value):
    def text(e, v2):
        old = S.F(CFD, e, "value")
        here = same(S.F(CFD, e, "name"), name)
        return BDD.OR(same(v2, old), BDD.AND(here, same(v2, value)))
    F.each(label, L, care, text)
    F.chosen(label, L, care, name, value)


def added(S, F, label, L, care, name, value):
    """L is the component's fields and one more"""
    L = BDD.restrict(flat(L), care)
    fs = F.fs
    want = None
    x = leafof(L)
    if not isT(x, "cat") or len(x.args) != 3 or x.args[1] != ("sp", leafof(fs)) or x.args[2][0] != "el":
        c = same(sub(length(L), length(fs)), K(1))
        F.one(label + ": one field more", BDD.OR(BDD.NOT(care), c), "the number of fields after " + label)
        raise Undecided("%s: the list of fields is not the old one with a field appended" % label)
    new = x.args[2][1].n
    F.emit(label + ": one field more", "ok")
    F.one(label + ": name of the new field", BDD.OR(BDD.NOT(care), same(S.F(CFD, new, "name"), name)), "the name of the field added by " + label)
    F.one(label + ": text of the new field", BDD.OR(BDD.NOT(care), same(S.F(CFD, new, "value"), value)), "the text of the field added by " + label)
    try:
        r = above_all(S.F(CFD, new, "i"), fs, lambda e: S.F(CFD, e, "i"))
        F.emit(label + ": number of the new field", "ok" if r is None else "violation", r or "")
    except Undecided as e:
        F.emit(label + ": number of the new field", "undecided", str(e))


def check_fields(R, P):
    S = Spec(P)
    n = [0]

    def group(label, fn, f):
        key = S.find(fn)
        if key is None:
            return
        R.many(label, lambda emit: f(key, Fields(S, emit)))
        R.functions.add(key)
        n[0] += 1
    b, c, d = var("b"), var("c"), var("d")
    group("update_reference", "comp_update_reference", lambda key, F: numbered(S, F, "update_reference", key, "reference", 0))
    group("update_name", "comp_update_name", lambda key, F: numbered(S, F, "update_name", key, "name", 1))

    def update_field(key, F):
        fl, g, cells, v = S.run(key)
        F.one("update_field returns", g, "update_field returns")
        F.kept("update_field", cells["a"], g)
        by_name(S, F, "update_field", S.F(CMP, cells["a"], "fields"), g, b, c)
    group("update_field", "comp_update_field", update_field)

    def avail(key, F):
        fl, g, cells, v = S.run(key)
        r = above_all(v, F.fs, lambda e: S.F(CFD, e, "i"))
        F.emit("get_available_field_num", "ok" if r is None else "violation", r or "")
    group("get_available_field_num", "comp_avail", avail)

    def add_new(key, F):
        fl, g, cells, v = S.run(key)
        F.one("add_new_field returns", g, "add_new_field returns")
        F.kept("add_new_field", cells["a"], g)
        added(S, F, "add_new_field", S.F(CMP, cells["a"], "fields"), g, c, d)
    group("add_new_field", "comp_add_new", add_new)

    def add_or_update(key, F):
        fl, g, cells, v = S.run(key)
        lab = "add_or_update_field"
        got = cells["a"]
        S.facts = 1
        old = S.first(F.fs, lambda e: same(S.F(CFD, e, "name"), c), lambda e: S.F(CFD, e, "value"))
        there = is_variant(old, 1, 2)
        was = fld(old, 1, 0, (OPT, 1))
        equal = same(was, d)
        FU = "schematic::FieldUpdate"
        want = ite(there, ite(equal, S.variant(FU, "Same"), S.variant(FU, "Update", was)), S.variant(FU, "New"))
        F.one(lab + " returns", g, lab + " returns")
        g = BDD.AND(g, S.facts)
        compare_value(S, F.emit, lab + ": answer", FU, v, want, g, "the answer of " + lab)
        F.kept(lab, got, g)
        L = S.F(CMP, got, "fields")
        by_name(S, F, lab + " (existing)", L, BDD.AND(g, there), c, d)
        added(S, F, lab + " (new)", L, BDD.AND(g, BDD.NOT(there)), c, d)
    group("add_or_update_field", "comp_add_or_update", add_or_update)

    def truth(key, F):
        fl, g, cells, v = S.run(key)
        F.one("answer as truth value", BDD.AND(g, BDD.IFF(asbool(v), BDD.NOT(S.is_("schematic::FieldUpdate", F.a, "Same")))), "the truth value of an answer")
    group("FieldUpdate into bool", "fieldupdate_bool", truth)

    def symbol(key, F):
        fl, g, cells, v = S.run(key)
        got = cells["a"]
        F.one("Symbol::set_name returns", g, "Symbol::set_name returns")
        nm = S.F(SYM, F.a, "name")
        FLD = "symbol_lib::Field"
        want = S.with_(SYM, F.a, fields=S.map(S.F(SYM, F.a, "fields"), lambda e: ite(
            BDD.map1(S.F(FLD, e, "i"), lambda x: inteq(x, 1)), S.with_(FLD, e, value=b), e)))
        for f in S.fields(SYM):
            if f == "name":
                continue
            F.one("Symbol::set_name: " + f, BDD.OR(BDD.NOT(g), same(S.F(SYM, got, f), S.F(SYM, want, f))), "%s after Symbol::set_name" % f)
        last = BDD.map1(S.F(SYM, got, "name"), lambda x: ends_in(x, b))
        F.one("Symbol::set_name: name", BDD.OR(BDD.NOT(g), last), "the name after Symbol::set_name")
    group("Symbol::set_name", "sym_set_name", symbol)
    return n[0]


def ends_in(x, b):
    """a text that is b, or the mark of a hidden name and b"""
    if isT(x, "cat"):
        ps = x.args[1:]
        if len(ps) == 2 and ps[1] == ("sp", leafof(b)) and ps[0] in (("lit", "~"),):
            return 1
        if len(ps) == 2 and ps[1] == ("sp", leafof(b)) and ps[0][0] == "opt" and ps[0][2] == (("lit", "~"),):
            return 1
    return same(K(x), b)


# -- C23 -----------------------------------------------------------------------
LOAD = KP + "schematic::parse_file"
PARSE = KP + "schematic::parse"
ALL = KP + "schematic::Schematic::all_components"
BYREF = KP + "schematic::Schematic::component_by_reference"


def called(name, *args):
    return K(mk("call", name, *[Node(a) for a in args]))


def check_sheets(R, P):
    TRUSTED.update([LOAD, PARSE, ALL, BYREF])
    S = Spec(P)
    SHT = "schematic::Sheet"
    a, b = var("a"), var("b")
    n = [0]

    def group(label, fn, stops, f):
        key = S.find(fn)
        if key is None:
            return

        def go(emit):
            S.facts = 1
            fl, g, cells, v = S.run(key, stop=lambda i: i["path"] in stops)
            one(emit, label + " returns", g, label + " returns")
            f(emit, v)
        R.many(label, go)
        R.functions.add(key)
        n[0] += 1

    def path(s, sheet):
        """(where the file of a sheet is, can that be said)"""
        fn = S.F(SCH, s, "filename")
        dr = K(mk("path_parent", Node(fld(fn, 1, 0, (OPT, 1)))))
        return K(mk("path_join", Node(fld(dr, 1, 0, (OPT, 1))), Node(S.F(SHT, sheet, "filename")))), BDD.AND(is_variant(fn, 1, 2), is_variant(dr, 1, 2))

    def compare(emit, label, got, want):
        isok = is_variant(want, 0, 2)
        for lab, c in ((": succeeds exactly when it should", BDD.IFF(is_variant(got, 0, 2), isok)),
                       (": what it returns", BDD.OR(BDD.NOT(BDD.AND(isok, S.facts)), same(fld(got, 0, 0, (RES, 1)), fld(want, 0, 0, (RES, 1)))))):
            one(emit, label + lab, BDD.OR(BDD.NOT(S.facts), c), label + lab)

    def filename(emit, v):
        p, c = path(a, b)
        compare(emit, "filename_for_sheet", v, ite(c, ok(p), err()))
    group("filename_for_sheet", "f_filename_for_sheet", [], filename)

    def load(s, sheet):
        p, c = path(s, sheet)
        r = called(LOAD, p)
        return ite(c, ite(is_variant(r, 0, 2), ok(fld(r, 0, 0, (RES, 1))), err()), err())

    def loading(emit, v):
        compare(emit, "parse_file_for_sheet", v, load(a, b))
    group("parse_file_for_sheet", "f_parse_file_for_sheet", [LOAD], loading)

    def everything(emit, v):
        sheets = S.F(SCH, a, "sheets")
        i = S.idx(sheets)
        l = load(a, elem(sheets, K(i)))
        sub = called(ALL, fld(l, 0, 0, (RES, 1)))
        bad = BDD.OR(is_variant(l, 1, 2), is_variant(sub, 1, 2))
        own = S.filter(S.F(SCH, a, "elements"), of_kind(S, SCE, "Component"), lambda e: S.payload(SCE, e, "Component"))
        okc = BDD.NOT(exists(sheets, i, bad))
        got = fld(v, 0, 0, (RES, 1))
        one(emit, "all_components: fails exactly when a sheet fails", BDD.IFF(is_variant(v, 0, 2), okc), "all_components succeeds")
        p, c = path(a, elem(sheets, K(i)))
        inner = fld(called(ALL, fld(called(LOAD, p), 0, 0, (RES, 1))), 0, 0, (RES, 1))
        want = append(own, "l", [("rep", Node(sheets), i, (("sp", leafof(inner)),))])
        one(emit, "all_components: what it returns", BDD.OR(BDD.NOT(okc), same(BDD.restrict(got, okc), want)), "the result of all_components")
    group("all_components", "sch_all_components", [LOAD], everything)

    def lookup(emit, v):
        els, sheets = S.F(SCH, a, "elements"), S.F(SCH, a, "sheets")
        own = S.first(els, of_kind(S, SCE, "Component", lambda t: same(S.F(CMP, t, "reference"), b)), lambda e: S.payload(SCE, e, "Component"))
        c = is_variant(own, 1, 2)
        one(emit, "component_by_reference: one of the schematic itself", BDD.OR(BDD.NOT(BDD.AND(S.facts, c)), same(v, ok(fld(own, 1, 0, (OPT, 1))))), "component_by_reference finds a component of the schematic")
        i = S.idx(sheets)

        def inner(e):
            p, cc = path(a, e)
            l = called(LOAD, p)
            r = called(BYREF, fld(l, 0, 0, (RES, 1)), b)
            return cc, l, r
        cc, l, r = inner(elem(sheets, K(i)))
        loaded = BDD.AND(cc, is_variant(l, 0, 2))
        # the walk ends at the first sheet that has the component or cannot be loaded
        ends = BDD.OR(BDD.NOT(loaded), is_variant(r, 0, 2))
        ex = exists(sheets, i, ends)
        pos = pick_pos("first", sheets, i, ends)
        cc2, l2, r2 = inner(elem(sheets, pos))
        loaded2 = BDD.AND(cc2, is_variant(l2, 0, 2))
        facts = BDD.OR(BDD.NOT(ex), BDD.OR(BDD.NOT(loaded2), is_variant(r2, 0, 2)))
        rest = BDD.AND(BDD.NOT(c), facts)
        one(emit, "component_by_reference: absent everywhere", BDD.OR(BDD.NOT(BDD.AND(rest, BDD.NOT(BDD.AND(ex, loaded2)))), is_variant(v, 1, 2)), "component_by_reference reports a missing component")
        at = BDD.AND(BDD.AND(rest, ex), loaded2)
        one(emit, "component_by_reference: one of a sheet", BDD.OR(BDD.NOT(at), same_where(v, r2, at)), "component_by_reference finds a component of a sheet")
    group("component_by_reference", "sch_component_by_reference", [LOAD], lookup)

    def whole(emit, v):
        """a file is parsed under its own name"""
        calls = terms_in(v, lambda t: t.op == "call" and t.args[0] == PARSE)
        for t in calls:
            one(emit, "parse_file: name kept", same(t.args[1].n, some(a)), "the name a schematic file is parsed under")
        emit("parse_file: parses", "ok" if calls else "undecided", "")
    group("parse_file", "f_sch_parse_file", [PARSE], whole)
    return n[0]


def same_where(a, b, care):
    return same(BDD.restrict(a, care), BDD.restrict(b, care))


def check(prop, P):
    R = Report(prop, TECH)
    if prop == "C20":
        R.floor("operations_compared", check_fields(R, P), 8)
        return R.finish()
    if prop == "C23":
        R.assumptions = ["loading a file has no effect on later loads (files do not change meanwhile)"]
        R.floor("operations_compared", check_sheets(R, P), 5)
        return R.finish()
    R.assumptions = ["function arguments (predicates, edits) change nothing but the item they are given"]
    S = Spec(P)
    n = 0
    for r in rows(S):
        n += run_row(S, R, *r)
    R.floor("operations_compared", n, 34)
    return R.finish()
