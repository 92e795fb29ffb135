"""C22: effects reachable from the readers of texts and the printers of values.

Every function that can be called from a reader or printer - directly, through
a function value, a closure or a method table - is visited, and every place
where it leaves the code that is available is classified: operations on the
values they are given, operations on the world (files, environment, clock,
randomness, processes, threads, standard streams, changeable globals), or
operations whose outcome depends on where a value happens to be in memory or
in a hash table."""
import re

from report import Report

READERS = ["fp_read", "lay_read", "flt_read", "sch_read", "sch_parse", "sym_read", "prj_read"]
WRITERS = ["fp_write", "lay_write", "flt_write", "sch_write", "sym_write"]

WORLD = [
    (r"^std::io::(_e?print|std(in|out|err)|Std|copy|stdio)|^<std::io::(Std|stdio)", "uses a standard stream"),
    (r"^<?&?std::fs::|^std::fs|^<std::fs::|<std::path::Path>::(exists|is_file|is_dir|metadata|canonicalize|read_)|"
     r"^std::path::Path::(exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|canonicalize|read_dir|read_link|try_exists)", "uses the file system"),
    (r"^std::env::|^<std::env::|^shellexpand::", "uses the environment"),
    (r"^std::time::|^<std::time::|^std::sys::time", "uses the clock"),
    (r"^std::process::|^<std::process::", "uses processes"),
    (r"^std::net::|^<std::net::", "uses the network"),
    (r"^std::thread::|^<std::thread::", "uses threads or thread-local state"),
    (r"^std::(sync|cell)::(atomic|mpsc|Mutex|RwLock|Once|LazyLock|poison)|^<std::sync::(atomic|Mutex|RwLock|Once|LazyLock|poison)|^core::sync::atomic",
     "uses shared state"),
    (r"RandomState::hash_one|hash::random|^std::hash::RandomState::build_hasher|<std::hash::(random::)?RandomState as std::hash::BuildHasher>", "uses a random hash"),
    (r"^<\*(const|mut) .* as std::fmt::(Debug|Pointer)>|fmt::Pointer(>| for )", "prints an address"),
]
HASHED = re.compile(r"(Hash(Map|Set)::<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if|union|intersection|difference|symmetric_difference))"
                    r"|hash_(map|set)::(Iter|IterMut|IntoIter|Keys|Values|ValuesMut|Drain|IntoKeys|IntoValues)\b"
                    r"|std::collections::Hash(Map|Set)<.*> as std::(iter::IntoIterator|fmt::Debug)")
ORDERS = re.compile(r"::sort|BTreeMap|BTreeSet|::max|::min|::count|::sum|::any|::all")
# operations on their arguments only
LOCAL = [re.compile(x) for x in (
    r"^std::path::(Path|PathBuf|Component)", r"^<&?(mut )?std::path::", r"^std::ffi::", r"^<&?std::ffi::",
    r"^std::f64::", r"^std::f32::", r"^std::collections::Hash(Map|Set)::<", r"^<std::collections::Hash(Map|Set)<",
    r"^std::collections::hash_(map|set)::", r"^<std::collections::hash_(map|set)::", r"^<&'a std::collections::",
    r"^std::rt::(begin_panic|panic)", r"^std::io::(Error|Write|Read|Cursor|BufRead|BufReader|BufWriter)", r"^<std::io::(Error|Cursor|BufReader|BufWriter)",
    r"^<std::io::", r"^<&mut .* as std::io::", r"^<std::vec::Vec<u8.*> as std::io::", r"^std::error::", r"^<std::env::VarError",
    r"^std::panicking::", r"^std::hash::RandomState::new", r"^std::ascii::", r"^<std::hash::(random::)?RandomState as std::default",
)]
FACADE = re.compile(r"^log::|^<log::")


def refs(x, insts, out, statics):
    """instances and changeable statics mentioned in a body"""
    st = [x]
    while st:
        v = st.pop()
        if isinstance(v, str):
            if v in insts:
                out.add(v)
        elif isinstance(v, list):
            st += v
        elif isinstance(v, dict):
            if "static" in v:
                statics.add(v["static"])
            st += list(v.values())


def adts(P, ty, out, depth=0):
    """types of the library inside a type"""
    if not isinstance(ty, int) or ty < 0 or depth > 6:
        return out
    t = P.types[ty]
    if t["k"] == "adt":
        if t["crate"] in ("kicad_parse_gen", "symbolic_expressions"):
            out.add(t["name"])
        for a in t["args"]:
            adts(P, a, out, depth + 1)
    elif t["k"] in ("ref", "ptr"):
        adts(P, t["to"], out, depth + 1)
    elif t["k"] in ("slice", "array"):
        adts(P, t["elem"], out, depth + 1)
    elif t["k"] == "tuple":
        for a in t["elems"]:
            adts(P, a, out, depth + 1)
    return out


def fndefs(P, x, out):
    """functions mentioned as values"""
    st = [x]
    while st:
        v = st.pop()
        if isinstance(v, list):
            if len(v) > 2 and v[0] == "const" and isinstance(v[1], int) and P.types[v[1]]["k"] == "fndef" and P.types[v[1]].get("inst"):
                out.add(P.types[v[1]]["inst"])
            st += v
        elif isinstance(v, dict):
            st += list(v.values())


def graph(P):
    """callees of every function; a call through a method table may reach every implementation in some table"""
    virt = {}
    for k, vt in P.vtables.items():
        for i, x in enumerate(vt):
            if x:
                virt.setdefault(i, set()).add(x)
    succ, stat = {}, {}
    for k, b in P.raw.items():
        o, s = set(), set()
        refs(b["blocks"], P.insts, o, s)
        fndefs(P, b["blocks"], o)
        for x in list(o):
            i = P.insts[x]
            if i["kind"] == "virtual":
                o |= virt.get(i["vidx"], set())
        if P.insts[k]["crate"] == "kicad_parse_gen" and "PointerExpose" in str(b["blocks"]):
            s.add("the address of a value")
        succ[k] = o
        stat[k] = s
    impls = {}
    for k, i in P.insts.items():
        m = re.match(r"^<(.*) as (std::[\w:]+).*>::(\w+)$", i["name"])
        if m and k in P.raw:
            impls.setdefault((m.group(1), m.group(2)), set()).add(k)
    for k, i in P.insts.items():
        if k not in succ:
            # a library function that is not available uses its type arguments through their traits
            o = succ[k] = set()
            m = re.search(r" as (std::[\w:]+)", i["path"]) or re.search(r"std::(?:fmt::)?(\w+) for", i["path"])
            for a in i["args"]:
                for t in adts(P, a, set()):
                    for tr in ([m.group(1)] if m else ["std::clone::Clone", "std::cmp::PartialEq", "std::fmt::Display"]):
                        o |= impls.get((t, tr), set())
        stat.setdefault(k, set())
    return succ, stat


def check(prop, P):
    R = Report(prop, "Effect analysis over the call graph of the compiled program: from every reader of a text and every printer of a value, "
                     "all reachable functions (direct calls, function values, closures, methods of trait objects) are visited; each call "
                     "that leaves the analysed code is classified as working on its arguments only or as touching the world (files, "
                     "environment, clock, randomness, threads, standard streams), each mention of a global that can change and each "
                     "iteration in hash order is an effect. An effect reachable from a root is a violation, reported with its call path.")
    succ, stat = graph(P)
    roots = {}
    for n in READERS + WRITERS:
        roots[n] = P.root(n)
    for k, i in P.insts.items():
        # printing of single values
        if i["crate"] == "kicad_parse_gen" and k in P.raw and re.search(r" as std::(fmt::Display|string::ToString|str::FromStr|default::Default|clone::Clone|cmp::PartialEq)", i["name"]):
            roots.setdefault(i["name"], k)
        if i["crate"] == "kicad_parse_gen" and k in P.raw and re.search(r" as symbolic_expressions::iteratom::(FromSexp|IntoSexp)|IntoSexp for|FromSexp for|SexpTree", i["name"]):
            roots.setdefault(i["name"], k)
    seen_fn = set()
    ext = set()
    kinds = dict((k, classify(i)) for k, i in P.insts.items())
    for n in sorted(roots):
        r = roots[n]
        par = {r: None}
        st = [r]
        effects = {}
        unknown = {}
        while st:
            k = st.pop()
            info = P.insts[k]
            if k in P.raw and info["crate"] in ("kicad_parse_gen", "symbolic_expressions"):
                seen_fn.add(info["name"])
            for s in stat[k]:
                effects.setdefault((caller(P, par, k), s, "uses a global that can change"), (k, None))
            for x in succ[k]:
                path = P.insts[x]["path"]
                what = kinds[x]
                if what is not None:
                    ext.add(path)
                if what == "hashed":
                    if any(ORDERS.search(P.insts[y]["path"]) for y in succ[near(P, par, k)]):
                        unknown[path] = (k, x, "iterates in hash order next to an operation that restores an order")
                        continue
                    what = "!depends on hash order"
                if what and what[0] == "!":
                    effects.setdefault((caller(P, par, k), path, what[1:]), (k, x))
                    continue
                if what and what[0] == "?":
                    unknown[path] = (k, x, what[1:])
                    continue
                if what == "facade":
                    # the logging facade gets no value back from the logger
                    continue
                if x not in par:
                    par[x] = k
                    st.append(x)
        for (c, path, bad), (k, x) in sorted(effects.items(), key=lambda e: e[0]):
            R.add("%s: %s %s" % (short(c), bad, path), "violation",
                  "%s: reached from %s by %s" % (bad, n, " -> ".join(chain(P, par, k) + [path])))
        for path, (k, x, why) in sorted(unknown.items()):
            R.add("%s: %s" % (n, path), "undecided", "%s %s (%s)" % (path, why, " -> ".join(chain(P, par, k))))
        if not effects and not unknown:
            R.add(n, "ok")
    R.functions |= seen_fn
    R.floor("reachable functions of the library", len(seen_fn), 550)
    R.floor("readers and printers", len(roots), 100)
    R.counts["operations outside the analysed code"] = len(ext)
    # the rule must know an effect when it sees one
    pos = 0
    for n in ("f_read_file", "f_write_file", "flt_expand"):
        st, seen = [P.root(n)], set()
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            st += list(succ[k])
        if any(re.search(rx, P.insts[k]["path"]) for k in seen for rx, _ in WORLD):
            pos += 1
    R.floor("positive examples recognised", pos, 3)
    R.samples = sorted(seen_fn)[:12]
    R.assumptions = ["Functions of the standard library that are not in the list of effects work on their arguments only.",
                     "The logging facade returns nothing to the code that logs."]
    return R.finish()


def classify(i):
    """None: part of the analysed code, '!..': an effect, '?..': unknown, 'hashed', 'facade', 'local'"""
    path, name, c = i["path"], i["name"], i["crate"]
    if c in ("kicad_parse_gen", "symbolic_expressions", "probe"):
        return None
    if FACADE.search(path):
        return "facade"
    for rx, what in WORLD:
        if re.search(rx, path) or re.search(rx, name):
            return "!" + what
    if HASHED.search(path) or HASHED.search(name):
        return "hashed"
    if i["kind"] == "item":
        if c == "std" and not any(x.search(path) or x.search(name) for x in LOCAL):
            return "?is not classified"
        if c not in ("std", "core", "alloc"):
            return "?is in a library that is not classified"
    return "local"


def near(P, par, k):
    while par[k] is not None and P.insts[k]["crate"] not in ("kicad_parse_gen", "symbolic_expressions"):
        k = par[k]
    return k


def caller(P, par, k):
    """nearest function of the library on the way to k"""
    while k is not None:
        i = P.insts[k]
        if i["crate"] in ("kicad_parse_gen", "symbolic_expressions") and k in P.raw:
            return i["name"]
        k = par[k]
    return "?"


def chain(P, par, k):
    out = []
    while k is not None:
        out.append(short(P.insts[k]["name"]))
        k = par[k]
    return out[::-1]


def short(n):
    return n.replace("kicad_parse_gen::", "")
