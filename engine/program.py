"""The dumped program: types, instances, bodies."""
import json


class Fn(object):
    __slots__ = ("key", "info", "body", "argc", "locals", "blocks", "spread", "file", "line",
                 "regions", "path", "crate", "vars", "_succ")

    def __init__(self, key, info, body):
        self.key = key
        self.info = info
        self.body = body
        self.argc = body["argc"]
        self.locals = body["locals"]
        self.blocks = body["blocks"]
        self.spread = body["spread"]
        self.file = body["file"]
        self.line = body["line"]
        self.path = info["path"]
        self.crate = info["crate"]
        self.vars = body["vars"]
        self.regions = {}
        self._succ = None

    def succ(self, b):
        if self._succ is None:
            self._succ = [self._succs(i) for i in range(len(self.blocks))]
        return self._succ[b]

    def _succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] >= 0 else []
        if k == "assert":
            return [t[4]]
        return []


class Program(object):
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.insts = d["insts"]
        self.raw = d["fns"]
        self.vtables = d["vtables"]
        self.roots = dict((n, k) for n, k in d["roots"])
        self.defs = d["defs"]
        self.adts = d["adts"]
        self._fns = {}
        self._eq = None
        self._adt_ids = {}
        for i, t in enumerate(self.types):
            if t["k"] == "adt":
                self._adt_ids.setdefault(t["name"], []).append(i)
        for t in self.types:
            if t["k"] == "closure" and isinstance(t["upvars"], int):
                t["upvars"] = self.types[t["upvars"]].get("elems", [])

    def fn(self, key):
        f = self._fns.get(key)
        if f is None:
            b = self.raw.get(key)
            if b is None:
                return None
            f = Fn(key, self.insts[key], b)
            self._fns[key] = f
        return f

    def root(self, name):
        k = self.roots.get("probe::" + name) or self.roots.get(name)
        if k is None:
            raise KeyError("probe function %s not found" % name)
        return k

    def eq_impl(self, name):
        """key of the equality a type of the program defines or derives"""
        if self._eq is None:
            self._eq = {}
            for k, i in self.insts.items():
                if i["name"].startswith("<") and i["name"].endswith(" as std::cmp::PartialEq>::eq") and k in self.raw:
                    self._eq[i["name"][1:-len(" as std::cmp::PartialEq>::eq")]] = k
        return self._eq.get(name)

    def ty(self, i):
        return self.types[i]

    def adt(self, name):
        """type ids of an ADT by path"""
        return self._adt_ids.get(name, [])

    def tyname(self, i, depth=0):
        if i is None or i < 0:
            return "?"
        t = self.types[i]
        k = t["k"]
        if k == "adt":
            a = t["args"]
            s = t["name"]
            if a and depth < 4:
                s += "<" + ", ".join(self.tyname(x, depth + 1) if isinstance(x, int) else str(x) for x in a) + ">"
            return s
        if k == "ref":
            return "&" + ("mut " if t["mut"] else "") + self.tyname(t["to"], depth + 1)
        if k == "ptr":
            return "*" + self.tyname(t["to"], depth + 1)
        if k == "int":
            return ("i" if t["signed"] else "u") + str(t["bits"])
        if k == "float":
            return t["name"].lower()
        if k == "slice":
            return "[%s]" % self.tyname(t["elem"], depth + 1)
        if k == "array":
            return "[%s; %d]" % (self.tyname(t["elem"], depth + 1), t["len"])
        if k == "tuple":
            return "(" + ", ".join(self.tyname(x, depth + 1) for x in t["elems"]) + ")"
        if k in ("closure", "fndef", "dyn"):
            return k + " " + t["name"]
        return k


def sccs(nodes, succ):
    """Tarjan, returns components in reverse topological order"""
    index = {}
    low = {}
    onst = set()
    st = []
    out = []
    cnt = [0]
    for root in nodes:
        if root in index:
            continue
        work = [(root, iter([s for s in succ(root)]))]
        index[root] = low[root] = cnt[0]
        cnt[0] += 1
        st.append(root)
        onst.add(root)
        while work:
            n, it = work[-1]
            adv = False
            for s in it:
                if s not in nodes_set(nodes):
                    continue
                if s not in index:
                    index[s] = low[s] = cnt[0]
                    cnt[0] += 1
                    st.append(s)
                    onst.add(s)
                    work.append((s, iter([x for x in succ(s)])))
                    adv = True
                    break
                elif s in onst:
                    low[n] = min(low[n], index[s])
            if adv:
                continue
            work.pop()
            if work:
                p = work[-1][0]
                low[p] = min(low[p], low[n])
            if low[n] == index[n]:
                comp = []
                while True:
                    x = st.pop()
                    onst.discard(x)
                    comp.append(x)
                    if x == n:
                        break
                out.append(comp)
    return out


_ns_cache = [None, None]


def nodes_set(nodes):
    if _ns_cache[0] is nodes:
        return _ns_cache[1]
    _ns_cache[0] = nodes
    _ns_cache[1] = set(nodes)
    return _ns_cache[1]


def region_order(fn, blocks, header):
    """Topological order of the blocks of a region with edges to `header`
    removed and inner loops collapsed.  Returns a list of items: either an
    int (plain block) or ("loop", header, frozenset)."""
    key = (header, blocks)
    r = fn.regions.get(key)
    if r is not None:
        return r
    blk = sorted(blocks)

    def succ(b):
        return [s for s in fn.succ(b) if s in blocks and s != header]
    comps = sccs(blk, succ)
    comps.reverse()
    # entry points of inner loops
    preds = {}
    for b in blk:
        for s in fn.succ(b):
            if s in blocks:
                preds.setdefault(s, []).append(b)
    order = []
    for c in comps:
        if len(c) == 1 and c[0] not in succ(c[0]):
            order.append(c[0])
        else:
            cs = frozenset(c)
            heads = [b for b in c if any(p not in cs for p in preds.get(b, []))]
            if not heads:
                heads = [min(c)]
            if len(heads) > 1:
                heads = [min(heads)]
            order.append(("loop", heads[0], cs))
    fn.regions[key] = order
    return order


def reachable(fn, start=0):
    seen = set()
    todo = [start]
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        seen.add(b)
        todo.extend(fn.succ(b))
    return frozenset(seen)
