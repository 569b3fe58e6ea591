"""C31: what purging removes, with one collection that has no address (or no name) among unknown others."""
import esp
import witness
from checks.c07 import mk
from checks.common import CardsSpec, parallel, parts

URL, DEPOT, NAME = "cards::DirUrl::url", "cards::DirUrl::depot", "cards::DirUrl::collection"
LIST = ("f", "cards::conf::m_dirUrl")
X = ("w", "collection")
FOLLOW, DOTFILES = 2, 4
REMOVERS = frozenset({"remove", "unlink", "rmdir", "remove_all", "unlinkat", "rename", "truncate"})
SCANS = frozenset({"findRecursiveFile", "findFile", "findDir", "parseFile"})
#   name        address             directory name          what may be removed
WORLDS = {
    "local":   (("empty",), ("w", "name"), ("w", "depot"), "a collection without a remote address"),
    "unnamed": (("w", "address"), ("empty",), ("empty",), "a configuration line that names no directory"),
    "remote":  (("w", "address"), ("w", "name"), ("w", "depot"), None),
}


class Purge(witness.Witness):
    coarse = True
    max_states = 2000000

    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.url, self.name, self.depot, self.never = WORLDS[world]
        self.terms = {LIST: ("set", (X,), (), (("others", "any"),), 1), ("fld", URL, X): self.url,
                      ("fld", NAME, X): self.name, ("fld", DEPOT, X): self.depot}
        self.scans = 0

    def interest(self, n):
        return n.rsplit("::", 1)[-1] in REMOVERS | SCANS

    def worth(self, v):
        return v[0] in ("s", "empty") or v[0] == "call" and esp.mentions(v, lambda t: t[0] in ("w", "empty"))

    def distinct(self, a, b):
        return a[0] == "w" and b[0] in ("s", "empty")

    def concerns(self, v):
        return v is not None and esp.mentions(v, lambda t: t in (X, ("w", "name"), ("w", "depot"), ("w", "content")))

    def intercept(self, q, c):
        b = c.base()
        if b in SCANS and len(c.args) >= 2:
            path = self.resolve(c, c.args[1])
            p = parts(path) if path is not None else []
            own = self.concerns(path) or self.world == "unnamed" and p and all(x[0] == "s" for x in p) and c.fn.cls == "cards::conf"
            cell = c.eng.cell(c.fn, c.node["a"][0], True, c.env)
            if cell is None:
                return None
            old = c.args[0] if witness.is_set(c.args[0]) else mk()
            if not own:
                return [(q, None, {cell: self.add(old, ("o", "files", "any"))})]
            self.scans += 1
            if self.world == "remote":
                whole = self.inside(p)
                if whole is False:
                    c.report("what is purged is not the directory of the collection with an address", ("wider", c.fn.name))
                spec = c.args[2] if len(c.args) > 2 else None
                if spec is not None and spec[0] == "c" and spec[1] & FOLLOW:
                    c.report("links are followed out of the directory of the collection", ("links", c.fn.name))
            return [(q, None, {cell: self.add(old, ("w", "content"))})]
        if b in REMOVERS and not c.targets and c.args:
            v = self.resolve(c, c.args[0])
            self.events += 1
            if self.never and self.concerns(v):
                c.report("files of %s are removed" % self.never, ("removed", self.world, c.fn.name))
            return [(q, None)]
        return None

    def inside(self, p):
        """is the path the depot, a separator, the name and nothing that leads out again"""
        if any(x == ("?",) for x in p):
            return None
        i = [k for k, x in enumerate(p) if x in (("w", "depot"), ("fld", DEPOT, X))]
        j = [k for k, x in enumerate(p) if x in (("w", "name"), ("fld", NAME, X))]
        if not i or not j or i[0] != 0 or j[0] <= i[0]:
            return False
        if "/" not in "".join(x[1] for x in p[:j[0]] if x[0] == "s"):
            return False
        rest = "".join(x[1] for x in p[j[0] + 1:] if x[0] == "s")
        return ".." not in rest and (not rest or rest[0] == "/")


class Configured(CardsSpec):
    """q = flags while the configuration is read: remote (the line has an address), given (the entry being made has
    one)"""
    def __init__(self):
        self.pushed = self.stores = self.asked = 0

    def calls(self, n):
        return n.rsplit("::", 1)[-1] in ("push_back", "emplace_back", "insert", "fgets", "getline")

    def keep(self, v):
        return v[0] in ("c", "s", "empty")

    def track(self, a):
        return False

    def on_call(self, q, c):
        b = c.base()
        o = c.fn.ex.get(c.node.get("o"), {})
        if b in ("find", "find_first_of", "strchr", "rfind", "find_last_of", "contains") and any(
                a in (("c", ord("|")), ("s", "|")) for a in c.args):
            self.asked += 1
            there, none = (("c", 1), ("c", 0)) if b in ("strchr", "contains") else (("c", 5), ("c", -1))
            return [(q | {"remote"}, there), (q - {"remote"}, none)]
        if b in ("fgets", "getline") and not c.targets:
            return [(q - {"remote"}, None)]
        if c.node["k"] == "ctor" and c.name and c.name.endswith("DirUrl") and not c.args:
            return [(q - {"given"}, None)]
        if o.get("q") == URL and (c.node.get("op") == "=" or b in ("assign", "append", "clear")):
            self.stores += 1
            v = c.args[0] if c.args else ("empty",)
            empty = v is not None and (v[0] == "empty" or v == ("s", ""))
            return [(q - {"given"} if empty else q | {"given"}, None)]
        if b in ("push_back", "emplace_back", "insert") and o.get("q") == LIST[1]:
            self.pushed += 1
            if "given" in q and "remote" not in q:
                c.report("a collection whose line has no address is recorded with one", ("address", c.fn.name))
        return None


LINK, DIRECTORY = 0o120000, 0o040000


class Links(CardsSpec):
    """q = how the entry at hand, a link to a directory, was looked at: "", "link" or "target" """
    def __init__(self, root):
        self.root = root
        self.looked = 0

    def calls(self, n):
        return n.rsplit("::", 1)[-1] in ("lstat", "stat", "fstatat", "opendir")

    def keep(self, v):
        return v[0] in ("c",)

    def on_call(self, q, c):
        b = c.base()
        if not c.targets and b in ("stat", "lstat", "stat64", "lstat64", "fstatat"):
            self.looked += 1
            link = b.startswith("l") or b == "fstatat" and c.args and c.args[-1] is not None and \
                c.args[-1][0] == "c" and c.args[-1][1] & 0x100
            return [("link" if link else "target", ("c", 0))]
        if any(t.key == self.root.key for t in c.targets):
            if q in ("link", "target"):
                c.report("the scan goes through a link to a directory elsewhere", ("through", c.fn.name))
            return [(q, ("c", 0))]
        return None

    def on_assume(self, q, atom, truth, c):
        if not q or atom[0] != "eq" or atom[2] not in (LINK, DIRECTORY):
            return q
        return q if truth == ((q == "link") == (atom[2] == LINK)) else None


def check(prog, res):
    fns = prog.fn("cards::conf::purge")
    jobs = [(f.key, w) for f in fns for w in WORLDS]

    def work(job):
        key, w = job
        spec = Purge(prog, w)
        eng = witness.WEngine(prog, spec)
        ends = sum(1 for k, *_ in eng.run(prog.fns[key], frozenset(), dyncls=prog.fns[key].cls) if k == "ret")
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, ends, spec.scans, spec.events
    cov = {}
    for (key, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        cov[w] = {"states": r[1], "normal_ends": r[4], "scans_of_its_directory": r[5], "removals": r[6]}
    res.coverage["purging"] = cov
    spec = Configured()
    eng = esp.Engine(prog, spec)
    for f in prog.fn("cards::conf::conf"):
        if f.params and not f.copyctor:
            eng.run(f, frozenset(), dyncls=f.cls)
    res.from_engine(eng)
    res.coverage["reading the configuration"] = {"states": eng.nstates, "separators_looked_for": spec.asked,
                                                 "addresses_stored": spec.stores, "collections_recorded": spec.pushed}
    for f in prog.fn("findRecursiveFile"):
        spec = Links(f)
        eng = esp.Engine(prog, spec)
        eng.run(f, "", env={("v", f.params[2]["d"]): ("c", 1)} if len(f.params) > 2 else {})
        res.from_engine(eng)
        res.coverage["scan"] = {"states": eng.nstates, "entries_looked_at": spec.looked}
    res.rule("purge is explored with one collection among unknown others: one without address, one without a name and "
             "one with both; what a scan of its directory yields never reaches a removal in the first two cases, and "
             "in the third the scan begins at depot/name exactly and follows no links; reading the configuration, an "
             "entry made from a line without address carries none")
    res.assumptions.append("no collection's directory contains that of another; a url given once for all collections "
                           "is the address of each")
