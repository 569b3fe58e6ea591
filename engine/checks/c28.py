"""C28: cards upgrade under each condition that must keep it from changing anything, and its deletion list when
no package qualifies for deletion."""
import esp
from checks import choices, worlds
from checks.c15 import command_values
from checks.common import has_str, is_scratch_term, mains, opt_is, owner, parallel

FETCH = {"cards::sync", "cards::dwl", "cards::pkgrepo"}
#       name            what every path assumes                                           forbidden
WORLDS = {
    "check":          ("the check option is given", "change"),
    "size":           ("the size option is given", "change"),
    "download only":  ("the download-only option is given", "change"),
    "download ready": ("the download-ready option is given", "change"),
    "21 percent":     ("21 percent of the packages are outdated and the proceed option is not given", "change"),
    "all outdated":   ("all packages are outdated and the proceed option is not given", "change"),
    "no provider":    ("no collection provides any installed package", "change"),
    "all requested":  ("no package was installed as a dependency", "delete"),
    "all provided":   ("every installed package is provided by a collection", "delete"),
}
OPTION = {"check": "OPT_CHECK", "size": "OPT_SIZE", "download only": "OPT_DOWNLOAD_ONLY",
          "download ready": "OPT_DOWNLOAD_READY"}
CONTAINER = esp.re.compile(r"^(const )?std::(map|set|vector|list|multimap|multiset|deque|unordered_\w+)<")


def containers(prog, cls):
    return frozenset(cls + "::" + f["n"] for f in (prog.records.get(cls) or {"fields": []})["fields"]
                     if CONTAINER.match(f["t"]))


class Upgrade(worlds.World):
    """q = container attributes of the upgrade something may have been put in; context = (part of the program,)"""

    def __init__(self, prog, world):
        self.late = containers(prog, "cards::upgrade")
        self.track_fields = self.late
        super().__init__(prog, world)
        self.cmd = command_values(prog)["CMD_UPGRADE"]
        self.watch = frozenset(f.name for f in prog.fns.values() if f.name.rsplit("::", 1)[-1] in (
            "getCmdValue", "isSet", "ratio", "checkBinaryExist", "dependency"))

    def context(self, fn, pc):
        if pc is None and owner(fn) in FETCH:
            return "fetch"
        if pc is None and self.is_run(fn):
            return "operation"
        return pc

    def value(self, c):
        w, b = self.world, c.base()
        if b == "getCmdValue":
            return ("c", self.cmd)
        if b == "isSet" and w in OPTION and c.args and c.args[0] and c.args[0][0] == "g" and \
                c.args[0][1].endswith("::" + OPTION[w]):
            return ("c", 1)
        if w in ("21 percent", "all outdated"):
            if b == "ratio":
                return ("c", 21 if w == "21 percent" else 100)
            if b == "isSet" and c.args and c.args[0] and c.args[0][0] == "g" and c.args[0][1].endswith("::OPT_PROCEED"):
                return ("c", 0)
        if b == "checkBinaryExist" and w in ("no provider", "all provided"):
            return ("c", int(w == "all provided"))
        if b == "dependency" and w == "all requested" and not c.args:
            return ("c", 0)
        return None

    def on_call(self, q, c):
        v = self.value(c)
        if v is not None:
            self.forced += 1
            return [(q, v)]
        if c.frame.ctx == "fetch":
            return None
        kind = self.modifies(c)
        if kind is None or WORLDS[self.world][1] == "delete" and c.frame.ctx == "operation":
            return None
        if WORLDS[self.world][1] == "delete" and not (kind == "delete" and self.in_package_removal(c)):
            return None
        self.events += 1
        c.report("%s by %s() reachable in cards upgrade although %s" % (kind, c.name, WORLDS[self.world][0]),
                 (self.world, c.fn.name, c.name))
        return None

    def in_package_removal(self, c):
        fr = c.frame
        while fr is not None:
            if fr.fn.cls == "pkgdbh" and fr.fn.name.rsplit("::", 1)[-1].startswith("removePackageFiles"):
                return True
            fr = fr.parent
        return False

    def on_node(self, q, c):
        return touched(self, q, c)

    def on_assume(self, q, atom, truth, c):
        return q if not empty_entered(self.late - q, atom, truth) else None


def touched(spec, q, c):
    """adds the container attributes the call at hand may put something into"""
    n = c.node
    if n["k"] in ("call", "ctor") and spec.late - q:
        on = c.fn.ex.get(n.get("o"))
        base = (n.get("fn") or "").rsplit("::", 1)[-1]
        if on and on["k"] == "fld" and on["q"] in spec.late and (
                base in esp.MUTATORS - {"erase", "clear"} or n.get("op") in ("=", "[]")):
            q = q | {on["q"]}
        for i, a in enumerate(n["a"]):
            an = c.fn.ex.get(a)
            if an and an["k"] == "fld" and an["q"] in spec.late:
                t = spec.prog.targets(n)
                if not t or any(i < len(f.params) and f.params[i].get("ref") and not f.params[i].get("cref")
                                for f in t):
                    q = q | {an["q"]}
    return q


def empty_entered(empty, atom, truth):
    """does the branch mean that one of the (empty) containers has an element"""
    for f in empty:
        t = ("f", f)
        if atom == ("nz", ("size", t)) and truth:
            return True
        if atom[0] == "eq" and not truth and all(isinstance(x, tuple) and x[0] == "call" and x[2] == t
                                                 for x in atom[1:]):
            return True
    return False


def deleted(text):
    return {(f, "package"): "removed by cards upgrade although " + text
            for f in ("removePackageFiles", "removePackageFilesRefsFromDB")}


def elements():
    up, on = choices.UPGRADABLE["answers"], choices.about
    W, YES, NO = choices.W, choices.YES, choices.NO
    asked = "it was installed on request"
    here = "a collection provides it"
    return {
        "requested package": ("upgrade", asked, dict(
            terms=choices.installed(), answers=dict(up, checkBinaryExist=on(W, NO), dependency=on(choices.ENTRY, NO)),
            forbid=deleted(asked)), set()),
        "provided package": ("upgrade", here, dict(
            terms=choices.installed(), answers=dict(up, dependency=on(choices.ENTRY, YES)), forbid=deleted(here)), set()),
        "provided package, same": ("upgrade", here, dict(
            terms=choices.installed(), answers=dict(up, checkPackageNameBuildDateSame=on(W, YES),
                                                    dependency=on(choices.ENTRY, YES)), forbid=deleted(here)), set()),
    }


def check(prog, res):
    choices.explore(prog, res, elements(), tag=("package",))

    def work(w):
        spec = Upgrade(prog, w)
        eng = esp.Engine(prog, spec)
        eng.run(prog.main("cards.cxx"), frozenset())
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, spec.forced, spec.events
    cov = {}
    for w, r in zip(WORLDS, parallel(work, list(WORLDS))):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        cov[w] = {"assumption": WORLDS[w][0], "states": r[1], "functions_entered": len(r[2]), "values_forced": r[4],
                  "events": r[5]}
    res.coverage["worlds"] = cov
    res.rule("cards' main is explored with the command fixed to upgrade under each assumption: no file-system "
             "modification other than fetching repository lists and archives is reachable; and with no package "
             "marked as dependency, or every package provided, no package is removed outside the installing operation")
