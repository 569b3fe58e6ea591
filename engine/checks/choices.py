"""What cards install, upgrade and remove do with one generic package among unknown others: the place where a
package is worked on (an operation is run, it goes on the install list, its files are removed) is an event."""
import esp
import witness
from checks.common import family
from checks.c07 import PKGS, mk

W, A, B = ("w", "package"), ("w", "earlier"), ("w", "later")
ARCHIVE, NAME, UPGRADING = "pkgadd::m_packageArchiveName", "pkgdbh::m_packageName", "pkgadd::m_upgrade"
DEPENDENCY = "pkgdbh::m_dependency"
SELECTORS = frozenset({"run", "generateDependencies", "getDependenciesList", "removePackageFiles", "otherArguments",
                       "removePackageFilesRefsFromDB", "checkPackageNameExist", "getListOfPackagesFromSet",
                       "getListOfPackagesFromCollection", "checkBinaryExist", "isSet", "setDependency",
                       "checkRegularFile", "groups", "checkPackageNameBuildDateSame", "dependency",
                       "getListOfManInstalledPackages"})


LISTS = frozenset({"otherArguments", "getDependenciesList", "getListOfPackagesFromSet", "groups",
                   "getListOfPackagesFromCollection", "getListOfPackagesFromGroup"})


class Choosing(witness.Witness):
    """q = what was done, as flags"""
    max_states = 4000000
    frozen = frozenset({("M", ("f", ARCHIVE)), ("M", ("f", NAME))})
    skip = witness.Witness.skip | {"buildDatabase", "getListOfManInstalledPackages"}
    skip_classes = witness.Witness.skip_classes | {"cards::diff", "cards::pkgrepo", "cards::conf", "cards::sync",
                                                   "cards::dwl", "archive", "cards::db", "cards::cache"}
    about = {PKGS, ARCHIVE, NAME, "pkgrm::m_listofDependencies", "pkgdbh::m_listOfAlias"}

    def __init__(self, prog, world, setup):
        super().__init__(prog, world)
        self.ops = family(prog)
        self.answers, self.terms, self.forbid = setup.get("answers", {}), setup.get("terms", {}), setup.get("forbid", {})
        self.facts = setup.get("facts", ())
        self.setup = setup

        self.lists = {c + "::" + f["n"] for c in self.ops | {"pkgdbh"} for f in (
            prog.records.get(c) or {"fields": ()})["fields"] if witness.ckind(f["t"])}

    def value_of(self, t):
        return mk() if t[0] == "f" and t[1] in self.lists else None

    def interest(self, n):
        return n.rsplit("::", 1)[-1] in SELECTORS

    def keep(self, v):
        return super().keep(v) or v[0] == "s"

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        if a[0] == "w":
            return b[0] in ("w", "s", "empty", "c") and a != b or b[0] == "o" and b[1] == "apart"
        return False

    def track(self, a):
        return super().track(a) and self.setup.get("track", False)

    def known(self, atom):
        if atom[0] == "nz" and nonempty(atom[1][1] if atom[1][0] == "size" else atom[1]):
            return True
        for f, v in self.facts:
            if f(atom):
                return v
        return None

    def rank(self, t):
        return self.setup.get("rank", {A: 0, B: 1}).get(t)

    def subjects(self, v):
        out = set()
        if v is not None:
            esp.mentions(v, lambda t: out.add(t) if t[0] == "w" else False)
        return out

    def intercept(self, q, c):
        b, args = c.base(), tuple(self.resolve(c, a) for a in c.args)
        if c.node.get("op") in ("=", "+=") and c.node.get("o") and args and \
                c.eng.cell(c.fn, c.node["o"], True, c.env) in self.frozen:
            on = self.subjects(args[0])
            if args[0] not in on and c.eng.cell(c.fn, c.node["o"], True, c.env)[1][1] == NAME:
                on -= {W, A, B}                         # the name of something that belongs to it
            on = {("named", w[1]) for w in on}
            if args[0] is None:
                on = {("named", None)}
            keep = q if c.node["op"] == "+=" else frozenset(f for f in q if f[0] != "named")
            return [(keep | on | {("named", "")}, None, {"o": None})]
        if b == "run" and not args and any(t.cls in self.ops for t in c.targets):
            now = {f[1] for f in q if f[0] == "named"}
            if not now or None in now:
                q = q | {"vague"}
            return [(self.done(q, "run", [("w", x) for x in sorted(now - {None, ""})], c), None)]
        if b == "generateDependencies" and len(args) == 1:
            return [(self.done(q, "resolve", args, c), None)]
        if b in ("removePackageFiles", "removePackageFilesRefsFromDB") and args:
            return [(self.done(q, b, args[:1], c), None)]
        if b in ("setDependency", "resetDependency") and not args:
            return None
        a = self.answers.get(b)
        if a is not None:
            v = a(*args) if args or b in ("otherArguments", "getDependenciesList", "ratio", "groups") else \
                a(c.obj)
            if v is not None:
                self.forced += 1
                return [(q, v)]
        if b in LISTS:
            return [(q, mk())]
        if b in ("group", "collection", "sets", "dependencies") and not args:
            return [(q, mk() if b in ("sets", "dependencies") else None)]
        if b in ("dirName", "fileName", "name", "version", "release", "collection", "dependency") and \
                self.subjects(c.obj if not args else args[0]):
            return [(q, ("call", b, c.obj if not args else args[0], ()))]
        return None

    def done(self, q, what, vals, c):
        self.events += 1
        on = set()
        for v in vals:
            on |= self.subjects(v)
            if v is None:
                q = q | {"vague"}
        for w in on:
            q = q | {(what, w[1])}
            m = self.forbid.get((what, w[1]))
            if m is not None and "vague" not in q:
                m = m(q, c) if callable(m) else m
                if m:
                    c.report(m, (self.world, what, c.fn.name))
        return q


def nonempty(t):
    """is this text certainly not empty"""
    return t is not None and (t[0] == "w" or t[0] == "s" and t[1] != "" or
                              t[0] == "call" and t[1].endswith("operator+") and any(nonempty(a) for a in t[3]))


def arg(x, v):
    """answers v when asked about x, anything otherwise"""
    return lambda *a: v if a and a[-1] == x else None


def const(v):
    return lambda *a: v


def about(x, v):
    """answers v when asked about anything that involves x"""
    return lambda *a: v if any(y is not None and esp.mentions(y, lambda t: t == x) for y in a) else None


def opts(**on):
    """answers whether an option was given"""
    def isset(*a):
        n = a[-1][1].rsplit("::", 1)[-1] if a and a[-1] and a[-1][0] == "g" else None
        return on.get(n)
    return isset


def seq(*ws):
    """a sequence of these among others, in this order"""
    return ("set", tuple(sorted(ws, key=repr)), (), (witness.OTHER,), 1)


EMPTY = mk((), (), ())
APART = mk((), (), (("apart", "any"),))         # others than the package
ENTRY, DB, G, OPERAND = ("w", "entry"), ("fld", "second", ("w", "entry")), ("w", "group"), ("w", "operand")
FIRST = ("fld", "first", ENTRY)
YES, NO = ("c", 1), ("c", 0)


def installed(others=True):
    """the package is an entry of the installed packages and its own real name"""
    return {("f", PKGS): mk((ENTRY,)) if others else mk((ENTRY,), (), ()), FIRST: W,
            ("f", "pkgdbh::m_listOfAlias"): mk((("w", "alias"),)),
            ("fld", "first", ("w", "alias")): W, ("fld", "second", ("w", "alias")): W}


# the state of the system in which cards upgrade goes all the way
UPGRADABLE = {"answers": {
    "isSet": const(NO), "ratio": const(NO), "getuid": const(NO), "geteuid": const(NO),
    "checkBinaryExist": about(W, YES), "checkPackageNameBuildDateSame": about(W, NO)}}


def explore(prog, res, worlds, make=Choosing, tag=()):
    """worlds: name -> (command, assumption, setup, flags required at every normal end)"""
    from checks.common import parallel
    jobs = [(w, f.key) for w in worlds for f in sorted(
        prog.fn("cards::%s::%s" % (worlds[w][0], worlds[w][0])), key=lambda f: f.key) if not f.copyctor]

    def work(job):
        w, k = job
        fn = prog.fns[k]
        spec = make(prog, w, worlds[w][2])
        eng = witness.WEngine(prog, spec)
        missing, ends, vague, errors = None, 0, 0, 0
        for kind, q, v, keep in eng.run(fn, frozenset(), dyncls=fn.cls):
            if kind != "ret":
                continue
            if "vague" in q:
                vague += 1
                continue
            ends += 1
            if worlds[w][3] is None:
                missing = [("refused",)]
            elif not worlds[w][3] <= q:
                missing = sorted(worlds[w][3] - q)
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, missing, ends, vague, spec.events, \
            spec.forced
    cov = {}
    for (w, k), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        f = prog.fns[k]
        if r[4]:
            res.violation(tag + (w, "left out"), "cards %s can end without %s although %s" % (
                worlds[w][0], TEXT.get(r[4][0][0], r[4][0][0]), worlds[w][1]), "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov["%s / %s" % (worlds[w][0], w)] = {
            "assumption": worlds[w][1], "states": r[1], "normal_ends": r[5], "ends_not_followed_exactly": r[6],
            "places_worked_on": r[7], "answers_fixed": r[8]}
    res.coverage["cases" + "".join(tag)] = cov


TEXT = {"refused": "an error",
        "run": "running the operation for the package", "resolve": "resolving the package",
        "removePackageFiles": "removing the package's files",
        "removePackageFilesRefsFromDB": "removing the package's record"}
