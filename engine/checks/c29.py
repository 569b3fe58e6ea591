"""C29: whether a package was requested or pulled in: the mark given to each operation, what the operation writes
down, what an upgrade reads back, and what the install list says."""
import effects
import esp
import witness
from checks.c07 import NAME, PKGS, mk
from checks.c08 import operations
from checks.c27 import operand
from checks.choices import (A, B, Choosing, EMPTY, NO, UPGRADABLE, W, YES, about, arg, const, explore, installed, seq)
from checks.common import parallel, parts

DEP = "pkgdbh::m_dependency"
PULLED, ASKED = ("c", 1700000000), ("c", 0)         # build date the package was needed with, none when requested


class Marking(Choosing):
    about = Choosing.about | {DEP}

    def intercept(self, q, c):
        r = super().intercept(q, c)
        if r and c.base() == "run" and not c.args and any(t.cls in self.ops for t in c.targets):
            r = [(x[0], x[1], {("M", ("f", DEP)): NO}) for x in r]        # see returned()
        return r


def marked(want, text):
    """report the operation run for the package with the mark known to be something else"""
    def f(q, c):
        v = c.eng.looked(("f", DEP), c.env)
        t = c.eng.truth(v, c.env) if v is not None else None
        return None if t is None or t == want else text
    return f


def given():
    terms = {("f", DEP): NO, ("fld", "second", W): PULLED, ("fld", "second", A): PULLED, ("fld", "second", B): ASKED}
    asked = {**terms, ("fld", "second", W): ASKED}
    known = "marked as a dependency although it was already installed when the operation begins"
    is_dep = "not marked as a dependency although it was only pulled in"
    no_dep = "marked as a dependency although it was requested"
    one = {"getDependenciesList": const(seq(W))}
    two = {"getDependenciesList": const(seq(A, B))}
    new, old = {"checkPackageNameExist": const(NO)}, {"checkPackageNameExist": const(YES)}
    up = UPGRADABLE["answers"]

    def w(cmd, text, answers, terms_, want, msg, who="package", **more):
        return cmd, text, dict(more, answers=dict(answers), terms=terms_, forbid={("run", who): marked(want, msg)}), set()
    out = {}
    for cmd, base, facts in (("install", {}, {}), ("upgrade", up, installed())):
        out[cmd + " pulled in"] = w(cmd, "a new package is on the install list as a dependency",
                                    {**base, **one, **new}, {**facts, **terms}, True, is_dep)
        out[cmd + " requested"] = w(cmd, "a new package is on the install list because it was requested",
                                    {**base, **one, **new}, {**facts, **asked}, False, no_dep)
        out[cmd + " known"] = w(cmd, "an installed package is on the install list as a dependency",
                                {**base, **one, **old}, {**facts, **terms}, False, known)
        out[cmd + " next"] = w(cmd, "a requested package follows a dependency on the install list",
                               {**base, **two, **new}, {**facts, **terms}, False, no_dep, "later")
    out["archive"] = w("install", "an archive file is named", operand(
        W, getListOfPackagesFromSet=arg(W, EMPTY), getListOfPackagesFromCollection=arg(W, EMPTY),
        checkRegularFile=arg(W, YES)), terms, False, no_dep)
    return out


MARK = ("w", "the dependency mark")
P, OLD = ("w", "new package"), ("w", "installed")
STREAM = frozenset({"operator<<", "write", "fwrite", "fputs", "fprintf", "put", "append"})
#   name              upgrade  mark given  recorded before   written
OPERATIONS = {
    "requested":           (0, 0, None, False, "it was requested"),
    "pulled in":           (0, 1, None, True, "it was only pulled in"),
    "requested before":    (1, 0, 0, False, "it had been requested"),
    "pulled in before":    (1, 0, 1, True, "it had only been pulled in"),
}


def text_of(v):
    p = parts(v) if v is not None else []
    return p[0][1].strip() if len(p) == 1 and p[0][0] == "s" else None


class Operation(witness.Witness):
    """q = flags: marked (the mark is in the metadata of the package), moved (the metadata has been put in place)"""
    max_states = 4000000
    coarse = True
    about = frozenset({DEP, PKGS, "cards::db::m_dependency"})
    skip = witness.Witness.skip | {"readRulesFile", "buildDatabase"}

    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.upgrade, given, self.before, self.want, _ = OPERATIONS[world]
        self.terms = {("f", "pkgadd::m_upgrade"): ("c", self.upgrade), ("f", DEP): ("c", given),
                      ("f", PKGS): mk((OLD,)), ("fld", "first", P): NAME, ("fld", "first", OLD): NAME}
        self.writers = {f.name for f in prog.fns.values() if any(n["k"] == "str" and n["s"].strip() == "d1" for n in f.nodes())}

    def worth(self, v):
        return v[0] == "call" and esp.mentions(v, lambda t: t[0] == "s" and t[1].strip("/"))

    def interest(self, n):
        return n == "rename" or n in effects.OFSTREAM or n in effects.FSTREAM or n in self.writers

    def value_of(self, t):
        if t[0] == "fld" and t[1] == "cards::db::files":
            return mk()
        return None

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a == NAME and b[0] == "fld" and b[1] == "first" or a[0] == "w" and b[0] in ("s", "empty")

    def intercept(self, q, c):
        b = c.base()
        if b == "openArchivePackage":
            return [(q, P)]
        if b in ("getConflictsFilesList", "getKeepFileList", "applyInstallRules"):
            return [(q, mk())]
        if b == "checkPackageNameExist" and c.args and c.args[0] == NAME:
            return [(q, ("c", int(self.upgrade and "forgotten" not in q)))]
        if b == "erase" and c.args and (c.args[0] == NAME or witness.is_it(c.args[0]) and esp.mentions(
                c.args[0][2] or (), lambda t: t in (OLD, NAME))) and \
                c.fn.ex.get(c.node.get("o"), {}).get("q") in (PKGS, "pkgdbh::m_listOfAlias") and "forgotten" not in q:
            return [(q | {"forgotten"}, None, {"o": None})]
        if b == "dependency" and "forgotten" in q:
            return [(q, NO)]
        if b == "dependency" and not c.args and self.before is not None and c.obj is not None and \
                esp.mentions(c.obj, lambda t: t in (OLD, NAME)):
            self.forced += 1
            return [(q, ("c", self.before))]
        if witness.ckind(c.name) and b in ("insert", "push_back", "emplace", "emplace_back", "emplace_hint") and \
                c.args and text_of(c.args[-1]) == "d1":
            into = {"o": self.add(c.obj if witness.is_set(c.obj) else mk(), MARK)}
            if b in ("insert", "emplace") and witness.ckind(c.name) == "set":
                # (the package may say so itself)
                return [(q, ("rec", (("first", MARK), ("second", YES))), into)] + (
                    [(q | {"marked"}, ("rec", (("first", MARK), ("second", NO))), into)] if self.want else [])
            return [(q, None, into)]
        if witness.ckind(c.name) and b in ("find", "count", "contains") and len(c.args) == 1 and text_of(c.args[0]) == "d1":
            found = ("it", ("set", (MARK,), (), (), 1), MARK, (MARK,), 1) if b == "find" else YES
            return [(q, witness.END if b == "find" else NO)] + ([(q | {"marked"}, found)] if self.want else [])
        if b in STREAM and any(a == MARK or text_of(a) == "d1" for a in c.args):
            self.events += 1
            return [(q | {"marked"}, None)]
        return None

    def event(self, q, c):
        if c.base() == "rename" and len(c.args) == 2:
            to = parts(c.args[1]) if c.args[1] is not None else ()
            if len(to) > 1 and (to[-1][0] != "s" or to[-1][1].endswith("META")):
                return (q - {"marked"}) | {"moved"}
        return q


class OperationEngine(witness.WEngine):
    def relevant(self, fn):
        return super().relevant(fn) or fn.name in self.S.writers


def recorded(prog, res):
    jobs = [(k, cls, w) for k, cls in operations(prog) for w in OPERATIONS]

    def work(job):
        key, cls, w = job
        spec = Operation(prog, w)
        eng = OperationEngine(prog, spec)
        bad, ends, vague, moved = set(), 0, 0, 0
        for kind, q, v, keep in eng.run(prog.fns[key], frozenset(), dyncls=cls):
            if kind != "ret" or "moved" not in q:
                continue
            if "vague" in q:
                vague += 1
                continue
            ends += 1
            if ("marked" in q) != spec.want:
                bad.add("recorded as a dependency" if "marked" in q else "not recorded as a dependency")
            left = eng.looked(("f", DEP), dict(keep))
            if left is not None and left[0] == "c" and left[1]:
                bad.add("the mark is left for the next package")
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, ends, vague, spec.events, spec.forced
    cov = {}
    for (key, cls, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng, cls + " ")
        f = prog.fns[key]
        for m in sorted(r[4]):
            res.violation((cls, w, m), "the operation can end with the package %s although %s" % (m, OPERATIONS[w][4])
                          if "record" in m else m, "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov["%s / %s" % (cls, w)] = {"states": r[1], "ends": r[5], "ends_not_followed_exactly": r[6],
                                     "writes_of_the_mark": r[7], "answers_fixed": r[8]}
    res.coverage["cases of the operation"] = cov


ENTRY, NEED, OTHER = ("w", "entry of the install list"), ("w", "need"), ("w", "needing package")
LIST = ("f", "cards::pkgrepo::m_dependenciesList")
#   name              second of the entry before, requested now, second after
LISTED = {
    "requested after": (PULLED, True, 0, "is requested after it was put on the install list as a dependency"),
    "needed after":    (ASKED, False, 0, "is needed by another package after it was put on the install list on request"),
    "requested":       (None, True, 0, "is requested"),
    "needed":          (None, False, 1, "is needed by a requested package"),
}


class Resolving(witness.Witness):
    """the resolver called for the package or for one that needs it"""
    max_states = 4000000
    skip = witness.Witness.skip | {"parse"}
    skip_classes = witness.Witness.skip_classes | {"cards::conf", "cards::dwl", "archive"}

    def __init__(self, prog, world):
        super().__init__(prog, world)
        before, self.requested, self.after, _ = LISTED[world]
        sides = (("earlier", "pre"), ("later", "post"))
        self.terms = {LIST: ("set", (ENTRY,) if before else (), (), sides, 1),
                      ("f", "cards::pkgrepo::m_packageName"): W if self.requested else OTHER,
                      ("fld", "first", ENTRY): W, ("fld", "second", ENTRY): before,
                      ("fld", "first", NEED): W, ("fld", "second", NEED): PULLED}

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a in (W, OTHER) and (b[0] in ("s", "empty") or b[0] == "fld" and b[1] == "first" and b[2][0] == "o" or
                                    b in (W, OTHER) and a != b)

    def intercept(self, q, c):
        b = c.base()
        if b == "checkPackageNameBuildDateSame" and c.args:
            v = self.resolve(c, c.args[0])
            if v is not None and esp.mentions(v, lambda t: t in (W, NEED, OTHER)):
                self.forced += 1
                return [(q, NO)]
            return [(q, None)]
        if b == "getPackageDependencies" or b == "dependencies" and not c.args:
            name = c.args[0] if c.args else c.obj
            if not self.requested and name is not None and esp.mentions(name, lambda t: t == OTHER):
                return [(q, mk((NEED,), (), ()))]
            return [(q, mk() if self.requested else EMPTY)]
        return None

    def second(self, eng, env):
        """whether the entry of the package certainly carries no (0) or a (1) date, None if unknown or absent (what is left out is C27's matter)"""
        s = eng.looked(LIST, env)
        if not witness.is_set(s):
            return None
        out = set()
        for t in s[1]:
            f = dict(t[1]) if t[0] == "rec" else {k: eng.looked(("fld", k, t), env) for k in ("first", "second")}
            if f.get("first") == W:
                v = f.get("second")
                out.add(int(bool(v[1])) if v is not None and v[0] == "c" else None)
        return out.pop() if len(out) == 1 else None


def listed(prog, res):
    fns = [f for f in prog.fn("cards::pkgrepo::generateDependencies") if not f.params]
    jobs = [(f.key, w) for f in fns for w in LISTED]

    def work(job):
        key, w = job
        spec = Resolving(prog, w)
        eng = witness.WEngine(prog, spec)
        bad, ends, vague = set(), 0, 0
        for kind, q, v, keep in eng.run(prog.fns[key], frozenset(), dyncls=prog.fns[key].cls):
            if kind == "ret" and "vague" in q:
                vague += 1
            elif kind == "ret":
                ends += 1
                s = spec.second(eng, dict(keep))
                if s is not None and s != spec.after:
                    bad.add("put on the install list as " + ("a dependency" if s else "requested"))
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, ends, vague, spec.forced
    cov = {}
    for (key, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        f = prog.fns[key]
        for m in sorted(r[4]):
            res.violation((w, m), "a package that %s is %s" % (LISTED[w][3], m), "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov[w] = {"states": r[1], "ends": r[5], "ends_not_followed_exactly": r[6], "answers_fixed": r[7]}
    res.coverage["cases of the install list"] = cov


def check(prog, res):
    explore(prog, res, given(), Marking, ("mark given",))
    recorded(prog, res)
    listed(prog, res)
    res.rule("the mark is followed from the resolver's install list (a date for what was pulled in, none for what was "
             "requested) through install and upgrade to each operation, through every installing operation to the "
             "metadata written, and back: explored with one generic package in each situation")
