"""C06: without force, a conflict stops the installation before any change."""
import esp
import witness
from checks import worlds
from checks.common import opt_is, parallel, parts
from checks.c07 import F, NAME, PKGS, mk, filesof
from checks.worlds import FORCE

SCAN = "pkgdbh::getConflictsFilesList"


class Conflict(worlds.World):
    """q = (the scan of this operation returned (a non-empty list), force was requested)"""
    track_fields = frozenset({FORCE})
    watch = frozenset({SCAN})

    def keep(self, v):
        return super().keep(v) or esp.mentions(v, lambda t: t[0] == "conflicts")

    def on_call(self, q, c):
        if c.name == SCAN or any(t.name == SCAN for t in c.targets):
            self.forced += 1
            return [((True, q[1]), ("conflicts",))]
        if c.frame.ctx in self.add and not q[1]:
            kind = self.modifies(c)
            if kind:
                self.events += 1
                c.report("%s of an installed file or database entry by %s() %s, without force" %
                         (kind, c.name, "although files conflict" if q[0] else "before the conflict scan"),
                         ("conflict" if q[0] else "unscanned", c.fn.name, c.name))
        return None

    def on_assume(self, q, atom, truth, c):
        if truth and (atom[0] == "nz" and opt_is(atom[1], "OPT_FORCE") or
                      atom[0] == "eq" and any(isinstance(x, tuple) and x[0] == "s" and x[1] in ("-f", "--force")
                                              for x in atom[1:])):
            return (q[0], True)
        if atom == ("nz", ("size", ("conflicts",))) and not truth:
            return None
        if atom[0] == "eq" and truth and all(isinstance(x, tuple) and x[0] == "call" and x[2] == ("conflicts",)
                                             for x in atom[1:]):
            return None
        return q

    def enter(self, q, fn, c):
        if self.is_run(fn):
            self.entered += 1
            return (False, q[1])
        if fn.ctor and fn.cls == "cards::upgrade":
            return (False, True)         # an upgrade of the system takes files over by design
        return q

    def leave(self, q, fn, kind, c):
        if self.is_run(fn):
            if kind == "ret" and q == (True, False):
                c.report("%s ends without an error although files conflict, without force" % fn.name,
                         ("accepted", fn.name))
            return (False, q[1])
        return q


Q, OWN = ("w", "other"), ("w", "itself")
INFO = ("w", "package")
#   name: (exists under the root, listed by another package, by itself, is a directory) -> conflicts
SCANS = {
    "owned": ((False, True, False, False), True, "another installed package lists it"),
    "owned too": ((False, True, False, False), True, "another installed package lists it and an older version of "
                  "the package, which does not list it, is installed"),
    "present": ((True, False, False, False), True, "it is present under the root and no package lists it"),
    "present too": ((True, False, False, False), True, "it is present under the root, no package lists it, and an "
                    "older version of the package is installed"),
    "both": ((True, True, False, False), True, "it is present under the root and another package lists it"),
    "own": ((True, False, True, False), False, "the installed version of the package itself lists it"),
    "directory": ((True, True, False, True), False, "it is a directory"),
    "free": ((False, False, False, False), False, "it is neither present nor listed by any package"),
}


class Scan(witness.Witness):
    """the conflict scan with one generic file of the package"""
    letter = {}

    def __init__(self, prog, world):
        super().__init__(prog, world)
        (self.exists, listed, own, self.isdir), self.want, _ = SCANS[world]
        mine = (OWN,) if own or world.endswith("too") else ()
        self.terms = {
            ("f", PKGS): mk(mine + (Q,)), ("fld", "first", OWN): NAME,
            filesof(Q): mk((F,) if listed else ()), filesof(OWN): mk((F,) if own else ()),
            ("fld", "cards::db::files", INFO): mk((F,)),
        }
        self.installed = bool(mine)

    def value_of(self, t):
        if t[0] == "fld" and t[1] == "cards::db::files" and esp.mentions(t, lambda y: y[0] == "o"):
            return mk()
        return None

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a == NAME and b[0] == "fld" and b[1] == "first" or a[0] == "w" and (b == NAME or b[0] in ("s", "empty"))

    def known(self, atom):
        if atom[0] == "eq" and any(esp.mentions(x, lambda t: t == F) for x in atom[1:] if isinstance(x, tuple)) and any(
                x in (47, ("c", 47), ("s", "/")) for x in atom[1:]):
            return self.isdir
        if atom[0] == "eq" and all(isinstance(x, tuple) for x in atom[1:]):
            for x, y in ((atom[1], atom[2]), (atom[2], atom[1])):
                # the last slash is the last character
                if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("rfind", "find_last_of") and x[2] == F and \
                        x[3] and x[3][0] in (("c", 47), ("s", "/")) and y == ("op", "-", ("size", F), ("c", 1)):
                    return self.isdir
        return None

    def intercept(self, q, c):
        b = c.base()
        if b in ("ends_with", "starts_with") and c.obj == F and c.args and c.args[0] in (("s", "/"), ("c", 47)):
            return [(q, ("c", int(self.isdir)))] if b == "ends_with" else None
        if c.name.startswith("std::basic_string<") and c.obj == F and (
                b == "back" or b in ("operator[]", "at") and not (c.args and c.args[0] and c.args[0][0] == "c")):
            return [(q, ("call", "last", F, ()))]
        if b == "checkPackageNameExist" and c.args and c.args[0] == NAME:
            return [(q, ("c", int(self.installed)))]
        if b in ("checkFileExist", "exists") and c.args and c.args[0] is not None and \
                esp.mentions(c.args[0], lambda t: t == F):
            self.events += 1
            if any(p == ("f", worlds.ROOT) for p in parts(c.args[0])):
                return [(q, ("c", int(self.exists)))]
        return None


def scan(prog, res):
    fns = sorted((f for f in prog.fn(SCAN)), key=lambda f: f.key)

    def work(job):
        f, spec = prog.fns[job[0]], Scan(prog, job[1])
        eng = witness.WEngine(prog, spec)
        args = [INFO if "db" in p["t"] else NAME for p in f.params]
        bad, n = None, 0
        for k, q, v, keep in eng.run(f, frozenset(), args=args):
            if k != "ret" or "vague" in q or not witness.is_set(v):
                continue
            n += 1
            if spec.want and F not in v[1]:
                bad = "the conflict scan can miss a file although " + SCANS[job[1]][2]
            if not spec.want and (F in v[1] or F in v[2]):
                bad = "the conflict scan reports a file although " + SCANS[job[1]][2]
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, n
    jobs = [(f.key, w) for f in fns for w in SCANS]
    cov = {}
    for (key, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        f = prog.fns[key]
        if r[4]:
            res.violation(("scan", w), r[4], "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov[w] = {"assumption": SCANS[w][2], "states": r[1], "results_examined": r[5]}
    res.coverage["scan"] = cov
    res.rule("the conflict scan, explored with one generic file of the package among unknown others, reports it exactly "
             "when it is listed by another package or present under the root, is no directory and is not the package's own")


WORLDS = {"conflict": "the conflict scan returns at least one file"}


def check(prog, res):
    res.coverage["worlds"] = worlds.explore(prog, res, lambda w: Conflict(prog, w), WORLDS, (False, False))
    res.rule("explored from both mains with every conflict scan returning a non-empty list: inside an installing "
             "operation no modification (scratch names exempt) is reachable unless the force option was seen (or the system is upgraded), "
             "neither before nor after the scan, and the operation does not return normally")
    scan(prog, res)
