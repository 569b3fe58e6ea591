"""C18: the trigger table from the rule file to the maintenance programs: how each event name is read, what a
matching file puts on the pending list, and which program each pending entry runs."""
import esp
import witness
from checks.common import family, parallel
from checks.c07 import F, NAME, PKGS, mk, filesof
from checks.c08 import P, OLD, R, RULES, operations

PENDING = "pkgdbh::m_postInstallList"
T = ("w", "pending")
ENUM = "cards::rule_event_t"
EVENT, ACTION = "rule_t::event", "rule_t::action"
FILTERS = ("INSTALL", "UPGRADE")
#  event: (programs, does the program get the file)
PROGRAMS = {
    "LDCONF": (("ldconfig",), False),
    "INFO": (("install-info",), True),
    "ICONS": (("gtk-update-icon-cache",), True),
    "FONTS": (("mkfontscale", "mkfontdir", "fc-cache"), True),
    "SCHEMAS": (("glib-compile-schemas",), True),
    "DESKTOP_DB": (("update-desktop-database",), True),
    "MIME_DB": (("update-mime-database",), True),
    "QUERY_PIXBUF": (("gdk-pixbuf-query-loaders",), False),
    "GIO_QUERY": (("gio-querymodules",), False),
    "QUERY_IMOD3": (("gtk-query-immodules-3.0",), False),
    "QUERY_IMOD2": (("gtk-query-immodules-2.0",), False),
}
ALL = {p for ps, _ in PROGRAMS.values() for p in ps}


# ------------------------------------------------------------------ the reader
class Reading(witness.Witness):
    """world = (event word, action word, number of columns); q: a rule's event was assigned, a rule was stored"""
    about = {RULES, "rule_t"}
    max_states = 2000000

    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.words = set(prog.enums.get(ENUM) or {})
        self.errors = self.stored = self.compared = 0
        self.terms = {("f", RULES): mk((), (), ())}
        self.first = True

    def equal(self, x):
        ev, act, cols = self.world
        if x in self.words:
            return x == ev
        if x in ("YES", "NO"):
            return x == act
        return None

    def constant(self, v):
        return self.equal(v[1]) if v is not None and v[0] == "s" else None

    def known(self, atom):
        if atom[0] == "eq" and isinstance(atom[1], tuple) and isinstance(atom[2], tuple):
            for a in atom[1:3]:
                e = self.constant(a)
                if e is not None:
                    return e
        return None

    def intercept(self, q, c):
        b = c.base()
        if b in ("strcmp", "strcasecmp", "compare", "operator==", "operator!=", "strncmp"):
            for v in [c.obj] + list(c.args):
                e = self.constant(v)
                if e is not None:
                    self.compared += 1
                    return [(q | {"compared"}, ("c", int(e if b == "operator==" else not e)))]
        if b in ("getline", "fgets") and "compared" in q:
            return [(q - {"compared"}, None)]
        if b in ("find", "at", "count", "contains", "operator[]", "find_if", "lower_bound", "equal_range") and \
                c.obj != ("f", RULES) and (witness.ckind(c.name) or c.name.startswith("std::")):
            r = self.lookup_in(q, c, b)             # a table the words are looked up in
            return [(q | {"event", "vague"}, None)] if r is None else r
        if b == "sscanf" and len(c.args) > 3:
            self.compared += 1
            return [(q | {"compared"}, ("c", self.world[2]))]
        if c.obj == ("f", RULES) or c.node.get("o") and c.eng.cell(c.fn, c.node["o"], True, c.env) == (
                "M", ("f", RULES)):
            if b in ("push_back", "emplace_back", "insert"):
                self.stored += 1
                return self.store(q, c)
        return None

    def lookup_in(self, q, c, b):
        ev, act, cols = self.world
        t = c.eng.consttable(c.fn, c.node.get("o"))
        keys = {k[1] for k in t or () if k[0] == "s"}
        word = ev if keys & self.words else act if keys & {"YES", "NO"} else None
        if word is None or b not in ("find", "at", "count", "contains"):
            return None
        self.compared += 1
        q = q | {"compared"}
        v = t.get(("s", word))
        if b in ("count", "contains"):
            return [(q, ("c", int(v is not None)))]
        if b == "at":
            return [(q, v)] if v is not None else [(q | {"vague"}, None)]
        if v is None:
            return [(q, witness.END)]
        rec = ("rec", (("first", ("s", word)), ("second", v)))
        return [(q, ("it", ("set", (rec,), (), (), 1), rec, (rec,), 1))]

    def store(self, q, c):
        ev, act, cols = self.world
        want = (self.prog.enums.get(ENUM) or {}).get(ev)
        if cols != 3 or want is None or act not in ("YES", "NO"):
            if "vague" not in q:
                c.report("a rule line is accepted although %s" % describe(self.world), ("accepted",) + kind(self.world))
            return [(q - {"event"} | {"stored"}, None)]
        v = self.resolve(c, c.args[-1]) if c.args else None
        rec = dict(v[1]) if v is not None and v[0] == "rec" else {}
        got = rec.get(EVENT)
        if got is not None and got[0] == "c" and got[1] != want:
            c.report("a rule for %s is stored as another event" % ev, ("event", ev))
        if got is None and rec and "event" not in q:
            c.report("a rule for %s is stored without its event" % ev, ("event", ev))
        got = rec.get(ACTION)
        if got is not None and got[0] == "c" and bool(got[1]) != (act == "YES"):
            c.report("a rule with action %s is stored as the opposite" % act, ("action", act))
        return [(q - {"event"} | {"stored"}, None)]

    def on_store(self, q, field, val, c):
        return q | {"event"} if field == EVENT and not c.fn.ctor else q

    def error(self, q, c):
        self.errors += "compared" in q


def kind(w):
    return ("columns",) if w[2] != 3 else ("event",) if w[0].startswith("?") else ("action",)


def describe(w):
    return "it has %d columns" % w[2] if w[2] != 3 else "its event is unknown" if w[0] == "?" else "its action is unknown"


# ------------------------------------------------------- from rule to pending list
class Applying(witness.Witness):
    """world = (event, "yes"/"no"/"none")"""
    about = {RULES, PENDING, "rule_t"}
    max_states = 6000000
    skip = witness.Witness.skip | {"readRulesFile", "installArchivePackage", "moveMetaFilesPackage", "preRun",
                                   "addPackageFilesRefsToDB", "removePackageFiles", "removePackageFilesRefsFromDB",
                                   "getConflictsFilesList", "cleanupMetaFiles", "postRun", "getKeepFileList"}

    def __init__(self, prog, world):
        super().__init__(prog, world)
        ev = prog.enums.get(ENUM) or {}
        self.filters = {ev.get(x) for x in FILTERS}
        self.want = ev.get(world[0])
        self.ends = {}
        none = world[1] == "none"
        self.terms = {
            ("f", PKGS): mk((OLD,)), ("fld", "first", OLD): NAME, ("fld", "first", P): NAME,
            ("f", RULES): ("set", () if none else (R,), (),
                           ((("same", "any"),) if none else (("same", "pre"), ("same", "post"))) + tuple(
                                (x, "any") for x in FILTERS), 1),
            ("f", PENDING): mk((), (), ()),
            filesof(P): mk((F,), (), ()),
            ("fld", ACTION, R): ("c", int(world[1] == "yes")),
            ("fld", EVENT, R): ("c", self.want),
        }

    def known(self, atom):
        if atom[0] == "eq" and isinstance(atom[2], int) and atom[1][0] == "fld" and atom[1][1] == EVENT and \
                atom[1][2][0] == "o":
            if atom[2] in self.filters:
                return False
        return None

    def value_of(self, t):
        if t[0] == "fld" and t[1] == EVENT and t[2][0] == "o" and t[2][1] in FILTERS:
            return ("c", (self.prog.enums.get(ENUM) or {}).get(t[2][1]))
        return None

    def track(self, a):
        return super().track(a) and not esp.mentions(a, lambda t: t[0] == "call")

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a == NAME and b[0] == "fld" and b[1] == "first" or a[0] == "w" and (b == NAME or b[0] in ("s", "empty"))

    def intercept(self, q, c):
        b = c.base()
        if b == "openArchivePackage":
            return [(q, P)]
        if b == "checkPackageNameExist":
            return [(q, None)]
        if b == "checkRuleAppliesToFile" and len(c.args) == 2:
            r, f = c.args
            if f == F and r is not None:
                if r == R:
                    return [(q, ("c", 1))]
                if r[0] == "o" and r[1] == "same" and (r[2] == "post" or self.world[1] == "none"):
                    return [(q, ("c", 0))]
            return [(q, None)]
        return None


# --------------------------------------------------------- from pending list to program
class Running(witness.Witness):
    """world = (event, are there other entries); q = programs run"""
    about = {PENDING, "rule_t"}
    max_states = 3000000
    skip_classes = frozenset({"cards::lock"})

    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.event_, others = world
        ev = prog.enums.get(ENUM) or {}
        self.terms = {
            ("f", PENDING): mk((T,) if self.event_ else (), (), (witness.OTHER,) if others else ()),
            ("fld", "first", T): F,
            ("fld", "second", T): ("c", ev.get(self.event_)),
        }

    def interest(self, n):
        return n.startswith("process::")

    def keep(self, v):
        return super().keep(v) or esp.mentions(v, lambda t: t[0] == "s" and "/" in t[1])

    def intercept(self, q, c):
        if c.base() in ("checkFileExist", "access", "exists"):
            return [(q, ("c", int(c.base() != "access")))]
        if c.name.startswith("process::"):
            progs = set()
            for v in c.args:
                esp.mentions(v, lambda t: progs.add(t[1].rsplit("/", 1)[-1].split(" ")[0])
                             if t[0] == "s" and "bin/" in t[1] else False) if v is not None else None
            if self.world[1]:
                progs &= set(PROGRAMS[self.event_][0])
            for p in progs & ALL:
                self.events += 1
                needs = self.event_ and p in PROGRAMS[self.event_][0] and PROGRAMS[self.event_][1]
                known = all(v is not None for v in c.args)
                if needs and not self.world[1] and known and not any(esp.mentions(v, lambda t: t == F)
                                                                     for v in c.args):
                    c.report("%s is run without the file that activated %s" % (p, self.event_), ("file", p))
                q = q | {p}
            return [(q | {"started"}, None)]
        return None


def check(prog, res):
    ev = prog.enums.get(ENUM) or {}
    names = [e for e in ev]
    for e in PROGRAMS:
        if e not in ev:
            res.violation(("event", "unknown", e), "the trigger event %s does not exist any more" % e, ENUM)
    jobs = [("read", (e, a, 3)) for e in names for a in ("YES", "NO")]
    jobs += [("read", ("?", "YES", 3)), ("read", (names[0], "?", 3)), ("read", (names[0], "YES", 2)),
             ("read", (names[0], "YES", 4))]
    ops = {}
    for k, cls in operations(prog):
        ops.setdefault(k, cls)
    for e in PROGRAMS:
        if e in ev:
            jobs += [("apply", (e, a), k, c) for a in ("yes", "no") for k, c in ops.items()]
            jobs += [("run", (e, o)) for o in (False, True)]
    jobs += [("apply", ("LDCONF", "none"), k, c) for k, c in ops.items()] + [("run", (None, False))]
    readers = [f for f in prog.fns.values() if f.cls in family(prog) and not f.is_lambda and any(
        n["k"] == "call" and (n.get("fn") or "").rsplit("::", 1)[-1] in ("push_back", "emplace_back") and n.get("o") and
        f.ex[n["o"]]["k"] == "fld" and f.ex[n["o"]].get("q") == RULES for n in f.nodes())]
    roots = callers_of(prog, readers)
    enders = sorted((f for f in prog.fns.values() if f.name == "pkgdbh::~pkgdbh"), key=lambda f: f.key)

    def work(job):
        bad = []
        if job[0] == "read":
            spec = Reading(prog, job[1])
            eng = witness.WEngine(prog, spec)
            raised = False
            for f in roots:
                raised |= any(o[0] == "exc" and "compared" in o[1] for o in eng.run(f, frozenset(), dyncls=f.cls))
            if job[1][0] != "?" and job[1][1] != "?" and job[1][2] == 3 and roots and not spec.stored:
                bad.append((("event", job[1][0]), "a rule for %s is never stored" % job[1][0], roots[0].key))
            elif (job[1][0] == "?" or job[1][1] == "?" or job[1][2] != 3) and spec.compared and not spec.errors and not raised:
                bad.append((("ignored",) + kind(job[1]), "a rule line is ignored although %s" % describe(job[1]),
                            roots[0].key))
            return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, spec.stored
        if job[0] == "apply":
            spec = Applying(prog, job[1])
            eng = witness.WEngine(prog, spec)
            n = 0
            for k, q, v, keep in eng.run(prog.fns[job[2]], frozenset(), dyncls=job[3]):
                if k != "ret" or "vague" in q:
                    continue
                s = dict(keep).get(("M", ("f", PENDING))) or spec.terms[("f", PENDING)]
                if not witness.is_set(s):
                    continue
                n += 1
                e = job[1][0]
                if job[1][1] == "yes":
                    ok = any(x[0] == "rec" and dict(x[1]).get("second") in (("c", spec.want), None) and
                             (not PROGRAMS[e][1] or dict(x[1]).get("first") == F) for x in s[1])
                    ok = ok or e == "LDCONF" and bool(s[3])
                    if not ok:
                        bad.append((("missed", e), "a file whose last trigger rule says %s YES does not put %s on the "
                                    "pending list" % (e, e), job[2]))
                elif s[1] or s[2] or s[3]:
                    bad.append((("activated", job[1][1]), "a trigger is put on the pending list although " + (
                        "the last rule matching the file says NO" if job[1][1] == "no" else "no rule matches the file"),
                        job[2]))
            return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, n
        spec = Running(prog, job[1])
        eng = witness.WEngine(prog, spec)
        n = 0
        for f in enders:
            for k, q, v, keep in eng.run(f, frozenset(), dyncls="pkgadd"):
                if k != "ret" or "vague" in q:
                    continue
                n += 1
                ran = q & ALL
                want = set(PROGRAMS[job[1][0]][0]) if job[1][0] else set()
                for p in sorted(want - ran):
                    bad.append((("program", job[1][0], p), "%s is not run although %s is pending" % (p, job[1][0]), f.key))
                if not job[1][1]:
                    for p in sorted(ran - want):
                        bad.append((("program", str(job[1][0]), p), "%s is run although %s is pending" % (
                            p, "only " + job[1][0] if job[1][0] else "nothing"), f.key))
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, n
    cov = {"read": {}, "apply": {}, "run": {}}
    for job, r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        for key, msg, fk in r[4]:
            f = prog.fns[fk]
            res.violation((job[0],) + key, msg, "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov[job[0]][" ".join(str(x) for x in job[1] + job[3:])] = {"states": r[1], "stored_or_completed": r[5]}
    res.coverage["cases"] = cov
    res.coverage["rule_readers"] = [f.name for f in roots]
    res.rule("the reader of the rule file, explored with each event word, action word and column count, stores exactly "
             "that event and action and stores nothing for an unknown one; an operation explored with one generic file "
             "and one deciding rule puts the rule's event (and the file) on the pending list exactly when it says YES; "
             "the end of an operation, explored with each pending event, runs the programs of that event and no other")


def callers_of(prog, fns):
    """the functions, or the ones they are private helpers of"""
    out = {f.key: f for f in fns}
    for f in fns:
        up = [g for g in prog.fns.values() if not g.is_lambda and g.cls == f.cls and g.key != f.key and any(
            t.key == f.key for n in g.nodes() if n["k"] == "call" for t in prog.targets(n))]
        if f.params and up:
            out.pop(f.key, None)
            for g in up:
                out[g.key] = g
    return sorted(out.values(), key=lambda f: f.key)
