"""C08: what installing operations do with a generic file of the package under every outcome of the rules, followed
from the operation's beginning to its end, with the rules abstracted to the deciding rule among unknown others."""
import effects
import esp
import witness
from checks import worlds
from checks.common import family, mains, parallel, parts
from checks.c07 import F, NAME, PKGS, mk, filesof

P, OLD, R = ("w", "package"), ("w", "installed"), ("w", "rule")
RULES = "pkgdbh::m_actionRules"
SAME = (("same", "pre"), ("same", "post"), ("diff", "any"))
#     name          (event of the deciding rule, its action), text
WORLDS = {
    "install no":  ("INSTALL", 0, "the last INSTALL rule matching it says NO"),
    "install yes": ("INSTALL", 1, "the last INSTALL rule matching it says YES"),
    "upgrade no":  ("UPGRADE", 0, "it exists, no INSTALL rule matches it and the last UPGRADE rule matching it says NO"),
    "upgrade no new": ("UPGRADE", 0, "it exists, though not of the version installed, no INSTALL rule matches it and the last "
                       "UPGRADE rule matching it says NO"),
    "upgrade yes": ("UPGRADE", 1, "no INSTALL rule matches it and the last UPGRADE rule matching it says YES"),
    "no rule":     (None, None, "no rule matches it"),
}

NEW = "upgrade no new"
KEPT = ("upgrade no", NEW)


class Installing(witness.Witness):
    """q = flags: fresh (entry just read), pending (it is the file), redirected (its path was changed)"""
    max_states = 8000000
    coarse = True
    skip = witness.Witness.skip | {"readRulesFile"}
    transparent = witness.Witness.transparent | {"trimFileName"}
    frozen = frozenset({("M", ("f", "pkgdbh::m_postInstallList"))})

    def __init__(self, prog, world):
        super().__init__(prog, world)
        self.event_, self.action, _ = WORLDS[world]
        self.ev = ev = prog.enums.get("cards::rule_event_t") or {}
        self.val = ev.get(self.event_)
        self.got, self.missed, self.extracted = {}, {}, 0
        self.terms = {
            ("f", PKGS): mk((OLD,)),
            ("f", RULES): ("set", (R,) if self.val is not None else (), (), SAME, 1),
            ("f", "pkgadd::m_upgrade"): ("c", 1),
            ("fld", "first", P): NAME, ("fld", "first", OLD): NAME,
            filesof(P): mk((F,)), filesof(OLD): mk((), (), ()) if world == NEW else mk((F,)),
            ("fld", "rule_t::action", R): ("c", self.action),
            ("fld", "rule_t::event", R): ("c", self.val),
        }

    def value_of(self, t):
        if t[0] == "fld" and t[1] == "cards::db::files" and esp.mentions(t, lambda y: y[0] == "o"):
            return mk()
        if t[0] == "fld" and t[1] == "rule_t::event" and t[2][0] == "o" and t[2][1] == "same" and self.val is not None:
            return ("c", self.val)
        return None

    def track(self, a):
        return super().track(a) and not esp.mentions(a, lambda t: t[0] == "call")

    def worth(self, v):
        return esp.mentions(v, lambda t: t[0] == "s" and t[1].strip("/")) and v[0] == "call"

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a == NAME and b[0] == "fld" and b[1] == "first" or a[0] == "w" and (b == NAME or b[0] in ("s", "empty"))

    def known(self, atom):
        if atom[0] == "eq" and atom[1] == ("fld", "rule_t::event", ("o", "diff", "any")) and isinstance(atom[2], int):
            if atom[2] == self.val or self.world.startswith("upgrade") and atom[2] == self.ev.get("INSTALL"):
                return False
        return None

    def intercept(self, q, c):
        b = c.base()
        if b == "openArchivePackage":
            return [(q, P)]
        if b == "checkPackageNameExist" and c.args and c.args[0] == NAME:
            return [(q, ("c", 1))]
        if b == "checkRuleAppliesToFile" and len(c.args) == 2:
            r, f = c.args
            if f == F and r is not None:
                if r == R:
                    return [(q, ("c", 1))]
                if r[0] == "o" and r[1] == "same" and (r[2] == "post" or self.val is None) or \
                        r[0] == "o" and self.world == "no rule":
                    return [(q, ("c", 0))]
            return [(q, None)]
        if b == "archive_read_next_header" or b == "archive_read_next_header2":
            if "pending" in q:
                self.missed.setdefault(c.fn.key, (c.fn, dict(c.env), "vague" in q))
                if "vague" not in q:
                    self.missed[c.fn.key] = (c.fn, None, False)
            return [((q - {"pending", "redirected"}) | {"fresh"}, None)]
        if b == "archive_entry_pathname":
            return [((q - {"fresh"}) | {"pending"} if "fresh" in q else q, F)]
        if b.startswith("archive_entry_set_pathname") or b.startswith("archive_entry_copy_pathname"):
            v = c.args[1] if len(c.args) > 1 else None
            if v is None:
                return [(q | {"vague"}, None)]
            return [(q | {"redirected"} if self.redirected(v) else q - {"redirected"}, None)]
        if b in ("checkFileExist",) and c.args and c.args[0] is not None and witness.has_witness(c.args[0]) and \
                self.world in KEPT:
            return [(q, ("c", 1))]
        return None

    def redirected(self, v):
        return any(p[0] == "s" and p[1].strip("/") for p in parts(v))

    def event(self, q, c):
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None:
            return q
        self.events += 1
        what = WORLDS[self.world][2]
        if eff[0] == "extract":
            if "pending" in q:
                self.extracted += 1
                fr = c.frame
                while fr is not None:
                    self.got[fr.fn.key] = 1
                    fr = fr.parent
                if "vague" not in q:
                    if self.world == "install no":
                        c.report("a file of the package is extracted although " + what, (self.world, "extracted"))
                    if self.world in KEPT and "redirected" not in q:
                        c.report("a file is overwritten although " + what, (self.world, "overwritten"))
                    if self.world in ("upgrade yes", "no rule") and "redirected" in q:
                        c.report("a file goes to another place although " + what, (self.world, "redirected"))
                q = q - {"pending"}
            return q
        if "vague" in q or self.world not in ("install no",) + KEPT:
            return q
        for p in eff[1]:
            v = c.eng.ev(c.fn, p, c.env)
            if v is None or not esp.mentions(v, lambda t: t == F) or self.redirected(v):
                continue
            if self.world in KEPT or eff[0] != "delete":
                c.report("%s of a file by %s() although %s" % (eff[0], c.name, what), (self.world, eff[0], c.fn.name))
        return q


class Order(worlds.World):
    """q = the rule file has been read (a malformed line ends the program there)"""

    def __init__(self, prog):
        super().__init__(prog)
        self.readers = {f.key for f in prog.fns.values() if any(
            n["k"] == "call" and n.get("o") and f.ex[n["o"]]["k"] == "fld" and f.ex[n["o"]].get("q") == RULES and
            (n.get("fn") or "").rsplit("::", 1)[-1] in ("push_back", "emplace_back", "insert") for n in f.nodes())}

    def node_relevant(self, fn, n):
        return n["k"] == "fld" and n.get("q") == RULES

    def enter(self, q, fn, c):
        return super().enter(q or fn.key in self.readers, fn, c)

    def on_call(self, q, c):
        if c.frame.ctx in self.add and not q:
            kind = self.modifies(c)
            if kind is not None:
                self.events += 1
                c.report("%s of an installed file or database entry by %s() before the rule file was read" % (
                    kind, c.name), ("order", c.fn.name, c.name))
        return None


def operations(prog):
    """(run function, class it runs for)"""
    out = []
    for cls in sorted(family(prog, "pkgadd")):
        own = [f for f in prog.fn(cls + "::run") if not f.params]
        base = own or [f for f in prog.fn("pkgadd::run") if not f.params]
        out += [(f.key, cls) for f in base]
    return out


def check(prog, res):
    jobs = [(k, cls, w) for k, cls in operations(prog) for w in WORLDS]

    def work(job):
        key, cls, w = job
        spec = Installing(prog, w)
        eng = witness.WEngine(prog, spec)
        outs = eng.run(prog.fns[key], frozenset(), dyncls=cls)
        missed = [(f.name, f.rel(), f.line) for k, (f, e, vague) in spec.missed.items() if k in spec.got and not vague]
        done = any(k == "ret" for k, q, v, e in outs)
        return (eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, missed, spec.extracted, spec.events,
                done, any("vague" in q for k, q, v, e in outs))
    spec = Order(prog)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, False)
    res.from_engine(eng)
    cov = {}
    for (key, cls, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng, cls + " ")
        if w in ("install yes", "no rule", "upgrade yes"):
            for name, rel, line in r[4]:
                res.violation((cls, w, "not extracted", name), "a file of the package is left out although " +
                              WORLDS[w][2], "%s:%s in %s" % (rel, line, name))
        cov["%s / %s" % (cls, w)] = {"assumption": WORLDS[w][2], "states": r[1], "extractions_of_the_file": r[5],
                                     "effects_examined": r[6], "operation_completed": r[7],
                                     "content_unknown_somewhere": r[8]}
    res.coverage["cases"] = cov
    res.rule("every installing operation is explored from its start with one generic file of the package, the rule "
             "that decides about it and unknown rules before and after: INSTALL NO - never extracted; UPGRADE NO and "
             "existing - neither deleted nor written at its place; otherwise extracted at its place")
