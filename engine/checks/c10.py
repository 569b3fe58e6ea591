"""C10: package scripts run only when allowed; a failing pre-script ends the program before any change."""
import esp
import effects
from checks.common import CORE, CardsSpec, error_fields, family, is_scratch_term, mains, opt_is, owner
from checks.c14 import SPAWN, reaching

PRE = {"PRE", "PRER"}
POST = {"POST", "POSTR"}
ALLOW = "pkgdbh::m_runPrePost"
DISABLING = {"-i", "--ignore"}
FAIL = (-1, 1, 2, 127, 255)


def script(vals):
    """'pre' | 'post' | None: the package script a program is started with"""
    for v in vals:
        if v is None:
            continue
        for names, k in ((PRE, "pre"), (POST, "post")):
            if esp.mentions(v, lambda t: t[0] == "s" and t[1].rsplit("/", 1)[-1].lstrip(".").split(" ")[0] in names):
                return k
    return None


class Scripts(CardsSpec):
    """q = (scripts disabled by an option, something changed since the package's operation began,
            function whose pre-script failed | None)"""
    transparent = frozenset({"strdup", "dirname"})

    def __init__(self, prog, starters, classes):
        self.fields = error_fields(prog) | {ALLOW}
        self.starters = starters
        self.classes = classes
        self.family = family(prog)
        self.runs = {"pre": 0, "post": 0}
        self.disablings = 0
        self.failures = 0

    def calls(self, n):
        return n in self.starters or effects.is_fs_name(n) or n in ("exit", "_exit")

    def keep(self, v):
        return v[0] in ("new", "proc") or script((v,)) is not None or is_scratch_term(v) or \
            esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields or
                         t[0] == "call" and t[1] == "archive_entry_pathname" or opt_is(t, "OPT_DISABLE"))

    def track(self, a):
        return (esp.mentions(a, lambda t: opt_is(t, "OPT_DISABLE") or t[0] == "f" and t[1] == ALLOW)) or \
            (is_scratch_term(a) and esp.mentions(a, lambda t: t[0] == "call" and t[1] == "archive_entry_pathname"))

    def context(self, fn, pc):
        return bool(pc) or owner(fn) in CORE

    def on_assume(self, q, atom, truth, c):
        if truth and (atom[0] == "nz" and opt_is(atom[1], "OPT_DISABLE") or
                      atom[0] == "eq" and any(isinstance(x, tuple) and x[0] == "s" and x[1] in DISABLING
                                              for x in atom[1:])):
            self.disablings += 1
            return (True,) + q[1:]
        return q

    def enter(self, q, fn, c):
        if fn.cls in self.family and fn.name.rsplit("::", 1)[-1] == "run":
            return (q[0], False, None)
        return q

    def on_call(self, q, c):
        if c.fn.key not in self.starters.values() and (c.name in self.starters or c.node["k"] == "ctor" and
                                                       c.node.get("cls") in self.classes):
            k = script(c.args)
            if c.node["k"] == "ctor":
                return [(q, ("proc", k or "other"))]
            if k is None and c.obj is not None and c.obj[0] == "proc" and c.obj[1] != "other":
                k = c.obj[1]
            if k is None and owner(c.fn) in CORE and c.base() == "executeShell":
                k = "post"
            if k is None:
                return None
            self.runs[k] += 1
            t = c.eng.truth(c.env.get(("F", ALLOW), ("f", ALLOW)), c.env)
            if q[0] or t is not True:
                c.report("a %s script of the package is run %s" %
                         (k, "although an option disabled scripts" if q[0] else
                          "without testing that scripts may run"), ("disabled", k, c.fn.name))
            if k == "post":
                return [(q, None)]
            if q[1]:
                c.report("a pre script of the package is run after installed files or the database were changed",
                         ("pre-late", c.fn.name))
            if not any(t.ret in ("int", "bool", "long") for t in c.targets):
                c.report("a pre script of the package is run in a way that hides its outcome",
                         ("pre-unseen", c.fn.name))
                return [(q, None)]
            return [(q, ("c", 0))] + [((q[0], q[1], c.fn.name), ("c", v)) for v in FAIL]
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None or not c.frame.ctx:
            return None
        kind, paths = eff
        if kind == "extract":
            for k, t in c.env.items():
                if k[0] == "A" and t and k[1][0] == "eq" and is_scratch_term(k[1]):
                    return None
        else:
            vals = [c.eng.ev(c.fn, p, c.env) for p in paths]
            if vals and all(is_scratch_term(v) for v in vals):
                return None
        if q[2]:
            c.report("%s of an installed file or database entry by %s() after the pre script run by %s failed" %
                     (kind, c.name, q[2]), ("continues", q[2], c.fn.name))
        return [((q[0], True, q[2]), None)] if not q[1] else None

    def on_exit_process(self, q, c):
        if q[2]:
            self.failures += 1
            a = c.args[0] if c.args else None
            if c.base() in ("exit", "_exit", "_Exit") and (a is None or a[0] != "c" or a[1] & 0xff == 0):
                c.report("the program ends with status zero although the pre script run by %s failed" % q[2],
                         ("exit-zero", q[2]))

    def leave(self, q, fn, kind, c):
        if q[2] and kind == "ret" and fn.cls in self.family and fn.name.rsplit("::", 1)[-1] == "run":
            c.report("the operation goes on after the pre script run by %s failed" % q[2], ("survives", q[2]))
            return (q[0], q[1], None)
        return q


def check(prog, res):
    hit, callers = reaching(prog, SPAWN)
    starters = {}
    classes = set()
    st = list(hit)
    seen = set(hit)
    while st:
        k = st.pop()
        f = prog.fns[k]
        if f.cls:
            classes.add(f.cls)
        starters[f.name] = k
        for x in callers.get(k, ()):
            g = prog.fns[x]
            if x not in seen and (g.cls or g.file) == (f.cls or f.file):
                seen.add(x)
                st.append(x)
    spec = Scripts(prog, starters, classes)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        for kind, q, val, keep in eng.run(m, (False, False, None)):
            if kind == "ret" and q[2] and (val is None or val[0] != "c" or val[1] & 0xff == 0):
                res.violation(("exit-zero", q[2]), "main returns %s although the pre script run by %s failed" %
                              ("zero" if val == ("c", 0) else "an unknown status", q[2]), m.loc())
    res.from_engine(eng)
    res.coverage["pre_script_runs"] = spec.runs["pre"]
    res.coverage["post_script_runs"] = spec.runs["post"]
    res.coverage["option_tests_disabling_scripts"] = spec.disablings
    res.coverage["failing_pre_scripts_followed_to_the_end"] = spec.failures
    res.rule("from both mains: a child started with a package script is reached only with the script switch on and "
             "no disabling option seen; a pre script is started before anything of the package was changed, each "
             "failing outcome (-1, 1, 2, 127, 255) of it leads to the process's end with a non-zero status and "
             "through no modification")
