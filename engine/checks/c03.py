import esp
import effects
from checks.common import CORE, CardsSpec, is_scratch_term, owner, mains, error_fields

PROTECTED = CORE | {"cards::sync", "cards::conf"}


class RootSpec(CardsSpec):
    """q = process known to run as root"""
    transparent = frozenset({"strdup", "dirname"})

    def __init__(self, prog):
        self.fields = error_fields(prog)
        self.sinks = 0
        self.tests = 0

    def calls(self, n):
        return effects.is_fs_name(n) or n in ("getuid", "geteuid")

    def keep(self, v):
        return esp.mentions(v, lambda t: t[0] == "new" or (t[0] == "f" and t[1] in self.fields) or (t[0] == "call" and t[1] in ("getuid", "geteuid"))
                            or t[0] == "call" and t[1].endswith("::isSet"))

    def track(self, a):
        return True if esp.mentions(a, lambda t: t[0] == "call" and t[1] in ("getuid", "geteuid")) else \
            esp.mentions(a, lambda t: t[0] == "call" and t[1].endswith("::isSet") and
                         t[3] and t[3][0] and t[3][0][0] == "g" and "DOWNLOAD" in t[3][0][1])

    def context(self, fn, pc):
        return bool(pc) or owner(fn) in PROTECTED

    def on_assume(self, q, atom, truth, c):
        if atom[0] == "nz" and atom[1] is not None and atom[1][0] == "call" and \
                atom[1][1] in ("getuid", "geteuid") and not truth:
            self.tests += 1
            return True
        if atom[0] == "lt" and atom[1][0] == "call" and atom[1][1] in ("getuid", "geteuid") and \
                atom[2] == 1 and truth:
            self.tests += 1
            return True
        return q

    def on_call(self, q, c):
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None or not c.frame.ctx:
            return None
        self.sinks += 1
        if not q:
            c.report("%s by %s() before the process was established to run as root" % (eff[0], c.name),
                     ("noroot", c.fn.name, c.name))
        return None


def check(prog, res):
    spec = RootSpec(prog)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, False)
    res.from_engine(eng)
    res.coverage["modification_events"] = spec.sinks
    res.coverage["uid_tests_passed_on_paths"] = spec.tests
    res.rule("on every path from both mains, a branch established getuid()==0 before the first "
             "file-system modification performed with a frame of pkgdbh/pkgadd/pkgrm/sync/conf on the stack")
