"""Exploration under assumptions: the values of deciding calls and attributes are fixed, everything else is
unknown, and the operation in progress is the calling context."""
import esp
import effects
from checks.common import CardsSpec, error_fields, family, is_scratch_term, mains, parallel, has_str, SCRATCH

UPGRADE, FORCE, ROOT = "pkgadd::m_upgrade", "pkgadd::m_force", "pkgdbh::m_root"


class World(CardsSpec):
    transparent = frozenset({"strdup", "dirname"})
    track_fields = frozenset()
    watch = frozenset()           # further functions whose calls are events

    def __init__(self, prog, world=None):
        self.prog = prog
        self.world = world
        self.fields = error_fields(prog) | self.track_fields
        self.add, self.rm = family(prog, "pkgadd"), family(prog, "pkgrm")
        self.ops = self.add | self.rm
        self.forced = self.entered = self.events = 0

    def calls(self, n):
        return effects.is_fs_name(n) or n in ("exit", "_exit") or n in self.watch

    def keep(self, v):
        return v[0] == "new" or esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields or
                                             t[0] == "call" and t[1] == "archive_entry_pathname" or
                                             t[0] == "s" and t[1].lstrip("/") in SCRATCH)

    def track(self, a):
        return is_scratch_term(a) and esp.mentions(a, lambda t: t[0] == "call" and t[1] == "archive_entry_pathname")

    def is_run(self, fn):
        return fn.cls in self.ops and fn.name.rsplit("::", 1)[-1] == "run"

    def context(self, fn, pc):
        if pc is None and self.is_run(fn):
            return fn.cls
        return pc

    def enter(self, q, fn, c):
        if self.is_run(fn):
            self.entered += 1
        return q

    def truth(self, c, field):
        return c.eng.truth(c.env.get(("F", field), ("f", field)), c.env)

    def modifies(self, c):
        """kind of file-system modification of other than scratch names a call makes, or None"""
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None:
            return None
        kind, paths = eff
        if kind == "extract":
            for k, t in c.env.items():
                if k[0] == "A" and t and k[1][0] == "eq" and is_scratch_term(k[1]):
                    return None
        else:
            vals = [c.eng.ev(c.fn, p, c.env) for p in paths]
            if vals and all(is_scratch_term(v) for v in vals):
                return None
        return kind


def explore(prog, res, make, worlds, q0, before=None):
    """runs make(world) from both mains for every world, in parallel; returns {world: coverage}"""
    def work(w):
        spec = make(w)
        eng = esp.Engine(prog, spec)
        for m in mains(prog):
            eng.run(m, q0)
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, spec.forced, spec.entered, spec.events
    out = {}
    for w, r in zip(worlds, parallel(work, list(worlds))):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        out[w] = {"assumption": worlds[w], "values_forced": r[4], "operations_entered": r[5], "states": r[1],
                  "modifications_examined": r[6]}
    return out
