import esp
import effects
from checks.common import CORE, CardsSpec, is_scratch_term, opt_is, owner, mains, SCRATCH


class LockSpec(CardsSpec):
    """q = (number of exclusive locks held, exempt)"""
    transparent = frozenset({"strdup", "dirname"})

    def __init__(self):
        self.sinks = 0
        self.locks = 0

    def calls(self, n):
        return effects.is_fs_name(n) or n.startswith("cards::lock::")

    def keep(self, v):
        return esp.mentions(v, lambda t: t[0] == "new" or opt_is(t, "OPT_NO_META") or
                            (t[0] == "call" and t[1] == "archive_entry_pathname") or
                            (t[0] == "s" and t[1].lstrip("/") in SCRATCH))

    def track(self, a):
        return esp.mentions(a, lambda t: opt_is(t, "OPT_NO_META")) or \
            (is_scratch_term(a) and esp.mentions(a, lambda t: t[0] == "call" and
                                                 t[1] == "archive_entry_pathname"))

    def context(self, fn, pc):
        return bool(pc) or owner(fn) in CORE

    def on_assume(self, q, atom, truth, c):
        if truth and atom[0] == "nz" and opt_is(atom[1], "OPT_NO_META"):
            return (q[0], True)
        return q

    def on_call(self, q, c):
        if c.name == "cards::lock::lock":
            self.locks += 1
            # a copied or shared lock does not count
            ex = c.args[1] if len(c.args) > 1 else None
            root = c.args[0] if c.args else None
            if root is not None and root[0] in ("s", "c", "empty", "g"):
                c.report("the lock taken is not the one of the target root's package database",
                         ("wrong-root", c.fn.name))
                return [(q, None)]
            if ex is not None and ex[0] == "c" and ex[1]:
                return [((min(q[0] + 1, 3), q[1]), None), ]
            return [(q, None)]
        if c.name.startswith("cards::lock::~"):
            return [(q, None)]
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None or not c.frame.ctx:
            return None
        self.sinks += 1
        kind, paths = eff
        if q[0] > 0 or q[1]:
            return None
        if kind == "extract":
            # extraction guarded by "the entry is a scratch file"
            for k, t in c.env.items():
                if k[0] == "A" and t and k[1][0] == "eq" and is_scratch_term(k[1]):
                    return None
        else:
            vals = [c.eng.ev(c.fn, p, c.env) for p in paths]
            if vals and all(is_scratch_term(v) for v in vals):
                return None
        c.report("%s of an installed file or database entry by %s() without the exclusive lock" %
                 (kind, c.name), ("nolock", c.fn.name, c.name))
        return None

    def on_dtor(self, q, typ, val, c):
        if esp.clean_type(typ) == "cards::lock":
            # a shared lock is not counted, so neither is its release
            if val is not None and val[0] == "sh":
                return q
            return (max(q[0] - 1, 0), q[1])
        return q


def check(prog, res):
    spec = LockSpec()
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, (0, False))
    res.from_engine(eng)
    res.coverage["modification_events"] = spec.sinks
    res.coverage["lock_acquisitions"] = spec.locks
    res.rule("on every path from both mains, every file-system modification performed with a frame of "
             "pkgdbh/pkgadd/pkgrm on the stack happens while a cards::lock built with exclusive=true is "
             "alive (scratch names and create --no-meta exempt)")
    res.assumptions += ["scripts and maintenance programs a package runs are outside the rule",
                        "library calls not listed in effects.py do not modify the root"]
