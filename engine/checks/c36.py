"""C36: with an alternative root, every component looks at that root, each object of its own."""
import esp
from checks.c15 import command_values
from checks.c23 import ROOT
from checks.common import CardsSpec, error_fields, family, parallel, parts


class Objects(CardsSpec):
    """q = the objects (by the class they were made of) whose root is the one asked for"""
    transparent = frozenset({"strdup", "move"})

    def __init__(self, prog, command):
        self.prog = prog
        self.value = command_values(prog)[command]
        self.fields = error_fields(prog)
        self.ops = family(prog, "pkgdbh")
        self.uses = self.taken = self.forced = 0
        self.objects = set()

    def calls(self, n):
        return n.endswith(("::getCmdValue", "::isSet", "::getOptionValue"))

    def pure(self, n):
        return n.rsplit("::", 1)[-1] in ("isSet", "getOptionValue", "operator+") or CardsSpec.pure(self, n)

    def node_relevant(self, fn, n):
        return n.get("q") == ROOT or n["k"] == "call" and "basic_string" in n.get("t", "") and \
            (n.get("fn") or "").rsplit("::", 1)[-1] in ("operator+", "operator+=", "append")

    def keep(self, v):
        return v[0] == "new" or self.option(v) or v == ("s", "/")

    def track(self, a):
        return False

    def context(self, fn, pc):
        """the class of the object at work: what the constructor or destructor of a base class does, and what those
        call on their own object, belongs to the object of the derived class"""
        if not fn.cls:
            return None
        if fn.name.rsplit("::", 1)[-1].lstrip("~") == fn.cls.rsplit("::", 1)[-1]:
            return pc if pc and pc in family(self.prog, fn.cls) else fn.cls
        return pc if pc and pc in family(self.prog, fn.cls) else None

    def option(self, v):
        return v is not None and esp.mentions(v, lambda t: t[0] == "g" and t[1].endswith("::OPT_ROOT"))

    def me(self, fr):
        return fr.ctx or fr.dyncls or fr.fn.cls

    def on_assume(self, q, atom, truth, c):
        if atom[0] == "nz" and isinstance(atom[1], tuple) and atom[1][0] == "call" and \
                atom[1][1].endswith("::isSet") and self.option(atom[1]) and not truth:
            return None
        return q

    def on_store(self, q, f, v, c):
        if f != ROOT:
            return q
        who = self.me(c.frame)
        self.objects.add(who)
        if v is not None and (self.option(v) or esp.mentions(v, lambda t: t == ("f", ROOT)) and who in q):
            self.taken += 1
            return q | {who}
        if v is None:
            return q | {who}         # a value that is not understood
        ps = parts(v)
        return q - {who} if ps == [("s", "/")] else q | {who}

    def on_call(self, q, c):
        n = c.base()
        if c.name.endswith("::getCmdValue"):
            self.forced += 1
            return [(q, ("c", self.value))]
        if n not in ("operator+", "operator+=", "append") or c.fn.cls not in self.ops:
            return None
        a = [c.eng.ev(c.fn, x, c.env) for x in c.node["a"]]
        if c.node.get("o"):
            a.append(c.eng.ev(c.fn, c.node["o"], c.env))
        if not any(v is not None and parts(v)[:1] == [("f", ROOT)] for v in a) or any(self.option(v) for v in a):
            return None
        self.uses += 1
        who = self.me(c.frame)
        if who not in q:
            c.report("%s is composed for the running system although a root was given (object of class %s)" % (
                "a path", who), ("other-root", who, c.fn.name))
        return None


COMMANDS = ("CMD_INSTALL", "CMD_UPGRADE", "CMD_REMOVE")


def check(prog, res):
    vals = command_values(prog)
    cmds = [c for c in COMMANDS if c in vals]

    def work(cmd):
        spec = Objects(prog, cmd)
        eng = esp.Engine(prog, spec)
        eng.run(prog.main("cards.cxx"), frozenset())
        return (eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, spec.forced, spec.uses, spec.taken,
                sorted(spec.objects))
    cov = {}
    for cmd, r in zip(cmds, parallel(work, cmds)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        cov[cmd] = {"states": r[1], "paths_composed": r[5], "roots_taken_over": r[6], "objects": r[7]}
        if not r[4] or not r[5]:
            raise RuntimeError("no use of the root was met for %s" % cmd)
    res.coverage["commands"] = cov
    res.rule("cards' main with the command fixed to install, upgrade and remove and --root given is explored; for every "
             "object of the package database classes (told apart by the class it was made of) the root it holds is "
             "followed through constructors, assignments and setters: a path that starts with the root is composed "
             "only after the object took over the root asked for")
    res.assumptions.append("two objects of the same class alive at once are given their root in the order they are made")
