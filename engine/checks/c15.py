"""C15: for every query command, and for help, version and everything around a tool's run, no call that creates,
changes or deletes a file is reachable."""
import esp
import effects
from checks.common import CardsSpec, error_fields, mains, parallel

QUERIES = ["CMD_HELP", "CMD_CONFIG", "CMD_FILES", "CMD_SEARCH", "CMD_LIST", "CMD_QUERY", "CMD_INFO", "CMD_DIFF",
           "CMD_LEVEL", "CMD_DEPENDS", "CMD_DEPENDENT", "CMD_DEPTREE"]
MAP_SHARED, PROT_WRITE = 1, 2


def writes(fn, n):
    """kind of change to files or other processes' work a call makes, or None"""
    eff = effects.fs_effect(fn, n)
    if eff:
        return eff[0]
    name = n.get("fn")
    if name in effects.EXEC:
        return "execution of a program"
    if name in effects.FDMOD:
        return "change"
    if name in ("mmap", "mmap64") and len(n["a"]) > 3:
        p, f = effects.const(fn, n["a"][2]), effects.const(fn, n["a"][3])
        if p is None or f is None or (p & PROT_WRITE and f & MAP_SHARED):
            return "writable shared mapping"
    return None


class Query(CardsSpec):
    """cards: the command is fixed; tools: q = class of the utility"""

    def __init__(self, prog, cmd):
        self.prog = prog
        self.cmd = cmd
        self.late = pending(prog)
        self.fields = error_fields(prog) | self.late
        self.forced = self.events = 0

    def calls(self, n):
        return effects.is_fs_name(n) or n in effects.EXEC or n in effects.FDMOD or \
            n in ("mmap", "mmap64", "exit", "_exit") or n.endswith("::getCmdValue")

    def keep(self, v):
        return v[0] == "new" or esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields)

    def track(self, a):
        return False

    def context(self, fn, pc):
        """the operation in progress; the refresh of the cached lists within diff"""
        if pc is None and fn.cls and fn.name.rsplit("::", 1)[-1] == "run":
            return fn.cls
        return pc

    def on_assume(self, q, atom, truth, c):
        """a pending list nothing was added to is empty"""
        for f in self.late - q:
            t = ("f", f)
            if atom == ("nz", ("size", t)) and truth:
                return None
            if atom[0] == "eq" and not truth and all(isinstance(x, tuple) and x[0] == "call" and x[2] == t
                                                     for x in atom[1:]):
                return None
        return q

    def on_call(self, q, c):
        if self.cmd and c.name.endswith("::getCmdValue"):
            self.forced += 1
            return [(q, ("c", self.prog_value(self.cmd)))]
        k = writes(c.fn, c.node)
        if k:
            self.events += 1
            if self.cmd == "CMD_DIFF" and c.frame.ctx == "cards::sync":
                return [(q, None)]       # the lists being compared are refreshed first, by design
            if "operation" in q:
                return [(q, None)]       # inside or after pkgadd or pkgrm proper
            who = self.cmd[4:].lower() if self.cmd else c.frame.ctx or "help, version or start-up"
            c.report("%s by %s() reachable from the %s command" % (k, c.name, who), (who, c.fn.name, c.name))
        return None

    def on_node(self, q, c):
        n = c.node
        if n["k"] == "call" and self.late - q:
            on = c.fn.ex.get(n.get("o"))
            if on and on["k"] == "fld" and on["q"] in self.late and (
                    (n.get("fn") or "").rsplit("::", 1)[-1] in esp.MUTATORS or n.get("op") in ("=", "[]")):
                q = q | {on["q"]}
            for a in n["a"]:
                an = c.fn.ex.get(a)
                if an and an["k"] == "fld" and an["q"] in self.late and self.prog.targets(n):
                    q = q | {an["q"]}
        return q

    def enter(self, q, fn, c):
        if not self.cmd and c.frame.ctx not in (None, "pkginfo"):
            return q | {"operation"}
        return q

    def prog_value(self, name):
        return command_values(self.prog)[name]


def pending(prog):
    """container attributes consulted when a database object is destroyed"""
    out, seen = set(), set()
    st = [f for f in prog.fns.values() if f.dtor and f.cls == "pkgdbh"]
    while st:
        f = st.pop()
        if f.key in seen:
            continue
        seen.add(f.key)
        for n in f.nodes():
            if n["k"] == "fld" and n.get("t", "").replace("const ", "").startswith("std::") and \
                    esp.re.match(r"std::(map|set|vector|list|multimap|multiset|deque|unordered_)", n["t"].replace("const ", "")):
                out.add(n["q"])
            if n["k"] in ("call", "ctor"):
                st += prog.targets(n)
    return frozenset(out)


def command_values(prog):
    for vals in prog.enums.values():
        if "CMD_HELP" in vals:
            return vals
    raise RuntimeError("no enumeration of commands found")


def check(prog, res):
    tools, cards = mains(prog)
    vals = command_values(prog)

    def work(cmd):
        spec = Query(prog, cmd)
        eng = esp.Engine(prog, spec)
        eng.run(cards if cmd else tools, frozenset())
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, spec.forced, spec.events
    cmds = [c for c in QUERIES if c in vals] + [None]
    cov = {}
    for cmd, r in zip(cmds, parallel(work, cmds)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        cov[cmd or "tools"] = {"functions_entered": len(r[2]), "call_sites_visited": len(r[3]),
                               "command_fixed_at": r[4], "modifying_calls_met": r[5]}
    res.coverage["commands"] = cov
    res.rule("cards' main is explored with the command fixed to each query command, and the package tools' main for "
             "pkginfo and for everything outside pkgadd's and pkgrm's run: no call that creates, opens for writing, "
             "renames, deletes, extracts, maps shared-writable or executes a program is reachable")
