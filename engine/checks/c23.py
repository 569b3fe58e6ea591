import esp
import effects
from checks.common import CardsSpec, error_fields, family, is_scratch_term, parallel, parts
from checks.c15 import command_values

ROOT = "pkgdbh::m_root"
NODOTDOT, NOABSOLUTE = 0x0200, 0x10000
BUILT = ("operator+", "trimFileName", "archive_entry_pathname")
NAMES = ("-r", "--root")


def named(t):
    """a name the archive gives"""
    return t[0] == "call" and t[1] == "archive_entry_pathname"


class Confined(CardsSpec):
    """q = (the option was met on the command line, the root was taken from it, the working directory is the
    root, buffers holding the absolute root, name of the entry to be extracted: "own" | "rooted" | "outside")"""
    transparent = frozenset({"strdup", "strndup", "dirname"})

    def __init__(self, prog, command):
        self.prog = prog
        self.command = command
        self.value = command_values(prog)[command] if command else None
        self.fields = error_fields(prog)
        self.ops = family(prog, "pkgdbh")
        self.forced = self.judged = self.open = self.stores = 0

    def calls(self, n):
        return effects.is_fs_name(n) or n in ("chdir", "fchdir", "getcwd", "archive_entry_set_pathname",
                                              "archive_read_next_header", "chroot") or \
            n.endswith("::getCmdValue") or n.endswith("::isSet")

    def node_relevant(self, fn, n):
        """texts put together by helpers"""
        return fn.ret.replace("const ", "").startswith("std::") and "basic_string<char>" in fn.ret and \
            "<std::" not in fn.ret and n["k"] == "call" and \
            (n.get("fn") or "").rsplit("::", 1)[-1] in ("operator+", "operator+=", "append")

    def keep(self, v):
        return v[0] in ("new", "l", "un", "idx") or esp.mentions(v, lambda t: t == ("f", ROOT) or t[0] == "call" and
                                                           t[1].rsplit("::", 1)[-1] in BUILT or
                                                           t[0] == "s" and (t[1].startswith(".") or "/" in t[1]))

    def track(self, a):
        return is_scratch_term(a) and esp.mentions(a, named)

    def context(self, fn, pc):
        """the component at work: helpers belong to the one calling them"""
        return fn.cls if fn.cls and not fn.is_lambda else pc

    def option(self, v):
        return v is not None and (esp.mentions(v, lambda t: t[0] == "idx") or esp.mentions(
            v, lambda t: t[0] == "g" and t[1].endswith("::OPT_ROOT")))

    def on_assume(self, q, atom, truth, c):
        if atom[0] == "nz" and isinstance(atom[1], tuple) and atom[1][0] == "call" and \
                atom[1][1].endswith("::isSet") and self.option(atom[1]):
            if not truth:
                return None
            return (True,) + q[1:]
        if atom[0] == "eq" and truth and any(isinstance(x, tuple) and x[0] == "s" and x[1] in NAMES for x in atom[1:]):
            return (True,) + q[1:]
        return q

    def rooted(self, q, v):
        """is this the root, or a path built from it"""
        ps = parts(v)
        if not ps:
            return False
        p = ps[0]
        if p == ("f", ROOT):
            return True
        if p in q[3]:
            return len(ps) == 1 or (ps[1][0] == "s" and ps[1][1].startswith("/"))
        return False

    def place(self, q, v):
        """"rooted" | "here" (relative to the working directory) | "outside" | None (not known)"""
        if v is None:
            return None
        if self.rooted(q, v):
            return "rooted"
        ps = parts(v)
        if not ps or ps[0] == ("?",):
            return None
        p = ps[0]
        if p[0] == "s" and p[1].startswith("/") or p[0] in ("f", "fld", "g") or p in q[3]:
            return "outside"
        return "here"           # the names packages and records list are relative

    def on_store(self, q, f, v, c):
        if f != ROOT or v is None:
            return q
        ps = parts(v)
        if ps == [("s", "/")]:
            return q
        self.stores += 1
        last = ps[-1] if ps else ("?",)
        if last == ("?",):
            return (q[0], True) + q[2:]
        if not (last == ("f", ROOT) or last[0] == "s" and last[1].endswith("/")):
            c.report("the root the paths are composed from does not end in a separator", ("no-separator", c.fn.name))
        if any(p[0] == "s" and p[1].startswith("/") for p in ps[:1]) or ps[0] == ("f", ROOT):
            c.report("the root given is not the beginning of the paths", ("not-leading", c.fn.name))
            return q
        return (q[0], True) + q[2:]

    def on_call(self, q, c):
        n = c.base()
        a = c.node["a"]
        if self.command and c.name.endswith("::getCmdValue"):
            self.forced += 1
            return [(q, ("c", self.value))]
        if n == "chdir" and a:
            v = c.eng.ev(c.fn, a[0], c.env)
            here = self.rooted(q, v) and all(p == ("f", ROOT) or p in q[3] or p[0] == "s" and not p[1].strip("/.")
                                            for p in parts(v))
            return [(q[:2] + (here,) + q[3:], ("c", 0)), (q, ("c", -1))]
        if n == "fchdir":
            return [(q[:2] + (False,) + q[3:], ("c", 0)), (q, ("c", -1))]
        if n == "getcwd" and a:
            b = c.eng.ev(c.fn, a[0], c.env)
            if b is None:
                return None
            bufs = q[3] | {b} if q[2] else q[3] - {b}
            return [(q[:3] + (bufs,) + q[4:], b), (q[:3] + (q[3] - {b},) + q[4:], ("c", 0))]
        if n == "archive_read_next_header":
            return [(q[:4] + ("own",), None)]
        if n == "archive_entry_set_pathname" and len(a) == 2:
            v = c.eng.ev(c.fn, a[1], c.env)
            p = self.place(q, v)
            if p == "here" and not esp.mentions(v, named):
                p = "rooted" if q[2] else "outside"
            return [(q[:4] + ({"rooted": "rooted", "outside": "outside", None: "rooted"}.get(p, "own"),), None)]
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None or c.frame.ctx not in self.ops:
            return None
        kind, paths = eff
        self.judged += 1
        key = (c.name, c.fn.name)
        if q[0] and not q[1]:
            c.report("%s() modifies the system although the root asked for was not taken over" % c.name,
                     ("root-ignored",) + key)
        if kind == "extract":
            if not n.startswith("archive_read_extract"):
                return None
            flags = c.eng.ev(c.fn, a[2], c.env) if len(a) > 2 else None
            flags = flags[1] if flags and flags[0] == "c" else None
            fixed = any(k[0] == "A" and t and k[1][0] == "eq" and is_scratch_term(k[1]) for k, t in c.env.items())
            if flags is not None and not fixed and not flags & NODOTDOT:
                c.report("an entry is extracted without its name being refused when it climbs out of the root",
                         ("entry-climbs",) + key)
            if q[4] == "own" and not fixed and (flags is None or not flags & NOABSOLUTE):
                c.report("an entry is extracted under the name the archive gives, which may be an absolute one",
                         ("entry-own",) + key)
            if q[4] == "outside":
                c.report("an entry is extracted under a name not built from the root", ("entry-outside",) + key)
            elif q[4] == "own" and not q[2]:
                c.report("an entry is extracted while the working directory is not the root", ("entry-here",) + key)
            return None
        for p in paths:
            v = c.eng.ev(c.fn, p, c.env)
            w = self.place(q, v)
            if w is None:
                self.open += 1
            elif w == "outside":
                c.report("%s() is given a path not built from the root" % c.name, ("outside",) + key)
            elif w == "here" and not q[2]:
                c.report("%s() is given a relative path while the working directory is not the root" % c.name,
                         ("relative",) + key)
            elif esp.mentions(v, lambda t: t[0] == "s" and ".." in t[1].split("/")):
                c.report("%s() is given a path that leaves the root" % c.name, ("dotdot",) + key)
        return None


COMMANDS = [("CMD_INSTALL", "cards.cxx"), ("CMD_UPGRADE", "cards.cxx"), ("CMD_REMOVE", "cards.cxx"), (None, "tools.cxx")]


def check(prog, res):
    vals = command_values(prog)
    cmds = [(c, m) for c, m in COMMANDS if c is None or c in vals]

    def work(item):
        cmd, main = item
        spec = Confined(prog, cmd)
        eng = esp.Engine(prog, spec)
        eng.run(prog.main(main), (False, False, False, frozenset(), "own"))
        return (eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, spec.forced, spec.judged,
                spec.open, spec.stores)
    cov = {}
    for (cmd, main), r in zip(cmds, parallel(work, cmds)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        cov[cmd or main] = {"states": r[1], "modifying_calls_judged": r[5], "paths_of_unknown_origin": r[6],
                            "roots_taken_over": r[7]}
    res.coverage["commands"] = cov
    res.rule("cards' main with the command fixed to install, upgrade and remove (with --root given), and the package "
             "tools' main, are explored. The root is taken from the command line before any modification, leads every "
             "path and ends in a separator; every path given to a modifying call by the package operations is "
             "composed from the root (or from the absolute name of the working directory while that is the root) or is "
             "relative while the working directory is the root; an archive's entries are extracted under rooted names, "
             "climbing names refused, or under a name compared with a constant")
    if not any(cov[c]["modifying_calls_judged"] for c in cov):
        raise RuntimeError("no modifying call was met")
    res.assumptions.append("a root given is absolute; symbolic links met on the way are not followed by this argument")
