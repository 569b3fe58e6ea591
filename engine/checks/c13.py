import esp
from checks.common import CardsSpec, error_fields, mains

INFO = {"-h", "--help", "-v", "--version", "help", "version", "-V"}


class Exit(CardsSpec):
    """q = (error state, asked): error state in none|raised|printed; asked: what entitles the
    program to succeed (a command or tool was recognised, help or version was asked for)"""
    max_states = 6000000

    def __init__(self, prog):
        self.fields = error_fields(prog)
        self.tools = {"pkgdbh"} | prog.subclasses.get("pkgdbh", set())
        self.throws = set()
        self.caught = set()
        self.exits = set()

    def calls(self, n):
        return n.endswith("::what") or n in ("exit", "_exit", "std::exit", "fork", "vfork") or n.endswith("::getCmdValue")

    def node_relevant(self, fn, n):
        return n["k"] == "throw"

    def pure(self, n):
        return CardsSpec.pure(self, n) or n.endswith("::getCmdValue")

    def keep(self, v):
        return v[0] == "new" or esp.mentions(v, lambda t: (t[0] == "f" and t[1] in self.fields) or
                                             (t[0] == "call" and t[1].endswith("::getCmdValue")))

    def track(self, a):
        return esp.mentions(a, lambda t: t[0] == "call" and t[1].endswith("::getCmdValue"))

    def on_node(self, q, c):
        n = c.node
        if q[0] == "child":
            return q
        if n["k"] == "throw":
            if n.get("tt"):
                self.throws.add((c.fn.key, n["i"]))
            return ("raised", q[1])
        if n["k"] == "new" and esp.clean_type(n["nt"]) in self.tools:
            return (q[0], True)
        return q

    def on_assume(self, q, atom, truth, c):
        if truth and esp.mentions(atom, lambda t: (t[0] == "s" and t[1] in INFO) or
                                  (t[0] == "f" and "HELP" in t[1]) or (t[0] == "g" and "HELP" in t[1])):
            return (q[0], True)
        if truth == (atom[0] == "eq") and atom[0] in ("eq", "nz") and esp.mentions(
                atom, lambda t: t[0] == "call" and t[1].endswith("::getCmdValue")):
            return (q[0], True)
        return q

    def on_call(self, q, c):
        if c.name in ("fork", "vfork"):
            # the child is not the program: what ends it is the subject of C14
            return [(("child", q[1]), ("c", 0)), (q, ("c", 4242)), (q, ("c", -1))]
        if c.name.endswith("::what") and q[0] == "raised":
            self.caught.add(c.fn.name)
            return [(("printed", q[1]), None)]
        return None

    def end(self, q, c, val, how):
        if q[0] == "child":
            return
        zero = val is None or (val[0] == "c" and val[1] & 0xff == 0)
        unknown = val is None or val[0] != "c"
        self.exits.add((how, c.fn.name, str(val), q))
        if q[0] != "none" and (zero or unknown):
            c.report("%s ends the program with status %s although an error was raised" %
                     (c.fn.name, "zero" if not unknown else "unknown"), ("error-then-success", c.fn.name))
        if how == "exit" and zero and not q[1]:
            c.report("%s ends the program with status zero although neither help nor version was asked for" %
                     c.fn.name, ("unasked-success", c.fn.name))
        if q[0] == "raised" and not (zero or unknown):
            c.report("an error ends the program without its message being printed", ("silent", c.fn.name))

    def on_exit_process(self, q, c):
        if c.base() in ("exit", "_exit", "_Exit"):
            self.end(q, c, c.args[0] if c.args else None, "exit")

    def leave(self, q, fn, kind, c):
        if c.frame.parent is None:
            if kind == "exc":
                c.report("an error raised on this path is not caught by main", ("uncaught", "main"))
        return q

    def on_return(self, q, fn, val, c):
        if c.frame.parent is None:
            self.end(q, c, val, "return")
            if val is not None and val == ("c", 0) and q[0] == "none" and not q[1]:
                c.report("main reports success although no command or tool was recognised",
                         ("unknown-command", fn.file.rsplit("/", 1)[-1]))
        return q


def check(prog, res):
    spec = Exit(prog)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, ("none", False))
    res.from_engine(eng)
    # the command-line parser may only end the program successfully when help was asked for
    res.coverage["throw_sites_reached"] = len(spec.throws)
    res.coverage["handlers_printing_the_message"] = sorted(spec.caught)
    res.coverage["ends_of_the_program_examined"] = len(spec.exits)
    res.rule("on every path from both mains: after any throw the program ends through a handler that uses "
             "what() and with a constant non-zero status; no throw escapes main; main returns zero only "
             "after a command value was matched or a tool object created")
