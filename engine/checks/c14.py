import esp
import effects
from checks.common import CORE, CardsSpec, error_fields, mains, owner

SPAWN = {"fork", "vfork"}
WAIT = {"waitpid": (1, 2), "wait": (0, None), "wait4": (1, 2), "wait3": (0, 1)}
EXEC = {"execl", "execv", "execvp", "execve", "execlp", "execle", "execvpe", "fexecve"}
DELEGATE = {"system", "std::system"}
PID = 4242
# raw wait status -> did the child succeed?
STATUS = {0: True, 0x100: False, 0xff00: False, 9: False, 0x86: False, 0x8b: False}
WNOHANG = 1


class Child(esp.Spec):
    """q = (phase, wait status): what became of the child on this path"""
    max_states = 1500000

    def __init__(self):
        self.outcomes = {}

    def calls(self, n):
        return n in SPAWN or n in WAIT or n in EXEC or n in DELEGATE or n in ("pipe", "pipe2", "_exit", "exit", "_Exit")

    def keep(self, v):
        return v[0] in ("cmp", "not", "and", "or") and not esp.mentions(
            v, lambda t: t[0] in ("call", "l", "f", "g", "fld"))

    def track(self, a):
        return False

    def on_call(self, q, c):
        n = c.name
        if n in ("pipe", "pipe2"):
            return [(q, ("c", 0)), (("pipe-failed",), ("c", -1))]
        if n in SPAWN:
            return [(("child",), ("c", 0)), (("fork-failed",), ("c", -1)), (("running",), ("c", PID))]
        if n in WAIT:
            si, oi = WAIT[n]
            outs = []
            # waitpid leaves the status word alone when it fails or the child still runs
            ck = c.eng.cell(c.fn, c.node["a"][si], False) if si < len(c.node["a"]) else None
            old = {si: c.env.get(ck)} if ck is not None else {}
            flags = c.args[oi] if oi is not None and oi < len(c.args) else ("c", 0)
            if flags != ("c", 0):
                outs.append((q, ("c", 0), old))
            outs.append((("wait-failed",), ("c", -1), old))
            for st in STATUS:
                outs.append((("reaped", st), ("c", PID), {si: ("c", st)}))
            return outs
        if n in DELEGATE:
            return [(("wait-failed",), ("c", -1))] + [(("reaped", st), ("c", st)) for st in STATUS]
        if n in EXEC:
            if q == ("child",):
                return [(("exec-failed",), ("c", -1))]
            return None
        if n in ("_exit", "exit", "_Exit") and q[0] in ("child", "exec-failed"):
            a = c.args[0] if c.args else None
            if a is None or a[0] != "c" or a[1] & 0xff == 0:
                c.report("the child ends with status zero although the program could not be executed",
                         ("child-exit", c.fn.name))
            self.outcomes["execute failed"] = self.outcomes.get("execute failed", 0) + 1
            return []
        return None

    def node_relevant(self, fn, n):
        return fn.key in self.close


class After(CardsSpec):
    """q = "ok", or ("failed"|"build-failed", function whose child failed): not yet reported.
    A failed maintenance script may be reported on the error output; a failed build may not be survived."""
    FAIL = (-1, 1, 2, 127, 255)

    def __init__(self, prog, runner, roots):
        self.fields = error_fields(prog)
        self.runner = runner
        self.roots = {f.name for f in roots}
        self.sites = set()
        self.ends = 0

    def calls(self, n):
        return n in self.roots or effects.is_fs_name(n) or n in ("exit", "_exit")

    def keep(self, v):
        return v[0] in ("new", "cmp") or esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields)

    def track(self, a):
        return False

    def context(self, fn, pc):
        return bool(pc) or owner(fn) in CORE

    def on_call(self, q, c):
        if c.name in self.roots and c.fn.key not in self.runner:
            if any(t.ret in ("int", "bool", "long") for t in c.targets):
                self.sites.add((c.fn.key, c.node["i"]))
                kind = "build-failed" if owner(c.fn) == "cards::create" else "failed"
                return [(q, ("c", 0))] + [((kind, c.fn.name), ("c", v)) for v in self.FAIL]
            return [(q, None)]
        if q == "ok":
            return None
        eff = effects.fs_effect(c.fn, c.node)
        if eff is not None and c.frame.ctx:
            c.report("%s by %s() although the program run by %s failed" % (eff[0], c.name, q[1]),
                     ("continues", q[1], c.fn.name))
            return []
        return None

    def node_relevant(self, fn, n):
        return n["k"] == "ref" and n.get("q") == "std::cerr"

    def on_node(self, q, c):
        if q[0] == "failed" and c.node["k"] == "ref" and (c.node.get("q") == "std::cerr" or
                                                         c.node.get("n") == "stderr"):
            self.ends += 1
            return "ok"
        return q

    def leave(self, q, fn, kind, c):
        if q[0] == "failed" and q[1] == fn.name and kind == "ret" and fn.ret == "void":
            c.report("the failure of the program run here is neither raised, reported nor a reason to stop",
                     ("silent", fn.name))
            return "ok"
        return q

    def on_exit_process(self, q, c):
        if q != "ok":
            self.ends += 1
            a = c.args[0] if c.args else None
            if c.base() in ("exit", "_exit", "_Exit") and (a is None or a[0] != "c" or a[1] & 0xff == 0):
                c.report("the program ends with status zero although the program run by %s failed" % q[1],
                         ("exit-zero", q[1]))


def callees(prog, keys):
    seen = set(keys)
    st = list(keys)
    while st:
        for n in prog.fns[st.pop()].calls():
            for t in prog.targets(n):
                if t.key not in seen:
                    seen.add(t.key)
                    st.append(t.key)
    return seen


def reaching(prog, names):
    callers = {}
    hit = set()
    for f in prog.fns.values():
        for n in f.calls():
            if n.get("fn") in names:
                hit.add(f.key)
            for t in prog.targets(n):
                callers.setdefault(t.key, set()).add(f.key)
    return hit, callers


def check(prog, res):
    hit, callers = reaching(prog, SPAWN | DELEGATE)
    # everything of the same class / file that leads to a spawn is the "runner"
    runner = set(hit)
    st = list(hit)

    def home(f):
        return f.cls or f.file
    while st:
        k = st.pop()
        for c in callers.get(k, ()):
            if c not in runner and home(prog.fns[c]) == home(prog.fns[k]):
                runner.add(c)
                st.append(c)
    roots = []
    for k in runner:
        f = prog.fns[k]
        outside = [c for c in callers.get(k, ()) if c not in runner]
        if outside or not callers.get(k) or (f.cls and f.access == 0):
            roots.append(f)
    spec = Child()
    spec.close = callees(prog, runner)
    eng = esp.Engine(prog, spec)
    checked = 0
    for f in sorted(roots, key=lambda f: f.key):
        outs = eng.run(f, ("none",))
        if f.ret not in ("int", "bool", "long", "unsigned int", "short", "char"):
            continue
        for kind, q, val, keep in outs:
            if kind != "ret":
                continue
            t = eng.truth(val, {}) if val is not None else None
            name = {"none": "no child was started", "pipe-failed": "the pipe could not be created",
                    "fork-failed": "fork failed", "running": "the child was not waited for",
                    "wait-failed": "waiting for the child failed", "child": "this is the child itself",
                    "exec-failed": "this is the child, whose exec failed"}.get(q[0])
            if name is None:
                if STATUS[q[1]]:
                    continue
                s = q[1]
                name = "the child exited with status %d" % (s >> 8) if not s & 0x7f else \
                    "the child was killed by signal %d" % (s & 0x7f)
            checked += 1
            spec.outcomes[name] = spec.outcomes.get(name, 0) + 1
            if q[0] in ("child", "exec-failed"):
                res.violation(("child-returns", f.name, q[0]), "%s can return in the child process" % f.name,
                              f.loc())
            elif t is not True:
                res.violation(("success", f.name, name), "%s returns %s although %s" %
                              (f.name, "success" if t is False else "a value not known to be a failure", name),
                              f.loc())
    res.from_engine(eng)
    # callers must look at the outcome
    used = 0
    for f in prog.fns.values():
        if f.key in runner:
            continue
        cons = None
        for n in f.calls():
            ts = [t for t in prog.targets(n) if t.key in runner and t.ret in ("int", "bool", "long")]
            if not ts:
                continue
            if cons is None:
                cons = eng.consumers(f)
            if not cons.get(n["i"]):
                res.violation(("ignored", f.name, ts[0].name), "the outcome of %s is ignored" % ts[0].name,
                              f.loc(n))
            else:
                used += 1
    aft = After(prog, runner, roots)
    eng2 = esp.Engine(prog, aft)
    for m in mains(prog):
        for kind, q, val, keep in eng2.run(m, "ok"):
            if kind == "ret" and q != "ok" and (val is None or val[0] != "c" or val[1] & 0xff == 0):
                res.violation(("exit-zero", q[1]), "main returns %s although the program run by %s failed" %
                              ("zero" if val == ("c", 0) else "an unknown status", q[1]), m.loc())
    res.from_engine(eng2)
    res.coverage["start_sites_followed_from_the_mains"] = len(aft.sites)
    res.coverage["failures_followed_to_a_report_or_the_end"] = aft.ends
    res.coverage["runner_functions"] = len(runner)
    res.coverage["roots"] = [f.name for f in roots]
    res.coverage["failing_outcomes_shown_reported"] = spec.outcomes
    res.coverage["outcome_obligations"] = checked
    res.coverage["call_sites_using_the_outcome"] = used
    res.rule("constant propagation of every outcome of pipe, fork, exec and wait (status words for exit 0, "
             "exit 1, exit 255, death by signals 9, 6+core, 11+core) through the code that starts children: "
             "only 'reaped with status word 0' may make a runner return zero; the child never returns and "
             "leaves with a non-zero status; callers use the returned outcome")
    res.rule("whole-program: after a program started by the tools has failed (outcome -1, 1, 2, 127 or 255) no "
             "path stays silent: the failure ends the process with a non-zero status or is written to the error output; a "
             "failed build ends it before any installed file or database entry is changed")
