import esp
import effects
from checks.common import CardsSpec, error_fields, mains, parts

LIST = "/files"
FD = 777


def tail(v):
    p = parts(v)
    return p[-1][1] if p and p[-1][0] == "s" else ""


def published(v):
    return tail(v).endswith(LIST)


def related(v):
    return LIST in tail(v)


def directory(v):
    p = parts(v)
    if not p or p[-1][0] != "s":
        return None
    return tuple(p[:-1]) + (p[-1][1].rsplit("/", 1)[0],)


class Replace(CardsSpec):
    """q = (stage of the temporary file, what failed or None)
    stage: idle | open | dirty | flushed | checked | synced"""
    transparent = frozenset({"strdup"})

    def __init__(self, prog):
        self.fields = error_fields(prog)
        self.renames = set()
        self.failures = set()

    def calls(self, n):
        b = n.rsplit("::", 1)[-1]
        return effects.is_fs_name(n) or b in ("fsync", "fdatasync", "flush", "fflush", "fclose")

    def node_relevant(self, fn, n):
        return False

    def keep(self, v):
        return v[0] == "new" or esp.mentions(v, lambda t: (t[0] == "f" and t[1] in self.fields) or
                                             (t[0] == "s" and LIST in t[1]))

    def track(self, a):
        return False

    def on_node(self, q, c):
        if c.node["k"] == "throw":
            return ("idle", None)
        return q

    def fail(self, what):
        self.failures.add(what)
        return ("idle", what)

    def survived(self, q, c):
        c.report("%s of the new file list fails and the operation goes on" % q[1], ("survived", q[1]))

    def on_call(self, q, c):
        st, failed = q
        n, b = c.name, c.base()
        eff = effects.fs_effect(c.fn, c.node)
        if eff is not None:
            vals = [c.eng.ev(c.fn, p, c.env) for p in eff[1]]
            if failed and eff[0] in ("create", "write", "extract"):
                self.survived(q, c)
                return [(("idle", None), None)]
            if b.startswith("rename") and len(vals) == 2:
                src, dst = vals
                if dst is not None and published(dst):
                    self.renames.add((c.fn.key, c.node["i"]))
                    if src is None or not related(src) and directory(src) != directory(dst):
                        c.report("the published file list is replaced by something other than a temporary "
                                 "file of the same directory", ("rename-source", c.fn.name))
                    elif directory(src) != directory(dst):
                        c.report("the temporary file list is not in the directory of the published one",
                                 ("other-directory", c.fn.name))
                    elif st != "synced":
                        c.report("the new file list is published in state '%s': written, flushed, tested and "
                                 "synchronised are required" % st, ("state", c.fn.name))
                    return [(("idle", None), ("c", 0)), (self.fail("renaming"), ("c", -1))]
                if src is not None and published(src):
                    c.report("the published file list is renamed away", ("renamed-away", c.fn.name))
                return None
            for v in vals:
                if v is not None and published(v):
                    c.report("%s of the published file list by %s()" % (eff[0], n), ("in-place", c.fn.name, eff[0]))
                    return None
            if eff[0] == "write" and any(v is not None and related(v) for v in vals):
                if c.node["k"] == "ctor" or b == "open" and c.node.get("o"):
                    return [(("open", None), None)]
                return [(("open", None), ("c", FD)), (self.fail("opening"), ("c", -1))]
            if eff[0] == "create" and b == "creat" and any(v is not None and related(v) for v in vals):
                return [(("open", None), ("c", FD)), (self.fail("opening"), ("c", -1))]
            return None
        if st == "idle":
            return None
        if b in ("fsync", "fdatasync"):
            if c.args and c.args[0] == ("c", FD):
                ok = "synced" if st == "checked" else st
                return [((ok, failed), ("c", 0)), (self.fail("synchronising"), ("c", -1))]
            return None
        if n == "write" or n == "std::write":
            return [(("checked", failed), ("c", 1)), (self.fail("writing"), ("c", -1))]
        if b in ("flush", "close") and n.startswith("std::basic_") or b == "pubsync":
            return [(("flushed" if st in ("open", "dirty") else st, failed), None)]
        if b in ("fflush", "fclose") and not n.startswith("std::basic_"):
            return [(("checked", failed), ("c", 0)), (self.fail("flushing"), ("c", -1))]
        if n.startswith("std::basic_ios<char>::") or n.startswith("std::basic_ofstream<char>::is_open"):
            bad = b in ("operator!", "fail", "bad")
            if b in ("operator!", "fail", "bad", "operator bool", "good", "is_open"):
                up = "checked" if st == "flushed" else st
                return [((up, failed), ("c", 0 if bad else 1)), (self.fail("writing"), ("c", 1 if bad else 0))]
            return None
        if (b == "operator<<" or n in ("std::copy", "std::for_each") or b in ("put",)
                or n == "std::basic_ostream<char>::write" or n in ("fprintf", "fputs", "fwrite")):
            if n == "std::copy" and "ostream" not in c.node.get("t", ""):
                return None
            stream = c.obj
            on = c.fn.ex.get(c.node.get("o") or (c.node["a"][0] if c.node["a"] else 0)) or {}
            if on.get("k") == "ref" and on.get("dk") == "global":
                return None          # std::cerr and friends
            if b == "operator<<" and "ostream" not in c.node.get("t", ""):
                return None
            if b == "operator<<" and any(a is not None and a[0] == "fn" and a[1].endswith("::endl") for a in c.args):
                return [(("flushed", failed), None)]
            root = c.fn.ex.get(c.node.get("o") or 0)
            # chained insertions: look for the stream at the bottom of the chain
            x = on
            while x.get("k") == "call" and x.get("op") == "<<":
                x = c.fn.ex.get(x.get("o") or (x["a"][0] if x["a"] else 0)) or {}
            if x.get("k") == "ref" and x.get("dk") == "global":
                return None
            return [(("dirty", failed), None)]
        return None

    def on_exit_process(self, q, c):
        pass

    def leave(self, q, fn, kind, c):
        if c.frame.parent is None and kind == "ret" and q[1]:
            self.survived(q, c)
        return q


def check(prog, res):
    spec = Replace(prog)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, ("idle", None))
    res.from_engine(eng)
    if not spec.renames:
        res.violation(("never-published",), "no path from the programs publishes a package's file list by "
                      "renaming a temporary file", "src")
    res.coverage["publishing_renames"] = len(spec.renames)
    res.coverage["failures_followed"] = sorted(spec.failures)
    res.rule("whole-program typestate of the temporary file list: opened -> written -> flushed -> stream tested "
             "good -> fsync of the same descriptor succeeded -> renamed within its directory; no other "
             "modification of the published name; after a failed step no further change and no normal end")
