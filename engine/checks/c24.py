"""C24: the private key only ever reaches a file nobody but its owner can open."""
import esp
import effects
from checks.common import CardsSpec, error_fields, mains

WRITERS = {"PEM_write_PrivateKey": 0, "PEM_write_PKCS8PrivateKey": 0, "PEM_write_PrivateKey_traditional": 0,
           "PEM_write_bio_PrivateKey": 0, "PEM_write_bio_PKCS8PrivateKey": 0, "i2d_PrivateKey_fp": 0,
           "i2d_PrivateKey_bio": 0, "PEM_write_bio_PrivateKey_traditional": 0, "i2d_PKCS8PrivateKey_fp": 0,
           "PEM_write_RSAPrivateKey": 0, "PEM_write_ECPrivateKey": 0}
O_CREAT, O_EXCL = 0o100, 0o200
NULL, NEG = ("c", 0), ("c", -1)


class Key(CardsSpec):
    """q = (umask keeps others out, frozenset of (file, fact)); facts: private (created without any right for
    others), tight (established on the open file), key (holds the key), failed"""
    refine = True

    def __init__(self, prog, reach):
        self.prog = prog
        self.fields = error_fields(prog)
        self.reachset = reach
        self.writes = 0
        self.tests = 0

    def calls(self, n):
        return n in WRITERS or n in ("open", "open64", "fopen", "fopen64", "fdopen", "fchmod", "chmod", "umask", "creat",
                                     "mkstemp", "BIO_new_file", "BIO_new_fp", "fclose", "close", "fflush", "fsync",
                                     "openat", "fileno")

    def keep(self, v):
        return v[0] in ("new", "hnd") or esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields)

    def track(self, a):
        return False

    @staticmethod
    def has(q, h, fact):
        return (h, fact) in q[1]

    @staticmethod
    def add(q, h, *facts):
        return (q[0], q[1] | {(h, f) for f in facts})

    def leave(self, q, fn, kind, c):
        if c.frame.parent is None and kind == "ret" and any(f == "failed" for _, f in q[1]):
            c.report("a failure to write or close the private key's file is not reported as an error",
                     ("unreported", fn.name))
        return q

    def on_exit_process(self, q, c):
        if any(f == "failed" for _, f in q[1]) and c.base() in ("exit", "_exit", "quick_exit") and \
                c.args and c.args[0] in (("c", 0), None):
            c.report("the program ends with success although the private key could not be written",
                     ("unreported", c.fn.name))

    def on_call(self, q, c):
        n, a = c.name, c.args
        if c.targets:
            return None
        h = ("hnd", "file", "%s@%s#%d" % (c.base(), c.fn.key, c.node["i"]), c.fn.name)
        if n in ("open", "open64", "openat", "openat64"):
            o = 1 if n.startswith("openat") else 0
            fl = a[o + 1] if len(a) > o + 1 else None
            mode = a[o + 2] if len(a) > o + 2 else None
            facts = []
            if fl is None or fl[0] != "c":
                return [(q, h), (q, NEG)]
            fl = fl[1]
            if q[0] or not fl & O_CREAT or (mode is not None and mode[0] == "c" and not mode[1] & 0o077):
                facts.append("private")
                if fl & O_EXCL:
                    facts.append("tight")
            return [(self.add(q, h, *facts), h), (q, NEG)]
        if n in ("creat", "creat64"):
            ok = q[0] or (a[1] is not None and a[1][0] == "c" and not a[1][1] & 0o077)
            return [(self.add(q, h, "private") if ok else q, h), (q, NEG)]
        if n in ("mkstemp", "mkostemp", "mkstemps"):
            return [(self.add(q, h, "private", "tight"), h), (q, NEG)]
        if n in ("fopen", "fopen64", "std::fopen", "BIO_new_file"):
            m = effects.strval(c.fn, c.node["a"][1]) or ""
            q2 = self.add(q, h, "private", *(["tight"] if "x" in m else [])) if q[0] else q
            return [(q2, h), (q, NULL)]
        if n in ("fdopen", "BIO_new_fp", "BIO_new_fd") and a and a[0] is not None and a[0][0] == "hnd":
            return [(q, a[0]), (q, NULL)]
        if n == "fileno" and a and a[0] is not None and a[0][0] == "hnd":
            return [(q, a[0])]
        if n == "umask":
            ok = a[0] is not None and a[0][0] == "c" and (a[0][1] & 0o077) == 0o077
            return [((ok, q[1]), None)]
        if n in ("fchmod", "chmod", "fchmodat"):
            ix = 1 if n == "fchmodat" else 0
            mode = a[ix + 1]
            loose = mode is None or mode[0] != "c" or mode[1] & 0o077
            if n == "fchmod":
                x = a[0]
                if x is None or x[0] != "hnd":
                    return None
                if loose:
                    if self.has(q, x, "key"):
                        c.report("the private key's file is opened to others", ("opened", c.fn.name))
                    return [((q[0], q[1] - {(x, "tight")}), ("c", 0)), (q, NEG)]
                return [(self.add(q, x, "tight"), ("c", 0)), (q, NEG)]
            if loose and any(f == "key" for _, f in q[1]):
                c.report("a file is opened to others while the private key is written", ("opened", c.fn.name))
            return None
        if n in WRITERS:
            self.writes += 1
            x = a[WRITERS[n]] if a else None
            if x is None or x[0] != "hnd":
                c.report("the private key is written to a file whose protection is unknown", ("unknown", c.fn.name))
                return None
            if not self.has(q, x, "private"):
                c.report("the private key is written to a file that was created readable for others",
                         ("created", c.fn.name))
            if not self.has(q, x, "tight"):
                c.report("the private key is written before the rights of an already existing file were taken away",
                         ("rights", c.fn.name))
            q = self.add(q, x, "key")
            return [(q, ("c", 1)), (self.add(q, x, "failed"), NULL)]
        if n in ("fclose", "close", "fflush", "fsync", "BIO_flush", "std::fclose"):
            x = a[0] if a else None
            if x is not None and x[0] == "hnd" and self.has(q, x, "key"):
                self.tests += 1
                return [(q, ("c", 0)), (self.add(q, x, "failed"), NEG)]
            return None
        return None


def check(prog, res):
    direct = {f.key for f in prog.fns.values() for n in f.calls() if n.get("fn") in WRITERS}
    callers = {}
    for f in prog.fns.values():
        for n in f.calls():
            for t in prog.targets(n):
                callers.setdefault(t.key, set()).add(f.key)
        if f.parent is not None:
            callers.setdefault(f.key, set()).add(f.parent.key)
    reach = set(direct)
    st = list(direct)
    while st:
        for k in callers.get(st.pop(), ()):
            if k not in reach:
                reach.add(k)
                st.append(k)
    tops = {m.key for m in mains(prog)}
    roots = {k for k in reach if k not in tops and (callers.get(k, set()) & tops or not callers.get(k))}
    spec = Key(prog, reach)
    eng = esp.Engine(prog, spec)
    for k in sorted(roots):
        eng.run(prog.fns[k], (False, frozenset()))
    res.from_engine(eng)
    res.coverage["functions_writing_a_private_key"] = len(direct)
    res.coverage["operations_analysed"] = len(roots)
    res.coverage["key_write_events"] = spec.writes
    res.coverage["closing_events_after_the_key"] = spec.tests
    res.rule("from every operation a main starts that writes a private key, on every path: the stream given to the "
             "library belongs to a descriptor created with no right for group and others (mode or umask) on which "
             "such a mode was established (fchmod, or exclusive creation) before; no later mode change opens it; a "
             "failing write, flush or close never reaches a normal return")
