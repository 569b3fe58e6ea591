import esp
from checks.common import owner

SIGS = {1: "SIGHUP", 2: "SIGINT", 3: "SIGQUIT", 15: "SIGTERM"}
LOCK_SH, LOCK_EX, LOCK_NB, LOCK_UN = 1, 2, 4, 8


class LockBody(esp.Spec):
    """q = (ignored signals, handler value in the sigaction being prepared, lock state)"""

    def __init__(self, want, fields):
        self.want = want
        self.fields = frozenset(fields)
        self.flocks = 0

    def calls(self, n):
        return n in ("flock", "signal", "sigaction", "closedir", "close", "opendir", "open", "fcntl",
                     "lockf", "dirfd")

    def node_relevant(self, fn, n):
        return n["k"] == "fld" and "sa_handler" in n["n"]

    def keep(self, v):
        return True

    def track(self, a):
        return esp.mentions(a, lambda t: t[0] == "call" and t[1] in ("flock", "opendir", "open"))

    def on_store(self, q, field, val, c):
        if field.endswith("sa_handler"):
            return (q[0], val[1] if val is not None and val[0] == "c" else None, q[2])
        return q

    def ignore(self, q, sig, handler, c):
        ign = set(q[0])
        if sig not in SIGS:
            return q
        if handler == 1:
            ign.add(sig)
        else:
            if q[2] == "held":
                c.report("%s is no longer ignored although the lock is held" % SIGS[sig],
                         ("signal-restored", SIGS[sig]))
            ign.discard(sig)
        return (frozenset(ign), q[1], q[2])

    def on_call(self, q, c):
        a = c.args
        if c.name == "signal" and len(a) == 2:
            s = a[0][1] if a[0] and a[0][0] == "c" else None
            h = a[1][1] if a[1] and a[1][0] == "c" else None
            return [(self.ignore(q, s, h, c), None)]
        if c.name == "sigaction" and len(a) == 3:
            s = a[0][1] if a[0] and a[0][0] == "c" else None
            if a[1] == ("c", 0):
                return None
            return [(self.ignore(q, s, q[1], c), None)]
        if c.name == "flock":
            self.flocks += 1
            op = a[1][1] if a[1] and a[1][0] == "c" else None
            if op == LOCK_UN:
                c.report("the lock is dropped again while it is being taken", ("unlock-in-ctor",))
                return None
            exact = LOCK_NB | (LOCK_EX if self.want else LOCK_SH)
            if op != exact:
                c.report("asked for the %s lock, flock is called with operation %s instead of %s" %
                         ("exclusive" if self.want else "shared", op, exact), ("wrong-mode", self.want))
            missing = [n for s, n in sorted(SIGS.items()) if s not in q[0]]
            if missing:
                c.report("the lock is requested while %s is not ignored" % ", ".join(missing),
                         ("signal-not-ignored", "+".join(missing)))
            fd = a[0]
            ok = fd is not None and esp.mentions(fd, lambda t: t[0] == "call" and t[1] in (
                "opendir", "open") and esp.mentions(t, lambda u: u[0] == "s" and "var/lib/pkg/DB" in u[1])
                and esp.mentions(t, lambda u: u == ("root",)))
            if not ok:
                c.report("the object locked is not the package database directory below the root",
                         ("wrong-object",))
            return [((q[0], q[1], "asked"), ("call", "flock", None, ()))]
        if c.name in ("closedir", "close") and q[2] == "held":
            c.report("the locked directory is closed although the lock should be held", ("closed-in-ctor",))
        return None

    def on_assume(self, q, atom, truth, c):
        if len(atom) > 1 and atom[1] == ("call", "flock", None, ()):
            bad = (atom[0] == "nz" or (atom[0] == "eq" and atom[2] == -1) or
                   (atom[0] == "lt" and atom[2] in (0,)))
            if atom[0] == "eq" and atom[2] == 0:
                bad = None
                return (q[0], q[1], "held" if truth else "failed")
            if bad:
                return (q[0], q[1], "failed" if truth else "held")
        return q

    def leave(self, q, fn, kind, c):
        if fn.ctor and fn.cls == "cards::lock" and kind == "ret" and q[2] != "held":
            c.report("the constructor returns normally without the kernel having granted the lock (%s)" %
                     {None: "flock never called", "asked": "result not tested",
                      "failed": "refusal not reported"}[q[2]], ("not-granted", q[2]))
        return q


def check(prog, res):
    ctors = [f for f in prog.fn("cards::lock::lock") if f.ctor and not f.copyctor and not f.implicit]
    n = 0
    rec = prog.records.get("cards::lock")
    fields = ["cards::lock::" + f["n"] for f in rec["fields"]] if rec else []
    for f in ctors:
        if len(f.params) < 2:
            continue
        for want in (1, 0):
            spec = LockBody(bool(want), fields)
            eng = esp.Engine(prog, spec)
            args = [None] * len(f.params)
            args[0] = ("root",)
            args[1] = ("c", want)
            eng.run(f, (frozenset(), None, None), args=args, dyncls="cards::lock")
            res.from_engine(eng)
            n += spec.flocks
    # nobody else drops the lock or re-enables the signals
    for f in prog.fns.values():
        if owner(f) == "cards::lock":
            continue
        for c in f.calls():
            if c.get("fn") == "flock" and not any(
                    x.name.startswith("cards::lock::") for x in callers_of(prog, f)):
                res.violation(("foreign-flock", f.name), "flock() called outside the lock object",
                              f.loc(c))
            if c.get("fn") in ("signal", "sigaction", "sigprocmask"):
                if owner(f) in ("process",) or any(x.name.startswith("cards::lock::")
                                                   for x in callers_of(prog, f)):
                    continue
                s = f.ex[c["a"][0]].get("v") if c["a"] else None
                if c["fn"] != "sigprocmask" and s not in SIGS:
                    continue
                res.violation(("foreign-signal", f.name), "signal disposition changed outside the lock "
                              "object, possibly while a lock is held", f.loc(c))
    # the destructor is the only release
    for f in prog.fns.values():
        if owner(f) == "cards::lock" and not f.dtor and not f.ctor:
            for c in f.calls():
                if c.get("fn") in ("flock", "closedir"):
                    op = f.ex[c["a"][1]].get("v") if c["fn"] == "flock" else LOCK_UN
                    if op == LOCK_UN and f.name != "cards::lock::~lock" and not only_called_by_dtor(prog, f):
                        res.violation(("release-method", f.name), "the lock can be released before its "
                                      "owner's scope ends", f.loc(c))
    res.coverage["lock_constructors"] = len(ctors)
    res.coverage["flock_requests_checked"] = n
    res.rule("on every path through the lock constructor, for exclusive and shared: the four signals are "
             "ignored before flock, flock gets LOCK_EX|LOCK_NB (LOCK_SH|LOCK_NB) on the descriptor of "
             "<root>/var/lib/pkg/DB, and the constructor returns normally only where flock succeeded; no "
             "other function unlocks or re-enables the signals")
    res.assumptions += ["the kernel's flock excludes as documented"]


def callers_of(prog, f, seen=None):
    out = []
    for g in prog.fns.values():
        for c in g.calls():
            if c.get("fk") == f.key:
                out.append(g)
                break
    return out


def only_called_by_dtor(prog, f):
    cs = callers_of(prog, f)
    return bool(cs) and all(g.dtor or g.ctor for g in cs)
