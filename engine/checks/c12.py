import esp
import effects
from checks.common import error_fields, field_enum, owner


class Raises(esp.Spec):
    """does the reporter return for this recorded condition?"""

    def __init__(self, field):
        self.fields = frozenset([field])

    def keep(self, v):
        return esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.fields)


class Pending(esp.Spec):
    """q = ("rec", function): a condition was recorded there and not yet handed over"""

    def __init__(self, prog):
        self.fields = error_fields(prog)
        self.stores = set()
        self.handed = set()

    def calls(self, n):
        return n.rsplit("::", 1)[-1] == "treatErrors"

    def keep(self, v):
        return v[0] in ("new", "lambda")

    def track(self, a):
        return False

    def on_store(self, q, field, val, c):
        if field not in self.fields or c.node.get("k") not in ("bin", "call"):
            return q
        self.stores.add((c.fn.key, c.node["i"]))
        if isinstance(q, tuple) and q[0] == "rec":
            c.report("a recorded error is overwritten before it was raised", ("overwritten", c.fn.name))
        return ("rec", c.fn.name)

    def on_call(self, q, c):
        if c.base() == "treatErrors":
            self.handed.add((c.fn.key, c.node["i"]))
            if not (isinstance(q, tuple) and q[0] == "rec"):
                c.report("the error reporter is called although no condition was recorded on this path",
                         ("nothing-recorded", c.fn.name))
            return []            # raises: shown separately for every condition
        return None

    def leave(self, q, fn, kind, c):
        if c.frame.parent is None and kind == "ret" and isinstance(q, tuple):
            c.report("an error recorded in %s is never raised on this path" % q[1], ("dropped", q[1]))
        return q

    def on_exit_process(self, q, c):
        pass


def check(prog, res):
    efields = error_fields(prog)
    # which conditions can each component record?
    fam = {}
    for fld in efields:
        cls = fld.rsplit("::", 1)[0]
        fam[fld] = {cls} | prog.subclasses.get(cls, set())
    recorded = {f: {} for f in efields}
    enums = {fld: prog.enums[field_enum(prog, fld)] for fld in efields}
    for f in prog.fns.values():
        o = owner(f)
        if f.name.rsplit("::", 1)[-1] == "treatErrors":
            continue
        for n in f.nodes():
            if n["k"] == "ref" and n.get("dk") == "enum":
                for fld in efields:
                    if o in fam[fld] and n.get("n") in enums[fld]:
                        recorded[fld].setdefault(n["n"], (f, n))
    total = 0
    for fld in sorted(efields):
        impls = [t for t in prog.fns.values() if t.name.rsplit("::", 1)[-1] == "treatErrors" and
                 t.cls in fam[fld]]
        if not impls:
            if recorded[fld]:
                res.violation(("no-reporter", fld), "conditions are recorded in %s but the component has "
                              "no error reporter" % fld, "src")
            continue
        for t in impls:
            for cname, (f, n) in sorted(recorded[fld].items()):
                spec = Raises(fld)
                eng = esp.Engine(prog, spec)
                outs = eng.run(t, 0, env={("F", fld): ("c", enums[fld][cname])}, dyncls=t.cls)
                total += 1
                if any(k == "ret" for k, *_ in outs):
                    res.violation(("not-raised", t.name, cname),
                                  "%s, recorded in %s, is not raised by %s" % (cname, f.name, t.name),
                                  f.loc(n))
    spec = Pending(prog)
    eng = esp.Engine(prog, spec)
    called = set()
    for f in prog.fns.values():
        for n in f.calls():
            for t in prog.targets(n):
                if t.key != f.key:
                    called.add(t.key)
    roots = [f for f in prog.fns.values() if f.key not in called and not f.is_lambda]
    eng.relevant(roots[0])
    roots = [f for f in roots if eng.relevant(f)]
    for f in roots:
        eng.run(f, "clean", dyncls=f.cls if not f.static else None)
    # nothing relevant may have stayed unvisited (call cycles without an outside caller)
    for f in prog.fns.values():
        if eng.relevant(f) and f.key not in eng.visited_fns and not f.is_lambda:
            eng.run(f, "clean", dyncls=f.cls if not f.static else None)
    res.from_engine(eng)
    res.coverage["conditions_times_reporters_shown_raised"] = total
    res.coverage["recording_sites"] = len(spec.stores)
    res.coverage["handover_sites"] = len(spec.handed)
    res.rule("for each component, running its treatErrors with any condition the component mentions cannot "
             "return normally")
    res.rule("on every path a store to the error attribute is followed by treatErrors before the function "
             "(and its in-tree callers) finish, and treatErrors is only called with a condition recorded on "
             "that path")
