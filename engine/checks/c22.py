from checks import resources


def check(prog, res):
    spec, eng = resources.analyse(prog, res, "C22")
    rel = resources.field_releases(prog)
    callers = {}
    for f in prog.fns.values():
        for n in f.calls():
            for t in prog.targets(n):
                callers.setdefault(t.key, set()).add(f.key)
    for q, (fn, node, val) in sorted(spec.field_held.items()):
        res.obligation("%s holds the %s: released by the owner" % (q, spec.what(val)))
        cls = q.rpartition("::")[0]
        d = [x for x in prog.fn(cls + "::~" + cls.rsplit("::", 1)[-1]) if not x.implicit] if cls else []
        holders = rel.get(q, set())
        if d:
            seen, st = set(), [x.key for x in d]
            ok = False
            while st:
                k = st.pop()
                if k in seen:
                    continue
                seen.add(k)
                ok = ok or k in holders
                f = prog.fns[k]
                for n in f.calls():
                    st += [t.key for t in prog.targets(n)]
            if not ok and not any(k in holders for k in [fn.key]):
                res.violation(("field", q), "the %s stored in %s is not released by the destructor" %
                              (spec.what(val), q), fn.loc(node))
        elif not holders:
            res.violation(("field", q), "nothing releases the %s stored in %s" % (spec.what(val), q), fn.loc(node))
    res.rule("ownership typestate: what a function acquires is, on every path out of it, released once by the "
             "matching call, handed to an owner (a stream buffer, a stream, a smart pointer), returned or stored "
             "in an attribute whose owner releases it; nothing is used or released after its release; a "
             "constructor left by an exception holds nothing")
