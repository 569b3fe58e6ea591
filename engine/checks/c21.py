from checks import resources

GUI = False


def check(prog, res):
    spec, eng = resources.analyse(prog, res, "C21")
    res.coverage["dereferences_examined"] = len(spec.deref)
    res.coverage["uses_examined"] = len(spec.uses)
    res.rule("every function that acquires is explored with a succeeding and a failing outcome of each acquiring "
             "call (open, map, allocate, create a context, query, look up); on no path is the failed value "
             "dereferenced, read through, turned into text or handed to a call that needs a valid one; an archive "
             "is read only after it was opened, a pattern matched only after it was compiled")
    res.assumptions.append("getenv and archive_entry_pathname are outside the property; C++ streams, which carry "
                           "their own state, and throwing operator new need no test")
