"""Shared vocabulary of the checks."""
import esp
import effects

CORE = {"pkgdbh", "pkgadd", "pkgrm"}
SCRATCH = {".PRE", ".POST", ".META", ".INFO", ".MTREE", ".README"}


def owner(fn):
    """class a function (or the function a lambda is written in) belongs to"""
    while fn is not None and fn.is_lambda and fn.parent is not None:
        fn = fn.parent
    return fn.cls if fn is not None else None


def has_str(v, strs):
    return esp.mentions(v, lambda t: t[0] == "s" and t[1].lstrip("/") in strs)


def is_scratch_term(v):
    """does the term denote one of the scratch names (a constant, alone or below a directory)"""
    return v is not None and has_str(v, SCRATCH)


def opt_is(v, name):
    """v is argParser.isSet(<name>)"""
    return (v[0] == "call" and v[1].endswith("::isSet") and v[3] and
            v[3][0] is not None and v[3][0][0] == "g" and v[3][0][1].endswith("::" + name))


class CardsSpec(esp.Spec):
    """facts every rule may want: options are fixed for the life of the process"""

    def pure(self, name):
        return name.endswith("::isSet") or name in ("getuid", "geteuid")


def mains(prog):
    return [prog.main("tools.cxx"), prog.main("cards.cxx")]


def error_fields(prog):
    """the attributes components record an error condition in: enumerations a reporter consults"""
    out = set()
    for f in prog.fns.values():
        if f.name.rsplit("::", 1)[-1] == "treatErrors":
            for n in f.nodes():
                if n["k"] == "fld" and field_enum(prog, n["q"]):
                    out.add(n["q"])
    for r in prog.records.values():
        for f in r["fields"]:
            if f["t"].endswith("ErrorEnum"):
                out.add(r["name"] + "::" + f["n"])
    return frozenset(out)


def field_enum(prog, q):
    """name of the enumeration a field has as its type"""
    cls, _, nm = q.rpartition("::")
    r = prog.records.get(cls)
    for f in (r or {"fields": []})["fields"]:
        if f["n"] == nm:
            t = esp.clean_type(f["t"])
            return t if t in prog.enums else None
    return None


def parts(v):
    """the pieces a path or text value is concatenated from, adjacent constants merged"""
    out = []

    def walk(x):
        if x is None:
            out.append(("?",))
        elif x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("operator+",) and len(x[3]) == 2:
            walk(x[3][0])
            walk(x[3][1])
        elif x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("operator+", "trimFileName") and len(x[3]) == 1:
            if x[2] is not None:
                walk(x[2])
            walk(x[3][0])
        elif x[0] == "empty":
            pass
        elif x[0] == "s":
            if out and out[-1][0] == "s":
                out[-1] = ("s", out[-1][1] + x[1])
            else:
                out.append(x)
        else:
            out.append(x)
    walk(v)
    return [p for p in out if p != ("s", "")]


def family(prog, base="pkgdbh"):
    """a class and everything derived from it"""
    out, st = {base}, [base]
    while st:
        for c in prog.subclasses.get(st.pop(), ()):
            if c not in out:
                out.add(c)
                st.append(c)
    return out


def parallel(work, items, n=8):
    """work(item) for every item in forked processes; results in order"""
    import multiprocessing
    ctx = multiprocessing.get_context("fork")
    global _WORK
    _WORK = work
    with ctx.Pool(min(n, max(1, len(items)))) as pool:
        return pool.map(_call, items, chunksize=1)


_WORK = None


def _call(item):
    return _WORK(item)
