"""C07: what the removal functions do with a file another package owns, a file the keep rules protect, any other
file of the package, and a directory with content - each as a generic element of lists of unknown length."""
import effects
import esp
import witness
from checks.common import parallel
from witness import EMPTY, OTHER

PKGS, LIST = "pkgdbh::m_listOfPackages", "pkgdbh::m_filesList"
F, D, P, Q = ("w", "file"), ("w", "directory"), ("w", "package"), ("w", "other")
NAME = ("p", "name")


def mk(sure=(), maybe=(), others=(OTHER,)):
    return ("set", tuple(sorted(sure, key=repr)), tuple(sorted(maybe, key=repr)), tuple(others), None)


def filesof(p):
    return ("fld", "cards::db::files", ("fld", "second", p))


WORLDS = {
    "shared": "another installed package lists the file too",
    "kept": "the keep list names the file",
    "own": "no other package lists the file and nothing keeps it",
    "order": "the package owns a directory and a file in it, nobody else does",
}


class Removal(witness.Witness):
    """q = flags: "file"/"directory" deleted"""

    def __init__(self, prog, world, fn):
        super().__init__(prog, world)
        self.fn = fn
        self.bykey = {}
        mine = (F, D) if world == "order" else (F,)
        pk = (P, Q) if world == "shared" else (P,)
        self.terms = {
            ("f", PKGS): mk(pk),
            filesof(P): mk(mine),
            filesof(Q): mk((F,)),
            filesof(OTHERPKG): mk((), (F,)) if world == "shared" else mk(),
            ("fld", "first", P): NAME,
        }

    def value_of(self, t):
        if t[0] == "fld" and t[1] == "cards::db::files" and esp.mentions(t, lambda y: y[0] == "o"):
            return mk((), (F,)) if self.world in ("shared", "kept") else mk()
        return None

    def key(self, t, mapped):
        k = super().key(t, mapped)
        return self.terms.get(k, k)

    def distinct(self, a, b):
        return a == NAME and b[0] == "fld" and b[1] == "first" or a[0] == "w" and b == NAME

    def rank(self, t):
        return {D: 0, F: 1}.get(t)

    def known(self, atom):
        return None

    def intercept(self, q, c):
        if c.base() in ("checkFileExist", "exists", "access", "lstat", "stat") and c.args and \
                any(a is not None and witness.has_witness(a) for a in c.args):
            return [(q, ("c", 1 if c.base() in ("checkFileExist", "exists") else 0))]
        return None

    def event(self, q, c):
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None:
            return q
        self.events += 1
        if eff[0] != "delete":
            return q
        for p in eff[1]:
            v = c.eng.ev(c.fn, p, c.env)
            if v is None:
                continue
            for w in (F, D):
                if not esp.mentions(v, lambda t: t == w):
                    continue
                if "vague" in q:
                    continue
                if self.world in ("shared", "kept"):
                    c.report("a file is deleted in %s although %s" % (self.fn.name, WORLDS[self.world]),
                             (self.world, self.fn.name))
                if w == D and "file" not in q and self.world == "order":
                    c.report("a directory is deleted before its content in " + self.fn.name, ("order", self.fn.name))
                q = q | {w[1]}
        return q


OTHERPKG = ("o", "x", "any")


def roots(prog):
    out = []
    for f in prog.fns.values():
        b = f.name.rsplit("::", 1)[-1]
        if f.cls != "pkgdbh" or not b.startswith("removePackageFiles"):
            continue
        sets = [i for i, p in enumerate(f.params) if witness.ckind(esp.clean_type(p["t"]))]
        if b == "removePackageFiles" or sets:
            out.append((f, sets))
    return out


def arguments(f, sets, world):
    """values of the parameters: a package name, or a list of files; the last of several lists is the keep list"""
    lists = sets if len(sets) > 1 else sets if any("string" in p["t"] and not witness.ckind(
        esp.clean_type(p["t"])) for p in f.params) else []
    keep = lists[-1] if lists else None
    out = []
    for i, p in enumerate(f.params):
        if i == keep:
            out.append(mk((F,)) if world == "kept" else mk())
        elif i in sets:
            out.append(mk((F, D) if world == "order" else (F,)))
        else:
            out.append(NAME)
    return out, keep


def check(prog, res):
    jobs = []
    for f, sets in roots(prog):
        for w in WORLDS:
            if w == "kept" and arguments(f, sets, w)[1] is None:
                continue
            if w == "shared" and len(sets) > 1:
                continue          # the list was settled as taken over: it is not the owner's any more
            jobs.append((f.key, w))

    def work(job):
        f = prog.fns[job[0]]
        sets = dict((x.key, s) for x, s in roots(prog))[f.key]
        spec = Removal(prog, job[1], f)
        eng = witness.WEngine(prog, spec)
        outs = eng.run(f, frozenset(), args=arguments(f, sets, job[1])[0])
        bad = False
        vague = any("vague" in q for k, q, v, e in outs)
        if job[1] == "own" and not vague:
            bad = any(k == "ret" and "file" not in q for k, q, v, e in outs)
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, vague, spec.events, len(outs)
    cov = {}
    for (key, w), r in zip(jobs, parallel(work, jobs)):
        f = prog.fns[key]
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        if r[4]:
            res.violation(("own", f.name), "a file only this package owns is not deleted on some path",
                          f.rel() + ":" + str(f.line) + " in " + f.name)
        cov["%s(%d parameters) / %s" % (f.name, len(f.params), w)] = {
            "assumption": WORLDS[w], "states": r[1], "effects_examined": r[6], "outcomes": r[7],
            "content_unknown_somewhere": r[5]}
    res.coverage["cases"] = cov
    res.rule("each removal function is explored with the file lists abstracted to one generic file (and directory) "
             "at any position among unknown others: a file listed by another package or kept is never the argument "
             "of a deleting call, any other file always is, and a directory never is before its content")
