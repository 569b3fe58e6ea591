import esp
import effects
from checks.common import CardsSpec, SCRATCH, error_fields, mains, parts

DB = "var/lib/pkg/DB"


def in_db(v):
    return v is not None and esp.mentions(v, lambda t: t[0] == "s" and DB in t[1])


def reach(prog, direct):
    """functions from which one of `direct` can be entered (itself included)"""
    callers = {}
    for f in prog.fns.values():
        for n in f.calls():
            for t in prog.targets(n):
                callers.setdefault(t.key, set()).add(f.key)
    seen = set(direct)
    st = list(direct)
    while st:
        for c in callers.get(st.pop(), ()):
            if c not in seen:
                seen.add(c)
                st.append(c)
    return seen


def lits(f):
    return {n["s"] for n in f.nodes() if n["k"] == "str"}


def names(f):
    return {n.get("fn") for n in f.calls()}


class Roles:
    def __init__(self, prog):
        fns = prog.fns.values()
        publish = {f.key for f in fns if "/files" in lits(f) and names(f) & {"rename", "std::rename"}}
        extract = {f.key for f in fns if names(f) & {"archive_read_extract", "archive_read_extract2"} and
                   not any(s.lstrip("/") in SCRATCH for s in lits(f))}
        meta = {f.key for f in fns if any(s.lstrip("/") == ".META" for s in lits(f)) and
                names(f) & {"rename", "std::rename"}}
        remove = {f.key for f in fns if f.name.rsplit("::", 1)[-1] == "removePackageFiles"}
        record = {f.key for f in fns if any(DB in s for s in lits(f)) and "findDir" in
                  {(x or "").rsplit("::", 1)[-1] for x in names(f)} and names(f) & {"remove", "unlink", "std::remove",
                                                                                 "std::filesystem::remove"}}
        rp, rr = reach(prog, publish), reach(prog, record)
        self.publish = publish
        self.extracted = reach(prog, extract) - rp
        self.meta = reach(prog, meta) - rp
        self.removed = reach(prog, remove) - rr
        self.counts = {"publishing_functions": len(publish), "extracting_functions": len(extract),
                       "metadata_moving_functions": len(meta), "file_removing_functions": len(remove),
                       "record_removing_functions": len(record)}


class Order(CardsSpec):
    """q = (package whose files were removed | False, content extracted, metadata moved)"""
    transparent = frozenset({"strdup"})

    def __init__(self, prog):
        self.r = Roles(prog)
        self.fields = error_fields(prog)
        self.deletions = 0
        self.published = 0

    def calls(self, n):
        return effects.is_fs_name(n)

    def keep(self, v):
        return v[0] == "new" or esp.mentions(v, lambda t: (t[0] == "f" and t[1] in self.fields) or
                                             (t[0] == "s" and (DB in t[1] or "/files" in t[1])))

    def track(self, a):
        return False

    def context(self, fn, pc):
        # while the references of conflicting files are dropped, other packages' lists are rewritten
        return bool(pc) or fn.name.rsplit("::", 1)[-1] == "removePackageFilesRefsFromDB"

    def leave(self, q, fn, kind, c):
        if kind != "ret":
            return q
        if fn.key in self.r.removed:
            q = (True, q[1], q[2])
        if fn.key in self.r.extracted:
            q = (q[0], True, q[2])
        if fn.key in self.r.meta:
            q = (q[0], q[1], True)
        if fn.name.rsplit("::", 1)[-1] == "removePackageFilesRefsFromDB" and len(fn.params) == 1:
            q = (False, q[1], q[2])
        return q

    def on_call(self, q, c):
        eff = effects.fs_effect(c.fn, c.node)
        if eff is None:
            return None
        kind, paths = eff
        vals = [c.eng.ev(c.fn, p, c.env) for p in paths]
        if kind == "delete" and c.base() != "rmdir" and any(in_db(v) for v in vals):
            p = parts(vals[0])
            if p and p[-1][0] == "s" and not p[-1][1].endswith(("/", DB)) and p[-1][1].rsplit("/", 1)[-1] not in (
                    "META", "files", ""):
                return None          # a scratch file of the database directory
            self.deletions += 1
            if not q[0]:
                c.report("a package's database record is deleted by %s() before its files were" % c.name,
                         ("record-first", c.fn.name))
            return None
        if c.base().startswith("rename") and len(vals) == 2 and vals[1] is not None and \
                parts(vals[1]) and parts(vals[1])[-1][0] == "s" and parts(vals[1])[-1][1].endswith("/files") and \
                not c.frame.ctx:
            self.published += 1
            if not q[1]:
                c.report("the file list is recorded before the content was extracted",
                         ("before-extraction", c.fn.name))
            if not q[2]:
                c.report("the file list is recorded before the metadata was moved into the database",
                         ("before-metadata", c.fn.name))
            return [((q[0], False, False), None)]
        return None


def check(prog, res):
    spec = Order(prog)
    eng = esp.Engine(prog, spec)
    for m in mains(prog):
        eng.run(m, (False, False, False))
    res.from_engine(eng)
    res.coverage.update(spec.r.counts)
    res.coverage["record_deletion_events"] = spec.deletions
    res.coverage["file_list_recordings"] = spec.published
    res.rule("whole-program order: a path-deleting call on a package's database directory only after a "
             "file-removing function returned since the previous record deletion; a rename onto a package's "
             "file list (other than the one dropping conflicting references) only after an extracting and a "
             "metadata-moving function returned since the previous recording")
