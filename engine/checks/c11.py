"""C11: what makes a binary package count as verified, and that nothing reaches the install list without it."""
import esp
import witness
from checks.c07 import mk
from checks.c12 import Raises
from checks.c27 import operand
from checks.c29 import LIST, NEED, OTHER, PULLED, Resolving
from checks.choices import Choosing, EMPTY, G, NO, UPGRADABLE, W, YES, about, arg, const, explore, installed
from checks.common import CardsSpec, error_fields, field_enum, parallel

DIGEST = "cards::pkgrepo::m_packageFileNameHash"
ONE = ("c", 1)
NULL, THERE = ("c", 0), ("o", "there", "handle")
#   call of the library        its answers: (value, whether it is the one success)
ANSWERS = {
    "EVP_MD_CTX_new": ((THERE, True), (NULL, False)),
    "EVP_DigestInit_ex": ((ONE, True), (NULL, False)),
    "EVP_DigestInit_ex2": ((ONE, True), (NULL, False)),
    "EVP_DigestInit": ((ONE, True), (NULL, False)),
    "EVP_DigestUpdate": ((ONE, True), (NULL, False)),
    "EVP_DigestFinal_ex": ((ONE, True), (NULL, False)),
    "EVP_DigestFinal": ((ONE, True), (NULL, False)),
    "EVP_DigestVerifyInit": ((ONE, True), (NULL, False), (("c", -1), False)),
    "EVP_DigestVerify": ((ONE, True), (NULL, False), (("c", -1), False), (("c", -2), False)),
    "PEM_read_PUBKEY": ((THERE, True), (NULL, False)),
    "fopen": ((THERE, True), (NULL, False)),
    "is_open": ((ONE, True), (NULL, False)),
}
FINAL = frozenset({"EVP_DigestFinal_ex", "EVP_DigestFinal"})
ACCEPTED = frozenset({"EVP_DigestVerify", "EVP_DigestVerifyFinal"})


class Primitive(CardsSpec):
    """q = flags: failed (a step was answered with something but success), final, accepted, stored, same"""
    max_states = 1500000

    def __init__(self, prog):
        self.events = 0
        self.fields = error_fields(prog) | {DIGEST}

    def calls(self, n):
        return n.rsplit("::", 1)[-1] in ANSWERS or n.endswith("::treatErrors")

    def keep(self, v):
        return v[0] in ("c", "o") or esp.mentions(v, digest)

    def track(self, a):
        return esp.mentions(a, digest)

    def on_call(self, q, c):
        b = c.base()
        if c.targets or b not in ANSWERS:
            return None
        self.events += 1
        out = []
        for v, good in ANSWERS[b]:
            more = ({"final"} if b in FINAL else {"accepted"} if b in ACCEPTED else set()) if good else \
                {"failed", "failed:" + b}
            out.append((q | more, v))
        return out

    def on_store(self, q, field, val, c):
        return q | {"stored"} if field == DIGEST else q

    def on_assume(self, q, atom, truth, c):
        return q | {"same"} if truth and compares(atom) else q


def digest(t):
    return t == ("f", DIGEST) or t[:1] == ("digest",)


def compares(t):
    """an equality between two things of which exactly one is the checksum computed"""
    if t[0] != "eq":
        return False
    sides = [esp.mentions(x, digest) for x in t[1:3] if x is not None]
    return len(sides) == 2 and sides[0] != sides[1]


def primitives(prog, res):
    cov = {}
    for name in ("generateHash", "checkHash", "checkSign"):
        for f in prog.fn("cards::pkgrepo::" + name):
            if len(f.params) != 1:
                continue
            spec = Primitive(prog)
            eng = esp.Engine(prog, spec)
            ends = {"normal": 0, "passed": 0, "refused": 0, "unknown": 0}
            at = "%s:%s in %s" % (f.rel(), f.line, f.name)
            for kind, q, v, keep in eng.run(f, frozenset(), env={("F", DIGEST): ("digest", 0)}, dyncls=f.cls):
                if kind != "ret":
                    continue
                why = ", ".join(sorted(x[7:] for x in q if x.startswith("failed:")))
                if name == "generateHash":
                    ends["normal"] += 1
                    if "failed" in q:
                        res.violation((name, why), "the checksum counts as computed although %s failed" % why, at)
                    elif not {"final", "stored"} <= q:
                        res.violation((name, "stale"), "returns without having computed and stored a checksum", at)
                    continue
                t = eng.truth(v, dict(keep)) if v is not None else None
                ends["unknown" if t is None else "passed" if t else "refused"] += 1
                if t is False:
                    continue
                if name == "checkHash":
                    if t and "same" not in q or v is not None and t is None and not esp.mentions(v, compares):
                        res.violation((name, "unequal"), "a checksum counts as right without being compared equal to "
                                      "the one recorded", at)
                elif t and "failed" in q:
                    res.violation((name, why), "a signature counts as verified although %s failed" % why, at)
                elif "accepted" not in q and (t or v is not None):
                    res.violation((name, "unasked"), "a signature counts as verified without the library having "
                                  "accepted it", at)
            res.from_engine(eng)
            cov[name] = dict(ends, answers=spec.events)
    res.coverage["verification functions"] = cov


RESOLVED = {"requested": (True, "a requested package"), "needed": (False, "a package a requested one needs")}


class Verified(Resolving):
    """q = flags for the generic package: hashed (since the last download), hash, sign"""
    skip_classes = Resolving.skip_classes - {"cards::dwl"}

    def __init__(self, prog, world):
        witness.Witness.__init__(self, prog, world)
        self.requested = RESOLVED[world][0]
        sides = (("earlier", "pre"), ("later", "post"))
        self.terms = {LIST: ("set", (), (), sides, 1),
                      ("f", "cards::pkgrepo::m_packageName"): W if self.requested else OTHER,
                      ("f", "cards::pkgrepo::m_listOfRepoPackages"): mk(),
                      ("fld", "first", NEED): W, ("fld", "second", NEED): PULLED}

    def interest(self, n):
        return n.rsplit("::", 1)[-1] in ("generateHash", "checkHash", "checkSign", "downloadPackageFileName", "dwl")

    def concerns(self, v):
        return v is not None and esp.mentions(v, lambda t: t in (W, NEED))

    def intercept(self, q, c):
        b, args = c.base(), tuple(self.resolve(c, a) for a in c.args)
        if b in ("generateHash", "checkHash", "checkSign") and len(args) == 1:
            on = self.concerns(args[0])
            if args[0] is None:
                q = q | {"vague"}
            self.events += on
            if b == "generateHash":
                return [(q | {"hashed"} if on else q - {"hashed"}, None)]
            if not on:
                return [(q, YES), (q, NO)]
            if b == "checkHash":
                return [(q | ({"hash"} if "hashed" in q else set()), YES), (q, NO)]
            return [(q | {"sign"}, YES), (q, NO)]
        if b == "downloadPackageFileName" or b == "dwl" and c.node["k"] == "ctor" and args:
            if any(self.concerns(a) for a in args):
                self.events += 1
                q = q - {"hashed", "hash", "sign"}
            return [(q, None)]
        if b == "url" and not args:
            return [(q, ("s", "http://somewhere"))]
        if b in ("dirName", "fileName", "fileHash") and (args or c.obj is not None):
            on = args[0] if args else c.obj
            if self.concerns(on):
                return [(q, ("call", b, on, ()))]
        if b == "checkBinaryExist" and args and args[0] in (W, OTHER):
            return [(q, YES)]
        return super().intercept(q, c)


def resolved(prog, res):
    fns = [f for f in prog.fn("cards::pkgrepo::generateDependencies") if not f.params]
    jobs = [(f.key, w) for f in fns for w in RESOLVED]

    def work(job):
        key, w = job
        spec = Verified(prog, w)
        eng = witness.WEngine(prog, spec)
        bad, ends, vague, on_list = set(), 0, 0, 0
        for kind, q, v, keep in eng.run(prog.fns[key], frozenset(), dyncls=prog.fns[key].cls):
            if kind != "ret":
                continue
            ends += 1
            if "vague" in q:
                vague += 1
            elif spec.second(eng, dict(keep)) is not None:
                on_list += 1
                for what, flag in (("its checksum compared equal", "hash"), ("its signature accepted", "sign")):
                    if flag not in q:
                        bad.add(what)
        return eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls, bad, ends, vague, on_list, spec.events
    cov = {}
    for (key, w), r in zip(jobs, parallel(work, jobs)):
        eng = esp.Engine(prog, None)
        eng.violations, eng.nstates, eng.visited_fns, eng.visited_calls = r[:4]
        res.from_engine(eng)
        f = prog.fns[key]
        for m in sorted(r[4]):
            res.violation((w, m), "%s goes on the install list without having had %s since its last download" % (
                RESOLVED[w][1], m), "%s:%s in %s" % (f.rel(), f.line, f.name))
        cov[w] = {"states": r[1], "ends": r[5], "ends_not_followed_exactly": r[6], "ends_with_it_on_the_list": r[7],
                  "verifications_and_downloads_followed": r[8]}
    res.coverage["resolver"] = cov


def unlisted():
    """nothing is on the install list: no operation may be run for a package of a collection"""
    def w(cmd, text, answers, terms):
        return cmd, text, {"answers": {"getDependenciesList": const(EMPTY), **answers}, "terms": terms,
                           "forbid": {("run", "package"): "installed without having been put on the install list, "
                                      "where what was verified is"}}, set()
    no = dict(checkRegularFile=arg(W, NO))
    return {
        "groups": w("install", "a configured group of a listed package is in the repository", {
            "groups": const(mk((G,))), "checkBinaryExist": about(G, YES),
            "getDependenciesList": const(("set", (("w", "listed"),), (), (), 1))}, {}),
        "package": w("install", "a package of a collection is named", operand(
            W, checkBinaryExist=arg(W, YES), **no), {}),
        "set": w("install", "a set of packages is named", operand(
            ("w", "set"), getListOfPackagesFromSet=arg(("w", "set"), mk((W,))), checkRegularFile=arg(("w", "set"), NO)), {}),
        "upgrade": w("upgrade", "an installed package has a new version", UPGRADABLE["answers"], installed()),
    }


class Listing(Choosing):
    """q also: ("accepted", package) once its signature was"""
    def interest(self, n):
        return super().interest(n) or n.rsplit("::", 1)[-1] in ("addDependenciesList", "checkSign")

    def intercept(self, q, c):
        b = c.base()
        if b in ("checkSign", "addDependenciesList") and c.args and any(t.cls == "cards::pkgrepo" for t in c.targets):
            v = self.resolve(c, c.args[0])
            on = self.subjects(v)
            if b == "checkSign":
                return [(q | {("accepted", w[1]) for w in on}, YES), (q, NO)]
            self.events += 1
            if not any(f[0] == "accepted" for f in q if isinstance(f, tuple)):
                c.report("a package is put on the install list without its signature having been verified",
                         ("added", c.fn.name))
            return [(q, None)]
        return super().intercept(q, c)


def raised(prog, res):
    """the condition a failed verification is recorded as is raised"""
    n = 0
    for fld in sorted(error_fields(prog)):
        cls, enum = fld.rsplit("::", 1)[0], prog.enums[field_enum(prog, fld)]
        for t in prog.fn("cards::pkgrepo::treatErrors"):
            if cls != "cards::pkgrepo" or "ERROR_ENUM_WRONG_SIGNATURE" not in enum:
                continue
            n += 1
            outs = esp.Engine(prog, Raises(fld)).run(t, 0, env={("F", fld): ("c", enum["ERROR_ENUM_WRONG_SIGNATURE"])},
                                                     dyncls=t.cls)
            if any(k == "ret" for k, *_ in outs):
                res.violation(("not-raised",), "a failed verification is recorded but not raised",
                              "%s:%s in %s" % (t.rel(), t.line, t.name))
    res.coverage["reporters_of_a_failed_verification"] = n


def check(prog, res):
    primitives(prog, res)
    raised(prog, res)
    resolved(prog, res)
    explore(prog, res, unlisted(), Listing, ("only what is listed",))
    res.rule("the checksum counts as computed, equal, and the signature as accepted only after the library's explicit "
             "success at every step (each call forked over its answers); the resolver, explored with one generic "
             "package requested or needed, never ends with it on the install list unless both verifications "
             "succeeded after its last download; install and upgrade run no operation for a package of a collection "
             "that is not on that list")
    res.assumptions.append("a download address is configured; that the digest and the library's acceptance are "
                           "computed over the right bytes is C33 (not applicable)")
