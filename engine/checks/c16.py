"""C16: what cards remove must refuse, and what it must not remove on its own."""
import esp
import witness
from checks import choices
from checks.c07 import PKGS, mk
from checks.c27 import operand
from checks.choices import (APART, Choosing, EMPTY, ENTRY, FIRST, G, NO, OPERAND, W, YES, about, arg, const, explore, installed, opts)
from checks.common import family

USER, NEED = ("w", "user"), ("w", "need")
BASE, ELSE = ("s", "base"), ("s", "elsewhere")
NEEDED = "pkgrm::m_listofDependencies"
USED = {**installed(), ("f", PKGS): mk((ENTRY, USER), (), ()), ("fld", "first", NEED): W}


def deps(of, what):
    """the dependency list of one entry"""
    return lambda o=None, *a: what if witness.esp.mentions(o or (), lambda t: t == of) else EMPTY


def never(text):
    return {("run", "package"): "the package is removed although " + text}


def cases():
    unforced = opts(OPT_FORCE=NO)
    t = "it was selected by %s, belongs to the collection base and the force option is not given"
    w = {
        "base operand": ("remove", "the collection base is named", dict(
            terms=installed(), answers={"otherArguments": const(mk((BASE,))), "collection": about(ENTRY, BASE)},
            forbid=never("the collection base is named")), None),
        "needed": ("remove", "an installed package needs the package named at run time", dict(
            terms=USED, answers=operand(W, checkPackageNameExist=about(W, YES), dependencies=deps(USER, mk((NEED,))), collection=const(ELSE), group=const(ELSE)),
            forbid=never("an installed package needs it at run time")), None),
        "needed alias": ("remove", "an installed package needs the package an alias of which is named", dict(
            terms={**USED, ("fld", "first", ("w", "alias")): OPERAND},
            answers=operand(OPERAND, checkPackageNameExist=arg(OPERAND, YES), dependencies=deps(USER, mk((NEED,))), collection=const(ELSE), group=const(ELSE)),
            forbid=never("an installed package needs it at run time")), None),
    }
    for how, ans in (("name", operand(W, checkPackageNameExist=about(W, YES), getCollection=about(W, BASE))),
                     ("group", operand(OPERAND, group=about(ENTRY, OPERAND))),
                     ("set", operand(OPERAND, group=about(ENTRY, ("empty",)), sets=about(ENTRY, mk((OPERAND,)))))):
        w["base by " + how] = ("remove", t % how, dict(
            terms=installed(how != "set"), answers=dict(ans, isSet=unforced, collection=about(ENTRY, BASE),
                                                        getCollection=about(W, BASE)), forbid=never(t % how)), None)
    # what is recorded under the alias is nothing
    w["base by alias"] = ("remove", t % "an alias", dict(
        terms={**installed(), ("fld", "first", ("w", "alias")): OPERAND},
        answers=operand(OPERAND, checkPackageNameExist=arg(OPERAND, YES), isSet=unforced, collection=about(ENTRY, BASE),
                        getCollection=lambda *a: BASE if a[-1] == W else ELSE, group=const(ELSE), sets=const(EMPTY),
                        dependencies=const(EMPTY)), forbid=never(t % "an alias")), None)
    return w


WITHDEPS = "pkgdbh::m_listOfPackagesWithDeps"
TOP, MID = ("w", "wanted"), ("w", "middle")


class Closure(Choosing):
    """nothing is named: what is removed is what nothing requested needs"""
    recursion = 4
    skip = witness.Witness.skip | {"buildDatabase", "buildSimpleDependenciesDatabase"}
    about = Choosing.about | {WITHDEPS, "pkgrm::m_listOfManInstalledPackages"}


def kept(chain):
    """the first of the chain was installed on request, each needs the next, the last is the package"""
    entries = [("w", "entry of " + x[1]) for x in chain]
    nodes = [("w", "node of " + x[1]) for x in chain]
    terms = {("f", PKGS): mk(tuple(entries)), ("f", WITHDEPS): mk(tuple(nodes), (), ()),
             ("f", NEEDED): EMPTY, ("f", "pkgrm::m_listOfManInstalledPackages"): EMPTY,
             ("f", "pkgdbh::m_listOfAlias"): APART}
    for e, n, x, y in zip(entries, nodes, chain, chain[1:] + (None,)):
        terms.update({("fld", "first", e): x, ("fld", "first", n): x,
                      ("fld", "second", n): mk((y,), (), ()) if y else EMPTY})

    def dependency(*a):
        if esp.mentions(a[0] or (), lambda t: t == entries[0]):
            return NO
        return YES if any(esp.mentions(a[0] or (), lambda t: t == e) for e in entries) else None
    return terms, dict(otherArguments=const(EMPTY), groups=const(EMPTY), dependency=dependency, getuid=const(NO))


def chains():
    w = {}
    for name, chain, text in (("requested", (W,), "it was installed on request"),
                              ("needed directly", (TOP, W), "a package installed on request needs it"),
                              ("needed indirectly", (TOP, MID, W), "a package installed on request needs a package that needs it")):
        terms, answers = kept(chain)
        w[name] = ("remove", text, dict(terms=terms, answers=answers, forbid=never("it was not named and " + text)), set())
    return w


def check(prog, res):
    explore(prog, res, cases())
    explore(prog, res, chains(), Closure, ("kept",))
    res.rule("cards remove is explored with one generic package among unknown others under each reason to keep it: "
             "the operation is never run for it, and where it was named the command ends with an error")
