"""C27: every package selected on the command line, by the resolver or by the state of the system is worked on."""
import esp
from checks.c07 import PKGS, mk
from checks.choices import (A, APART, B, DB, EMPTY, ENTRY, FIRST, G, NO, OPERAND, W, YES, about, arg, const, explore, installed,
                            opts, seq, UPGRADABLE)


def operand(x, **answers):
    return dict({"otherArguments": const(mk((x,)))}, **answers)


def before(q, c):
    return None if ("run", "earlier") in q else "a package is installed before one that comes earlier in the list"


RESOLVED, RUN = {("resolve", "package")}, {("run", "package")}
ASIDE = {"collection": about(ENTRY, ("s", "aside")), "group": about(ENTRY, ("empty",)),
         "sets": about(ENTRY, EMPTY), "dependencies": const(EMPTY)}
REQUESTED = {**installed(), ("f", "pkgrm::m_listofDependencies"): mk((W, G))}
#   (command, text, answers and terms, what has to have been done at every normal end)
WORLDS = {
    "operand": ("install", "the operand names a package", dict(answers=operand(
        W, getListOfPackagesFromSet=arg(W, EMPTY), getListOfPackagesFromCollection=arg(W, EMPTY),
        checkRegularFile=arg(W, NO))), RESOLVED),
    "archive operand": ("install", "the operand is an archive file", dict(answers=operand(
        W, getListOfPackagesFromSet=arg(W, EMPTY), getListOfPackagesFromCollection=arg(W, EMPTY),
        checkRegularFile=arg(W, YES))), RUN),
    "set member": ("install", "the package belongs to the set named and is not installed", dict(answers=operand(
        OPERAND, getListOfPackagesFromSet=arg(OPERAND, mk((W,))), checkPackageNameExist=arg(W, NO))), RESOLVED),
    "collection member": ("install", "the package belongs to the collection named and is not installed",
                          dict(answers=operand(
                              OPERAND, getListOfPackagesFromSet=arg(OPERAND, EMPTY),
                              getListOfPackagesFromCollection=arg(OPERAND, mk((W,))),
                              checkPackageNameExist=arg(W, NO))), RESOLVED),
    "resolved": ("install", "the package is on the install list", dict(
        answers={"getDependenciesList": const(seq(W))}), RUN),
    "resolved group": ("install", "a configured group of a package on the install list is in the repository", dict(
        answers={"getDependenciesList": const(seq(W)), "groups": const(mk((G,))), "checkBinaryExist": about(G, YES)}),
        {("resolve", "group")}),
    "install order": ("install", "one package comes before another in the install list", dict(
        answers={"getDependenciesList": const(seq(A, B))}, forbid={("run", "later"): before}),
        {("run", "earlier"), ("run", "later")}),
    "outdated": ("upgrade", "the installed package is older than the one provided and is the one to install", dict(
        UPGRADABLE, terms=installed(), answers=dict(UPGRADABLE["answers"], getDependenciesList=const(seq(W)))),
        RESOLVED | RUN),
    "new group": ("upgrade", "a configured group of the installed package is provided and not up to date", dict(
        UPGRADABLE, terms=installed(), answers=dict(UPGRADABLE["answers"], groups=const(mk((G,))),
                                                    group=about(ENTRY, ("empty",)))), {("resolve", "group")}),
    "upgrade order": ("upgrade", "one package comes before another in the install list", dict(
        UPGRADABLE, terms=installed(), answers=dict(UPGRADABLE["answers"], getDependenciesList=const(seq(A, B))),
        forbid={("run", "later"): before}), {("run", "earlier"), ("run", "later")}),
    "withdrawn": ("upgrade", "the package was pulled in as a dependency and no collection provides it any more", dict(
        UPGRADABLE, terms=installed(), answers=dict(
            UPGRADABLE["answers"], checkBinaryExist=about(W, NO), dependency=about(ENTRY, YES))),
        {("removePackageFiles", "package"), ("removePackageFilesRefsFromDB", "package")}),
    # (what is selected was also installed on request: it is not removed as unneeded)
    "removal operand": ("remove", "the operand names an installed package", dict(
        terms=REQUESTED, answers=operand(W, checkPackageNameExist=arg(W, YES))), RUN),
    "removal collection": ("remove", "the installed package belongs to the collection named", dict(
        terms=REQUESTED, answers=operand(OPERAND, collection=about(ENTRY, OPERAND))), RUN),
    "removal group": ("remove", "the installed package belongs to the group named", dict(
        terms=REQUESTED, answers=operand(OPERAND, group=about(ENTRY, OPERAND), collection=about(ENTRY, ("s", "aside")))),
        RUN),
    "removal set": ("remove", "the installed package belongs to the set named", dict(
        terms={**REQUESTED, **installed(False)}, answers=operand(OPERAND, sets=about(ENTRY, mk((OPERAND,))),
                                                group=about(ENTRY, ("empty",)),
                                                collection=about(ENTRY, ("s", "aside")))), RUN),
    "removal companions": ("remove", "a configured group of the removed package is installed", dict(
        terms=REQUESTED, answers=operand(W, checkPackageNameExist=about(W, YES), groups=const(mk((G,))))),
        {("run", "package"), ("run", "group")}),
    "unneeded": ("remove", "the installed package is needed by no package installed on request", dict(
        terms={**installed(), ("f", "pkgrm::m_listofDependencies"): APART},
        answers=operand(OPERAND, **ASIDE)), RUN),
}

# two packages selected by one operand
EA, EB = ("w", "entry of the earlier"), ("w", "entry of the later")
BOTH = {("f", PKGS): ("set", tuple(sorted((EA, EB), key=repr)), (), (), 1), ("fld", "first", EA): A, ("fld", "first", EB): B,
        ("f", "pkgrm::m_listofDependencies"): mk((A, B, G))}


def either(v):
    return lambda *a: v if any(y is not None and esp.mentions(y, lambda t: t in (EA, EB)) for y in a) else None


for _n, _d in (("collection", dict(collection=either(OPERAND))),
               ("group", dict(group=either(OPERAND), collection=either(("s", "aside")))),
               ("set", dict(sets=either(mk((OPERAND,))), group=either(("empty",)), collection=either(("s", "aside"))))):
    WORLDS["removal %s of two" % _n] = ("remove", "two installed packages belong to the %s named" % _n, dict(
        terms=BOTH, rank={A: 0, B: 1, EA: 0, EB: 1}, answers=operand(OPERAND, **_d)),
        {("run", "earlier"), ("run", "later")})
for _n in ("install order", "upgrade order"):
    _w = WORLDS[_n]
    WORLDS[_n + " unsorted"] = (_w[0], _w[1] + " and its name comes after the other's", dict(
        _w[2], rank={A: 1, B: 0}, answers=dict(_w[2]["answers"], getDependenciesList=const(seq(A, B)[:4] + (-1,)))), _w[3])


def check(prog, res):
    explore(prog, res, WORLDS)
    res.rule("the commands are explored with one generic package among unknown others: at every normal end the package "
             "was worked on, and of two packages on the install list the earlier one first")
