"""C09: in every world in which a request must be refused, no modification is reachable and the operation
does not return normally."""
import esp
from checks import worlds
from checks.worlds import ROOT, UPGRADE

INSTALLED = {"pkgdbh::m_listOfAlias", "pkgdbh::m_listOfPackages"}
#        name                 what every path assumes
WORLDS = {
    "empty":     "the archive's file list is empty",
    "nometa":    "the archive holds no metadata",
    "noname":    "the archive's metadata give no name",
    "arch":      "the archive is for another architecture and the root is /",
    "unopened":  "the archive library cannot open the archive",
    "installed": "the package is installed and no upgrade was asked for",
    "missing":   "the package to upgrade is not installed",
    "absent":    "the package to remove is not installed",
}
SPECIAL = {("s", "/"), ("s", ""), ("s", "one architecture"), ("s", "another architecture")}


class World(worlds.World):
    """q = opening failed; context = class of the operation in progress"""
    track_fields = frozenset({UPGRADE, ROOT})
    watch = frozenset({"archive::name", "archive::arch", "archive::size", "getMachineType",
                       "archive_read_open_filename", "pkgdbh::checkPackageNameExist"})

    def keep(self, v):
        return super().keep(v) or v in SPECIAL or \
            esp.mentions(v, lambda t: t[0] == "f" and (t[1] in INSTALLED or t[1].startswith("archive::m_content")))

    def value(self, c):
        w = self.world
        if c.name == "pkgdbh::checkPackageNameExist":
            if w == "installed":
                return ("c", 1)
            if w in ("missing", "absent"):
                return ("c", 0)
        if w in ("empty", "nometa"):
            f = ("f", "archive::m_contentMtree" if w == "empty" else "archive::m_contentMeta")
            if c.obj == f and c.base() in ("size", "empty") and not c.args:
                return ("c", 0 if c.base() == "size" else 1)
        if w == "noname" and c.name == "archive::name":
            return ("s", "")
        if w == "arch" and c.name == "archive::arch":
            return ("s", "one architecture")
        if w == "arch" and c.name == "getMachineType":
            return ("s", "another architecture")
        return None

    def on_call(self, q, c):
        v = self.value(c)
        if v is not None:
            self.forced += 1
            return [(q, v)]
        if self.world == "unopened" and c.name == "archive_read_open_filename":
            self.forced += 1
            return [(True, ("c", -30))]
        if not self.refused(q, c):
            return None
        kind = self.modifies(c)
        if kind is None:
            return None
        self.events += 1
        c.report("%s of an installed file or database entry by %s() although %s" %
                 (kind, c.name, WORLDS[self.world]), (self.world, c.fn.name, c.name))
        return None

    def refused(self, q, c):
        """is this a point inside an operation the world says must be refused?"""
        op, w = c.frame.ctx, self.world
        if w == "absent":
            return op in self.rm
        if op not in self.add:
            return False
        if w == "installed":
            return self.truth(c, UPGRADE) is not True
        if w == "missing":
            return self.truth(c, UPGRADE) is not False
        if w == "arch":
            return c.env.get(("F", ROOT)) == ("s", "/")
        if w == "unopened":
            return q
        return True

    def on_assume(self, q, atom, truth, c):
        if atom[0] == "has" and atom[1][0] == "f" and atom[1][1] in INSTALLED and \
                self.world in ("installed", "missing", "absent"):
            self.forced += 1
            if truth != (self.world == "installed"):
                return None
        return q

    def leave(self, q, fn, kind, c):
        if kind == "ret" and self.is_run(fn) and self.refused(q, c):
            c.report("%s ends without an error although %s" % (fn.name, WORLDS[self.world]),
                     (self.world, "accepted", fn.name))
        return q


def check(prog, res):
    res.coverage["worlds"] = worlds.explore(prog, res, lambda w: World(prog, w), WORLDS, False)
    res.rule("the program is explored from both mains under each assumption that calls for a refusal (values of the "
             "deciding calls and attributes fixed, everything else unknown): inside the operation no file-system "
             "modification (scratch names exempt) is reachable and the operation never returns normally")
