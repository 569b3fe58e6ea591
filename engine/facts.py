"""Loads the facts of /repo's current source: parse every translation unit the
Makefiles name (engine/extract.cpp, Clang front end) and index the result.

Nothing of the repository is executed; the extraction runs on every invocation."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import subprocess
import sys
import tempfile
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CARDS_REPO", "/repo")
CACHE = os.environ.get("CARDS_CACHE", os.path.join(VERIF, ".cache"))


class AnalysisError(Exception):
    """The analysis cannot give an answer (never reported as a violation)."""


class Fn:
    __slots__ = ("key", "name", "cls", "file", "line", "ret", "params", "blocks", "entry",
                 "exit", "ex", "ctor", "dtor", "virt", "over", "static", "is_lambda", "nr",
                 "implicit", "copyctor", "access", "_preds", "_defs", "_vars", "_cache", "parent")

    def __init__(self, d, key):
        self.key = key
        self.name = d["name"]
        self.cls = d.get("cls")
        self.file = d["file"]
        self.line = d["line"]
        self.ret = d["ret"]
        self.params = d["params"]
        self.entry = d.get("entry")
        self.exit = d.get("exit")
        self.ctor = d.get("ctor", False)
        self.copyctor = d.get("copyctor", False)
        self.dtor = d.get("dtor", False)
        self.virt = d.get("virt", False)
        self.over = d.get("over", [])
        self.static = d.get("static", False)
        self.is_lambda = d.get("lambda", False)
        self.implicit = d.get("implicit", False)
        self.access = d.get("access")
        self.nr = d.get("nr", False)
        self.blocks = {b["b"]: b for b in d.get("blocks", [])}
        self.ex = {n["i"]: n for n in d.get("ex", [])}
        self._preds = None
        self._defs = None
        self._vars = None
        self._cache = {}
        self.parent = None

    def rel(self):
        return os.path.relpath(self.file, REPO)

    def loc(self, n=None):
        line = self.line
        if isinstance(n, dict):
            line = n.get("l", line)
        elif isinstance(n, int):
            line = self.ex[n]["l"]
        return "%s:%d" % (self.rel(), line)

    def short(self):
        return self.name

    @property
    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.blocks}
            for b, blk in self.blocks.items():
                for s in blk["s"]:
                    if s is not None:
                        p[s].append(b)
            self._preds = p
        return self._preds

    def elems(self):
        """(block id, index, element) of every reachable CFG element"""
        for b in self.reach():
            for i, e in enumerate(self.blocks[b]["e"]):
                yield b, i, e

    def reach(self):
        r = self._cache.get("reach")
        if r is None:
            seen = {self.entry}
            st = [self.entry]
            while st:
                x = st.pop()
                for s in self.blocks[x]["s"]:
                    if s is not None and s not in seen:
                        seen.add(s)
                        st.append(s)
            r = self._cache["reach"] = sorted(seen, reverse=True)
        return r

    def nodes(self):
        """every expression node evaluated in a reachable block"""
        r = self._cache.get("nodes")
        if r is None:
            seen = set()
            st = []
            for b, i, e in self.elems():
                st.append(e if isinstance(e, int) else e.get("x", 0))
            for b in self.reach():
                t = self.blocks[b].get("term")
                if t and t.get("cond"):
                    st.append(t["cond"])
            while st:
                x = st.pop()
                if not x or x in seen:
                    continue
                seen.add(x)
                st.extend(children(self.ex[x]))
            r = self._cache["nodes"] = [self.ex[i] for i in sorted(seen)]
        return r

    def calls(self):
        r = self._cache.get("calls")
        if r is None:
            r = self._cache["calls"] = [n for n in self.nodes() if n["k"] in ("call", "ctor")]
        return r


def children(n):
    out = []
    for k in ("c", "a"):
        if k in n:
            out.extend(n[k])
    for k in ("o", "b", "fe"):
        if n.get(k):
            out.append(n[k])
    for v in n.get("vars", []):
        if v.get("init"):
            out.append(v["init"])
    return [c for c in out if c]


def parse_objlist(mk, var):
    m = re.search(r"^%s\s*=((?:[^\n\\]|\\\n|\\.)*)" % var, mk, re.M)
    if not m:
        return []
    return [o[:-2] for o in m.group(1).replace("\\\n", " ").split() if o.endswith(".o")]


class Program:
    def __init__(self, with_gui=False):
        self.fns = {}
        self.byname = {}
        self._stops = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.tus = []
        self.methods = {}      # key -> record
        self.overriders = {}   # key -> set(keys)
        self.subclasses = {}   # class -> set of all (transitive) subclasses
        self.objs = {}
        self._load(with_gui)

    # ------------------------------------------------------------------ load
    def _load(self, with_gui):
        mk = open(os.path.join(REPO, "src/Makefile")).read()
        for var in ("TOOLSOBJECTS", "CARDSOBJECTS", "LIBOBJECTS", "WEBOBJECTS"):
            self.objs[var] = parse_objlist(mk, var)
        names = []
        for v in self.objs.values():
            for n in v:
                if n not in names:
                    names.append(n)
        if not names:
            raise AnalysisError("no object lists found in src/Makefile")
        files = []
        for n in names:
            f = os.path.join(REPO, "src", n + ".cxx")
            if os.path.exists(f):
                files.append((f, "c++"))
            else:
                raise AnalysisError("src/Makefile names %s.o but src/%s.cxx does not exist" % (n, n))
        if os.path.exists(os.path.join(REPO, "src/system_log.c")):
            files.append((os.path.join(REPO, "src/system_log.c"), "c"))
        if with_gui:
            mk = open(os.path.join(REPO, "fltk/Makefile")).read()
            for n in parse_objlist(mk, "FLOBJECTS"):
                files.append((os.path.join(REPO, "fltk", n + ".cxx"), "c++"))
        os.makedirs(CACHE, exist_ok=True)
        r = subprocess.run([os.path.join(HERE, "build_tool.sh"), CACHE], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("cannot build the extractor: " + r.stderr[-2000:])
        tool = os.path.join(CACHE, "extract")
        resdir = subprocess.run(["clang++", "-print-resource-dir"], capture_output=True,
                                text=True).stdout.strip()
        inc = tempfile.mkdtemp(prefix="cards-inc-")
        try:
            with open(os.path.join(inc, "libcards.h"), "w") as f:
                for h in ("pkg db define enum cache system_utils string_utils file_utils archive conf "
                          "lock sync pkgfile dwl process runtime_dependencies_utils pkgdbh pkgadd pkgrm "
                          "pkginfo pkgrepo").split():
                    f.write('#include "%s/src/%s.h"\n' % (REPO, h))
            jobs = []
            with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
                for f, lang in files:
                    args = [tool, REPO, f, "--"]
                    if lang == "c++":
                        args += ["-xc++", "-std=c++17"]
                    else:
                        args += ["-xc"]
                    args += ["-resource-dir", resdir, "-DNDEBUG", "-D_GNU_SOURCE",
                             '-DPACKAGE_VERSION="0"', "-D_LARGEFILE_SOURCE",
                             "-D_FILE_OFFSET_BITS=64", "-w", "-I", inc]
                    jobs.append((f, ex.submit(subprocess.run, args, capture_output=True,
                                              cwd=os.path.dirname(f))))
                for f, j in jobs:
                    r = j.result()
                    if r.returncode or not r.stdout.strip():
                        raise AnalysisError("cannot parse %s: %s" %
                                            (f, r.stderr.decode(errors="replace")[-1500:]))
                    self._add(f, json.loads(r.stdout))
        finally:
            shutil.rmtree(inc, ignore_errors=True)
        self._index()

    def _add(self, f, d):
        self.tus.append(os.path.relpath(f, REPO))
        tu = os.path.basename(f)
        remap = {}
        for fd in d["functions"]:
            if fd["name"] == "main":
                remap[fd["key"]] = fd["key"] + "@" + tu
        for e in d["enums"]:
            self.enums.setdefault(e["name"], dict((n, v) for n, v in e["c"]))
        for r in d["records"]:
            self.records.setdefault(r["name"], r)
        for g in d["globals"]:
            old = self.globals.get(g["name"])
            if old and old.get("init") and g.get("init") and (old["file"], old["line"]) != (g["file"], g["line"]):
                old["tree"] = g["tree"] = None          # of the same name in several files
            if g.get("init") or old is None:
                self.globals[g["name"]] = g
        for fd in d["functions"]:
            k = remap.get(fd["key"], fd["key"])
            if k in self.fns or fd.get("nocfg"):
                continue
            fn = Fn(fd, k)
            self.fns[k] = fn
            self.byname.setdefault(fn.name, []).append(fn)

    def _index(self):
        direct = {}
        for r in self.records.values():
            for b in r["bases"]:
                direct.setdefault(b, set()).add(r["name"])
            for m in r["methods"]:
                self.methods[m["key"]] = (r["name"], m)
                for o in m["over"]:
                    self.overriders.setdefault(o, set()).add(m["key"])
        # transitive overriders
        changed = True
        while changed:
            changed = False
            for k, s in self.overriders.items():
                for x in list(s):
                    n = self.overriders.get(x, set()) - s
                    if n:
                        s |= n
                        changed = True

        def subs(c, seen):
            for d in direct.get(c, ()):
                if d not in seen:
                    seen.add(d)
                    subs(d, seen)
            return seen
        for c in self.records:
            self.subclasses[c] = subs(c, set())
        for f in self.fns.values():
            f.parent = None
        for f in list(self.fns.values()):
            for n in f.ex.values():
                if n["k"] == "lambda" and n.get("fk") in self.fns:
                    self.fns[n["fk"]].parent = f

    # ------------------------------------------------------------- resolution
    def supers(self, c):
        out = []
        st = [c]
        while st:
            x = st.pop()
            r = self.records.get(x)
            if not r:
                continue
            for b in r["bases"]:
                if b not in out:
                    out.append(b)
                    st.append(b)
        return out

    def targets(self, n, dyncls=None):
        """in-tree functions a call/ctor node can enter.  dyncls: the known dynamic
        class of the receiver, when the caller's context fixes it."""
        k = n.get("fk")
        if not k:
            return []
        if n["k"] == "call" and n.get("virt") and not n.get("qual"):
            cands = {k} | self.overriders.get(k, set())
            ot = dyncls or n.get("ot")
            if dyncls:
                # most derived override visible from dyncls
                chain = [dyncls] + self.supers(dyncls)
                for c in chain:
                    for x in cands:
                        if x in self.methods and self.methods[x][0] == c:
                            return [self.fns[x]] if x in self.fns else []
            if ot and ot in self.subclasses:
                ok = {ot} | self.subclasses[ot]
                sup = set(self.supers(ot))
                res = []
                # overriders in subclasses, plus the one visible at ot
                for x in cands:
                    c = self.methods.get(x, (None,))[0]
                    if c in ok:
                        res.append(x)
                if not any(self.methods.get(x, (None,))[0] == ot for x in res):
                    for c in [ot] + self.supers(ot):
                        hit = [x for x in cands if self.methods.get(x, (None,))[0] == c]
                        if hit:
                            res.extend(h for h in hit if h not in res)
                            break
                cands = res
            return [self.fns[x] for x in cands if x in self.fns]
        f = self.fns.get(k)
        return [f] if f else []

    def stops(self, fn):
        """how a function that never returns normally ends: "throw", "exit"; None if it may return"""
        r = self._stops.get(fn.key, 0)
        if r != 0:
            return r
        self._stops[fn.key] = None              # a function calling itself may return
        how, out, seen, st = set(), None, {fn.entry}, [fn.entry]
        if any((b.get("term") or {}).get("k") == "CXXTryStmt" for b in fn.blocks.values()):
            return None
        while st:
            b = fn.blocks[st.pop()]
            if b["b"] == fn.exit:
                return None
            end = None
            for e in b["e"]:
                n = fn.ex.get(e) if isinstance(e, int) else None
                if n is None:
                    continue
                if n["k"] == "throw":
                    end = "throw"
                elif n["k"] == "call" and n.get("nr"):
                    end = "exit"
                elif n["k"] == "call" and n.get("fk"):
                    ts = self.targets(n)
                    ends = [self.stops(t) for t in ts]
                    if ts and all(ends):
                        end = "throw" if "throw" in ends else "exit"
                if end:
                    break
            if end:
                how.add(end)
                continue
            # a block ending in a call has a second edge, for the exception the callee may throw
            for x in b["s"] if b.get("term") else b["s"][:1]:
                if x is not None and x not in seen:
                    seen.add(x)
                    st.append(x)
        out = "throw" if "throw" in how else "exit" if how else None
        self._stops[fn.key] = out
        return out

    def fn(self, name):
        """the functions with this qualified name (all overloads)"""
        return self.byname.get(name, [])

    def main(self, tu):
        for f in self.byname.get("main", []):
            if os.path.basename(f.file) == tu:
                return f
        raise AnalysisError("no main() in " + tu)

    def digest(self):
        h = hashlib.sha256()
        for t in self.tus:
            h.update(open(os.path.join(REPO, t), "rb").read())
        return h.hexdigest()[:16]


if __name__ == "__main__":
    import time
    t = time.time()
    P = Program(with_gui="--gui" in sys.argv)
    print(len(P.tus), "TUs", len(P.fns), "functions", len(P.records), "records", time.time() - t)
