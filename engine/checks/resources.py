"""Acquisition, use and release of handles (streams, descriptors, mappings, contexts, memory)."""
import re
import esp
from checks.common import CardsSpec, error_fields

NULL = ("c", 0)
NEG = ("c", -1)
# function -> (family, value of a failed call); family None: the result is borrowed, not owned
ACQUIRE = {
    "fopen": ("stream", NULL), "fopen64": ("stream", NULL), "std::fopen": ("stream", NULL),
    "freopen": ("stream", NULL), "tmpfile": ("stream", NULL), "fmemopen": ("stream", NULL),
    "fdopen": ("stream", NULL), "opendir": ("directory", NULL), "fdopendir": ("directory", NULL),
    "popen": ("pipe stream", NULL),
    "malloc": ("memory", NULL), "calloc": ("memory", NULL), "std::malloc": ("memory", NULL),
    "strdup": ("memory", NULL), "strndup": ("memory", NULL),
    "mmap": ("mapping", NEG), "mmap64": ("mapping", NEG),
    "open": ("descriptor", NEG), "open64": ("descriptor", NEG), "creat": ("descriptor", NEG),
    "creat64": ("descriptor", NEG), "openat": ("descriptor", NEG), "dup": ("descriptor", NEG),
    "archive_read_new": ("archive", NULL), "archive_write_new": ("archive writer", NULL),
    "EVP_MD_CTX_new": ("digest context", NULL), "EVP_PKEY_CTX_new_id": ("key context", NULL),
    "EVP_PKEY_CTX_new": ("key context", NULL),
    "PEM_read_PUBKEY": ("key", NULL), "PEM_read_PrivateKey": ("key", NULL), "EVP_PKEY_new": ("key", NULL),
    "curl_easy_init": ("transfer", NULL), "mysql_init": ("connection", NULL),
    "mysql_use_result": ("result set", NULL), "mysql_store_result": ("result set", NULL),
    "localtime": (None, NULL), "gmtime": (None, NULL), "readdir": (None, NULL), "memchr": (None, NULL),
    "std::memchr": (None, NULL), "strchr": (None, NULL), "strrchr": (None, NULL), "strstr": (None, NULL),
    "std::strchr": (None, NULL), "std::strrchr": (None, NULL), "std::strstr": (None, NULL),
    "std::localtime": (None, NULL), "std::gmtime": (None, NULL),
    "strpbrk": (None, NULL), "mysql_fetch_row": (None, NULL), "getpwuid": (None, NULL), "getgrgid": (None, NULL),
    "getpwnam": (None, NULL), "getgrnam": (None, NULL), "archive_entry_symlink": (None, NULL),
    "archive_entry_hardlink": (None, NULL), "realpath": ("memory", NULL),
}
ACQ_ALIAS = {"std::": ""}
# function -> (index of the released argument, family)
RELEASE = {
    "fclose": (0, {"stream"}), "std::fclose": (0, {"stream"}), "pclose": (0, {"pipe stream"}),
    "closedir": (0, {"directory"}), "close": (0, {"descriptor"}), "munmap": (0, {"mapping"}),
    "free": (0, {"memory"}), "std::free": (0, {"memory"}),
    "archive_read_free": (0, {"archive"}), "archive_read_finish": (0, {"archive"}), "archive_free": (0, {"archive"}),
    "archive_write_free": (0, {"archive writer"}),
    "EVP_MD_CTX_free": (0, {"digest context"}), "EVP_PKEY_CTX_free": (0, {"key context"}),
    "EVP_PKEY_free": (0, {"key"}), "curl_easy_cleanup": (0, {"transfer"}), "mysql_close": (0, {"connection"}),
    "mysql_free_result": (0, {"result set"}), "regfree": (0, {"pattern"}),
}
# releasing a null handle is allowed for
NULL_OK = {"free", "std::free", "EVP_MD_CTX_free", "EVP_PKEY_CTX_free", "EVP_PKEY_free", "mysql_close",
           "curl_easy_cleanup", "curl_slist_append", "curl_slist_free_all", "mysql_free_result",
           "mysql_real_connect", "PEM_read_PUBKEY", "PEM_read_PrivateKey", "time", "std::time", "fflush",
           "archive_read_free", "realloc", "setlocale", "setbuf", "setvbuf", "mmap", "close", "signal"}
FD_USE = {"read", "write", "pread", "pwrite", "fsync", "fdatasync", "fchmod", "fchown", "ftruncate", "dup2",
          "fdopen", "lseek", "std::write", "std::read"}
HANDLE_T = re.compile(r"_IO_FILE|__dirstream|\barchive(_entry)?\b|evp_|EVP_|MYSQL|st_mysql|\bCURL\b|passwd|\bgroup\b|\btm\b|dirent")
TEXT_USE = re.compile(r"^(std::)?(str[a-z]+|mem[a-z]+|ato[il]+|printf|fputs|puts|sscanf)$")


class Resources(CardsSpec):
    """q = frozenset of (resource, state), state: own | outer | ret | fld | lent | rel; plus
    (resource, 'unopened') for an archive whose file could not be opened"""
    max_states = 8000000
    refine = True

    def __init__(self, prog):
        self.prog = prog
        flds = set(error_fields(prog))
        self.handle_fields = set()
        for r in prog.records.values():
            for f in r["fields"]:
                if ("*" in f["t"] and HANDLE_T.search(f["t"])) or re.search(r"\bvoid \*$|slist|\bCURL", f["t"]):
                    self.handle_fields.add(r["name"] + "::" + f["n"])
        for f in prog.fns.values():
            for n in f.nodes():
                if n["k"] == "bin" and n["op"] == "=":
                    lhs, r = f.ex[n["c"][0]], f.ex[n["c"][1]]
                    if r["k"] == "call" and (r.get("fn") in ACQUIRE or "*" in r.get("t", "")) and (
                            lhs["k"] == "fld" or lhs.get("dk") == "global"):
                        self.handle_fields.add(lhs["q"])
        self.errf = frozenset(flds)
        # pointer parameters that keep the value they were given
        self.fixed = set()
        for f in prog.fns.values():
            if not any(n["k"] in ("call", "ctor") and self.calls(n.get("fn") or "") for n in f.nodes()):
                continue
            ds = {p["d"] for p in f.params if p["t"].endswith("*") and not p.get("ref")}
            for n in f.nodes():
                if n["k"] in ("bin", "un") and n["op"] in ("=", "+=", "-=", "++", "--", "&"):
                    x = f.ex[n["c"][0]]
                    if x["k"] == "ref" and not (n["op"] == "&" and n["k"] == "bin"):
                        ds.discard(x.get("d"))
            self.fixed |= {(f.key, d) for d in ds}
        self.fields = frozenset(flds | self.handle_fields)
        self.acquired = set()
        self.released = set()
        self.field_held = {}
        self.in_this = set()
        self.deref = set()
        self.uses = set()

    def calls(self, n):
        return (n in ACQUIRE or n in RELEASE or n in ("regcomp", "EVP_PKEY_generate", "EVP_PKEY_keygen", "pipe", "pipe2",
                                                      "regexec", "archive_read_open_filename"))

    def node_relevant(self, fn, n):
        return n["k"] == "new" and n.get("arr") or n["k"] == "delete"

    def keep(self, v):
        return v[0] in ("new", "hnd") or (v[0] == "l" and v[1:] in self.fixed) or (v[0] == "addr" and v[1][0] == "l") or \
            esp.mentions(v, lambda t: t[0] == "f" and t[1] in self.errf)

    def track(self, a):
        return a[0] == "nz" and a[1][0] == "l" and a[1][1:] in self.fixed

    # ------------------------------------------------------------------ state helpers
    @staticmethod
    def st(q, rid):
        for r, s in q:
            if r == rid and s != "unopened":
                return s
        return None

    @staticmethod
    def put(q, rid, s):
        q = {x for x in q if x[0] != rid or (x[1] == "unopened" and s != "own")}
        if s is not None:
            q.add((rid, s))
        return frozenset(q)

    def what(self, rid):
        if rid[0] == "hnd":
            return "%s of %s()" % (rid[1] or "result", rid[2].split("@", 1)[0])
        return "pipe" if rid[0] == "idx" else "compiled pattern"

    def rkey(self, rid, c):
        if rid[0] == "hnd":
            return rid[2].split("@", 1)[0] + " in " + rid[3]
        return rid[0] + " in " + c.fn.name

    def acquire(self, q, c, fam, failv, base=None):
        rid = ("hnd", fam, "%s@%s#%d" % (base or c.base(), c.fn.key, c.node["i"]), c.fn.name)
        self.acquired.add(rid)
        if fam is None:
            return rid, q
        if self.st(q, rid) == "own" or self.st(q, rid) == "fld" and not c.fn.ctor and (rid in self.in_this):
            c.report("C22 the %s is acquired again while the previous one is still open" % self.what(rid),
                     ("C22", "again", self.rkey(rid, c)))
        return rid, self.put(q, rid, "own")

    # ------------------------------------------------------------------ frames
    def enter(self, q, fn, c):
        if any(s == "own" for _, s in q):
            q = frozenset((r, "outer" if s == "own" else s) for r, s in q)
        return q

    def resume(self, q0, q, fn, c):
        mine = {r for r, s in q0 if s == "own"}
        self.ren = {}
        out = set()
        for r, s in q:
            if s == "outer" and r in mine:
                s = "own"
            elif s == "ret":
                s = "own"
                if r[0] == "hnd":
                    # from here on the caller's: named after the call that delivered it
                    r2 = ("hnd", r[1], "%s@%s#%d" % (r[2].split("@", 1)[0], c.fn.key, c.node["i"]), c.fn.name)
                    if r2 in mine and r2 != r:
                        c.report("C22 the %s is acquired again while the previous one is still open" % self.what(r2),
                                 ("C22", "again", self.rkey(r2, c)))
                    self.ren[r] = r2
                    out = {x for x in out if x[0] != r2}
                    r = r2
            out.add((r, s))
        return frozenset(out)

    def on_return(self, q, fn, val, c):
        if val is not None:
            for r, s in q:
                if s in ("own", "outer") and (val == r or esp.mentions(val, lambda t: t == r)):
                    q = self.put(q, r, "ret")
        return q

    def leave(self, q, fn, kind, c):
        outs = {p["d"] for p in fn.params if p.get("ref") or "*" in p["t"]}
        given = {v for k, v in c.env.items() if k[0] in ("v", "P") and k[1] in outs}
        kept = {}
        for k, v in c.env.items():
            if k[0] == "F" and v[0] == "hnd":
                kept[v] = k[1]
        res = set()
        for r, s in q:
            if s == "own":
                if r in given and kind == "ret":
                    res.add((r, "ret"))
                    continue
                if r in kept and not (fn.ctor and kind == "exc"):
                    res.add((r, "fld"))
                    continue
                c.report("C22 the %s is still open when %s() is left%s" %
                         (self.what(r), fn.name, " by an exception" if kind == "exc" else ""),
                         ("C22", "leak", self.rkey(r, c), fn.name))
                continue
            if s == "fld" and fn.ctor and kind == "exc" and ("@%s#" % fn.key) in r[2] and \
                    kept.get(r, "").rsplit("::", 1)[0] == fn.cls:
                c.report("C22 the %s held by the object is still open when its constructor is left by an exception"
                         % self.what(r), ("C22", "leak", self.rkey(r, c), fn.name))
                continue
            if s in ("rel", "lent", "unopened"):
                if r[0] == "hnd" and ("@%s#" % fn.key) in r[2] or \
                        r[0] != "hnd" and esp.mentions(r, lambda t: t[0] == "l" and t[1] == fn.key):
                    continue
            if s == "ret" and kind == "exc":
                s = "ret"
            res.add((r, s))
        return frozenset(res)

    # ------------------------------------------------------------------ events
    def on_store(self, q, field, val, c):
        if val is not None and val[0] == "hnd" and val[1]:
            if self.st(q, val) == "own":
                self.field_held.setdefault(field, (c.fn, c.node, val))
                self.in_this.add(val)
                q = self.put(q, val, "fld")
        return q

    def on_node(self, q, c):
        n, fn = c.node, c.fn
        k = n["k"]
        p = None
        if k == "un" and n["op"] == "*":
            p = n["c"][0]
        elif k == "idx":
            p = n["c"][0]
        elif k == "fld" and n.get("b"):
            p = n["b"]
        elif k == "bin" and n["op"] in ("+", "-", "+=", "-="):
            for x in n["c"]:
                xn = fn.ex[x]
                if "*" in xn.get("t", "") and xn["k"] not in ("null", "zero", "int") and \
                        c.eng.ev(fn, x, c.env) == NULL:
                    c.report("C21 an address is computed from the absent or failed '%s'" % xn.get("n", xn["k"]),
                             ("C21", "arith", fn.name, xn.get("n", xn["k"])))
        elif k == "bin" and n["op"] == "=" and fn.ex[n["c"][0]]["k"] not in ("ref", "fld"):
            v = c.eng.ev(fn, n["c"][1], c.env)
            if v is not None and v[0] == "hnd" and self.st(q, v) == "own":
                return self.put(q, v, "ret" if self.points_out(fn, n["c"][0]) else "fld")
        elif k == "bin" and n["op"] == "=" and fn.ex[n["c"][0]].get("dk") == "slocal":
            v = c.eng.ev(fn, n["c"][1], c.env)
            if v is not None and v[0] == "hnd" and self.st(q, v) == "own":
                return self.put(q, v, "fld")
        if p:
            pn = fn.ex[p]
            if "*" in pn.get("t", "") and pn["k"] != "this":
                v = c.eng.ev(fn, p, c.env)
                if v is not None:
                    self.deref.add((fn.key, n["i"]))
                    if v == NULL or v == NEG:
                        c.report("C21 a failed or absent '%s' is dereferenced" % pn.get("n", pn["k"]),
                                 ("C21", "deref", fn.name, pn.get("n", pn["k"])))
                    elif self.st(q, v) == "rel":
                        c.report("C22 the %s is used after its release" % self.what(v),
                                 ("C22", "use-after", self.rkey(v, c)))
        return q

    def points_out(self, fn, lhs):
        n = fn.ex[lhs]
        return n["k"] == "un" and n["op"] == "*" and fn.ex[n["c"][0]].get("dk") == "parm"

    def on_new(self, q, c):
        if not c.node.get("arr"):
            return q, None
        c.name = "new[]"
        rid, q = self.acquire(q, c, "array", NULL, "new[]")
        return q, rid

    def on_delete(self, q, v, arr, c):
        if v is not None and v[0] == "hnd":
            c.name = "delete[]" if arr else "delete"
            return self.release(q, v, c, {"array"} if arr else {"object"})
        return q

    def release(self, q, rid, c, fams):
        s = self.st(q, rid)
        if rid[0] == "hnd" and rid[1] not in fams:
            c.report("C22 the %s is released by %s(), which belongs to another kind of resource" %
                     (self.what(rid), c.name), ("C22", "mismatch", self.rkey(rid, c), c.name))
        if s == "rel":
            c.report("C22 the %s is released twice" % self.what(rid), ("C22", "double", self.rkey(rid, c)))
        elif s == "lent":
            c.report("C22 the %s is released although its owner releases it too" % self.what(rid),
                     ("C22", "double", self.rkey(rid, c)))
        self.released.add((c.fn.key, c.node["i"]))
        return self.put(q, rid, "rel")

    def on_dtor(self, q, typ, val, c):
        if val is not None and val[0] == "hnd" and val[1]:
            return self.release(q, val, c, {val[1]})
        return q

    def addr_id(self, v):
        """identity of a structure handed over by address"""
        return v if v is not None and v[0] == "addr" and v[1][0] in ("l", "f") else None

    def on_call(self, q, c):
        n, b = c.name, c.base()
        node = c.node
        if n.startswith("std::") and n[5:] in ACQUIRE:
            n = n[5:]
        if c.targets:
            return None
        args = c.args
        # ---- uses
        self.check_uses(q, c)
        if node["k"] == "ctor":
            cls = node.get("cls", "")
            if re.search(r"(unique|shared)_ptr", cls + node.get("t", "")) and args and args[0] is not None and \
                    (args[0][0] == "hnd" or args[0] == NULL):
                return [(q, args[0])]
            if "stdio_filebuf" in cls and args and args[0] is not None and args[0][0] == "hnd":
                return [(self.put(q, args[0], "lent"), None)]
            return None
        if "_ptr" in n and b == "reset" and node.get("o") and c.obj is not None and c.obj[0] == "hnd":
            return [(self.release(q, c.obj, c, {c.obj[1]}), None)]
        if "_ptr" in n and b == "release" and c.obj is not None and c.obj[0] == "hnd":
            return [(q, c.obj)]
        if b == "swap":
            return None
        if n in ACQUIRE:
            fam, failv = ACQUIRE[n]
            if n == "realpath" and not (len(args) > 1 and args[1] == NULL):
                return None
            rid, q2 = self.acquire(q, c, fam, failv)
            if n in ("fdopen", "fdopendir") and args and args[0] is not None and args[0][0] == "hnd":
                q2 = self.put(q2, args[0], "lent")
            return [(q2, rid), (q, failv)]
        if n in RELEASE:
            ix, fams = RELEASE[n]
            a = args[ix] if ix < len(args) else None
            if a is None:
                return None
            if a[0] == "hnd":
                return [(self.release(q, a, c, fams), None)]
            if a[0] == "idx" and self.st(q, a):
                return [(self.release(q, a, c, fams), None)]
            if n == "regfree" and self.addr_id(a):
                if a[1][0] == "l" and self.st(q, a) is None and a[1][1] == c.fn.key:
                    c.report("C22 a pattern that was not compiled is released", ("C22", "unowned", c.fn.name, "regfree"))
                    return [(q, None)]
                return [(self.release(q, a, c, fams), None)]
            return None
        if n == "regcomp":
            a = self.addr_id(args[0])
            if a is None:
                return None
            self.acquired.add(a)
            if self.st(q, a) == "own":
                c.report("C22 the pattern is compiled again before it is released", ("C22", "again", c.fn.name, "regcomp"))
            return [(self.put(q, a, "own" if a[1][0] == "l" else "fld"), ("c", 0)), (q, ("c", 13))]
        if n == "regexec":
            a = self.addr_id(args[0])
            if a is not None and a[1][0] == "l" and a[1][1] == c.fn.key and self.st(q, a) is None:
                c.report("C21 a pattern that was not compiled is matched", ("C21", "regexec", c.fn.name))
            return None
        if n in ("EVP_PKEY_generate", "EVP_PKEY_keygen"):
            rid, q2 = self.acquire(q, c, "key", NULL)
            return [(q2, ("c", 1), {1: rid}), (q, ("c", -1), {1: NULL})]
        if n in ("pipe", "pipe2"):
            an = c.fn.ex[node["a"][0]]
            if an["k"] == "ref" and "d" in an:
                base = ("l", c.fn.key, an["d"])
                q2 = q
                for i in (0, 1):
                    q2 = self.put(q2, ("idx", base, ("c", i)), "own")
                    self.acquired.add(("idx", base, ("c", i)))
                return [(q2, ("c", 0)), (q, NEG)]
            return None
        if n == "archive_read_open_filename" and args and args[0] is not None and args[0][0] == "hnd":
            return [(frozenset(x for x in q if x != (args[0], "unopened")), ("c", 0)),
                    (q | {(args[0], "unopened")}, ("c", -30))]
        if n in ("archive_read_next_header", "archive_read_next_header2") and len(args) > 1:
            if args[0] is not None and (args[0], "unopened") in q:
                c.report("C21 an archive that could not be opened is read", ("C21", "unopened", c.fn.name))
            ok = ("hnd", None, "entry@%s#%d" % (c.fn.key, node["i"]), c.fn.name)
            return [(q, ("c", 0), {1: ok}), (q, ("c", 1), {1: NULL}), (q, ("c", -30), {1: NULL})]
        return None

    def check_uses(self, q, c):
        n, b, node, fn = c.name, c.base(), c.node, c.fn
        pk = node.get("pk") or ""
        rel = n in RELEASE
        for i, a in enumerate(c.args):
            if a is None:
                continue
            an = fn.ex.get(node["a"][i]) or {}
            t = an.get("t", "")
            if a[0] == "hnd" or a[0] == "idx":
                if not rel and self.st(q, a) == "rel":
                    c.report("C22 the %s is used by %s() after its release" % (self.what(a), n),
                             ("C22", "use-after", self.rkey(a, c), n))
                self.uses.add((fn.key, node["i"]))
                continue
            if self.addr_id(a) and not rel and n != "regcomp" and self.st(q, a) == "rel":
                c.report("C22 the pattern is used by %s() after its release" % n, ("C22", "use-after", c.fn.name, n))
            if a not in (NULL, NEG) or an.get("k") in ("null", "zero", "int", None):
                continue
            if a == NEG and an["k"] == "fld":
                continue             # an attribute's initial value, not the result of a failed call
            if a == NEG:
                if b in FD_USE and i == 0 or ("stdio_filebuf" in n and node["k"] == "ctor" and i == 0):
                    c.report("C21 the descriptor of a failed call is given to %s()" % n, ("C21", "fd", fn.name, n))
                elif "*" in t and n not in ("munmap",) and not n.startswith("std::operator"):
                    c.report("C21 the result of a failed mapping is given to %s()" % n, ("C21", "map", fn.name, n))
                continue
            if "*" not in t:
                continue
            if node["k"] == "ctor" and "basic_string" in node.get("cls", "") and i == 0 or \
                    n.startswith("std::basic_string") and node["k"] == "call" and i == 0 and b in ("operator=", "operator+=", "append", "assign", "find", "compare") or \
                    n in ("std::operator<<", "std::operator+", "std::operator==", "std::operator!=") and "char" in t:
                c.report("C21 text is built from an absent or failed '%s'" % an.get("n", an.get("k")),
                         ("C21", "text", fn.name, an.get("n", an.get("k"))))
                continue
            if n in NULL_OK or node["k"] == "ctor" or n.startswith("std::") and not TEXT_USE.match(n):
                continue
            if i < len(pk) and pk[i] not in "pq":
                continue
            if HANDLE_T.search(t) or TEXT_USE.match(n) or b in ("fread", "fwrite"):
                c.report("C21 the absent or failed '%s' is given to %s()" % (an.get("n", an.get("k")), n),
                         ("C21", "null", fn.name, n))
        if node.get("o") and node["k"] == "call" and c.obj == NULL and not c.targets:
            on = fn.ex[node["o"]]
            if node.get("op") in ("->", "*") and "_ptr" in on.get("t", ""):
                c.report("C21 an empty '%s' is dereferenced" % on.get("n", on["k"]),
                         ("C21", "deref", fn.name, on.get("n", on["k"])))


def field_releases(prog):
    """field -> functions that release what it holds"""
    out, callers = {}, {}
    for f in prog.fns.values():
        for n in f.calls():
            for t in prog.targets(n):
                callers.setdefault(t.key, []).append((f, n))
    for f in prog.fns.values():
        for n in f.calls():
            nm = n.get("fn")
            ix = RELEASE[nm][0] if nm in RELEASE else 0 if nm == "curl_slist_free_all" else None
            if ix is None or ix >= len(n["a"]):
                continue
            for q, k in origins(prog, f, n["a"][ix], callers):
                out.setdefault(q, set()).update((f.key, k))
    return out


def origins(prog, f, i, callers, depth=0):
    """(attribute, function naming it) an expression may have got its value from"""
    a = f.ex.get(i)
    while a and a["k"] == "un":
        a = f.ex.get(a["c"][0])
    if a is None or depth > 6:
        return set()
    if a["k"] == "fld" or a.get("dk") == "global":
        return {(a["q"], f.key)}
    if a["k"] == "call" and (a.get("fn") or "") in ("std::exchange", "std::move", "std::forward"):
        return origins(prog, f, a["a"][0], callers, depth + 1)
    if a["k"] == "cond":
        return origins(prog, f, a["c"][1], callers, depth + 1) | origins(prog, f, a["c"][2], callers, depth + 1)
    out = set()
    if a["k"] == "ref" and a.get("dk") == "local" and "d" in a:
        for n in f.ex.values():
            if n["k"] == "decl":
                for v in n["vars"]:
                    if v["d"] == a["d"] and v.get("init"):
                        out |= origins(prog, f, v["init"], callers, depth + 1)
            elif n["k"] == "bin" and n["op"] == "=":
                x = f.ex.get(n["c"][0])
                if x is not None and x["k"] == "ref" and x.get("d") == a["d"]:
                    out |= origins(prog, f, n["c"][1], callers, depth + 1)
    elif a["k"] == "ref" and a.get("dk") == "parm" and "d" in a:
        at = [j for j, p in enumerate(f.params) if p["d"] == a["d"]]
        for g, n in callers.get(f.key, ()) if at else ():
            if at[0] < len(n["a"]):
                out |= origins(prog, g, n["a"][at[0]], callers, depth + 1)
    return out


def analyse(prog, res, which):
    spec = Resources(prog)
    eng = esp.Engine(prog, spec)
    roots = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.is_lambda or not eng.relevant(f):
            continue
        roots += 1
        env = {}
        eng.run(f, frozenset())
    for k, v in eng.violations.items():
        if k[0] == which:
            res.violation(" ".join(k[1:]), v["message"][4:], v["where"] + " in " + v["function"], v["path"])
    cov = res.coverage
    cov["functions_analysed_from_entry"] = roots
    cov["paths_states_explored"] = eng.nstates
    cov["functions_entered"] = len(eng.visited_fns)
    cov["acquiring_call_sites"] = len(spec.acquired)
    cov["release_call_sites"] = len(spec.released)
    return spec, eng
