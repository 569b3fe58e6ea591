import effects
import esp
from checks.common import CardsSpec, error_fields
from facts import children

BUILTIN = {"bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int",
           "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "float",
           "double", "long double", "wchar_t"}


def is_scalar(prog, t):
    t = t.strip()
    if t.startswith("const "):
        t = t[6:]
    if t.endswith("const"):
        t = t[:-5].strip()
    return t in BUILTIN or t.endswith("*") or t in prog.enums


def raw_fields(prog, name, depth=0):
    """scalar attributes (paths) an object of this class has undefined unless somebody assigns them:
    only classes without constructors of their own, the others answer for themselves"""
    r = prog.records.get(name)
    if r is None or not r["struct"] or depth > 4 or "/src/elf.h" in r["file"]:
        return []
    out = []
    for f in r["fields"]:
        if f.get("ici") or f.get("asz"):
            continue
        q = name + "::" + f["n"]
        if f.get("scalar"):
            out.append((q,))
        else:
            for p in raw_fields(prog, esp.clean_type(f["t"]), depth + 1):
                out.append((q,) + p)
    return out


class Fill:
    """which variables and attributes are certainly assigned: forward must-analysis of one function"""

    def __init__(self, prog, an, fn, ctor):
        self.prog, self.an, self.fn, self.ctor = prog, an, fn, ctor
        self.cells = set()
        self.reads = []        # (cell, node)
        self.locals = {}       # decl id -> list of raw field paths ([] for a scalar)
        self.raw_objs = {}
        if ctor:
            for c in an.ctor_cells(fn.cls):
                self.cells.add(("this",) + c)
        for n in fn.ex.values():
            if n["k"] == "decl":
                for v in n["vars"]:
                    if v.get("static") or v.get("ref") or v.get("impl") or v.get("asz"):
                        continue
                    if is_scalar(prog, v["t"]):
                        if not v.get("init"):
                            self.locals[v["d"]] = [()]
                    else:
                        raw = raw_fields(prog, esp.clean_type(v["t"]))
                        if raw:
                            self.locals[v["d"]] = raw
        for d, fs in self.locals.items():
            for f in fs:
                self.cells.add(("v", d) + f)
        self.parent = None

    def lv(self, i):
        """access path of an lvalue: ("v", d, fields...) | ("this", fields...) | None"""
        n = self.fn.ex.get(i)
        if n is None:
            return None
        if n["k"] == "ref" and n.get("dk") == "local" and n.get("d") in self.locals:
            return ("v", n["d"])
        if n["k"] == "fld":
            if n.get("this"):
                return ("this", n["q"]) if self.ctor else None
            b = self.lv(n["b"]) if n.get("b") else None
            return b + (n["q"],) if b else None
        if n["k"] == "un" and n["op"] == "*":
            x = self.fn.ex.get(n["c"][0])
            if x is not None and x["k"] == "this" and self.ctor:
                return ("this",)
        return None

    def under(self, path):
        return {c for c in self.cells if c[:len(path)] == path}

    def defines(self, n, known):
        """is this initialiser a real one (not a default-construction leaving scalars undefined)"""
        if n is None:
            return False
        if n["k"] == "ctor" and not n["a"] and not n.get("zi"):
            t = [f for f in self.prog.targets(n)]
            return False if not t or t[0].implicit else True
        return True

    def transfer(self, e, have, use):
        fn, ex = self.fn, self.fn.ex
        if isinstance(e, dict):
            if e.get("k") == "init":
                if e.get("deleg"):
                    return set(self.cells)
                if e.get("q") and self.defines(ex.get(e.get("x", 0)), have):
                    have = have | self.under(("this", e["q"]))
            return have
        n = ex[e]
        k = n["k"]
        if k == "decl":
            for v in n["vars"]:
                if v["d"] in self.locals:
                    c = self.under(("v", v["d"]))
                    if v.get("init") and self.defines(ex.get(v["init"]), have):
                        have = have | c
                    else:
                        have = have - c
            return have
        if k == "bin" and n["op"] == "=":
            p = self.lv(n["c"][0])
            return have | self.under(p) if p else have
        if k == "un" and n["op"] == "&":
            p = self.lv(n["c"][0])
            return have | self.under(p) if p else have
        if k == "lambda":
            for c in n.get("caps", []):
                if "d" in c and c["d"] in self.locals:
                    have = have | self.under(("v", c["d"]))
            return have
        if k in ("call", "ctor"):
            pk = n.get("pk", "")
            for idx, a in enumerate(n["a"]):
                p = self.lv(a) if a else None
                if not p:
                    continue
                m = pk[idx] if idx < len(pk) else "v"
                if m in "rp" and not ex[a].get("rd"):
                    have = have | self.under(p)
                elif use:
                    for c in sorted(self.under(p)):
                        if c not in have:
                            use(c, n)
            if k == "call" and n.get("o"):
                p = self.lv(n["o"])
                if p and n.get("op") == "=":
                    have = have | self.under(p)
                elif p and p != ("this",):
                    # a method of the object itself: it may assign as much as it may read
                    have = have | self.under(p)
                elif self.ctor and (n.get("othis") or p == ("this",)):
                    for t in self.prog.targets(n):
                        if t.cls:
                            have = have | {("this",) + c for c in self.an.assigned_by(t)} & self.cells
                            break
            return have
        if n.get("rd"):
            p = self.lv(e)
            if p and use and p in self.cells and p not in have:
                use(p, n)
        return have

    def run(self):
        fn = self.fn
        order = fn.reach()
        top = frozenset(self.cells)
        inn = {b: top for b in order}
        inn[fn.entry] = frozenset()
        out = {}
        work = list(order)
        while work:
            b = work.pop(0)
            have = set(inn[b])
            for e in fn.blocks[b]["e"]:
                have = self.transfer(e, have, None)
            if out.get(b) == have:
                continue
            out[b] = have
            for s, normal in succs(fn, b):
                if s in inn:
                    new = inn[s] & (have if normal else inn[b]) if s != fn.entry else inn[s]
                    if new != inn[s] or s not in out:
                        inn[s] = frozenset(new)
                        if s not in work:
                            work.append(s)
        bad = {}
        for b in order:
            have = set(inn[b])
            for e in fn.blocks[b]["e"]:
                have = self.transfer(e, have, lambda c, n: bad.setdefault(c, n))
        # paths that end in an exception or in exit() never deliver the object
        fin = None
        for b in order:
            if (fn.exit, True) in succs(fn, b) and not ends_abnormally(fn, b):
                fin = set(out[b]) if fin is None else fin & out[b]
        return bad, (fin if fin is not None else set(self.cells))


def succs(fn, b):
    """(successor, taken without an exception); Clang gives blocks ending in a call a second edge
    for the exception the callee may throw"""
    blk = fn.blocks[b]
    t = blk.get("term")
    out = []
    for i, s in enumerate(blk["s"]):
        if s is not None:
            out.append((s, not (i > 0 and (t is None or t["k"] == "CXXTryStmt"))))
    return out


def ends_abnormally(fn, b):
    if fn.blocks[b].get("nr"):
        return True
    for e in fn.blocks[b]["e"]:
        if isinstance(e, int) and (fn.ex[e]["k"] == "throw" or fn.ex[e].get("nr")):
            return True
    return False


class Analysis:
    def __init__(self, prog):
        self.prog = prog
        self.memo = {}

    def ctor_cells(self, cls):
        r = self.prog.records.get(cls)
        out = []
        for f in (r or {"fields": []})["fields"]:
            if f.get("ici") or f.get("asz"):
                continue
            q = cls + "::" + f["n"]
            if f.get("scalar"):
                out.append((q,))
            else:
                for p in raw_fields(self.prog, esp.clean_type(f["t"])):
                    out.append((q,) + p)
        return out

    def assigned_by(self, fn):
        """attributes of *this a method assigns on every normal path"""
        k = fn.key
        if k not in self.memo:
            self.memo[k] = set()
            if not fn.blocks:
                return set()
            _, fin = Fill(self.prog, self, fn, True).run()
            self.memo[k] = {c[1:] for c in fin if c[0] == "this"}
        return self.memo[k]


# ---------------------------------------------------------------- buffers filled by a call
FILLERS = {"stat": 1, "lstat": 1, "fstat": 1, "fstatat": 2, "__xstat": 2, "statvfs": 1, "uname": 0}


class Buffers(CardsSpec):
    """q = buffers whose filling call has failed (or was never made) on this path"""

    def __init__(self, prog):
        self.fields = error_fields(prog)
        self.seen = set()
        self.uses = 0

    def interest(self, name):
        return name in FILLERS

    calls = interest

    def node_relevant(self, fn, n):
        return n["k"] == "fld" and n["q"].split("::")[0] in ("stat", "utsname", "statvfs")

    def keep(self, v):
        return esp.mentions(v, lambda t: (t[0] == "f" and t[1] in self.fields))

    def leave(self, q, fn, kind, c):
        return frozenset(b for b in q if not (isinstance(b, tuple) and b[0] == fn.key))

    def buf(self, c, i):
        n = c.fn.ex.get(i)
        while n is not None and n["k"] == "un" and n["op"] in ("&", "*"):
            n = c.fn.ex.get(n["c"][0])
        if n is not None and n["k"] == "ref" and n.get("dk") in ("local", "parm", "slocal"):
            return (c.fn.key, n["d"])
        if n is not None and n["k"] == "fld":
            return n["q"]
        return None

    def on_call(self, q, c):
        if c.name not in FILLERS:
            return None
        i = FILLERS[c.name]
        b = self.buf(c, c.node["a"][i]) if i < len(c.node["a"]) else None
        self.seen.add((c.fn.key, c.node["i"]))
        if b is None:
            return None
        return [(q - {b}, ("c", 0)), (q | {b}, ("c", -1))]

    def on_node(self, q, c):
        n = c.node
        if n["k"] == "fld" and n.get("rd") and n.get("b") and \
                n["q"].split("::")[0] in ("stat", "utsname", "statvfs"):
            b = self.buf(c, n["b"])
            if b is not None:
                self.uses += 1
                if b in q:
                    c.report("%s reads %s although the call that should have filled it failed"
                             % (c.fn.name, n["q"]), ("unfilled", c.fn.name, n["q"]))
        return q


def check(prog, res):
    an = Analysis(prog)
    nctor = nloc = nattr = 0
    classes = set()
    for f in prog.fns.values():
        if not f.blocks:
            continue
        if f.ctor and not f.copyctor and f.cls in prog.records:
            cells = an.ctor_cells(f.cls)
            if prog.records[f.cls]["struct"]:
                continue        # no constructor of its own: whoever creates the object answers for it
            nctor += 1
            nattr += len(cells)
            classes.add(f.cls)
            bad, fin = Fill(prog, an, f, True).run()
            for c in cells:
                if ("this",) + c not in fin:
                    res.violation("ctor %s %s" % (f.cls, "/".join(c)),
                                  "an object made by %s(%s) has %s undefined" % (
                                      f.name, ", ".join(p["t"] for p in f.params), c[-1]), f.loc())
        fl = Fill(prog, an, f, f.ctor and f.cls in prog.records)
        nloc += len(fl.locals)
        if not fl.cells:
            continue
        bad, _ = fl.run()
        for c, n in bad.items():
            if c[0] == "v":
                nm = next((v["n"] for x in f.ex.values() if x["k"] == "decl" for v in x["vars"]
                           if v["d"] == c[1]), "?")
                nm = ".".join([nm] + [x.rsplit("::", 1)[-1] for x in c[2:]])
            else:
                nm = c[-1]
            res.violation("read %s %s" % (f.name, nm), "%s may be read before it is assigned" % nm, f.loc(n))
    res.count("constructors", nctor)
    res.count("classes_with_constructors", len(classes))
    res.count("scalar_attributes_required", nattr)
    res.count("local_variables_tracked", nloc)
    spec = Buffers(prog)
    eng = esp.Engine(prog, spec)
    # every function that fills a buffer on its own: the buffer is its local
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        if f.blocks and any(n.get("fn") in FILLERS for n in f.calls()):
            eng.run(f, frozenset())
    res.from_engine(eng)
    res.count("filling_calls", len(spec.seen))
    res.count("buffer_reads", spec.uses)
    res.rule("definite assignment (forward must-dataflow): every scalar attribute is assigned by every "
             "constructor or has a default member initialiser; attributes of classes without constructors "
             "and scalar locals are assigned on every path before they are read, copied or passed on")
    res.rule("typestate: an attribute of a stat/uname buffer is read only where the call that fills it succeeded")
