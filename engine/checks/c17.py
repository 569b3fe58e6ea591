import os
import re
import esp
import facts
from checks.common import CardsSpec, parallel

# The one-letter fields of the metadata (what the packages in the field carry, as pkgmk writes it) and the words an
# attribute holding each is named with
FIELDS = {"N": ("name",), "V": ("ver",), "r": ("rel",), "S": ("space",), "a": ("arch",), "D": ("desc",), "U": ("url",),
          "C": ("contr",), "M": ("maint",), "P": ("packager",), "L": ("lic",), "B": ("build", "epoch"), "c": ("col",),
          "g": ("group",), "R": ("dep", "nameepoch"), "l": ("lib",), "A": ("alias",), "s": ("set",), "T": ("categ",),
          "H": ("hash",), "I": ("sign",), "i": ("size",), "o": ("confl",), "n": ("nls",)}
# what the reader of the installed packages and the reader of the repositories both provide
RECORD = "VrSaDUCMPLBcgRAsT"
VARIABLE = {"NAME": "N", "version": "V", "release": "r", "PKGMK_BUILDVER": "B", "SPACE": "S", "COLLECTION": "c",
            "PKGMK_ARCH": "a", "DESC": "D", "URL": "U", "CONT": "C", "MAINT": "M", "PACK": "P", "LICENSE": "L",
            "GROUP": "g", "NLS": "n", "dep": "R", "rd": "R", "lib": "l", "al": "A"}
CONTAINER = ("insert", "push_back", "emplace", "emplace_back", "push_front", "emplace_hint", "operator+=", "assign",
             "append", "operator=")


def first(v):
    """the text v is the first character of"""
    while v is not None and v[0] == "cast":
        v = v[-1]
    if v is None:
        return None
    if v[0] == "idx" and v[2] == ("c", 0):
        return v[1]
    if v[0] == "un" and v[1] == "*":
        return v[2]
    if v[0] == "call" and v[2] is not None:
        b = v[1].rsplit("::", 1)[-1]
        if b in ("operator[]", "at") and v[3] and v[3][0] == ("c", 0):
            return v[2]
        if b == "front":
            return v[2]
    return None


def payload(v, text):
    """is v the text without its letter: True; the text from elsewhere: the position; not the text: None"""
    if v is None:
        return None
    if v[0] == "call" and v[1].rsplit("::", 1)[-1] == "substr" and v[2] == text and v[3]:
        p = v[3][0]
        return True if p == ("c", 1) else p[1] if p and p[0] == "c" else None
    if v[0] == "op" and v[1] == "+" and v[2:] in ((text, ("c", 1)), (("c", 1), text)):
        return True
    return None


def stems(name):
    """letters whose attribute a name may be"""
    n = name.rsplit("::", 1)[-1].lower()
    n = n[2:] if n.startswith("m_") else n
    n = re.sub(r"^(get)?(setof|listof)?", "", n) or n
    n = n[3:] if n.startswith("set") and n not in ("set", "sets") else n
    return {x for x, ws in FIELDS.items() for w in ws if w in n}


class Accessors:
    """attributes the one-argument methods store their argument in, and the argumentless ones return"""

    def __init__(self, prog):
        self.prog = prog
        self.sets, self.gets = {}, {}
        s = Stores()
        eng = esp.Engine(prog, s)
        for f in prog.fns.values():
            if not f.cls or f.ctor or f.dtor or len(f.blocks) > 12 or f.is_lambda:
                continue
            if len(f.params) == 1:
                s.about(f)
                eng.run(f, 0)
                if len(s.seen) == 1:
                    self.sets[f.key] = next(iter(s.seen))
            elif not f.params and f.ret not in ("void", ""):
                s.about(f)
                eng.run(f, 0)
                if len(s.back) == 1:
                    self.gets[f.key] = next(iter(s.back))


class Stores(CardsSpec):
    def about(self, f):
        self.f, self.seen, self.back = f, set(), set()

    def keep(self, v):
        return False

    def track(self, a):
        return False

    def on_store(self, q, f, v, c):
        if v is not None and self.f.params and esp.mentions(
                v, lambda t: t[0] == "l" and t[1] == self.f.key and t[2] == self.f.params[0]["d"]):
            self.seen.add(f)
        return q

    def on_return(self, q, fn, v, c):
        if fn is self.f and v is not None and v[0] == "f":
            self.back.add(v[1])
        return q


CASES = {"tolower": str.lower, "toupper": str.upper}


class Reader(CardsSpec):
    """q = (text whose first letter is the one assumed | None, containers holding such a field)"""
    max_states = 60000

    def __init__(self, root, letter, acc):
        self.root, self.letter, self.acc = root, letter, acc
        self.sinks = {}
        self.tests = 0
        self.fields = frozenset()

    def node_relevant(self, fn, n):
        return fn is self.root or fn.file == self.root.file and n["k"] == "call" and (
            n.get("fk") in self.acc.sets or (n.get("fn") or "").rsplit("::", 1)[-1] in ("operator[]", "front", "substr"))

    def keep(self, v):
        # (room is left for the expressions a text appears in)
        if esp.tsize(v) > self.maxterm - 12:
            return False
        return v[0] == "l" or esp.mentions(v, lambda t: t[0] == "call" and t[1].rsplit("::", 1)[-1] == "substr" or
                                           first(t) is not None or t[0] == "op" and t[1] == "+" and ("c", 1) in t)

    def track(self, a):
        return False

    def on_assume(self, q, atom, truth, c):
        if atom[0] != "eq" or len(atom) != 3:
            return q
        a, b = atom[1:]
        k = b if isinstance(b, int) else b[1] if isinstance(b, tuple) and b[0] == "c" else None
        same = str
        if isinstance(a, tuple) and a[0] == "call" and a[1].rsplit("::", 1)[-1] in CASES and len(a) > 2:
            same = CASES[a[1].rsplit("::", 1)[-1]]
            a = next((x for x in a[2:] if isinstance(x, tuple) and x), None)
            if a is not None and not isinstance(a[0], str):
                a = a[0]
        t = first(a) if isinstance(a, tuple) else None
        if t is None or not isinstance(k, int) or not 0 < k < 256:
            return q
        self.tests += 1
        ch = chr(k)
        if ch == same(self.letter):
            return (t, q[1]) if truth else ((None, q[1]) if q[0] == t else q)
        if truth and ch in {same(x) for x in FIELDS}:
            return None
        return (None, q[1]) if truth and q[0] == t else q

    def carries(self, q, v):
        """does the value hold the field read (an object: does what was put into it)"""
        if v is None:
            return None
        if v in q[1] or v[0] == "call" and ("ret", v[1]) in q[1]:
            return True
        found = []
        if q[0] is not None:
            def walk(x):
                p = payload(x, q[0])
                if p is not None:
                    found.append(p)
                    return
                for y in x[1:]:
                    if isinstance(y, tuple) and y and isinstance(y[0], str):
                        walk(y)
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, tuple):
                                walk(z)
            walk(v)
        if not found and esp.mentions(v, lambda t: t in q[1] or t[0] == "call" and ("ret", t[1]) in q[1]):
            return True
        if not found:
            return None
        return True if True in found else found[0]

    def sink(self, q, name, v, c):
        k = self.carries(q, v)
        if k is None:
            return
        self.sinks.setdefault(name, (c.fn.loc(c.node) if c is not None else None, k, c.fn.name if c is not None else None))

    def on_store(self, q, f, v, c):
        if self.carries(q, v) is None:
            return q
        self.sink(q, f, v, c)
        n = c.node
        tgt = None
        for i in facts.children(n):
            x = c.fn.ex.get(i) or {}
            if x.get("k") == "fld":
                tgt = x
                break
        if tgt is not None and tgt.get("b"):
            o = c.eng.ev(c.fn, tgt["b"], c.env)
            if o is not None and o[0] == "l":
                return (q[0], q[1] | {o})
        return q

    def on_return(self, q, fn, v, c):
        if v is None:
            return q
        if fn is self.root:
            self.sink(q, fn.name, v, c)
        elif self.carries(q, v) is True:
            return (q[0], q[1] | {("ret", fn.name)})
        else:
            return (q[0], q[1] - {("ret", fn.name)})
        return q

    def on_call(self, q, c):
        b = c.base()
        if c.node["k"] == "ctor" and b == "basic_string" and c.args and self.carries(q, c.args[0]) is not None:
            return [(q, c.args[0])]
        if b == "erase" and c.args[:1] == (("c", 0),) and (c.args[1:2] == (("c", 1),) or len(c.args) == 1) or \
                b == "pop_front":
            n = c.fn.ex.get(c.node.get("o")) or {}
            if q[0] is not None and c.obj == q[0] and n.get("k") == "ref" and "d" in n:
                return [((q[0], q[1] | {("l", c.fn.key, n["d"])}), None)]
        put = [v for v in c.args if self.carries(q, v) is not None]
        if not put:
            return None
        for t in c.targets:
            f = self.acc.sets.get(t.key)
            if f:
                self.sink(q, f, put[0], c)
                return [(q, None)]
        if b in CONTAINER and c.obj is not None:
            o = c.obj
            while o[0] in ("fld",) and len(o) > 2 and isinstance(o[2], tuple):
                self.sink(q, o[1], put[0], c)
                o = o[2]
            if o[0] == "f":
                self.sink(q, o[1], put[0], c)
            elif o[0] == "l" and b not in ("operator=",):
                return [((q[0], q[1] | {o}), None)]
        return None


def has_first(fn):
    for n in fn.nodes():
        if n["k"] == "call" and (n.get("fn") or "").rsplit("::", 1)[-1] in ("operator[]", "front", "at") and \
                "char" in n.get("t", "") and "basic_string<char>" in (n.get("fn") or ""):
            a = n.get("a") or []
            if not a or (fn.ex[a[-1]].get("v") == 0):
                return True
        if n["k"] in ("idx", "sub") and "char" in n.get("t", "") and "*" not in n.get("t", ""):
            return True
    return False


def letters_of(fn):
    """letters of the table the function compares or switches with"""
    out = set()
    for b in fn.blocks.values():
        for k in ("lv", "lv2"):
            if isinstance(b.get(k), int) and 0 < b[k] < 256 and chr(b[k]) in FIELDS:
                out.add(chr(b[k]))
    for n in fn.nodes():
        if isinstance(n.get("v"), int) and 0 < n["v"] < 256 and n.get("t", "").replace("const ", "") in ("char", "int") and \
                chr(n["v"]) in FIELDS:
            out.add(chr(n["v"]))
    return out


def records(acc, fn):
    """does the function (or one it calls) fill in a package record"""
    seen, st = set(), [fn]
    while st:
        f = st.pop()
        if f.key in seen or len(seen) > 40:
            continue
        seen.add(f.key)
        for n in f.calls():
            for t in acc.prog.targets(n):
                if t.key in acc.sets and "m_packager" in acc.sets[t.key]:
                    return True
                if t.key not in acc.sets and (t.file == fn.file):
                    st.append(t)
    return False


def check(prog, res):
    acc = Accessors(prog)
    readers = {f.key: f for f in prog.fns.values() if has_first(f) and letters_of(f) or
               has_first(f) and any(n["k"] == "call" and n.get("in") for n in f.nodes()) and letters_of(f)}
    for f in prog.fns.values():
        if any(t.key in readers or has_first(t) for n in f.calls() for t in prog.targets(n)) and letters_of(f) and not f.is_lambda:
            readers[f.key] = f
    items = [(k, x) for k in sorted(readers) for x in FIELDS]

    def work(k):
        out = []
        for x in FIELDS:
            s = Reader(readers[k], x, acc)
            e = esp.Engine(prog, s)
            e.run(readers[k], (None, frozenset()))
            out.append((x, s.sinks, s.tests, e.nstates, len(e.visited_fns)))
        return out
    keys = sorted(readers)
    cov = {}
    states = 0
    for k, r in zip(keys, parallel(work, keys)):
        f = readers[k]
        got = {}
        for x, sinks, tests, ns, nf in r:
            states += ns
            for name, (loc, how, where) in sinks.items():
                shown = {name} | {g for g, fld in acc.gets.items() if fld == name}
                names = {name} | {acc.prog.fns[g].name for g in shown if g in acc.prog.fns}
                st = stems(name) | set().union(*[stems(n) for n in names])
                got.setdefault(x, set()).add(name)
                if how is not True:
                    res.violation(("position", f.name, x, name), "the field with letter '%s' is not taken from behind its "
                                  "letter when stored in %s" % (x, name), loc)
                if name.startswith("std::pair"):
                    continue
                if st and x not in st:
                    res.violation(("mixed-up", f.name, x, name), "the field with letter '%s' is read into %s" % (x, name), loc)
        if got:
            cov[f.name] = "".join(sorted(got))
        if records(acc, f) and got:
            # (the reader of the repositories also meets what only a repository's list holds)
            for x in RECORD + ("lnoHIi" if set("lnoHIi") & set(got) else ""):
                ok = any(x in stems(n) | set().union(set(), *[stems(acc.prog.fns[g].name) for g, fld in acc.gets.items() if fld == n])
                         for n in got.get(x, ()))
                if not ok and "V" in got and "r" in got and len(got) > 8:
                    res.violation(("not-read", f.name, x), "the field with letter '%s' is not read into its attribute" % x,
                                  f.file + ":" + str(f.line))
    if sum(len(v) for v in cov.values()) < 40:
        raise RuntimeError("the readers of the metadata were not found: %r" % cov)
    res.coverage["readers"] = cov
    res.coverage["paths_states_explored"] = states
    res.rule("every function testing the first letter of a text against a letter of the metadata is explored once per "
             "letter, all lines carrying that letter: what lies behind the letter (and only that) reaches only "
             "attributes, members and return values standing for that field; a reader filling a package record reads "
             "every field the record readers share (the one of the repositories all fields); each accessor pair sets and returns the same attribute; the "
             "letters put in front of a value, here and in pkgmk, belong to the field written")
    letters_written(prog, res)
    accessors(prog, res, acc)


def letters_written(prog, res):
    n = 0
    for f in prog.fns.values():
        for c in f.calls():
            if (c.get("fn") or "") != "std::operator+" or len(c["a"]) != 2:
                continue
            a = f.ex[c["a"][0]]
            if "v" not in a or "char" not in a.get("t", "") or "*" in a.get("t", "") or not 0 < a["v"] < 256:
                continue
            x = chr(a["v"])
            if x not in FIELDS:
                continue
            names = set()
            st = [c["a"][1]]
            while st:
                y = f.ex.get(st.pop()) or {}
                if y.get("k") == "call" and y.get("in"):
                    names.add(y.get("fn"))
                elif y.get("k") == "fld":
                    names.add(y["q"])
                st += facts.children(y) if y else []
            got = set().union(set(), *[stems(m) for m in names])
            n += 1
            if got and x not in got:
                res.violation(("written", f.name, x), "the letter '%s' is written in front of another field (%s)" % (
                    x, ", ".join(sorted(names))), f.loc(c))
    path = os.path.join(facts.REPO, "scripts", "pkgmk.in")
    if os.path.exists(path):
        for ln, line in enumerate(open(path, errors="replace"), 1):
            m = re.match(r'\s*echo "(\w)\$\{?(\w+)\}?.*" >>? *\.META', line)
            if m and m.group(2) in VARIABLE:
                n += 1
                if VARIABLE[m.group(2)] != m.group(1):
                    res.violation(("pkgmk", m.group(2)), "pkgmk writes $%s behind the letter '%s'" % (
                        m.group(2), m.group(1)), "scripts/pkgmk.in:%d" % ln)
    res.coverage["written_fields_checked"] = n


def accessors(prog, res, acc):
    n = 0
    by = {}
    for k, fld in acc.sets.items():
        by.setdefault(prog.fns[k].name, [None, None])[0] = (fld, prog.fns[k])
    for k, fld in acc.gets.items():
        by.setdefault(prog.fns[k].name, [None, None])[1] = (fld, prog.fns[k])
    used = {}
    for name, (s, g) in sorted(by.items()):
        if s and g:
            n += 1
            if s[0] != g[0]:
                res.violation(("accessors", name), "%s() stores its argument in %s but returns %s" % (name, s[0], g[0]),
                              "%s:%d" % (g[1].file, g[1].line))
        if s:
            used.setdefault(s[0], []).append(name)
    for fld, names in used.items():
        if len(names) > 1 and not any(stems(a) & stems(b) for a in names for b in names if a != b) and \
                all(stems(x) for x in names):
            res.violation(("shared", fld), "%s is set by %s" % (fld, " and ".join(names)), None)
    res.coverage["accessor_pairs"] = n
