"""Bounds of buffers, records and lines.

Every function with an access whose bound depends on a length is explored from its entry with symbolic values;
the access needs a fact established on the path.  An access the function leaves to its callers (its subject is a
parameter) is judged with each caller inlined around it."""
import re

import esp
import facts
from checks.c19 import small
from checks.common import CardsSpec, error_fields, parallel

NPOS = (1 << 64) - 1
FINDS = ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of")
ARR = re.compile(r"^(?:const )?(?:unsigned |signed )?char ?\[(\d+)\]$")
ANYARR = re.compile(r"^(.*?) ?\[(\d+)\]$")
# call -> (destination, size[, times])
SIZED = {"fgets": (0, 1), "read": (1, 2), "recv": (1, 2), "pread": (1, 2), "readlink": (1, 2), "snprintf": (0, 1),
         "vsnprintf": (0, 1), "strftime": (0, 1), "getcwd": (0, 1), "memcpy": (0, 2), "memmove": (0, 2),
         "memset": (0, 2), "archive_read_data": (1, 2), "ZSTD_decompress": (0, 1), "ZSTD_compress": (0, 1),
         "recvfrom": (1, 2), "fgetws": (0, 1), "strlcpy": (0, 2), "strncpy": (0, 2), "fread": (0, 1, 2), "gethostname": (0, 1)}
SMETH = {"std::basic_istream<char>::read": (0, 1), "std::basic_istream<char>::getline": (0, 1),
         "std::basic_istream<char>::get": (0, 1), "std::basic_istream<char>::readsome": (0, 1),
         "std::basic_ifstream<char>::read": (0, 1)}
FILLS = {"read": 2, "fread": 2, "readlink": 2, "recv": 2, "pread": 2}
ENDED = {"strlen": 0, "strchr": 0, "strrchr": 0, "strstr": 0, "strcmp": 0, "strdup": 0, "atoi": 0, "strtoul": 0,
         "strtok": 0, "strcpy": 1, "strcat": 1, "strcspn": 0, "strspn": 0}

KEPT = FINDS + ("strlen", "size", "length", "memchr", "strchr", "read", "fread", "readlink", "recv", "pread", "malloc",
                "c_str", "data", "gcount", "otherArguments", "operator[]", "at", "back", "front")
TELLS = ("compare", "strncmp", "memcmp", "starts_with", "startsWith", "substr", "empty")


def base(name):
    return (name or "").rsplit("::", 1)[-1]


def strip(f, i):
    n = f.ex.get(i)
    while n is not None and n["k"] in ("cast", "paren") and n.get("c"):
        i = n["c"][0]
        n = f.ex.get(i)
    return n


def lin(v):
    """v as (term, constant)"""
    if v is None:
        return None
    if v[0] == "c":
        return (None, v[1])
    if v[0] == "op" and v[1] in "+-" and v[2] is not None and v[3] is not None:
        a, b = lin(v[2]), lin(v[3])
        if b[0] is None:
            return (a[0], a[1] + (b[1] if v[1] == "+" else -b[1]))
        if a[0] is None and v[1] == "+":
            return (b[0], a[1] + b[1])
    if v[0] == "cast":
        return lin(v[1])
    if v[0] == "call" and base(v[1]) in ("strlen", "length", "size") and v[2] is None and len(v[3]) == 1 and v[3][0]:
        return (("size", text(v[3][0])), 0)
    if v[0] == "size":
        return (("size", text(v[1])), 0)
    return (v, 0)


def text(v):
    """what a term holding a text stands for"""
    while v is not None and v[0] == "call" and base(v[1]) in ("c_str", "data") and v[2] is not None:
        v = v[2]
    return v


class Bound(CardsSpec):
    """judges the accesses of the functions in `judged`"""
    max_states = 60000
    counters = 0

    def __init__(self, prog, root, judged, keys):
        self.prog, self.root, self.judged = prog, root, judged
        self.small = small(prog)
        self.fields = error_fields(prog)
        self.only = frozenset(keys) | self.small | {root.key} | raising(prog, self.fields)
        self.ids = {}
        self.seen = set()
        self.vague = set()
        self.left = {}
        self.found = {}
        for k in judged:
            self.ids[k] = subjects(prog.fns[k])
        self.all = set().union(*self.ids.values()) if self.ids else set()
        self.arrays = {(k, v["d"]) for k in keys for n in prog.fns[k].nodes() if n["k"] == "decl"
                       for v in n.get("vars") or [] if ARR.match(v.get("t", ""))}

    def calls(self, n):
        return base(n) in ("exit", "_exit", "abort")

    def node_relevant(self, fn, n):
        return fn.key in self.only

    def keep(self, v):
        """lengths, positions and characters; nothing else needs a name other than its variable"""
        if v is None:
            return False
        if v[0] in ("c", "s", "l", "size", "f", "fld", "lambda", "fn", "empty"):
            return True
        if v[0] == "call":
            return base(v[1]) in KEPT
        if v[0] in ("op", "un", "cmp", "and", "or"):
            return all(self.keep(x) for x in v[2:])
        if v[0] in ("cast", "not"):
            return self.keep(v[1])
        return v[0] == "idx"

    def pure(self, n):
        return base(n) in ("strlen", "size", "length", "find", "substr", "compare", "strcspn", "back", "front",
                           "operator[]", "at", "operator-", "operator+", "name", "c_str", "empty") or \
            CardsSpec.pure(self, n)

    def track(self, a):
        if a[0] == "has" or a[0] == "eq" and isinstance(a[2], tuple) and any(
                x[0] == "l" and (x[1], x[2]) in self.arrays for x in (a[1], a[2])):
            return False
        told = lambda x: not isinstance(x, tuple) or x[0] != "call" or base(x[1]) in KEPT + TELLS
        return told(a[1]) and esp.mentions(a, lambda t: t[0] == "l" and t[2] in self.all) or \
            esp.mentions(a, lambda t: t[0] == "size") or \
            a[0] in ("lt", "ltv") and esp.mentions(a, lambda t: t[0] == "call" and base(t[1]) in KEPT) \
            or any(esp.mentions(a, lambda t, f=f: t == ("f", f)) for f in self.fields)

    # ------------------------------------------------------------------ facts
    def minsize(self, s, env):
        """the least length of the text or container s on this path"""
        s = text(s)
        if s is None:
            return None
        if s[0] == "s":
            return len(s[1].encode())
        best = 0
        if s[0] == "op" and s[1] == "+" and any(x is not None and x[0] == "s" for x in s[2:4]):
            best = sum(len(x[1].encode()) for x in s[2:4] if x is not None and x[0] == "s")
        for k, t in env.items():
            if k[0] != "A":
                continue
            a = k[1]
            x = a[1]
            if not isinstance(x, tuple):
                continue
            lx = lin(x)
            if lx[0] == ("size", s):
                c = lx[1]
                if a[0] == "nz" and t and c <= 0:
                    best = max(best, 1)          # (unsigned: size-c not zero says little beyond one)
                elif a[0] == "lt" and not t:
                    best = max(best, a[2] - c)
                elif a[0] == "eq" and isinstance(a[2], int) and t:
                    best = max(best, a[2] - c)
                elif a[0] == "eq" and a[2] == 0 and not t:
                    best = max(best, 1 - c)
            if a[0] == "ltv":
                la, lb = lin(a[1]), lin(a[2])
                if t and lb[0] == ("size", s):
                    best = max(best, 1 - lb[1])
            n = self.char(x)
            if n is not None and text(n[0]) == s and (
                    a[0] == "nz" and t or a[0] == "eq" and (
                        isinstance(a[2], int) and ((a[2] != 0) == t) or isinstance(a[2], tuple) and t)):
                best = max(best, n[1] + 1)
            if a[0] == "eq" and isinstance(a[2], tuple):
                for y, z in ((x, a[2]), (a[2], x)):
                    if text(y) == s and z[0] == "s":
                        if t:
                            best = max(best, len(z[1].encode()))
                        elif z[1] == "":
                            best = max(best, 1)
                    if t and y[0] == "call" and base(y[1]) == "substr" and text(y[2]) == s and z[0] == "s":
                        off = y[3][0] if y[3] else ("c", 0)
                        best = max(best, len(z[1].encode()) + (off[1] if off and off[0] == "c" else 0))
            if x[0] == "call" and base(x[1]) in FINDS and text(x[2]) == s and a[0] == "eq" and \
                    a[2] in (NPOS, -1) and not t:
                best = max(best, 1)
            if x[0] == "call" and base(x[1]) in ("compare", "strncmp", "memcmp") and (
                    a[0] == "nz" and not t or a[0] == "eq" and a[2] == 0 and t):
                w = [y for y in ((x[2],) + tuple(x[3])) if y is not None]
                if any(text(y) == s for y in w):
                    ln = [len(y[1].encode()) for y in w if y[0] == "s"]
                    cs = [y[1] for y in w if y[0] == "c"]
                    if ln:
                        best = max(best, min([ln[0]] + [c for c in cs if c]) if cs else ln[0])
            if x[0] == "call" and base(x[1]) in ("starts_with", "startsWith") and a[0] == "nz" and t and text(x[2]) == s:
                if x[3] and x[3][0] and x[3][0][0] == "s":
                    best = max(best, len(x[3][0][1].encode()))
        return best

    def char(self, x):
        """x as (text, position) of a character looked at"""
        if x[0] == "idx" and x[2][0] == "c":
            return x[1], x[2][1]
        if x[0] == "un" and x[1] == "*" and x[2] is not None:
            b, c = lin(x[2])
            return (b, c) if b is not None and c >= 0 else None
        if x[0] == "call" and base(x[1]) in ("operator[]", "at") and x[2] is not None and len(x[3]) == 1 and \
                x[3][0] and x[3][0][0] == "c":
            return x[2], x[3][0][1]
        if x[0] == "call" and base(x[1]) in ("front", "back") and x[2] is not None:
            return x[2], 0
        return None

    def less(self, a, b, env, strict=True):
        """a < b established (a, b linear)"""
        need = 1 if strict else 0
        if a[0] == b[0]:
            return a[1] + need <= b[1]
        if a[0] is None and b[0] is not None and b[0][0] == "size":
            m = self.minsize(b[0][1], env)
            return m is not None and a[1] + need <= m + b[1]
        for k, t in env.items():
            if k[0] != "A":
                continue
            x = k[1]
            if x[0] == "ltv":
                lo, hi = (x[1], x[2]) if t else (x[2], x[1])
                lo, hi = lin(lo), lin(hi)
                # lo + (1 if t) <= hi
                if lo[0] == a[0] and hi[0] == b[0] and a[1] - lo[1] + need <= b[1] - hi[1] + (1 if t else 0):
                    return True
            if x[0] == "lt" and b[0] is None and t:
                lo = lin(x[1])
                if lo[0] == a[0] and a[1] - lo[1] + x[2] - 1 + need <= b[1]:
                    return True
            if x[0] == "lt" and a[0] is None and not t:
                hi = lin(x[1])
                if hi[0] == b[0] and a[1] + need <= x[2] - hi[1] + b[1]:
                    return True
        return False

    def weakly(self, a, b, env):
        """some fact relates a to b, though a < b does not follow"""
        for k, t in env.items():
            if k[0] == "A" and k[1][0] in ("ltv", "lt"):
                xs = [lin(k[1][1])] + ([lin(k[1][2])] if isinstance(k[1][2], tuple) else [(None, 0)])
                bs = [x[0] for x in xs]
                if a[0] in bs and b[0] in bs:
                    return True
        return False

    def npos_excluded(self, v, env):
        for k, t in env.items():
            if k[0] == "A" and k[1][1] == v:
                if k[1][0] == "eq" and k[1][2] in (NPOS, -1) and not t:
                    return True
                if k[1][0] == "eq" and isinstance(k[1][2], int) and k[1][2] not in (NPOS, -1) and t:
                    return True
                if k[1][0] == "nz" and not t:
                    return True
                if k[1][0] == "lt" and t and k[1][2] not in (NPOS, -1):
                    return True
            if k[0] == "A" and k[1][0] == "ltv" and t and lin(k[1][1])[0] == v:
                return True
        return False

    # ------------------------------------------------------------------ judging
    def need(self, c, ok, subject, msg, key):
        self.seen.add((c.fn.key, c.node["i"]))
        if ok:
            return
        if key[0] in ("part", "element", "empty") and c.node.get("o") and selected(self.prog, c.fn, c.node["o"]):
            self.vague.add((c.fn.key, c.node["i"]))
            return
        ps = {("l", c.fn.key, p["d"]) for p in c.fn.params}
        mine = subject is not None and esp.mentions(subject, lambda t: t in ps)
        if mine and c.fn.key == self.root.key:
            self.left[(c.fn.key,) + key] = (msg, c.loc)
            return
        if c.fn.key in self.judged:
            self.found[(c.fn.key,) + key] = (msg, c.loc, c.fn.name)

    def on_node(self, q, c):
        if c.fn.key not in self.judged:
            return q
        n = c.node
        k = n["k"]
        if k == "idx":
            self.index(c, n)
        elif k == "call":
            self.call(c, n)
        elif k == "ctor" and n.get("cls", "").startswith("std::basic_string"):
            self.ctor(c, n)
        elif k == "un" and n["op"] == "*":
            self.mapped(c, n["c"][0], 0)
        return q

    def capacity(self, c, i):
        """(capacity, offset) of the character array expression i denotes, as linear terms"""
        n = strip(c.fn, i)
        if n is None:
            return None
        if n["k"] == "bin" and n["op"] == "+":
            for x, y in ((n["c"][0], n["c"][1]), (n["c"][1], n["c"][0])):
                r = self.capacity(c, x)
                if r is not None and r[1] == (None, 0):
                    o = lin(c.eng.ev(c.fn, y, c.env))
                    return (r[0], o) if o is not None else None
            return None
        if n["k"] == "un" and n["op"] == "&":
            m = strip(c.fn, n["c"][0])
            if m is not None and m["k"] == "idx":
                r = self.capacity(c, m["c"][0])
                o = lin(c.eng.ev(c.fn, m["c"][1], c.env))
                return (r[0], o) if r is not None and r[1] == (None, 0) and o is not None else None
            if m is not None and m["k"] == "call" and base(m.get("fn")) == "operator[]" and m.get("a"):
                r = self.capacity_of(c, m["o"])
                o = lin(c.eng.ev(c.fn, m["a"][0], c.env))
                return (r, o) if r is not None and o is not None else None
            return None
        if n["k"] in ("ref", "fld"):
            m = ARR.match(n.get("t", ""))
            if m:
                return (None, int(m.group(1))), (None, 0)
            if "*" in n.get("t", "") and n.get("dk") == "local":
                e = allocated(c.fn, n["d"])
                if e is not None:
                    v = lin(c.eng.ev(c.fn, e, c.env))
                    return (v, (None, 0)) if v is not None else None
            v = c.eng.ev(c.fn, n["i"], c.env) if "*" in n.get("t", "") else None
            if v is not None and v[0] == "call" and base(v[1]) == "malloc" and v[3] and v[3][0]:
                return lin(v[3][0]), (None, 0)
        if n["k"] == "call" and base(n.get("fn")) == "data" and n.get("o"):
            r = self.capacity_of(c, n["o"])
            return (r, (None, 0)) if r is not None else None
        return None

    def capacity_of(self, c, i):
        """elements of the vector, array or string expression i denotes"""
        n = strip(c.fn, i)
        if n is None or n["k"] not in ("ref", "fld"):
            return None
        m = re.match(r"^(?:const )?std::array<.*, (\d+)>", n.get("t", ""))
        if m:
            return (None, int(m.group(1)))
        if n["k"] == "ref" and n.get("dk") == "local":
            e = sized(c.fn, n["d"])
            if e is not None:
                return lin(c.eng.ev(c.fn, e, c.env))
        return None

    def index(self, c, n):
        b, i = n["c"]
        iv = c.eng.ev(c.fn, i, c.env)
        cap = self.capacity(c, b)
        li = lin(iv)
        if cap is not None and li is not None:
            o = cap[1]
            if li[0] is None and o[0] is None:
                if cap[0][0] is None:
                    self.need(c, 0 <= li[1] + o[1] < cap[0][1], None,
                              "a position outside the buffer is used", ("index", n.get("t")))
                    return
            if cap[0][0] is not None:
                # a block allocated: judged when position and size are computed from the same length
                if cap[0][0] == li[0]:
                    self.need(c, li[1] < cap[0][1], None, "a position behind the allocated block is used",
                              ("block", n.get("t")))
                return
            u = self.upper(iv, c.env)
            if u is not None:
                self.need(c, u < cap[0][1], iv, "the end of what was read may lie behind the buffer", ("filled", n.get("t")))
                if not u < cap[0][1]:
                    return
            elif li[0] is not None and li[0][0] == "l" and self.weakly(li, cap[0], c.env):
                self.need(c, self.less(li, cap[0], c.env), iv, "the counter may reach the end of the buffer",
                          ("counter", n.get("t")))
                return
        self.mapped(c, b, li[1] if li is not None and li[0] is None else None)
        # behind a length
        if li is not None and li[0] is not None and li[0][0] == "size" and li[1] < 0:
            m = self.minsize(li[0][1], c.env)
            self.need(c, m is not None and m >= -li[1], li[0][1],
                      "a character before the end is used although the text may be shorter", ("tail", n.get("t")))
        elif li is not None and li[0] is not None and li[0][0] == "l" and li[1] < 0:
            # a length kept in a variable
            ok = self.less((None, -li[1] - 1), (li[0], 0), c.env) or self.nonzero(li[0], c.env, -li[1])
            self.need(c, ok, li[0], "a position before the beginning may be used", ("before", n.get("t")))

    def nonzero(self, v, env, k):
        return k == 1 and any(x[0] == "A" and (x[1] == ("nz", v) and t or x[1] == ("eq", v, 0) and not t)
                              for x, t in env.items())

    def upper(self, v, env):
        """the greatest value of a count of what was read"""
        if v is not None and v[0] == "call" and base(v[1]) in FILLS:
            a = v[3][FILLS[base(v[1])]] if len(v[3]) > FILLS[base(v[1])] else None
            if base(v[1]) == "fread" and a is not None and v[3][1] is not None and a == ("c", 1):
                pass
            if a is not None and a[0] == "c":
                return a[1]
        return None

    def mapped(self, c, i, k):
        """a character of a mapped file"""
        n = strip(c.fn, i)
        if n is None or n["k"] != "ref" or n.get("d") not in maps(c.fn) or k is None:
            return
        v = c.eng.ev(c.fn, n["i"], c.env)
        if v is None:
            self.vague.add((c.fn.key, c.node["i"]))
            return
        lv = lin(v)
        for key, t in c.env.items():
            if key[0] == "A" and key[1][0] == "ltv":
                lo, hi = (key[1][1], key[1][2]) if t else (key[1][2], key[1][1])
                lo = lin(lo)
                # v + k < hi
                if lo[0] == lv[0] and lv[1] + k - lo[1] + 1 <= (1 if t else 0):
                    self.seen.add((c.fn.key, c.node["i"]))
                    return
            # ... not at the end
            if key[0] == "A" and key[1][0] == "eq" and not t and isinstance(key[1][2], tuple) and k == 0 and \
                    v in (key[1][1], key[1][2]):
                self.seen.add((c.fn.key, c.node["i"]))
                return
            if key[0] == "A" and key[1][0] in ("lt", "nz") and key[1][1][0] == "op" and key[1][1][1] == "-" and \
                    (not t if key[1][0] == "lt" else t) and key[1][1][3] == v and k == 0:
                self.seen.add((c.fn.key, c.node["i"]))
                return
        self.need(c, False, v, "a byte of the mapped file is read without a test against its end", ("mapped", "read"))

    def ctor(self, c, n):
        a = [x for x in n.get("a") or [] if x]
        if not a:
            return
        p = strip(c.fn, a[0])
        if p is None or "*" not in p.get("t", "") and "[" not in p.get("t", ""):
            return
        if len(a) >= 2 and "allocator" not in (c.fn.ex[a[1]].get("t") or ""):
            self.counted(c, a[0], a[1])
        elif self.of_map(c.fn, a[0]):
            self.need(c, False, None, "the text of a mapped file is used as if it ended with a zero", ("zero", "ctor"))

    def of_map(self, f, i):
        m = maps(f)
        st = [i]
        while st:
            n = f.ex.get(st.pop())
            if n is None:
                continue
            if n["k"] == "ref":
                if n.get("d") in m:
                    return True
            elif n["k"] in ("bin", "cast", "paren", "un"):
                st += [x for x in n.get("c", [])]
        return False

    def counted(self, c, p, i):
        """a text of so many characters taken from a place"""
        v = c.eng.ev(c.fn, i, c.env)
        l = lin(v)
        if l is None or l[0] is None or l[1] >= 0:
            return
        d = l[0]
        k = -l[1]
        if d[0] == "op" and d[1] == "-" and d[2] is not None and d[3] is not None:
            ok = self.less(d[3] and lin(d[3]), lin(d[2]), c.env)
            ok = ok or any(x[0] == "A" and x[1][0] == "lt" and not t and x[1][1] == d and x[1][2] >= k or
                           x[0] == "A" and x[1] == ("nz", d) and t and k == 1
                           for x, t in c.env.items())
            if not ok and d[2][0] == "call" and base(d[2][1]) == "memchr" and d[2][3] and d[2][3][0] == d[3]:
                ch = d[2][3][1]
                for x, t in c.env.items():
                    if x[0] == "A" and ch is not None and ch[0] == "c":
                        y = self.char(x[1][1]) if isinstance(x[1][1], tuple) else None
                        if y is not None and y[0] == d[3] and y[1] == 0 and x[1][0] == "eq" and isinstance(x[1][2], int) and \
                                ((x[1][2] == ch[1]) != t):
                            ok = True
            self.need(c, ok, d, "the number of characters taken may be negative", ("count", "text"))
        elif d[0] == "size":
            m = self.minsize(d[1], c.env)
            self.need(c, m is not None and m >= k, d, "the number of characters taken may be negative", ("count", "size"))

    def call(self, c, n):
        name = n.get("fn") or ""
        b = base(name)
        ev = lambda i: c.eng.ev(c.fn, i, c.env)
        a = n.get("a") or []
        tgt = SIZED.get(b) if not n.get("o") and "::" not in name.replace("std::", "") else SMETH.get(name)
        if tgt is not None and len(a) > max(tgt):
            self.copy(c, a[tgt[0]], [a[i] for i in tgt[1:]], b)
            if not n.get("o") and b in ("memcpy", "memmove"):
                pass
        elif b in ("strcpy", "stpcpy", "strcat") and len(a) == 2:
            self.unbounded(c, a[0], a[1], b)
        elif b == "sprintf" and len(a) >= 2:
            self.printed(c, a)
        elif b in ("sscanf", "fscanf", "scanf") and a:
            self.scanned(c, a, b)
        if b == "memchr" and len(a) == 3 and self.of_map(c.fn, a[0]):
            self.scan(c, a[0], a[2])
        if b in ENDED and len(a) > ENDED[b] and not n.get("o") and self.of_map(c.fn, a[ENDED[b]]):
            self.need(c, False, None, "the text of a mapped file is used as if it ended with a zero", ("zero", b))
        if not n.get("o"):
            return
        t = c.fn.ex[n["o"]].get("t", "")
        s = "basic_string" in t.split("<")[0] or re.match(r"^(const )?std::basic_string<char>", t)
        vec = re.match(r"^(const )?std::(vector|deque|list|array)<", t)
        if not s and not vec:
            return
        o = text(ev(n["o"]))
        if b in ("back", "front", "pop_back", "pop_front") and not a:
            if o is None:
                self.vague.add((c.fn.key, n["i"]))
                return
            m = self.minsize(o, c.env)
            cap = self.capacity_of(c, n["o"])
            if cap is not None and self.less((None, 0), cap, c.env):
                m = 1
            elif cap is not None and cap[0] is not None and not self.weakly((None, 0), cap, c.env):
                self.vague.add((c.fn.key, n["i"]))
                return
            if base_call(o) == "otherArguments":
                return
            if m == 0 and s and b == "back" and self.positive(c, n):
                m = 1
            self.need(c, m is not None and m >= 1, o, "%s() of a text or list that may be empty" % b, ("empty", b))
        elif b == "operator[]" and a:
            i = lin(ev(a[0]))
            if base_call(o) == "otherArguments":
                return
            if i is None or o is None:
                self.vague.add((c.fn.key, n["i"]))
                return
            cap = self.capacity_of(c, n["o"])
            if i[0] is None:
                if s and i[1] == 0 and n.get("t", "").startswith("const"):
                    return
                m = self.minsize(o, c.env)
                if cap is not None and cap[0] is None:
                    m = max(m or 0, cap[1])
                elif cap is not None:
                    self.vague.add((c.fn.key, n["i"]))
                    return
                if i[1] > 0 or vec:
                    self.need(c, m is not None and m >= i[1] + (0 if s else 1), o,
                              "element %d of a text or list that may be shorter" % i[1], ("element", "const"))
            elif i[0] == ("size", o) or i[0][0] == "size" and text(i[0][1]) == o:
                if i[1] < 0:
                    m = self.minsize(o, c.env)
                    held = cap is not None and self.less((None, -i[1] - 1), cap, c.env)
                    if cap is not None and cap[0] is not None and not held and \
                            not self.weakly((None, 0), cap, c.env):
                        self.vague.add((c.fn.key, n["i"]))
                        return
                    self.need(c, held or m is not None and m >= -i[1], o,
                              "an element before the end of a text or list that may be shorter", ("element", "tail"))
                elif vec:
                    self.need(c, False, None, "the element behind the end is used", ("element", "end"))
            elif i[0][0] == "op" and i[0][1] == "/" and i[1] == 0 and cap is not None and cap[0] is not None and \
                    cap[1] >= 0 and cap[0][0] == "op" and cap[0][1] == "/" and cap[0][3] == i[0][3] and i[0][3][0] == "c":
                x, l = lin(i[0][2]), lin(cap[0][2])
                if x is not None and l is not None and cap[1] == 0:
                    self.need(c, self.less((x[0], x[1] + i[0][3][1] - 1), l, c.env), i[0],
                              "an element behind the half length is used", ("element", "part"))
            elif vec:
                for lim_ in [("size", o)] + ([cap[0]] if cap is not None and cap[0] is not None else []):
                    l = (lim_, cap[1] if cap is not None and lim_ == cap[0] else 0)
                    if self.weakly(i, l, c.env):
                        self.need(c, self.less(i, l, c.env), i[0], "the position may reach the end of the list",
                                  ("element", "counter"))
                        break
        elif s and b in ("substr", "erase", "compare") and a and (b != "compare" or len(a) >= 3) and \
                "iterator" not in (c.fn.ex[a[0]].get("t") or ""):
            i = lin(ev(a[0]))
            if i is None or o is None:
                self.vague.add((c.fn.key, n["i"]))
                return
            if i[0] is None:
                m = self.minsize(o, c.env)
                self.need(c, m is not None and i[1] <= m, o, "%s() from position %d of a text that may be shorter" % (b, i[1]),
                          ("part", b, "const"))
            elif i[0][0] == "size" and text(i[0][1]) == o:
                m = self.minsize(o, c.env)
                self.need(c, i[1] <= 0 and m is not None and -i[1] <= m, o,
                          "%s() of the end of a text that may be shorter" % b, ("part", b, "tail"))
            elif i[0][0] == "call" and base(i[0][1]) in FINDS and text(i[0][2]) == o:
                # npos itself is harmless in additions that wrap around to a small position
                if i[1] == 1:
                    return
                self.need(c, i[1] <= 1 and self.npos_excluded(i[0], c.env) or
                          i[1] > 1 and self.found_long(i[0]) >= i[1] and self.npos_excluded(i[0], c.env), o,
                          "%s() from a position that may not have been found" % b, ("part", b, "found"))
            else:
                self.vague.add((c.fn.key, n["i"]))

    def positive(self, c, n):
        return False

    def found_long(self, f):
        x = f[3][0] if f[3] else None
        if x is not None and x[0] == "s":
            return len(x[1].encode())
        return 1 if x is not None and x[0] == "c" else 0

    def copy(self, c, dst, sizes, b):
        cap = self.capacity(c, dst)
        vs = [self.length_of(c, i) or lin(c.eng.ev(c.fn, i, c.env)) for i in sizes]
        if cap is None or any(v is None for v in vs):
            return
        if len(vs) == 2:
            if vs[0][0] is None and vs[1][0] is None:
                vs = [(None, vs[0][1] * vs[1][1])]
            else:
                one = [v for v in vs if v == (None, 1)]
                if not one:
                    return
                vs = [v for v in vs if v != (None, 1)][:1]
        size = vs[0]
        total, off = cap
        msg = "%s() may store more than the buffer holds" % b
        key = ("copy", b)
        # size + off <= total
        if size[0] is None and total[0] is None:
            if off[0] is None:
                self.need(c, 0 <= size[1] + off[1] <= total[1], None, msg, key)
            else:
                self.need(c, self.less(off, (None, total[1] - size[1]), c.env, False), off[0], msg, key)
        elif off[0] is None and total[0] is not None and size[0] == total[0]:
            self.need(c, size[1] + off[1] <= total[1], None, msg, key)
        elif size[0] is not None and size[0][0] == "op" and size[0][1] == "-" and total[0] is None and off[0] is not None:
            l, r = lin(size[0][2]), lin(size[0][3])
            if l is not None and l[0] is None and r is not None and r[0] == off[0]:
                self.need(c, l[1] - r[1] + size[1] + off[1] <= total[1], off[0], msg, key)
        elif total[0] is None and off == (None, 0) and size[0] is not None:
            if size[0][0] == "size" or self.weakly(size, total, c.env) or size[0][0] == "l":
                self.need(c, self.less(size, total, c.env, False), size[0], msg, key)

    def length_of(self, c, i):
        """the size of a list made with so many elements"""
        n = strip(c.fn, i)
        if n is None or n["k"] != "call" or not n.get("o") or base(n.get("fn")) not in ("size", "length", "capacity"):
            return None
        return self.capacity_of(c, n["o"])

    def unbounded(self, c, dst, src, b):
        cap = self.capacity(c, dst)
        s = text(c.eng.ev(c.fn, src, c.env))
        if cap is None:
            return
        total, off = cap
        msg = "%s() of a text that may be longer than the buffer" % b
        if s is not None and s[0] == "s" and total[0] is None and off[0] is None and b != "strcat":
            self.need(c, len(s[1].encode()) + off[1] < total[1], None, msg, ("copy", b))
            return
        if s is None:
            # (a text nothing is known of)
            self.need(c, total[0] is not None, None, msg, ("copy", b))
            return
        ok = b != "strcat" and off[0] is None and self.less((("size", s), off[1]), total, c.env)
        if total[0] == ("size", s) and off[0] is None and not ok:
            # whatever the text is
            s = None
        self.need(c, ok, s, msg, ("copy", b))

    def printed(self, c, a):
        cap = self.capacity(c, a[0])
        f = strip(c.fn, a[1])
        if cap is None or cap[0][0] is not None or cap[1][0] is not None or f is None or f["k"] != "str":
            return
        n = 0
        pos = 0
        arg = 2
        for m in re.finditer(r"%([-+ #0]*)(\d+)?(?:\.(\d+))?(hh|h|ll|l|z|j|t)?([a-zA-Z%])", f["s"]):
            n += m.start() - pos
            pos = m.end()
            if m.group(5) == "%":
                n += 1
                continue
            w = int(m.group(2) or 0)
            if m.group(5) in "diuxXo":
                big = m.group(4) in ("l", "ll", "z", "j", "t")
                d = {"d": (20 if big else 11), "i": (20 if big else 11), "u": (20 if big else 10),
                     "x": (16 if big else 8), "X": (16 if big else 8), "o": (22 if big else 11)}[m.group(5)]
                if m.group(4) in ("h", "hh"):
                    d = 6
                n += max(w, d)
            elif m.group(5) == "c":
                n += max(w, 1)
            elif m.group(5) == "p":
                n += max(w, 18)
            elif m.group(5) == "s" and m.group(3):
                n += max(w, int(m.group(3)))
            elif m.group(5) == "s":
                v = text(c.eng.ev(c.fn, a[arg], c.env)) if arg < len(a) else None
                if v is not None and v[0] == "s":
                    n += max(w, len(v[1].encode()))
                else:
                    ok = v is not None and self.less((("size", v), n), cap[0], c.env)
                    self.need(c, ok, v, "sprintf() of a text that may be longer than the buffer", ("print", "text"))
                    return
            else:
                return
            arg += 1
        n += len(f["s"]) - pos
        self.need(c, n + 1 + cap[1][1] <= cap[0][1], None,
                  "sprintf() of a number that may need %d characters" % (n + 1), ("print", "number"))

    def scanned(self, c, a, b):
        at = 0 if b == "scanf" else 1
        f = strip(c.fn, a[at])
        if f is None or f["k"] != "str":
            return
        src = text(c.eng.ev(c.fn, a[0], c.env)) if b == "sscanf" else None
        arg = at + 1
        for m in re.finditer(r"%(\*)?(\d+)?(hh|h|ll|l|z|j|t)?(\[\^?\]?[^]]*\]|[a-zA-Z%])", f["s"]):
            if m.group(4) == "%" or m.group(1):
                continue
            if m.group(4)[0] in "s[" and arg < len(a):
                cap = self.capacity(c, a[arg])
                if cap is not None and cap[0][0] is None and cap[1][0] is None:
                    if m.group(2):
                        ok = int(m.group(2)) + 1 + cap[1][1] <= cap[0][1]
                    else:
                        ok = src is not None and self.less((("size", src), cap[1][1]), cap[0], c.env)
                    self.need(c, ok, src, "%s() of a word that may be longer than the buffer" % b, ("scan", b))
            arg += 1

    def scan(self, c, p, i):
        """a search in a mapped file from p on"""
        pv, nv = c.eng.ev(c.fn, p, c.env), c.eng.ev(c.fn, i, c.env)
        if pv is None or nv is None:
            self.vague.add((c.fn.key, c.node["i"]))
            return
        n = strip(c.fn, p)
        moving = n is not None and n["k"] == "ref" and len(c.fn_defs(n["d"])) > 1 if hasattr(c, "fn_defs") else \
            n is not None and n["k"] == "ref" and moved(c.fn, n["d"])
        if not moving:
            return
        ok = esp.mentions(nv, lambda t: t == pv) or mentions_var(c.fn, i, n["d"])
        self.need(c, ok, None, "the search goes on for the whole length from a later position", ("scan", "memchr"))


def base_call(v):
    return base(v[1]) if v is not None and v[0] == "call" else None


class Walk(esp.Engine):
    def set_var(self, env, fn, d, v):
        # a position that advances through a mapped file is known by what was found out about it since it moved
        if v is not None and v[0] != "c" and d in walking(fn):
            v = None
        return super().set_var(env, fn, d, v)


def walking(f):
    r = f._cache.get("walk26")
    if r is None:
        r = set()
        for d in maps(f):
            es = [strip(f, e) for e in defs(f).get(d, [])]
            if len(es) > 1 and any(n is not None and (n["k"] == "bin" and n["op"] == "+" or
                                                      n["k"] == "ref" and n.get("d") == d) for n in es):
                r.add(d)
        f._cache["walk26"] = r
    return r


def raising(prog, fields):
    r = getattr(prog, "_raising", None)
    if r is None:
        r = prog._raising = frozenset(
            f.key for f in prog.fns.values()
            if any(n["k"] == "throw" for n in f.nodes()) and any(n["k"] == "fld" and n["q"] in fields for n in f.nodes())
            and (f.ret or "") == "void" and not any(n["k"] == "bin" and n["op"] == "=" for n in f.nodes()))
    return r


def defs(f):
    """decl -> expressions assigned to it"""
    r = f._cache.get("defs26")
    if r is None:
        r = f._cache["defs26"] = {}
        for b, i, e in f.elems():
            if isinstance(e, dict):
                if "d" in e and isinstance(e.get("init"), int):
                    r.setdefault(e["d"], []).append(e["init"])
        for n in f.nodes():
            for v in n.get("vars") or [] if n["k"] == "decl" else []:
                if isinstance(v.get("init"), int):
                    r.setdefault(v["d"], []).append(v["init"])
            if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                x = strip(f, n["c"][0])
                if x is not None and x["k"] == "ref" and "d" in x:
                    r.setdefault(x["d"], []).append(n["c"][1])
            elif n["k"] == "un" and n["op"] in ("++", "--"):
                x = strip(f, n["c"][0])
                if x is not None and x["k"] == "ref" and "d" in x:
                    r.setdefault(x["d"], []).append(n["c"][0])
    return r


def selected(prog, f, i):
    """the object is an element an algorithm picked by a predicate that settles its length or one of its characters"""
    n = strip(f, i)
    while n is not None and n["k"] in ("call", "un") and n.get("op") in ("->", "*"):
        n = strip(f, n["o"] if n.get("o") else n["a"][0] if n.get("a") else n["c"][0])
    if n is None or n["k"] != "ref" or "d" not in n:
        return False
    ways = defs(f).get(n["d"], [])
    keys = []
    for w in ways:
        st, got = [w], []
        while st:
            m = f.ex.get(st.pop())
            if m is None:
                continue
            if m["k"] == "call" and base(m.get("fn")) == "find_if":
                got += [x["fk"] for y in m.get("a") or [] for x in [lambda_in(f, y)] if x is not None]
                continue
            st += [x for x in esp.children(m) if x]
        if not got:
            return False
        keys += got
    return bool(keys) and all(k in prog.fns and settles(prog.fns[k]) for k in keys)


def lambda_in(f, i):
    st = [i]
    while st:
        n = f.ex.get(st.pop())
        if n is None:
            continue
        if n["k"] == "lambda":
            return n
        st += [x for x in esp.children(n) if x]
    return None


def settles(f):
    """equality of a character of the parameter, or a question about its length or beginning"""
    ps = {p["d"] for p in f.params}
    for n in f.nodes():
        if n["k"] == "bin" and n["op"] == "==" or n["k"] == "call" and n.get("op") == "==":
            for x in (n.get("c") or n.get("a") or []):
                m = strip(f, x)
                if m is not None and m["k"] == "call" and base(m.get("fn")) in ("operator[]", "at", "front") and any(
                        mentions_var(f, m["o"], d) for d in ps if m.get("o")):
                    return True
        if n["k"] == "call" and base(n.get("fn")) in ("size", "length", "empty", "starts_with", "startsWith", "compare", "rfind") \
                and n.get("o") and any(mentions_var(f, n["o"], d) for d in ps):
            return True
    return False


def moved(f, d):
    return len(defs(f).get(d, [])) > 1


def mentions_var(f, i, d):
    st, seen = [i], set()
    while st:
        n = f.ex.get(st.pop())
        if n is None or n["i"] in seen:
            continue
        seen.add(n["i"])
        if n["k"] == "ref":
            if n.get("d") == d:
                return True
            if n.get("dk") == "local":
                st += defs(f).get(n.get("d"), [])
        st += facts.children(n)
    return False


def maps(f):
    """variables pointing into a mapped file"""
    r = f._cache.get("maps26")
    if r is None:
        r = set()
        ds = defs(f)

        def reaches(i):
            n = strip(f, i)
            if n is None:
                return False
            if n["k"] == "call":
                return base(n.get("fn")) in ("mmap", "mmap64") or base(n.get("fn")) == "memchr" and reaches(n["a"][0])
            if n["k"] == "ref":
                return n.get("d") in r
            if n["k"] == "bin" and n["op"] in ("+", "-", "=") and "*" in n.get("t", ""):
                return any(reaches(x) for x in n["c"])
            if n["k"] == "cond":
                return any(reaches(x) for x in n["c"][1:])
            return False
        for _ in range(4):
            for d, es in ds.items():
                if d not in r and any(reaches(e) for e in es):
                    r.add(d)
        f._cache["maps26"] = r
    return r


def allocated(f, d):
    """the number of characters of the block d points to, when it is allocated once"""
    es = defs(f).get(d, [])
    if len(es) != 1:
        return None
    n = strip(f, es[0])
    if n is None or n["k"] != "new" or not n.get("arr") or not n.get("c"):
        return None
    return n["c"][0]


def sized(f, d):
    """the expression giving a local vector its size, when nothing changes it"""
    if d is None:
        return None
    es = defs(f).get(d, [])
    if len(es) > 1:
        return None
    for n in f.nodes():
        if n["k"] == "call" and n.get("o") and base(n.get("fn")) in (
                "resize", "push_back", "insert", "erase", "clear", "assign", "emplace_back", "pop_back", "append"):
            o = strip(f, n["o"])
            if o is not None and o.get("d") == d:
                return None
    if not es:
        return None
    n = strip(f, es[0])
    if n is not None and n["k"] == "ctor" and n.get("a") and re.match(r"^(const )?std::(vector|basic_string)<", n.get("t", "")):
        a = n["a"][0]
        t = (f.ex.get(a) or {}).get("t", "")
        if re.match(r"^(const )?(unsigned |signed )?(int|long|short|size_t|char|long long)( int)?$", t):
            return a
    return None


def subjects(f):
    """variables the accesses of f depend on"""
    r = f._cache.get("subj26")
    if r is not None:
        return r
    r = set()
    work = []
    for n in f.nodes():
        b = base(n.get("fn")) if n["k"] in ("call", "ctor") else ""
        if n["k"] == "idx" or n["k"] == "call" and (b in SIZED or n.get("fn") in SMETH or b in ENDED or b in (
                "sprintf", "sscanf", "strcpy", "strcat", "memchr", "back", "front", "pop_back", "operator[]", "substr",
                "erase", "compare")) or n["k"] == "un" and n["op"] == "*" or \
                n["k"] == "ctor" and n.get("cls", "").startswith("std::basic_string") and len(n.get("a") or []) >= 2:
            work.append(n["i"])
    seen = set()
    ds = defs(f)
    while work:
        n = f.ex.get(work.pop())
        if n is None or n["i"] in seen:
            continue
        seen.add(n["i"])
        if n["k"] == "ref" and "d" in n and n["d"] not in r:
            r.add(n["d"])
            work += ds.get(n["d"], [])
        work += facts.children(n)
    f._cache["subj26"] = r
    return r


def candidates(prog):
    """functions with an access that depends on a length"""
    out = []
    for f in prog.fns.values():
        if "/fltk/" in f.file:
            continue
        for n in f.nodes():
            b = base(n.get("fn")) if n["k"] == "call" else ""
            if n["k"] == "idx" and "char **" not in (f.ex.get(n["c"][0]) or {}).get("t", "") or \
                    n["k"] == "call" and (b in SIZED or n.get("fn") in SMETH or b in (
                        "sprintf", "sscanf", "fscanf", "strcpy", "strcat", "memchr", "pop_back")) or \
                    n["k"] == "call" and n.get("o") and b in ("back", "front", "substr", "erase", "operator[]", "compare") and \
                    re.match(r"^(const )?std::(basic_string|vector|list|deque|array)<", f.ex[n["o"]].get("t", "")):
                out.append(f)
                break
    return out


def check(prog, res):
    cand = candidates(prog)
    callers = {}
    for f in prog.fns.values():
        for n in f.nodes():
            if n["k"] in ("call", "ctor"):
                for t in prog.targets(n):
                    callers.setdefault(t.key, set()).add(f.key)
    helpers = {}

    def explore(root, judged, keys):
        s = Bound(prog, root, judged, keys)
        e = Walk(prog, s)
        try:
            e.run(root, 0)
            over = None
        except RuntimeError as x:
            over = str(x)
        return s.found, s.left, s.seen, s.vague, over, e.nstates

    def one(i):
        f = cand[i]
        out = []
        found, left, seen, vague, over, ns = explore(f, {f.key}, {f.key})
        states = ns
        undone = []
        if over:
            undone.append(f.name)
        bad = dict(found)
        # what is left to the callers
        keys = [f.key]
        level = [(f.key, {f.key})]
        pending = set(left)
        for depth in range(2):
            nxt = []
            still = set()
            for k, inl in level:
                for ck in sorted(callers.get(k, ())):
                    if ck in inl or not pending:
                        continue
                    root = prog.fns[ck]
                    fo, le, _, _, ov, ns = explore(root, {f.key}, inl | {ck})
                    states += ns
                    if ov:
                        undone.append("%s from %s" % (f.name, root.name))
                        continue
                    for key, v in fo.items():
                        if key in pending:
                            ps = {p["d"] for p in root.params}
                            bad[key] = (v[0] + " (called from %s)" % root.name, v[1], v[2])
                    nxt.append((ck, inl | {ck}))
            level = nxt
            break
        return bad, len(seen), len(vague), undone, states, sorted(v[0] for v in left.values())

    total = vague = states = 0
    undone = []
    for f, r in zip(cand, parallel(one, list(range(len(cand))))):
        total += r[1]
        vague += r[2]
        undone += r[3]
        states += r[4]
        for key, v in sorted(r[0].items(), key=str):
            res.violation((f.name,) + key[1:], "in %s: %s" % (v[2], v[0]), v[1])
    res.coverage["functions_with_accesses"] = len(cand)
    res.coverage["accesses_judged"] = total
    res.coverage["accesses_not_understood"] = vague
    res.coverage["states_explored"] = states
    if undone:
        res.coverage["not_finished"] = undone
    if total < 20:
        raise RuntimeError("hardly any access was found")
    res.rule("every function with an access whose bound depends on a length is explored with symbolic lengths: copies "
             "into fixed buffers are limited by their size, the end of a text is used only where its length was "
             "established, elements and parts of texts and lists at a position only where they exist, mapped files "
             "only below their end and searched only for what is left; what concerns a parameter is judged with "
             "each caller around it")
    res.assumptions += ["library calls return at most the count they were given",
                        "positions whose value is not understood are not judged (counted above)"]
