"""Generic-element ("witness") analysis of loops over containers.

A container's content is abstracted to: which witness elements are certainly in it, which may be, and which kinds
of other elements may be.  A loop is followed over every position of the witnesses among the others, so a statement
about the witness is a statement about every element.  Values:

  ("w", name)                     a witness           ("o", kind, tag)   some other element
  ("set", sure, maybe, others, orient)                content of a container (orient: order of a sequence relative
                                                      to its source: 1 same, -1 reversed, 0 unknown)
  ("it", set, position, seen, dir)                    an iterator
  ("rec", ((field, value), ...))                      an aggregate
  ("ent", container, key)                             the mapped value of an unrelated key
"""
import re
import effects
import esp
from checks.common import CardsSpec
from facts import children

CONT = re.compile(r"^(?:const )?std::(set|map|vector|list|multimap|multiset|deque|unordered_set|unordered_map|"
                  r"unordered_multiset|unordered_multimap|forward_list)<")
SEQ = {"vector", "list", "deque", "forward_list"}
MAPS = {"map", "multimap", "unordered_map", "unordered_multimap"}
EMPTY = ("set", (), (), (), None)
END = ("end",)
OTHER = ("x", "any")
VALUES = {"c", "s", "set", "it", "ix", "end", "rec", "out", "tail", "lambda", "fn", "new", "empty"}


def has_witness(v):
    return esp.mentions(v, lambda t: t[0] == "w")


def mentions_other(v):
    return esp.mentions(v, lambda t: t[0] in ("o", "it", "ix"))


def is_set(v):
    return v is not None and v[0] == "set"


def is_it(v):
    return v is not None and v[0] == "it"


def ckind(name):
    m = CONT.match(name or "")
    return m.group(1) if m else None


class Witness(CardsSpec):
    """q = frozenset of flags; "vague" when a container of unknown content was involved"""
    cells = True
    maxterm = 400
    max_states = 2000000
    transparent = frozenset({"strdup", "dirname"})
    skip = frozenset({"progressInfo", "treatErrors"})     # functions not entered
    skip_classes = frozenset({"cards::lock", "process"})
    coarse = False              # do not distinguish empty sets of text from sets of unrelated elements
    about = None                # if set: only functions touching these attributes or types (or calls of interest) matter
    frozen = frozenset()        # cells whose content is not followed
    terms = {}                                             # initial values of terms

    recursion = 0               # how many activations of a function may be pending when it is entered
    letter = {("w", "file"): "u", ("w", "directory"): "u"}      # first letter of a witness name

    def __init__(self, prog, world=None):
        self.prog = prog
        self.world = world
        self.events = self.forced = 0

    # ------------------------------------------------------------ engine hooks
    def calls(self, n):
        return True

    def keep(self, v):
        return v is not None and (v[0] in VALUES or v[0] in ("w", "o", "p", "ent", "fld") or
                                  has_witness(v) and not esp.mentions(v, lambda t: t[0] in ("set", "it", "ix")) or
                                  self.worth(v))

    def worth(self, v):
        """further values to remember"""
        return False

    def track(self, a):
        """branches are correlated when they depend on a witness and on nothing that is asked anew"""
        return has_witness(a) and not mentions_other(a) and not esp.mentions(
            a, lambda t: t[0] == "call" and len(t) > 4)

    def lookup(self, term, env):
        v = self.terms.get(term)
        if v is None:
            v = self.value_of(term)
        return v

    def value_of(self, term):
        return None

    # -------------------------------------------------------------- world hooks
    def distinct(self, a, b):
        """are the two values certainly different"""
        return False

    def rank(self, t):
        """place of a witness in sorted containers, if known"""
        return None

    def known(self, atom):
        """truth of an atom in this world, or None"""
        return None

    def intercept(self, q, c):
        """outcome of a call the world fixes (as on_call), or None"""
        return None

    def event(self, q, c):
        """looks at any other call; returns q"""
        return q

    def error(self, q, c):
        """an error is raised"""

    # ------------------------------------------------------------------- values
    def key(self, t, mapped):
        if not mapped:
            return t
        if t[0] == "rec":
            return dict(t[1]).get("first")
        return ("fld", "first", t)

    def same(self, x, t):
        if x == t:
            return not (x is not None and mentions_other(x))
        if x is None or t is None:
            return None
        for a, b in ((x, t), (t, x)):
            if a[0] == "o" and has_witness(b) and b[0] in ("w", "fld") and not esp.mentions(b, lambda y: y[0] == "o"):
                return False
            if a[0] == "fld" and a[2][0] == "o" and b[0] == "fld" and b[1] == a[1] and b[2][0] == "w" and a[1] == "first":
                return False
        if x[0] == "w" and t[0] == "w":
            return False
        if x[0] == "fld" and t[0] == "fld" and x[1] == t[1] == "first" and x[2][0] == t[2][0] == "w":
            return False
        if self.distinct(x, t) or self.distinct(t, x):
            return False
        return None

    def resolve(self, c, v):
        """an aggregate built in a local variable, by value"""
        if v is not None and v[0] in ("l", "new"):
            f = [(k[1][1], x) for k, x in c.env.items() if k[0] == "M" and k[1][0] == "fld" and k[1][2] == v]
            if f:
                return ("rec", tuple(sorted(f, key=repr)))
        return v

    # ----------------------------------------------------------------- sequences
    def candidates(self, it):
        """positions an iterator may have next"""
        _, s, pos, seen, d = it
        _, sure, maybe, others, orient = s
        out = []
        rem = [t for t in sure + maybe if t not in seen]
        must = [t for t in sure if t not in seen]

        def before(a, b):
            ra, rb = self.rank(a), self.rank(b)
            return ra is not None and rb is not None and orient != 0 and (ra - rb) * d * (orient or 1) < 0
        for t in rem:
            if any(m != t and before(m, t) for m in must):
                continue
            skipped = tuple(m for m in rem if m != t and before(m, t))
            out.append((t, tuple(sorted(seen + (t,) + skipped, key=repr))))
        if not must:
            out.append((END, seen))
        have = [t for t in sure if t[0] == "w"]
        for k, tag in others:
            if tag in ("pre", "post") and orient in (1, -1) and have:
                first = (tag == "pre") == (d * orient == 1)      # comes before the witness in this direction
                if first == any(t in seen for t in have):
                    continue
            out.append((("o", k, tag), seen))
        return [("it", s, p, sn, d) for p, sn in out]

    def begin(self, s, d):
        return self.candidates(("it", s, None, (), d))

    def add(self, s, x, end=1):
        """content after x was put in (at the end, or for end=-1 in front of a sequence)"""
        _, sure, maybe, others, orient = s
        if x is None:
            return None
        if has_witness(x) and not mentions_other(x):
            for t in sure + maybe:
                if t != x and self.rank(t) is not None and self.rank(x) is not None:
                    o = end if self.rank(x) > self.rank(t) else -end
                    orient = o if orient in (None, o) else 0
            if x not in sure:
                sure = tuple(sorted(sure + (x,), key=repr))
            maybe = tuple(t for t in maybe if t != x)
            if orient is None and others:
                tags = {t for _, t in others}
                orient = end if tags <= {"pre", "any"} else -end if tags <= {"post", "any"} else 0
            return ("set", sure, maybe, others, orient)
        o = (x[1], x[2]) if x[0] == "o" else OTHER
        if x[0] != "o" and esp.mentions(x, lambda y: y[0] == "o"):
            inner = []
            esp.mentions(x, lambda y: inner.append(y) or False if y[0] == "o" else False)
            o = (inner[0][1], inner[0][2]) if inner else OTHER
        if o not in others:
            others = tuple(sorted(others + (o,)))
        if sure and o[1] in ("pre", "post"):
            want = end if o[1] == "post" else -end
            orient = want if orient in (None, want) else 0
        return ("set", sure, maybe, others, orient)

    def drop(self, s, x, mapped):
        """content after the elements equal to x were removed"""
        _, sure, maybe, others, orient = s
        ns, nm = [], []
        for t in sure:
            e = self.same(x, self.key(t, mapped))
            if e is False:
                ns.append(t)
            elif e is None:
                nm.append(t)
        for t in maybe:
            if self.same(x, self.key(t, mapped)) is not True:
                nm.append(t)
        return ("set", tuple(ns), tuple(sorted(nm, key=repr)), others, orient)

    def find(self, s, x, mapped):
        """[(term or None, content refined)] an element equal to x is"""
        _, sure, maybe, others, orient = s
        out = []
        open_ = True
        for t in sure:
            e = self.same(x, self.key(t, mapped))
            if e is True:
                return [(t, s)]
            if e is None:
                out.append((t, s))
        for t in maybe:
            e = self.same(x, self.key(t, mapped))
            if e is not False:
                rest = tuple(m for m in maybe if m != t)
                out.append((t, ("set", tuple(sorted(sure + (t,), key=repr)), rest, others, orient)))
                if e is True:
                    out.append((None, ("set", sure, rest, others, orient)))
                    open_ = False
                    break
        if open_:
            out.append((None, s))
            w = x is not None and has_witness(x) and not mentions_other(x) and x[0] in ("w", "fld")
            if others and not w:
                out.append((("o",) + others[0], s))
        return out

    def union(self, a, b):
        if not is_set(a) or not is_set(b):
            return None
        sure = tuple(sorted(set(a[1]) | set(b[1]), key=repr))
        maybe = tuple(sorted((set(a[2]) | set(b[2])) - set(sure), key=repr))
        return ("set", sure, maybe, tuple(sorted(set(a[3]) | set(b[3]))), a[4] if not b[3] and not b[1] else
                b[4] if not a[3] and not a[1] else 0)

    def combine(self, op, a, b):
        if not is_set(a) or not is_set(b):
            return None
        sa, ma, sb, mb = set(a[1]), set(a[2]), set(b[1]), set(b[2])
        if op == "set_intersection":
            sure, may = sa & sb, (sa | ma) & (sb | mb)
            others = a[3] if b[3] else ()
        elif op == "set_difference":
            sure, may = sa - sb - mb, (sa | ma) - sb
            others = a[3]
        else:
            sure, may = sa | sb, sa | sb | ma | mb
            others = tuple(sorted(set(a[3]) | set(b[3])))
        return ("set", tuple(sorted(sure, key=repr)), tuple(sorted(may - sure, key=repr)), others, None)

    # -------------------------------------------------------------------- atoms
    def decide(self, atom):
        if atom[0] == "eq":
            a, b = atom[1], atom[2]
            if isinstance(a, tuple) and isinstance(b, tuple):
                if b == END or a == END:
                    a, b = (b, a) if a == END else (a, b)
                    if a == END:
                        return True
                    if is_it(a):
                        return a[2] == END
                    return self.known(atom)
                if is_it(a) and is_it(b):
                    if a[2] == b[2] == END:
                        return True
                    if END in (a[2], b[2]):
                        return False
                    if a[2] != b[2]:
                        return False
                    return None
                e = self.same(a, b)
                if e is not None:
                    return e
        if atom[0] == "nz" and atom[1] is not None and atom[1][0] == "size" and is_set(atom[1][1]):
            s = atom[1][1]
            if s[1]:
                return True
            if not s[2] and not s[3]:
                return False
        x = atom[1] if isinstance(atom[1], tuple) else None
        if x is not None and x[0] == "size" and isinstance(x[1], tuple) and x[1] and x[1][0] == "w":
            # the names of files and packages are not empty
            if atom[0] == "nz":
                return True
            if atom[0] == "eq" and atom[2] == 0 or atom[0] == "lt" and atom[2] == 1:
                return False
        return self.known(atom)

    # -------------------------------------------------------------------- calls
    def on_call(self, q, c):
        res = self.on_call0(q, c)
        if self.frozen and res is not None and c.node.get("o") and ckind(c.name):
            if c.eng.cell(c.fn, c.node["o"], True, c.env) in self.frozen:
                return [(r[0], r[1]) for r in res]
        if not self.coarse or res is None or ckind(c.name) != "set" or "set<std::basic_string<char>>" not in c.name:
            return res
        return [(r[0], self.dull(r[1])) + tuple({k: self.dull(v) for k, v in m.items()} for m in r[2:]) for r in res]

    def dull(self, v):
        if is_set(v) and OTHER not in v[3]:
            return v[:3] + (tuple(sorted(v[3] + (OTHER,))),) + v[4:]
        if is_it(v):
            return v[:1] + (self.dull(v[1]),) + v[2:]
        return v

    def on_call0(self, q, c):
        if c.obj in self.letter and (c.base() == "front" or c.base() in ("operator[]", "at") and c.args and
                                    c.args[0] == ("c", 0)):
            return [(q, ("c", ord(self.letter[c.obj])))]
        r = self.intercept(q, c)
        if r is not None:
            return r
        b = c.base()
        if b in self.skip:
            if b == "treatErrors":
                self.error(q, c)
                return []
            return [(q, None)]
        r = self.container(q, c)
        if r is not None:
            return r
        q2 = self.event(q, c)
        if q2 is None:
            return []
        if q2 != q:
            if not any(c.eng.relevant(t) for t in c.targets):
                return [(q2, None)]
        return None

    def mapped(self, c):
        return ckind(c.name) in MAPS

    def elemof(self, it):
        p = it[2]
        return p if p != END else None

    def it(self, s, t):
        return ("it", s, t if t is not None else END, (), 1)

    def container(self, q, c):
        n, name, b, obj, args = c.node, c.name, c.base(), c.obj, c.args
        op = n.get("op")
        kind = ckind(name)
        args = tuple(self.resolve(c, a) for a in args)
        if n["k"] == "ctor":
            if kind is None:
                if name.startswith("std::pair<") and len(args) == 2 and not n.get("copy"):
                    return [(q, ("rec", (("first", args[0]), ("second", args[1]))))] \
                        if args[0] is not None and args[1] is not None else [(q, None)]
                if n.get("cls") in self.prog.records and n.get("copy") and args and args[0] is not None and \
                        args[0][0] in ("rec", "w", "o", "fld", "ent"):
                    return [(q, args[0])]
                return None
            real = [a for a, x in zip(args, n["a"]) if x and c.fn.ex[x]["k"] != "zero"]
            if not n["a"]:
                return [(q, EMPTY)]
            if len(args) >= 2 and is_it(args[0]):
                return [(q, self.range(args[0], args[1], kind))]
            if len(args) >= 1 and is_set(args[0]):
                return [(q, args[0])]
            x = c.fn.ex[n["a"][0]]
            if x["k"] == "ilist" or "initializer_list" in x.get("t", ""):
                s = EMPTY
                for e in x.get("c", []):
                    s = self.add(s, c.eng.ev(c.fn, e, c.env)) if s is not None else None
                return [(q, s)]
            return [(q | {"vague"}, None)] if args and args[0] is None else None
        if op in ("*", "->") and is_it(obj):
            t = self.elemof(obj)
            return [(q, t)] if t is not None else []
        if op in ("*", "->") and len(args) == 1 and is_it(args[0]):
            t = self.elemof(args[0])
            return [(q, t)] if t is not None else []
        if op in ("++", "--") and (is_it(obj) or args and is_it(args[0])):
            i = obj if is_it(obj) else args[0]
            if op == "--" or i[2] == END:
                return [(q, None, {"o": None})] if op == "--" else []
            outs = []
            post = len(args) == (1 if is_it(obj) else 2)
            for x in self.candidates(i):
                outs.append((q, i if post else x, {"o" if is_it(obj) else 0: x}))
            return outs
        if op in ("+", "-", "+=", "-=") and is_it(obj):
            return [(q | {"vague"}, None, {"o": None} if op in ("+=", "-=") else {})]
        if name in ("std::begin", "std::cbegin", "std::rbegin", "std::crbegin") and args and is_set(args[0]):
            return [(q, x) for x in self.begin(args[0], -1 if "r" == b.lstrip("c")[0] else 1)]
        if name in ("std::end", "std::cend", "std::rend", "std::crend") and args:
            return [(q, END)]
        if name in ("std::inserter", "std::back_inserter", "std::front_inserter") and n["a"]:
            ck = c.eng.cell(c.fn, n["a"][0], True, c.env)
            return [(q, ("out", ck) if ck is not None else None)]
        if name == "std::make_pair" and len(args) == 2:
            return [(q, ("rec", (("first", args[0]), ("second", args[1]))) if None not in args else None)]
        r = self.algorithm(q, c, args)
        if r is not None:
            return r
        if kind is None:
            if op == "=" and len(args) == 1 and name.startswith("std::pair<"):
                return self.assign(q, c, ("first", "second"), args[0])
            if op == "=" and len(args) == 1 and not c.targets and n.get("cls") in self.prog.records:
                return self.assign(q, c, c.eng.attributes(n["cls"]), args[0])
            return None
        mapped = kind in MAPS
        if b in ("end", "cend", "rend", "crend"):
            return [(q, END)]
        if b in ("begin", "cbegin", "rbegin", "crbegin"):
            if not is_set(obj):
                return [(q | {"vague"}, None)]
            return [(q, x) for x in self.begin(obj, -1 if b in ("rbegin", "crbegin") else 1)]
        if not is_set(obj):
            if b in esp.MUTATORS or op in ("=", "[]"):
                return None
            return None
        if op == "=":
            if args and is_set(args[0]):
                return [(q, args[0], {"o": args[0]})]
            return [(q | {"vague"}, None, {"o": None})]
        if b in ("size", "empty", "length"):
            if b == "empty" and obj[1] or not (obj[1] or obj[2] or obj[3]):
                return [(q, ("c", int(b == "empty" and not obj[1])))]
            if b == "size" and n.get("o") and indexed(c.fn, n["o"]):
                return [(q | {"vague"}, None)]      # followed by position in a way that is not understood
            return None
        if b in ("insert", "emplace", "emplace_back", "push_back", "push_front", "emplace_front", "emplace_hint",
                 "insert_or_assign", "try_emplace", "push"):
            rv = None
            if b in ("insert", "emplace_hint") and len(args) >= 2 and is_it(args[0]) and \
                    (is_it(args[1]) or args[1] == END):
                s = self.union(obj, self.range(args[0], args[1], kind))
            elif b == "insert" and len(args) == 3:
                s = self.union(obj, self.range(args[1], args[2], kind))
            elif b == "insert" and len(args) == 2 or b == "emplace_hint" and len(args) == 2:
                s = self.add(obj, args[1], 1)
                if kind in SEQ and args[0] != END:
                    s = s and (s[:4] + (-1 if is_it(args[0]) and not obj[1] and not obj[3] else 0,))
            elif len(args) == 1:
                s = self.add(obj, args[0], -1 if b.endswith("_front") else 1)
                if s and has_witness(args[0]):
                    new = ("?",)
                    if kind not in SEQ and "multi" not in kind:
                        k = self.key(args[0], mapped)
                        there = {t is not None for t, _ in self.find(obj, k, mapped) or ()} if k is not None else ()
                        new = ("c", int(not min(there))) if len(there) == 1 else new
                    rv = ("rec", (("first", self.it(s, args[0])), ("second", new)))
            elif mapped and len(args) == 2:
                s = self.add(obj, ("rec", (("first", args[0]), ("second", args[1])))
                             if args[0] is not None and args[1] is not None else None)
            else:
                s = None
            if s is not None and kind not in SEQ:
                s = s[:4] + (None,)
            return [(q if s is not None else q | {"vague"}, rv, {"o": s})]
        if b == "erase":
            if args and args[0] == ("tail",):
                return [(q, None, {"o": obj})]
            if len(args) == 1 and is_it(args[0]):
                t = self.elemof(args[0])
                if t is not None and t in obj[1] + obj[2]:
                    s = ("set", tuple(x for x in obj[1] if x != t), tuple(x for x in obj[2] if x != t)) + obj[3:]
                else:
                    s = obj
                outs = []
                base = ("it", s) + args[0][2:]
                for x in self.candidates(base):
                    outs.append((q, x, {"o": s}))
                return outs
            if len(args) == 1:
                s = self.drop(obj, args[0], mapped)
                return [(q, None, {"o": s})]
            return [(q | {"vague"}, None, {"o": None})]
        if b == "clear":
            return [(q, None, {"o": EMPTY})]
        if b in ("find", "lower_bound") and args:
            return [(q, self.it(s, t), {"o": s} if s != obj else {}) for t, s in self.find(obj, args[0], mapped)]
        if b in ("count", "contains") and args:
            outs = {}
            for t, s in self.find(obj, args[0], mapped):
                outs[(t is not None, s)] = 1
            return [(q, ("c", int(t)), {"o": s} if s != obj else {}) for t, s in outs]
        if (op == "[]" or b == "at") and args:
            if mapped:
                res = []
                for t, s in self.find(obj, args[0], True):
                    if t is not None and t[0] != "o":
                        v = dict(t[1]).get("second") if t[0] == "rec" else c.eng.looked(("fld", "second", t), c.env)
                        res.append((q, v, {"o": s} if s != obj else {}))
                    else:
                        ck = c.eng.cell(c.fn, n.get("o"), True, c.env)
                        res.append((q, ("ent", ck, args[0]) if ck is not None and args[0] is not None else None))
                return res
            a = args[0]
            if a is not None and a[0] == "op" and a[1:2] == ("-",) and a[3] == ("c", 1):
                a = a[2] if a[2][0] == "ix" and a[2][2] == "past" else None
            elif a is not None and a[0] == "ix" and a[2] == "past":
                a = None
            if a is not None and a[0] == "ix" and is_it(a[1]) and a[1][1] == obj:
                t = self.elemof(a[1])
                return [(q, t, {"o": obj} if untouched(c.eng, c.fn, n["i"]) else {})] if t is not None else []
            outs = [(q | {"vague"}, t) for t in obj[1] + obj[2]] + [(q | {"vague"}, ("o",) + o) for o in obj[3]]
            return outs or [(q | {"vague"}, None)]
        if b in ("front", "back"):
            outs = [(q | {"vague"}, t) for t in obj[1] + obj[2]] + [(q | {"vague"}, ("o",) + o) for o in obj[3]]
            return outs or [(q | {"vague"}, None)]
        if b == "merge" and args:
            s = self.union(obj, args[0]) if is_set(args[0]) else None
            return [(q if s else q | {"vague"}, None, {"o": s, 0: None})]
        if b == "swap" and args:
            return [(q, None, {"o": args[0] if is_set(args[0]) else None, 0: obj})]
        if b in esp.MUTATORS or b in ("sort", "unique", "remove_if", "resize", "assign", "pop_front"):
            if b == "sort":
                return [(q, None, {"o": obj[:4] + (0,)})]
            return [(q | {"vague"}, None, {"o": None})]
        return None

    def assign(self, q, c, fields, v):
        """an aggregate is assigned as a whole"""
        t = c.eng.objterm(c.fn, c.node, c.env)
        if t is None:
            return [(q, None)]
        ch = {}
        for f in fields:
            if v is not None and v[0] == "rec":
                ch[("M", ("fld", f, t))] = dict(v[1]).get(f)
            elif v is not None and v[0] in ("w", "o", "fld", "ent"):
                ch[("M", ("fld", f, t))] = c.eng.looked(("fld", f, v), c.env)
            else:
                ch[("M", ("fld", f, t))] = None
        return [(q, None, ch)]

    def range(self, a, z, kind=None):
        """content between two iterators"""
        if not is_it(a) or z != END and not (is_it(z) and z[2] == END):
            return None
        if a[3] and a[2] != a[3][0] or len(a[3]) > 1:
            return None
        s = a[1]
        if kind in SEQ:
            return s if s[4] == 0 else s[:4] + ((s[4] or 1) * a[4],)
        return s if kind is None else s[:4] + (None,)

    def whole(self, a, z):
        """[content] when the two iterators span a whole container; all positions of begin() are alike"""
        return self.range(a, z)

    def algorithm(self, q, c, args):
        name, b = c.name, c.base()
        if not name.startswith("std::") or ckind(name):
            return None
        if b in ("set_intersection", "set_difference", "set_union") and len(args) >= 5:
            x, y = self.first_only(args[0]), self.first_only(args[2])
            if x == () or y == ():
                return []
            s = self.combine(b, x, y)
            return self.output(q, c, args[4], s)
        if b in ("copy", "move", "unique_copy") and len(args) == 3:
            s = self.first_only(args[0])
            if s == ():
                return []
            return self.output(q, c, args[2], s)
        if b in ("copy_if", "remove_copy_if") and len(args) == 4:
            s = self.first_only(args[0])
            if s == ():
                return []
            return self.output(q, c, args[2], self.filter(q, c, s, args[3], b == "copy_if") if s else None)
        if b in ("find", "binary_search", "count") and len(args) == 3:
            s = self.first_only(args[0])
            if s == ():
                return []
            if s is None:
                return [(q | {"vague"}, None)]
            res = self.find(s, args[2], False)
            if b == "find":
                return [(q, self.it(r, t)) for t, r in res]
            return [(q, ("c", v)) for v in sorted({int(t is not None) for t, r in res})]
        if b in ("any_of", "all_of", "none_of", "find_if", "find_if_not", "count_if", "for_each") and len(args) == 3:
            return self.predicate(q, c, b, args[0], args[2])
        if b == "remove_if" and len(args) == 3 and is_it(args[0]):
            ck, s = self.source(c, 0), self.first_only(args[0])
            if s == ():
                return []
            r = self.filter(q, c, s, args[2], False)
            if ck is None or r is None:
                return [(q | {"vague"}, None)] + ([(q, None, {ck: None})] if ck else [])
            return [(q, ("tail",), {ck: r})]
        if b in ("erase_if", "erase") and len(args) == 2 and is_set(args[0]):
            return self.filtered(q, c, args[0], args[1], b == "erase_if")
        if b in ("sort", "stable_sort", "reverse", "unique", "remove_if", "remove", "partition") and args and (
                is_it(args[0])):
            ck = self.source(c, 0)
            if ck is None:
                return [(q | {"vague"}, None)]
            s = args[0][1]
            if b == "unique":
                return [(q, ("tail",))]
            s = s[:4] + (-s[4] if s[4] in (1, -1) and b == "reverse" else 0,) if b in (
                "sort", "stable_sort", "reverse") else None
            return [(q if s else q | {"vague"}, None, {ck: s})]
        return None

    def filtered(self, q, c, s, x, pred):
        """std::erase / std::erase_if on argument 0"""
        r = self.filter(q, c, s, x, False) if pred else self.drop(s, x, False)
        return [(q if r is not None else q | {"vague"}, None, {0: r})]

    def filter(self, q, c, s, fv, want):
        """content of the elements for which the callable's truth is `want`"""
        t = self.callable(fv)
        if t is None or s is None:
            return None
        sure, maybe, others = [], list(s[2]), []
        for e in s[1] + s[2] + tuple(("o",) + o for o in s[3]):
            tv = set()
            for kind, q2, val, e2 in self.apply(c, t, q, c.env, e):
                v = c.eng.truth(val, e2) if val is not None else None
                tv |= {True, False} if v is None else {v}
            if e[0] == "o":
                if want in tv:
                    others.append(e[1:])
            elif tv == {want} and e in s[1]:
                sure.append(e)
            elif want not in tv:
                maybe = [m for m in maybe if m != e]
            elif e not in maybe:
                maybe.append(e)
        return ("set", tuple(sure), tuple(sorted(maybe, key=repr)), tuple(others), s[4])

    def callable(self, fv):
        if fv is None or fv[0] not in ("lambda", "fn"):
            return None
        t = self.prog.fns.get(fv[1] if fv[0] == "lambda" else fv[2])
        return t if t is not None and t.params else None

    def source(self, c, i):
        """cell of the container whose begin() is argument i"""
        n = c.fn.ex.get(c.node["a"][i]) if i < len(c.node["a"]) else None
        if n and n["k"] == "call" and n.get("o"):
            return c.eng.cell(c.fn, n["o"], True, c.env)
        return None

    def first_only(self, a):
        """content of the container `a` begins; () for all but one of begin()'s outcomes"""
        if not is_it(a):
            return None
        same = self.begin(a[1], a[4])
        if same and a[2:4] != same[0][2:4]:
            return ()
        return a[1]

    def output(self, q, c, out, s):
        if out is not None and out[0] == "out":
            ck = out[1]
            cur = c.env.get(ck)
            if cur is None and ck[0] == "M":
                cur = c.eng.looked(ck[1], c.env)
            r = self.union(cur, s) if is_set(cur) and is_set(s) else None
            return [(q if r is not None else q | {"vague"}, None, {ck: r})]
        return [(q, None)]

    def predicate(self, q, c, b, start, fv):
        """an algorithm applying a callable to the elements in turn"""
        t = self.callable(fv)
        if t is None or not is_it(start):
            return [(q | {"vague"}, None)]
        stop = {"any_of": True, "none_of": True, "find_if": True, "all_of": False, "find_if_not": False}.get(b)
        work, seen, outs = [(q, c.env, start)], set(), []
        while work:
            q1, e1, it = work.pop()
            k = (q1, esp.freeze(e1), it)
            if k in seen:
                continue
            seen.add(k)
            if it[2] == END:
                v = {"any_of": ("c", 0), "none_of": ("c", 1), "all_of": ("c", 1), "find_if": it,
                     "find_if_not": it}.get(b)
                outs.append((q1, v, dict_of(c.env, e1)))
                continue
            for kind, q2, val, e2 in self.apply(c, t, q1, e1, it[2]):
                if kind == "exc":
                    continue
                tv = c.eng.truth(val, e2) if val is not None and stop is not None else None
                for v in (True, False) if tv is None and stop is not None else (tv,):
                    if v is not None and v == stop:
                        r = {"any_of": ("c", 1), "none_of": ("c", 0), "all_of": ("c", 0)}.get(b, it)
                        outs.append((q2, r, dict_of(c.env, e2)))
                    else:
                        work += [(q2, e2, x) for x in self.candidates(it)]
        return outs

    def apply(self, c, t, q, env, x):
        eng = c.eng
        cenv = {k: v for k, v in env.items() if k[0] in ("F", "C", "M", "A")}
        caps = {}
        if t.is_lambda:
            caps = eng.capture_map(t, c.fn)
            for i, o in caps.items():
                if ("v", o) in env:
                    cenv[("v", i)] = env[("v", o)]
                elif ("r", o) in env:
                    cenv[("r", i)] = env[("r", o)]
                else:
                    cenv[("r", i)] = ("l?",)
                    del cenv[("r", i)]
        cenv[("v", t.params[0]["d"])] = x
        for kind, q2, val, keep in eng.call_fn(t, q, cenv, c.frame, c.node, None):
            e2 = {k: v for k, v in env.items() if k[0] not in ("F", "C", "M", "A")}
            for kk, vv in keep:
                if kk[0] == "O":
                    continue
                if kk[0] == "L":
                    o = caps.get(kk[1])
                    if o is not None:
                        if vv == ("gone",):
                            e2.pop(("v", o), None)
                        else:
                            e2[("v", o)] = vv
                    continue
                e2[kk] = vv
            yield kind, q2, val, e2


def dict_of(old, new):
    """changes of an environment, as on_call results want them"""
    out = {}
    for k, v in new.items():
        if k[0] in ("F", "M", "v") and old.get(k) != v:
            out[k] = v
    for k in old:
        if k[0] in ("F", "M", "v") and k not in new:
            out[k] = None
    return out


def untouched(eng, fn, i):
    """is the thing an expression denotes left as it is by all uses of the expression"""
    cs = eng.consumers(fn).get(i)
    if not cs:
        return fn.ex[i].get("rd", False)
    for x in cs:
        if x <= 0:
            continue
        n = fn.ex.get(x)
        k = n["k"]
        if k == "mth" or n.get("rd"):
            continue
        if k == "bin" and not (n["op"].endswith("=") and n["op"] not in esp.COMPARE and n["c"][0] == i):
            continue
        if k == "un" and n["op"] not in ("&", "++", "--"):
            continue
        if k == "fld" and untouched(eng, fn, x):
            continue
        if k in ("call", "ctor"):
            if n.get("o") == i and not n.get("cm"):
                return False
            pk = n.get("pk", "")
            if all(y != i or j < len(pk) and pk[j] in "cv" or n.get("copy") for j, y in enumerate(n["a"])):
                continue
            return False
        if k == "decl" and all(v.get("init") != i or not v.get("ref") and "*" not in v["t"] or
                               v["t"].startswith("const ") for v in n["vars"]):
            continue
        if k == "cond" and untouched(eng, fn, x):
            continue
        if k == "ret" and not (fn.ret or "").rstrip().endswith("&"):
            continue
        return False
    return True


def name_of(fn, i):
    """what an expression names, if it is a plain variable or attribute"""
    n = fn.ex.get(i)
    if n is None:
        return None
    if n["k"] == "ref":
        return ("d", n["d"]) if "d" in n else ("q", n.get("q"))
    if n["k"] == "fld":
        b = fn.ex.get(n.get("b"))
        if n.get("this") or b is not None and b["k"] == "this":
            return ("f", n["q"])
        b = name_of(fn, n.get("b"))
        return ("f", n["q"], b) if b is not None else None
    if n["k"] == "ctor" and n.get("copy") and len(n["a"]) == 1:
        return name_of(fn, n["a"][0])
    return None


def plain_var(fn, i):
    n = fn.ex.get(i)
    return n["d"] if n is not None and n["k"] == "ref" and n.get("dk") == "local" and "d" in n else None


def is_size(fn, i):
    """the container an expression is the size of"""
    n = fn.ex.get(i)
    if n is not None and n["k"] == "call" and not n["a"] and n.get("o") and ckind(n.get("fn")) in SEQ and \
            n["fn"].rsplit("::", 1)[-1] == "size":
        return name_of(fn, n["o"])
    return None


def indexed(fn, i):
    """is the container reached by position in this function, other than by the variables of indexes()"""
    r = fn._cache.get("windexed")
    if r is None:
        r, known = set(), set()
        ix = indexes(fn)
        for n in fn.ex.values():
            if n["k"] == "call" and ckind(n.get("fn")) in SEQ and n["a"] and n.get("o") and \
                    (n.get("op") == "[]" or n["fn"].rsplit("::", 1)[-1] == "at"):
                a = fn.ex[n["a"][0]]
                if "v" in a or plain_var(fn, a["i"]) in ix or \
                        a["k"] == "bin" and plain_var(fn, a["c"][0]) in ix:
                    continue
                r.add(name_of(fn, n["o"]))
        fn._cache["windexed"] = r
    return name_of(fn, i) in r


def indexes(fn):
    """local variable -> (container, direction, kind) for variables that go through all positions of a container:
    kind "at" - holds the position; "past" - the position plus one; "down" - counted down by its own test"""
    r = fn._cache.get("windexes")
    if r is not None:
        return r
    r = fn._cache["windexes"] = {}
    if any(n["k"] == "lambda" for n in fn.ex.values()):
        return r
    init, step, at, bad, tests = {}, {}, {}, set(), {}
    seen = set()                       # references accounted for
    sizes = {}                         # locals holding a size

    def var(i):
        d = plain_var(fn, i)
        if d is not None:
            seen.add(i)
        return d
    for n in fn.ex.values():
        if n["k"] == "decl":
            for v in n["vars"]:
                if v.get("init") and not v.get("ref") and not v.get("static"):
                    sz = is_size(fn, v["init"])
                    if sz is not None and v["t"].startswith("const"):
                        sizes[v["d"]] = sz
    for n in fn.ex.values():
        if n["k"] == "decl":
            for v in n["vars"]:
                if v.get("init") and not v.get("ref") and not v.get("static"):
                    init.setdefault(v["d"], []).append(v["init"])
        elif n["k"] == "bin" and n["op"] == "=":
            d = var(n["c"][0])
            if d is not None:
                init.setdefault(d, []).append(n["c"][1])
        elif n["k"] == "bin" and n["op"] in ("+=", "-="):
            d = var(n["c"][0])
            if d is not None:
                if fn.ex[n["c"][1]].get("v") == 1:
                    step.setdefault(d, set()).add("++" if n["op"] == "+=" else "--")
                else:
                    bad.add(d)
        elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in esp.COMPARE:
            bad.add(var(n["c"][0]))
        elif n["k"] == "un" and n["op"] in ("++", "--"):
            d = var(n["c"][0])
            if d is not None:
                step.setdefault(d, set()).add(n["op"])
        elif n["k"] == "un" and n["op"] == "&":
            bad.add(var(n["c"][0]))
        elif n["k"] == "bin" and n["op"] in esp.COMPARE:
            for x, y in (n["c"], n["c"][::-1]):
                m = fn.ex[x]
                if m["k"] == "un" and m["op"] == "--" and m.get("post"):
                    d = plain_var(fn, m["c"][0])
                    if d is not None:
                        tests.setdefault(d, []).append(("down", n["i"], y))
                d = plain_var(fn, x)
                if d is not None:
                    tests.setdefault(d, []).append((n["op"] if x == n["c"][0] else MIRROR[n["op"]], n["i"], y))
        elif n["k"] == "call" and ckind(n.get("fn")) in SEQ and n["a"] and n.get("o") and \
                (n.get("op") == "[]" or n["fn"].rsplit("::", 1)[-1] == "at"):
            a = fn.ex[n["a"][0]]
            form = "at"
            if a["k"] == "bin" and a["op"] == "-" and fn.ex[a["c"][1]].get("v") == 1:
                a, form = fn.ex[a["c"][0]], "past"
            d = plain_var(fn, a["i"])
            if d is not None:
                at.setdefault(d, set()).add((name_of(fn, n["o"]), form))
    for blk in fn.blocks.values():
        t = blk.get("term") or {}
        m = fn.ex.get(t.get("cond"))
        if m is not None and m["k"] == "un" and m["op"] == "--" and m.get("post") and plain_var(fn, m["c"][0]):
            tests.setdefault(plain_var(fn, m["c"][0]), []).append(("down", m["i"], None))
        if m is not None and plain_var(fn, m["i"]) is not None:
            tests.setdefault(plain_var(fn, m["i"]), []).append(("nz", m["i"], None))
    for d, uses in at.items():
        conts = {c for c, _ in uses}
        forms = {f for _, f in uses}
        if d in bad or len(conts) != 1 or None in conts or len(forms) != 1 or len(init.get(d, ())) != 1 or \
                len(step.get(d, ())) != 1 or not tests.get(d):
            continue
        cont, form, st = min(conts), min(forms), min(step[d])
        x = fn.ex[init[d][0]]

        def size_of(i):
            s = is_size(fn, i)
            return s if s is not None else sizes.get(plain_var(fn, i))

        def zero(y):
            return y is not None and fn.ex[y].get("v") == 0
        if st == "++" and form == "at" and x.get("v") == 0:
            if all(op in ("<", "!=") and size_of(y) == cont for op, i, y in tests[d]):
                r[d] = (cont, 1, "at")
        elif st == "--" and size_of(x["i"]) == cont:
            down = [t for t in tests[d] if t[0] == "down"]
            if down and form == "at" and len(down) == len(tests[d]) == 1 and (
                    down[0][2] is None or zero(down[0][2]) and fn.ex[down[0][1]]["op"] in (">", "!=")):
                r[d] = (cont, -1, "down")
            elif not down and form == "past" and all(
                    op == "nz" or op in (">", "!=") and zero(y) or op == ">=" and fn.ex[y].get("v") == 1
                    for op, i, y in tests[d]):
                r[d] = (cont, -1, "past")
        elif st == "--" and form == "at" and x["k"] == "bin" and x["op"] == "-" and fn.ex[x["c"][1]].get("v") == 1 and \
                size_of(x["c"][0]) == cont:
            if all(op == ">=" and zero(y) or op in (">", "!=") and fn.ex[y].get("v") == -1 for op, i, y in tests[d]):
                r[d] = (cont, -1, "at")
    return r


MIRROR = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}


class WEngine(esp.Engine):
    # ---------------------------------------------------- loops by position
    def ev(self, fn, i, env, depth=0):
        n = fn.ex.get(i)
        if n is not None and ("x", i) not in env:
            if n["k"] == "bin" and n["op"] in esp.COMPARE or n["k"] == "ref" and n.get("dk") == "local":
                for x in n["c"] if n["k"] == "bin" else ():
                    m = fn.ex.get(x)
                    if m is None:
                        continue
                    v = env.get(("x", x)) if m["k"] == "un" else env.get(("v", m.get("d"))) if m["k"] == "ref" else None
                    if v is not None and v[0] == "ix" and is_it(v[1]):
                        return ("c", int(v[1][2] != END))
        return super().ev(fn, i, env, depth)

    def norm0(self, v, pol=True):
        x, p = v, pol
        while x is not None and x[0] == "not":
            x, p = x[1], not p
        if x is not None and x[0] == "ix":
            return ("const", (x[1][2] != END) == p)
        return super().norm0(v, pol)

    def element(self, fn, fr, blk, i, e, q, env):
        n = fn.ex[e] if isinstance(e, int) else None
        if n is not None:
            d = init = None
            if n["k"] == "decl" and len(n["vars"]) == 1 and n["vars"][0].get("init"):
                d, init = n["vars"][0]["d"], n["vars"][0]["init"]
            elif n["k"] == "bin" and n["op"] == "=":
                d, init = plain_var(fn, n["c"][0]), n["c"][1]
            if d is not None and d in indexes(fn):
                return self.start_index(fn, n, d, init, q, env)
            if n["k"] == "un" and n["op"] in ("++", "--") or n["k"] == "bin" and n["op"] in ("+=", "-="):
                d = plain_var(fn, n["c"][0])
                if d is not None and env.get(("v", d), ("?",))[0] == "ix":
                    return self.step_index(fn, n, d, q, env)
        return super().element(fn, fr, blk, i, e, q, env)

    def start_index(self, fn, n, d, init, q, env):
        cont, way, kind = indexes(fn)[d]
        env = self.drop_temp(fn, env, init)
        content = self.content(fn, cont, env)
        if not is_set(content):
            return [("next", q | {"vague"}, self.kill_var(env, fn, d))]
        outs = []
        for x in self.S.begin(content, way):
            e2 = dict(self.kill_var(env, fn, d))
            e2[("v", d)] = ("ix", x, kind, 0)
            outs.append(("next", q, e2))
        return outs

    def content(self, fn, cont, env):
        """the container of a loop by position"""
        for n in fn.ex.values():
            if n["k"] in ("ref", "fld") and name_of(fn, n["i"]) == cont:
                return self.ev(fn, n["i"], env)
        return None

    def step_index(self, fn, n, d, q, env):
        v = env[("v", d)]
        outs = []
        if v[2] == "down" and v[3] == 0:            # the first test: nothing is skipped
            news = [v[:3] + (1,)]
            olds = news
        else:
            if v[1][2] == END:
                return []
            news = [("ix", x) + v[2:] for x in self.S.candidates(v[1])]
            olds = news if v[2] == "down" else [v] * len(news)
        for new, old in zip(news, olds):
            e2 = dict(self.consume(fn, n, self.kill_var(env, fn, d)))
            e2[("v", d)] = new
            if self.consumers(fn).get(n["i"]):
                e2[("x", n["i"])] = old if n.get("post") else new
            outs.append(("next", q, e2))
        return outs

    def relevant(self, fn):
        if not self.relcache:
            self.relcache = relevance(self.P, self.S)
        return self.relcache.get(fn.key, False)

    def descend(self, fn, fr, c, t, q, env, n, args, dyn):
        d, again, x = 0, 0, fr
        while x is not None:
            d += 1
            again += x.fn.key == t.key
            x = x.parent
        if again > self.S.recursion:
            return [("next", q | {"vague"}, env)]
        if again:
            # the locals of the pending activation
            of = lambda t_: t_[0] == "l" and t_[1] == t.key
            kept = {k: v for k, v in env.items() if k[0] == "M" and esp.mentions(k[1], of)}
            env = {k: v for k, v in env.items() if k not in kept}
            return esp.dedup([(r[0], r[1], {**{k: v for k, v in r[2].items() if not (
                k[0] == "M" and esp.mentions(k[1], of))}, **kept}) for r in
                self.enter_function(fn, fr, c, t, q, env, n, args, dyn, d)])
        return self.enter_function(fn, fr, c, t, q, env, n, args, dyn, d)

    def enter_function(self, fn, fr, c, t, q, env, n, args, dyn, d):
        if d > 8:
            return [("next", q | {"vague"}, env)]
        other = t.cls and not t.is_lambda and not t.static and n is not None and not n.get("othis") and \
            c.obj != ("this",)
        if not other:
            return super().descend(fn, fr, c, t, q, env, n, args, dyn)
        # the attributes of another object
        mine = self.attributes(t.cls)
        inner = {k: v for k, v in env.items() if not (k[0] == "M" and k[1][0] == "f" and k[1][1] in mine)}
        saved = {k: v for k, v in env.items() if k not in inner}
        ot = self.objterm(fn, n, env) if n["k"] == "call" else None
        if ot is not None:
            for f in mine:
                v = self.looked(("fld", f, ot), env)
                if v is not None and v != ("fld", f, ot):
                    inner[("M", ("f", f))] = v
                    inner.pop(("M", ("fld", f, ot)), None)
        outs = []
        for r in super().descend(fn, fr, c, t, q, inner, n, args, dyn):
            e2 = {}
            for k, v in r[2].items():
                if k[0] == "M" and k[1][0] == "f" and k[1][1] in mine:
                    if ot is not None:
                        e2[("M", ("fld", k[1][1], ot))] = v
                else:
                    e2[k] = v
            e2.update(saved)
            outs.append((r[0], r[1], e2))
        return esp.dedup(outs)

    def objterm(self, fn, n, env):
        """the term attributes of the object of a call are written with"""
        if not n.get("o"):
            return None
        on = fn.ex[n["o"]]
        if on["k"] == "ref" and "d" in on and ("v", on["d"]) not in env and ("r", on["d"]) not in env:
            return ("l", fn.key, on["d"])
        ck = self.cell(fn, n["o"], True, env)
        if ck is not None and ck[0] == "M":
            v = env.get(ck)
            return ck[1] if v is None else v if v[0] in ("w", "o", "fld", "ent", "l") else ck[1]
        v = self.ev(fn, n["o"], env)
        if v is not None and v[0] == "addr":
            v = v[1]
        return v if v is not None and v[0] in ("w", "o", "fld", "ent", "l", "p") else None

    def attributes(self, cls):
        r = self._vartypes.get(("attributes", cls))
        if r is None:
            r, st, seen = set(), [cls], set()
            while st:
                x = st.pop()
                if x in seen or x not in self.P.records:
                    continue
                seen.add(x)
                r |= {x + "::" + f["n"] for f in self.P.records[x]["fields"]}
                st += self.P.records[x]["bases"]
            self._vartypes[("attributes", cls)] = r
        return r

    def dead(self, fn, b):
        """locals not used any more from the start of a block on"""
        r = fn._cache.get("wdead")
        if r is None:
            r = fn._cache["wdead"] = liveness(fn)
        return r.get(b, frozenset())


def liveness(fn):
    """block -> plain locals whose value is not read at or after its start"""
    alld, pinned, use = set(), set(), {}
    up = {}
    for n in fn.ex.values():
        if n["k"] == "decl":
            for v in n["vars"]:
                alld.add(v["d"])
                if v.get("ref") and v.get("init"):
                    st = [v["init"]]
                    while st:
                        x = fn.ex.get(st.pop())
                        if x is None:
                            continue
                        if x["k"] == "ref" and "d" in x:
                            pinned.add(x["d"])
                        st += children(x)
        if n["k"] == "lambda":
            return {}
        if n["k"] == "un" and n["op"] == "&":
            x = fn.ex.get(n["c"][0])
            if x and x["k"] == "ref" and "d" in x:
                pinned.add(x["d"])
    alld |= {p["d"] for p in fn.params if not p.get("ref") and "*" not in p["t"]}

    def refs(i, out, seen):
        if not i or i in seen:
            return
        seen.add(i)
        n = fn.ex.get(i)
        if n is None:
            return
        if n["k"] == "ref" and "d" in n:
            out.add(n["d"])
        if n["k"] == "decl":
            for v in n["vars"]:
                refs(v.get("init"), out, seen)
        for ch in children(n):
            refs(ch, out, seen)
    for b, blk in fn.blocks.items():
        u, seen = set(), set()
        for e in blk["e"]:
            if isinstance(e, int):
                refs(e, u, seen)
            elif e.get("x"):
                refs(e["x"], u, seen)
        t = blk.get("term")
        if t and t.get("cond"):
            refs(t["cond"], u, seen)
        use[b] = u
    live = {b: set(use[b]) for b in fn.blocks}
    ch = True
    while ch:
        ch = False
        for b, blk in fn.blocks.items():
            s = set(use[b])
            for x in blk["s"]:
                if x is not None:
                    s |= live[x]
            if blk.get("term") and blk["term"]["k"] == "CXXTryStmt":
                pass
            if s != live[b]:
                live[b] = s
                ch = True
    # an exception may resume at any handler
    hand = set()
    for b, blk in fn.blocks.items():
        if blk.get("lab") == "catch" or (blk.get("term") or {}).get("k") == "CXXTryStmt":
            hand |= live[b]
    return {b: frozenset(alld - pinned - live[b] - hand) for b in fn.blocks}


def relevance(prog, spec):
    """functions that touch containers or aggregates, have effects, or lead to such"""
    callers, rel = {}, set()
    for f in prog.fns.values():
        hit = False
        for p in [{"t": f.ret or ""}] + f.params:
            t = esp.clean_type(p["t"])
            if ckind(t) or t in prog.records and f.cls != t:
                hit = True
        for n in f.nodes():
            if n["k"] in ("call", "ctor"):
                if effects.fs_effect(f, n) is not None or ckind(n.get("fn") or "") or \
                        (n.get("fn") or "").startswith("archive_") or spec.interest(n.get("fn") or ""):
                    hit = True
                for t in prog.targets(n):
                    callers.setdefault(t.key, set()).add(f.key)
            if n["k"] in ("lambda", "ref") and n.get("fk"):
                callers.setdefault(n["fk"], set()).add(f.key)
            if n["k"] == "fld" and ckind(esp.clean_type(n.get("t", ""))):
                hit = True
        if spec.about is not None:
            hit = any(n["k"] == "fld" and n["q"] in spec.about for n in f.nodes()) or any(
                n["k"] in ("call", "ctor") and spec.interest(n.get("fn") or "") for n in f.nodes()) or any(
                a in p["t"] for p in [{"t": f.ret or ""}] + f.params for a in spec.about)
        for b, i, e in f.elems():
            if isinstance(e, dict) and e["k"] != "init":
                for t in prog.fn(esp.clean_type(e["t"]) + "::~" + esp.clean_type(e["t"]).rsplit("::", 1)[-1]):
                    callers.setdefault(t.key, set()).add(f.key)
        if hit:
            rel.add(f.key)
    st = list(rel)
    while st:
        for k in callers.get(st.pop(), ()):
            if k not in rel:
                rel.add(k)
                st.append(k)

    def excluded(f):
        if f.name.rsplit("::", 1)[-1] in spec.skip:
            return True
        while f.is_lambda and f.parent is not None:
            f = f.parent
        return f.cls in spec.skip_classes
    return {k: k in rel and not excluded(f) for k, f in prog.fns.items()}
