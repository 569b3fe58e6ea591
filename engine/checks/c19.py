"""C19: command lines that have to be refused are, on every path and before anything else; no argument beyond the end
of the argument vector is used.

The mains are explored with an argument vector of a fixed length whose members are only known by what decides their
fate: being a word a parser knows or not, beginning with a dash, requiring a value, bringing one. Tests on them are
answered accordingly, all else is unknown."""
import re

import effects
import esp
import facts
from checks.common import CardsSpec, error_fields, family, mains, parallel
from checks.c15 import command_values

ARGV = ("argv",)
OTHER = -1      # a character no literal of the program is


def token(v):
    """index of the argument a value is (the text itself)"""
    if v is None:
        return None
    if v[0] == "idx" and v[2] and v[2][0] == "c":
        o = offset(v[1])
        return o + v[2][1] if o is not None else None
    if v[0] == "un" and v[1] == "*":
        return offset(v[2])
    if v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("basename", "__xpg_basename", "gettext") and v[3]:
        return token(v[3][0])
    return None


def offset(v):
    """v as a position in the argument vector"""
    if v == ARGV:
        return 0
    if v and v[0] == "op" and v[1] == "+" and v[2] == ARGV and v[3] and v[3][0] == "c":
        return v[3][1]
    return None


def tail(v):
    """(argument, number of leading characters left out)"""
    k = token(v)
    if k is not None:
        return k, 0
    if v and v[0] == "op" and v[1] == "+" and v[3] and v[3][0] == "c":
        t = tail(v[2])
        return (t[0], t[1] + v[3][1]) if t else None
    if v and v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("substr", "basic_string") and v[3]:
        b, p = (v[2], v[3][0]) if v[1].endswith("substr") else (v[3][0], ("c", 0))
        t = tail(b)
        return (t[0], t[1] + p[1]) if t and p and p[0] == "c" else None
    return None


def char(v):
    """(argument, position) of a character"""
    if v is None:
        return None
    b, j = None, None
    if v[0] == "idx" and v[2] and v[2][0] == "c":
        b, j = v[1], v[2][1]
    elif v[0] == "un" and v[1] == "*":
        b, j = v[2], 0
    elif v[0] == "call" and v[2] is not None:
        n = v[1].rsplit("::", 1)[-1]
        if n in ("operator[]", "at") and v[3] and v[3][0] and v[3][0][0] == "c":
            b, j = v[2], v[3][0][1]
        elif n == "front":
            b, j = v[2], 0
    t = tail(b) if b is not None else None
    return (t[0], t[1] + j) if t else None


def about(v):
    """the argument a term speaks of"""
    out = []

    def see(t):
        k = token(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else None
        if k is not None:
            out.append(k)
        return False
    esp.mentions(v, see)
    return out[0] if out else None


class Tok:
    """what is known of one argument"""

    def __init__(self, text=None, chars="", known=False, value=None, eq=None):
        self.text = text          # the exact word, or None: some word the program does not spell
        self.chars = [ord(x) for x in (text if text is not None else chars)]
        self.whole = text is not None or chars.endswith("\0")
        self.known = known        # found where the parser looks words up
        self.value = value        # the option it names requires a value
        self.eq = eq              # a value is given behind '=': None: no '=', "": nothing behind it

    def at(self, j):
        if j < len(self.chars):
            return self.chars[j]
        return 0 if self.whole and j == len(self.chars) else OTHER if j == len(self.chars) else None


class Vector(CardsSpec):
    """fixed length, members as given (None: anything)"""
    counters = 8
    deciding = True
    max_states = 3000000
    transparent = frozenset({"strdup", "basename", "__xpg_basename"})

    def __init__(self, prog, toks, argc=None):
        self.prog = prog
        self.toks = toks
        self.argc = argc if argc is not None else len(toks)
        self.fields = error_fields(prog)
        self.hits = {}

    def keep(self, v):
        return v[0] in ("new", "size") or v in (ARGV, ("empty",)) or esp.mentions(v, lambda t: t == ARGV) or \
            v[0] == "s" and len(v[1]) < 24

    def track(self, a):
        return esp.mentions(a, lambda t: t == ARGV)

    def answer(self, atom):
        k = about(atom)
        if k is None:
            return None
        if k >= self.argc:
            return False if atom[0] == "nz" and token(atom[1]) == k and k == self.argc else None
        t = self.toks[k] if k < len(self.toks) else None
        if atom[0] == "nz" and token(atom[1]) == k:
            return True
        if t is None:
            return None
        r = self.about_token(atom, k, t)
        if r is not None:
            self.hits[k] = self.hits.get(k, 0) + 1
        return r

    decide = answer

    def about_token(self, atom, k, t):
        a = atom[1]
        if atom[0] in ("eq", "nz"):
            c = char(a)
            if c is not None:
                x = t.at(c[1])
                if x is None:
                    return None
                if atom[0] == "nz":
                    return x != 0
                return x == atom[2] if isinstance(atom[2], int) else None
            if a[0] == "size" and tail(a[1]) == (k, 0):
                return (True if t.chars or not t.whole else False) if atom[0] == "nz" else \
                    False if atom[2] == 0 and t.chars else None
            if a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("strchr", "index", "strstr", "memchr"):
                return (t.eq is not None) if atom[0] == "nz" else None
            if a[0] in ("un", "idx") and esp.mentions(a, lambda y: y[0] == "call" and y[1] in ("strchr", "index")):
                return bool(t.eq) if atom[0] == "nz" else None
            if a[0] == "op" and atom[0] == "nz" and esp.mentions(a, lambda y: y[0] == "call" and y[1] in ("strchr", "index")):
                return t.eq is not None
            if a[0] == "call" and a[1].rsplit("::", 1)[-1] in ("strcmp", "compare", "strcasecmp"):
                xs = [x for x in (a[2],) + tuple(a[3]) if x is not None and x[0] == "s"]
                if len(xs) == 1:
                    same = t.text == xs[0][1]
                    if atom[0] == "nz":
                        return not same
                    return True if same and atom[2] == 0 else False if atom[2] == 0 else None
            if a[0] in ("fld", "f") and a[1].rsplit("::", 1)[-1] == "requiresValue" and atom[0] == "nz":
                return t.value
            if atom[0] == "eq" and isinstance(atom[2], tuple):
                x, y = a, atom[2]
                if y[0] != "s":
                    x, y = y, x
                if y[0] == "s":
                    w = tail(x)
                    if w is not None and w[1] == 0:
                        return t.text == y[1]
                    if w is not None and t.text is not None:
                        return t.text[w[1]:] == y[1]
                    return False if w is not None and not t.known else None
        if atom[0] == "has":            # (what is installed is another matter)
            return None if atom[1][0] == "f" and atom[1][1].startswith("pkgdbh::m_listOf") else t.known
        return None


class Settled(Exception):
    pass


def small(prog):
    """functions answering something about words and numbers alone"""
    fit = re.compile(r"^(const )?(int|unsigned int|unsigned long|size_t|std::size_t|bool|char|std::string|string|"
                     r"std::basic_string<char>|char \*|const char \*)( const)?( ?[&*]+| \*const \*| \*\*)?$")
    return {f.key for f in prog.fns.values() if not f.is_lambda and f.params and
            (f.ret or "") in ("bool", "int", "char", "unsigned int", "unsigned long") and
            all(fit.match(p.get("t", "")) for p in f.params) and len(f.blocks) < 12}


class Refused(Vector):
    """q = None yet | what was taken for granted"""

    max_states = 800000

    def __init__(self, prog, toks, name, fixed, subject=()):
        Vector.__init__(self, prog, toks)
        self.subject = subject
        self.small = small(prog)
        self.name, self.fixed = name, fixed
        self.tools = family(prog)
        self.fields = self.fields | scalars(prog, self.tools)
        self.ends = {}

    def calls(self, n):
        return effects.is_fs_name(n) or n in ("exit", "_exit", "_Exit") or n.endswith("::getCmdValue")

    def node_relevant(self, fn, n):
        return fn.key in self.small or n["k"] == "throw" or n["k"] == "fld" and fn.ret == "bool" and n["q"].startswith("pkgdbh::m_listOf")

    def decide(self, atom):
        r = self.fixed(atom) if self.fixed else None
        if r is not None:
            self.hits["fixed"] = 1
            return r
        if atom[0] == "nz" and atom[1] is not None and atom[1][0] == "call" and atom[1][1] in ("getuid", "geteuid"):
            return False
        return self.answer(atom)

    def on_call(self, q, c):
        if c.name.endswith("::getCmdValue"):
            self.bad("accepted", c)
            return []
        eff = effects.fs_effect(c.fn, c.node)
        if eff is not None and eff[0] != "lock":
            if eff[0] in ("delete", "create", "write", "extract"):
                self.ends[("effect", c.fn.name, c.name)] = (eff[0], c.loc)
                self.settle()
                return []
        return None

    def bad(self, what, c):
        self.ends[(what, c.fn.name)] = (what, c.loc)
        self.settle()

    def settle(self):
        # (one accepted way is enough when what was asked has been decided)
        if all(self.hits.get(k) for k in self.subject):
            raise Settled()

    def status(self, v, c, how):
        if v is None or v[0] != "c" or v[1] & 0xff == 0:
            self.ends[("status", how, c.fn.name)] = (str(v), c.loc)
            self.settle()

    def on_exit_process(self, q, c):
        if c.base() in ("exit", "_exit", "_Exit"):
            self.status(c.args[0] if c.args else None, c, "exit")

    def on_return(self, q, fn, val, c):
        if c.frame.parent is None:
            self.status(val, c, "return")
        return q


def scalars(prog, classes):
    out = set()
    for r in classes:
        for f in (prog.records.get(r) or {"fields": []})["fields"]:
            t = esp.clean_type(f["t"])
            if t in ("int", "unsigned int", "bool", "std::string", "std::basic_string<char>", "string"):
                out.add(r + "::" + f["n"])
    return frozenset(out)


# words of the tools' own help, with whether a value follows
TOOLS = {
    "pkgadd": ([("-r", 1), ("--root", 1), ("-i", 0), ("-u", 0), ("--force", 0)], "<file>"),
    "pkgrm": ([("-r", 1), ("--root", 1), ("-p", 0)], "<package>"),
    "pkginfo": ([(o, 1) for o in ("-r", "--root", "-d", "--details", "-l", "--list", "-R", "--runtimedep", "-o", "--owner",
                                  "-a", "--archive", "-m", "--meta", "-f", "--footprint", "-L", "--libraries",
                                  "--runtimedepfiles", "--runtimelibs", "-b", "--buildtime")] + [("-i", 0), ("-n", 0)], None),
}


def word(t):
    return Tok(text=t)


OPERAND = dict(chars="x")


def operand():
    return Tok(chars="x")


def unknown(long):
    return Tok(chars="--") if long else Tok(chars="-%c\0" % 1)


def tool_worlds():
    for tool, (opts, op) in TOOLS.items():
        me = word(tool)
        for long in (True, False):
            u = "an unknown %s option" % ("long" if long else "short")
            if op:
                yield tool, u + " alone", [me, unknown(long)], (1,)
                yield tool, u, [me, unknown(long), operand()], (1,)
                yield tool, u + " behind the operand", [me, operand(), unknown(long)], (2,)
            else:
                yield tool, u, [me, unknown(long)], (1,)
                yield tool, u + " behind a valid one", [me, word("-i"), unknown(long)], (2,)
        for o, val in opts:
            if val and op:
                yield tool, "%s without its argument" % o, [me, operand(), word(o)], (2,)
            elif val:
                yield tool, "%s without its argument" % o, [me, word("-i"), word(o)], (2,)
                yield tool, "%s alone" % o, [me, word(o)], (1,)
        if op:
            yield tool, "no operand", [me], ()
            yield tool, "options but no operand", [me, word("-p")], ()
            yield tool, "the root but no operand", [me, word("-r"), operand()], ()
            yield tool, "two operands", [me, operand(), operand()], (2,)
            yield tool, "two operands around an option", [me, operand(), word("-p"), operand()], (3,)
        else:
            yield tool, "no mode", [me], ()
            yield tool, "only a root", [me, word("-r"), operand()], ()
            yield tool, "an operand no option takes", [me, word("-i"), operand()], (2,)
            for a, b in (("-i", "-n"), ("-n", "-i")):
                yield tool, "two modes (%s %s)" % (a, b), [me, word(a), word(b)], (2,)
            for a, b in (("-l", "-o"), ("-o", "-f"), ("-f", "-a"), ("-a", "-l"), ("--runtimelibs", "--runtimedepfiles")):
                yield tool, "two modes (%s %s)" % (a, b), [me, word(a), operand(), word(b), operand()], (3,)


def cards_worlds(prog):
    me = word("cards")

    def cmd():
        return Tok(chars="x", known=True)
    yield "cards", "no command", [me], (), None
    yield "cards", "an option but no command", [me, Tok(chars="--", known=True, value=False)], (), None
    yield "cards", "an unknown command", [me, Tok(chars="x")], (1,), None
    yield "cards", "an unknown command before a known one", [me, Tok(chars="x"), Tok(chars="x", known=True)], (1,), None
    yield "cards", "an unknown command behind an option", [me, Tok(chars="--", known=True, value=False), Tok(chars="x")], (2,), None
    for pos in (1, 2):
        def put(t):
            return [me, t, cmd()] if pos == 1 else [me, cmd(), t]
        where = "before" if pos == 1 else "behind"
        yield "cards", "a lone dash %s the command" % where, put(Tok(text="-")), (pos,), None
        yield "cards", "an unknown long option %s the command" % where, put(Tok(chars="--")), (pos,), None
        yield "cards", "an unknown long option with a value %s the command" % where, put(Tok(chars="--", eq="v")), (pos,), None
        yield "cards", "an unknown short option %s the command" % where, put(Tok(chars="-%c\0" % 1)), (pos,), None
        yield "cards", "several short options at once %s the command" % where, put(Tok(chars="-%c" % 1)), (pos,), None
        yield "cards", "several known short options at once %s the command" % where, \
            put(Tok(chars="-%c" % 1, known=True, value=False)), (pos,), None
        yield "cards", "a long option without its value %s the command" % where, \
            put(Tok(chars="--", known=True, value=True)), (pos,), None
        yield "cards", "a long option with an empty value %s the command" % where, \
            put(Tok(chars="--", known=True, value=True, eq="")), (pos,), None
    yield "cards", "a short option without its value", [me, cmd(), Tok(chars="-%c\0" % 1, known=True, value=True)], (2,), None
    en = [v for v in prog.enums.values() if {"EQ", "MIN", "MAX"} <= set(v)]
    for kind, less in (("EQ", True), ("EQ", False), ("MIN", True), ("MAX", False)):
        if not en or kind not in en[0]:
            continue

        def fixed(atom, kind=kind, less=less):
            if atom[0] in ("eq", "nz") and atom[1] and atom[1][0] in ("fld", "f") and \
                    atom[1][1].rsplit("::", 1)[-1] == "argNumberCheck":
                if atom[0] == "nz":
                    return en[0][kind] != 0
                return atom[2] == en[0][kind] if isinstance(atom[2], int) else None

            def num(t):
                return isinstance(t, tuple) and t[0] in ("fld", "f") and t[1].rsplit("::", 1)[-1] == "argNumber"

            def size(t):
                return isinstance(t, tuple) and t[0] == "size"
            if atom[0] == "nz" and atom[1] and atom[1][0] == "call" and atom[1][1].endswith("::isSet"):
                return False
            if len(atom) == 3 and (num(atom[1]) and size(atom[2]) or size(atom[1]) and num(atom[2])):
                if atom[0] == "eq":
                    return False
                if atom[0] == "ltv":
                    return less if size(atom[1]) else not less
            return None
        yield "cards", "%s operands than a command %s" % (
            "fewer" if less else "more", {"EQ": "taking a fixed number takes", "MIN": "requires", "MAX": "allows"}[kind]), \
            [me, cmd()], ("fixed",), fixed


def vector(t):
    return "char **" in t or "char *[]" in t or "char *const *" in t or "char *const[]" in t


class Bounds(Vector):
    """every use of an argument lies within the vector; characters are looked at one after the other"""

    def __init__(self, prog, argc):
        Vector.__init__(self, prog, [], argc)
        self.uses = set()
        self.vague = 0
        # the functions the vector is handed to
        self.having = set()
        st = list(mains(prog))
        while st:
            f = st.pop()
            if f.key in self.having:
                continue
            self.having.add(f.key)
            for n in f.calls():
                st += [t for t in prog.targets(n) if any(vector(p.get("t", "")) for p in t.params)]
        self.having |= {f.key for f in prog.fns.values() if f.is_lambda and f.parent is not None and f.parent.key in self.having}
        # ... and those that choose what is run, or answer something about its words
        self.small = small(prog)
        self.only = self.having | self.small | {t.key for m in mains(prog) for n in m.calls() for t in prog.targets(n)
                                   if "*" in (t.ret or "")}

        # what of the mains comes after the last use of the vector
        self.over = {m.key: self.after(m) for m in mains(prog)}

    def after(self, m):
        ds = {p["d"] for p in m.params if vector(p.get("t", ""))}
        live = set()
        where = {}
        for b, i, e in m.elems():
            if isinstance(e, int):
                where[e] = b
                n = m.ex[e]
                if any(x["k"] == "ref" and x.get("d") in ds for x in subtree(m, e)) or n["k"] in ("call", "ctor") and \
                        any(t.key in self.having for t in self.prog.targets(n)):
                    live.add(b)
            elif isinstance(e, dict) and any(x["k"] == "ref" and x.get("d") in ds
                                             for v in e.values() if isinstance(v, int) for x in subtree(m, v)):
                live.add(b)
        if not live:
            return {}
        pr = m.preds
        st = list(live)
        while st:
            for p in pr[st.pop()]:
                if p not in live:
                    live.add(p)
                    st.append(p)
        return {e for e, b in where.items() if b not in live}

    transparent = frozenset({"strdup"})

    def calls(self, n):
        return False

    def node_relevant(self, fn, n):
        return n["k"] in ("idx", "un", "call", "ctor") and fn.key in self.having or fn.key in self.small

    def see(self, v, c, what):
        """v is used as a text"""
        t = tail(v)
        if t is not None and not (v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("basename", "__xpg_basename")):
            self.uses.add((c.fn.key, c.node["i"]))
            if t[0] >= self.argc:
                c.report("an argument is read beyond the end of the argument vector (%s)" % what,
                         ("beyond", c.fn.name, what))
            self.inside(t, t[1], c)

    def inside(self, t, j, c):
        for m in range(j):
            known = False
            for form in self.forms(t[0], m):
                for a, truth in c.env.items():
                    if a[0] == "A" and a[1][0] in ("nz", "eq") and len(a[1]) >= 2 and char(a[1][1]) == (t[0], m):
                        if a[1][0] == "nz" and truth or a[1][0] == "eq" and isinstance(a[1][2], int) and (
                                truth and a[1][2] != 0 or not truth and a[1][2] == 0):
                            known = True
            if not known:
                c.report("a character of an argument is looked at although the argument may end before it",
                         ("inside", c.fn.name, j))
                return

    def forms(self, k, m):
        return (0,)

    def on_node(self, q, c):
        n = c.node
        k = n["k"]
        if c.fn.key in self.over and n["i"] in self.over[c.fn.key]:
            return None
        if k in ("idx", "un") and (k == "idx" or n["op"] == "*"):
            b = c.eng.ev(c.fn, n["c"][0], c.env)
            if k == "idx":
                i = c.eng.ev(c.fn, n["c"][1], c.env)
                if b is not None and offset(b) is not None and (i is None or i[0] != "c"):
                    self.vague += 1
                v = ("idx", b, i) if b is not None and i is not None else None
            else:
                v = ("un", "*", b) if b is not None else None
            kk = token(v)
            if kk is not None:
                self.uses.add((c.fn.key, n["i"]))
                if kk > self.argc:
                    c.report("an argument is read beyond the end of the argument vector", ("beyond", c.fn.name, "read"))
            else:
                ch = char(v)
                if ch is not None:
                    self.uses.add((c.fn.key, n["i"]))
                    if ch[0] >= self.argc:
                        c.report("an argument is read beyond the end of the argument vector", ("beyond", c.fn.name, "char"))
                    else:
                        self.inside(ch, ch[1], c)
        elif k in ("call", "ctor"):
            name = (n.get("fn") or "").rsplit("::", 1)[-1]
            if name in ("basename", "__xpg_basename", "dirname"):
                return q             # (POSIX: takes a null pointer)
            for a in list(n.get("a") or []):
                v = c.eng.ev(c.fn, a, c.env)
                if v is not None:
                    self.see(v, c, name)
            if n.get("o") and name in ("operator[]", "at", "substr"):
                o = c.eng.ev(c.fn, n["o"], c.env)
                i = c.eng.ev(c.fn, n["a"][0], c.env) if n.get("a") else None
                if o is not None and tail(o) and i is not None and i[0] == "c" and tail(o)[0] < self.argc:
                    t = tail(o)
                    self.inside(t, t[1] + i[1], c)
        return q


class Operands(CardsSpec):
    """operands and option values are only taken where the command line has them"""
    max_states = 3000000

    def __init__(self, prog, val, least, valued):
        self.prog, self.val, self.least, self.valued = prog, val, least, valued
        self.taken = set()
        self.values = set()
        self.forced = 0

    def calls(self, n):
        return n.endswith("::getCmdValue") or n.endswith("::otherArguments") or n.endswith("::getOptionValue")

    def pure(self, n):
        return CardsSpec.pure(self, n) or n.endswith("::otherArguments") or n.endswith("::getCmdValue")

    def keep(self, v):
        while v[0] in ("size", "not"):
            v = v[1]
        return v[0] == "call" and v[1].endswith("::otherArguments")

    def track(self, a):
        x = a[1] if isinstance(a[1], tuple) else ("?",)
        return x[0] == "size" and x[1][0] == "call" and x[1][1].endswith("::otherArguments") or \
            esp.mentions(a, lambda t: t[0] == "call" and (t[1].endswith(
            "::isSet") and t[3] and t[3][0] and t[3][0][0] in ("g", "f") and t[3][0][1].rsplit("::", 1)[-1] in self.valued))

    def on_call(self, q, c):
        if c.name.endswith("::getCmdValue"):
            self.forced += 1
            return [(q, ("c", self.val))]
        if c.name.endswith("::getOptionValue"):
            key = c.args[0] if c.args else None
            self.values.add((c.fn.name, str(key)))
            if key is not None and key[0] in ("g", "f"):
                if key[1].rsplit("::", 1)[-1] not in self.valued:
                    c.report("the value of %s is used although the option takes none" % key[1], ("no-value", c.fn.name, key[1]))
                if not any(a[0] == "A" and t and a[1][0] == "nz" and a[1][1][0] == "call" and a[1][1][1].endswith("::isSet")
                           and key in a[1][1][3] for a, t in c.env.items()):
                    c.report("the value of %s is used without the option being given" % key[1], ("unset", c.fn.name, key[1]))
        return None

    def on_node(self, q, c):
        n = c.node
        if n["k"] == "call" and (n.get("fn") or "").rsplit("::", 1)[-1] in ("operator[]", "front", "back") and n.get("o"):
            o = c.eng.ev(c.fn, n["o"], c.env)
            if o is not None and o[0] == "call" and o[1].endswith("::otherArguments"):
                i = c.eng.ev(c.fn, n["a"][0], c.env) if n.get("a") else ("c", 0)
                if i is not None and i[0] == "c":
                    self.taken.add((c.fn.name, i[1]))
                    if i[1] >= self.least and not self.enough(c, o, i[1]):
                        c.report("operand %d is used although the command line may have fewer" % (i[1] + 1),
                                 ("operand", c.fn.name, i[1]))
        return q

    def enough(self, c, o, i):
        for a, t in c.env.items():
            if a[0] != "A":
                continue
            x = a[1]
            if not (len(x) > 1 and isinstance(x[1], tuple) and x[1][0] == "size" and x[1][1][0] == "call" and
                    x[1][1][1].endswith("::otherArguments")):
                continue
            if x[0] == "nz" and t and i == 0:
                return True
            if x[0] == "eq" and isinstance(x[2], int) and (t and x[2] > i or not t and x[2] == 0 and i == 0):
                return True
            if x[0] == "lt" and isinstance(x[2], int) and not t and x[2] > i:
                return True
        return False


def table(prog):
    """command -> least number of operands guaranteed; options taking a value; commands documented with an operand"""
    least, wants, valued, where = {}, {}, set(), {}
    en = [v for v in prog.enums.values() if {"EQ", "MIN", "MAX"} <= set(v)][0]
    cmds = command_values(prog)
    for f in prog.fns.values():
        for n in f.calls():
            nm = n.get("fn") or ""
            if nm.endswith("::addCommand") and len(n["a"]) >= 6:
                a = [f.ex.get(i) or {} for i in n["a"]]
                v, k, num = a[0].get("v"), a[4].get("v"), a[5].get("v")
                if v is None or k is None or num is None:
                    continue
                least[v] = num if k in (en["EQ"], en["MIN"]) else 0
                doc = [x["s"] for x in subtree(f, n["a"][6]) if x.get("k") == "str"] if len(a) > 6 else []
                wants[v] = any("<" in s for s in doc)
                where[v] = f.loc(n)
            elif nm.endswith("APOpt::init") and n.get("o"):
                o = f.ex.get(n["o"]) or {}
                if len(n["a"]) > 3 and (f.ex.get(n["a"][3]) or {}).get("v"):
                    valued.add((o.get("q") or "").rsplit("::", 1)[-1])
    return cmds, least, wants, valued, where


def subtree(f, i):
    st = [i]
    while st:
        n = f.ex.get(st.pop())
        if n:
            yield n
            st += facts.children(n)


def check(prog, res):
    tools, cards = mains(prog)
    worlds = [(w[0], w[1], w[2], w[3], None, tools) for w in tool_worlds()] + \
        [w + (cards,) for w in cards_worlds(prog)]

    def nothing_named(atom):
        """no installed package has an empty name"""
        if atom[0] == "has" and atom[1][0] == "f" and atom[1][1].startswith("pkgdbh::m_listOf"):
            return False
        return None

    def work(i):
        tool, what, toks, subject, fixed, main = worlds[i]
        s = Refused(prog, toks, what, fixed or (nothing_named if what.endswith("no operand") else None), subject)
        e = esp.Engine(prog, s)
        try:
            e.run(main, 0, [("c", len(toks)), ARGV])
        except Settled:
            pass
        except RuntimeError:
            s.hits.clear()
            if not subject:
                raise
        return s.ends, s.hits, e.nstates, len(e.visited_fns)

    cov = {}
    states = 0
    for (tool, what, toks, subject, fixed, main), (ends, hits, ns, nf) in zip(worlds, parallel(work, list(range(len(worlds))))):
        states += ns
        vague = [k for k in subject if not hits.get(k)]
        cov["%s: %s" % (tool, what)] = "not decided by a test the rule understands" if vague else ns
        if vague:
            continue
        for key, (how, loc) in sorted(ends.items(), key=str):
            if key[0] == "effect":
                msg = "%s: %s - %s() is reached instead of a refusal" % (tool, what, key[2])
            elif key[0] == "accepted":
                msg = "%s: %s is accepted" % (tool, what)
            else:
                msg = "%s: %s ends the program with status %s" % (tool, what, how)
            res.violation(("not-refused", tool, what), msg, loc)
            break
    und = [k for k, v in cov.items() if isinstance(v, str)]
    if len(und) > len(worlds) // 2:
        res.assumptions.append("most command lines could not be followed: %d of %d" % (len(und), len(worlds)))
    res.coverage["command_lines_explored"] = cov

    uses = set()
    sizes = [(argc, m) for argc in (1, 2, 3, 4) for m in (tools, cards)]

    def size(i):
        argc, m = sizes[i]
        s = Bounds(prog, argc)
        e = esp.Engine(prog, s)
        try:
            e.run(m, 0, [("c", argc), ARGV])
            over = None
        except RuntimeError as x:
            if argc < 3:
                raise
            over = "not finished: " + str(x)
        return e.violations, e.nstates, e.visited_fns, e.visited_calls, s.uses, over
    for (argc, m), r in zip(sizes, parallel(size, list(range(len(sizes))))):
        e = esp.Engine(prog, None)
        e.violations, e.nstates, e.visited_fns, e.visited_calls = r[:4]
        res.from_engine(e)
        uses |= r[4]
        states += e.nstates
        if r[5]:
            res.coverage["vector of %d for %s" % (argc, m.rel())] = r[5]
    res.coverage["uses_of_arguments_examined"] = len(uses)

    cmds, least, wants, valued, where = table(prog)
    for v, w in wants.items():
        if w and not least[v]:
            name = [k for k, x in cmds.items() if x == v][0]
            res.violation(("table", name), "%s is documented with an operand but accepted without" % name, where[v])

    def command(name):
        s = Operands(prog, cmds[name], least.get(cmds[name], 0), valued)
        e = esp.Engine(prog, s)
        e.run(cards, 0)
        return e.violations, e.nstates, e.visited_fns, e.visited_calls, s.taken, s.values
    names = [k for k, v in cmds.items() if v in least]
    taken = {}
    for name, r in zip(names, parallel(command, names)):
        e = esp.Engine(prog, None)
        e.violations, e.nstates, e.visited_fns, e.visited_calls = r[:4]
        res.from_engine(e)
        taken[name] = {"operands": sorted("%s[%d]" % t for t in r[4]), "values": len(r[5])}
    res.coverage["operands_and_values_taken"] = taken
    if not names or not valued:
        raise RuntimeError("the table of commands was not found")
    res.coverage["states_of_command_lines"] = states
    res.rule("each mains is explored with an argument vector known only by what decides its fate (an option the parser "
             "does not know, an option at the end requiring a value, a missing or surplus operand, ...): no path "
             "modifies anything, goes on to the command or ends with status zero; with vectors of one to four unknown "
             "arguments no path uses one beyond the end or a character behind an argument's end; operands and option "
             "values are taken only where the command's table or a test guarantees them")
    res.assumptions += ["operands are not empty", "cards accepts for any command every option it knows for one",
                        "commands declared without a number of operands ignore what they are given"]
