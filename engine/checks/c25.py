"""C25: the format of every printf/scanf-like call is constant text that agrees with the arguments."""
import re
from facts import children

GUI = True
TRANSLATE = {"gettext": 0, "dgettext": 1, "dcgettext": 1, "libintl_gettext": 0, "ngettext": None}
WRAPPED = re.compile(r"^(std::)?v?(f|s|sn|d|as|w)?(printf|scanf)$|^v?(syslog|warnx?|errx?)$")
CONV = re.compile(r"%(?:(\d+)\$)?([-+ #0']*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|q|L|j|z|Z|t)?([a-zA-Z%]|\[\^?\]?[^\]]*\])")
INT = {"int", "unsigned int", "char", "signed char", "unsigned char", "short", "unsigned short", "bool", "wchar_t"}
LONG = {"long", "unsigned long", "long long", "unsigned long long"}


class Sources:
    """constant texts an expression can evaluate to; None among them: something else"""

    def __init__(self, prog):
        self.P = prog
        self.callers = {}
        self.addr = set()
        for f in prog.fns.values():
            for n in f.calls():
                for t in prog.targets(n):
                    self.callers.setdefault(t.key, []).append((f, n))
            for n in f.ex.values():
                for c in children(n):        # a function's name used as a value, not called
                    x = f.ex[c]
                    if x["k"] == "ref" and x.get("dk") == "func" and x.get("fk") and c != n.get("fe"):
                        self.addr.add(x["fk"])

    def of(self, f, i, seen=()):
        """-> list of (text | None, description)"""
        key = (f.key, i)
        if key in seen:
            return []
        seen = seen + (key,)
        n = f.ex.get(i)
        if n is None:
            return [(None, "an unknown expression")]
        k = n["k"]
        if k == "str":
            return [(n["s"], f.loc(n))]
        if k in ("null", "zero"):
            return []
        if k == "cond":
            return self.of(f, n["c"][1], seen) + self.of(f, n["c"][2], seen)
        if k == "un" and n["op"] in ("&", "*", "+"):
            return self.of(f, n["c"][0], seen)
        if k == "bin" and n["op"] == ",":
            return self.of(f, n["c"][1], seen)
        if k == "bin" and n["op"] == "=":
            return self.of(f, n["c"][1], seen)
        if k == "idx":
            return self.of(f, n["c"][0], seen)
        if k == "ilist":
            out = []
            for c in n.get("c", []):
                out += self.of(f, c, seen)
            return out
        if k == "ctor":
            a = [x for x in n["a"] if x and f.ex[x]["k"] not in ("ctor",) or n.get("copy")]
            if len(a) == 1 and ("basic_string" in n.get("cls", "") or n.get("copy")):
                return self.of(f, a[0], seen)
            return [(None, "a constructed '%s'" % n.get("t"))]
        if k == "call":
            nm = n.get("fn") or ""
            b = nm.rsplit("::", 1)[-1]
            if nm in TRANSLATE:
                ix = TRANSLATE[nm]
                if ix is None:
                    return self.of(f, n["a"][0], seen) + self.of(f, n["a"][1], seen)
                return self.of(f, n["a"][ix], seen)
            if b in ("c_str", "data") and n.get("o"):
                return self.of(f, n["o"], seen)
            ts = self.P.targets(n)
            if ts and len(seen) < 12:
                out = []
                for t in ts:
                    for x in t.nodes():
                        if x["k"] == "ret" and x["c"]:
                            out += self.of(t, x["c"][0], seen)
                return out
            return [(None, "the result of %s()" % (nm or "a call"))]
        if k == "ref":
            dk = n.get("dk")
            if dk in ("local", "slocal"):
                return self.var(f, n["d"], n["n"], seen)
            if dk == "parm":
                return self.parm(f, n["d"], n["n"], seen)
            if dk == "global":
                g = self.P.globals.get(n["q"], {})
                if g.get("strs") and (g.get("ro") or not self.written(n["q"])):
                    return [(s, "%s:%s" % (g["name"], g["line"])) for s in g["strs"]]
                return [(None, "the variable '%s'" % n["q"])]
        if k == "fld":
            return [(None, "the attribute '%s'" % n["q"])]
        return [(None, "an expression ('%s')" % k)]

    def written(self, q):
        for f in self.P.fns.values():
            for n in f.nodes():
                if n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    x = f.ex[n["c"][0]]
                    if x["k"] == "idx":
                        x = f.ex[x["c"][0]]
                    if x.get("q") == q:
                        return True
        return False

    def var(self, f, d, name, seen):
        out = []
        hit = False
        ro = False
        g = f
        while g is not None:
            for n in g.nodes():
                if n["k"] == "decl":
                    for v in n["vars"]:
                        if v["d"] == d or (g is not f and v["n"] == name):
                            hit = True
                            ro = "const " in v["t"] and "*" not in v["t"] or v["t"].endswith("const")
                            if v.get("init"):
                                out += self.of(g, v["init"], seen)
                            elif not v["t"].endswith("*"):
                                out.append((None, "the buffer '%s'" % name))
                elif n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    x = g.ex[n["c"][0]]
                    if x.get("d") == d and x["k"] == "ref":
                        out += self.of(g, n["c"][1], seen) if n["op"] == "=" else [(None, "computed text")]
                    elif x["k"] in ("idx", "un") and g.ex[x["c"][0]].get("d") == d and not ro:
                        out.append((None, "the modified buffer '%s'" % name))
                elif n["k"] == "call" and not ro:
                    if n.get("o") and g.ex[n["o"]].get("d") == d and not n.get("cm"):
                        if n.get("op") == "=" and n["a"]:
                            out += self.of(g, n["a"][0], seen)
                        elif n.get("fn", "").rsplit("::", 1)[-1] not in ("begin", "end", "c_str", "data"):
                            out.append((None, "the text '%s' changed by %s()" % (name, n.get("fn"))))
                    pk = n.get("pk") or ""
                    for ix, a in enumerate(n["a"]):
                        x = g.ex.get(a) or {}
                        if x.get("d") == d and ix < len(pk) and (
                                pk[ix] == "r" or pk[ix] == "p" and "[" in x.get("t", "")):
                            out.append((None, "the buffer '%s' filled by %s()" % (name, n.get("fn"))))
            if hit:
                break
            g = g.parent
        if not hit:
            return [(None, "the variable '%s'" % name)]
        return out

    def parm(self, f, d, name, seen):
        ix = [i for i, p in enumerate(f.params) if p["d"] == d]
        if not ix or f.key in self.addr or len(seen) > 12:
            return [(None, "the parameter '%s'" % name)]
        out = []
        sites = self.callers.get(f.key, [])
        if not sites and not f.static:
            return [(None, "the parameter '%s'" % name)]
        for g, n in sites:
            if ix[0] < len(n["a"]):
                out += self.of(g, n["a"][ix[0]], seen)
        return out


def conversions(text):
    """-> [(length, conversion, width, precision)], explicit stars included as ('', '*')"""
    out = []
    pos = 0
    while True:
        i = text.find("%", pos)
        if i < 0:
            return out
        m = CONV.match(text, i)
        if not m:
            return None
        pos = m.end()
        if m.group(6) == "%":
            continue
        if m.group(3) == "*":
            out.append(("", "*", None, None))
        if m.group(4) == "*":
            out.append(("", "*", None, None))
        out.append((m.group(5) or "", m.group(6), m.group(3), m.group(4)))


def fits_print(conv, t):
    ln, c, _, _ = conv
    t = t.replace("const ", "").replace("volatile ", "").strip()
    enum = "::" in t and not t.endswith("*") or t.startswith("enum ")
    if c == "*":
        return t in INT
    if c in "diouxXc":
        if ln in ("l", "ll", "q", "j", "z", "Z", "t"):
            return t in LONG
        return t in INT or enum
    if c in "fFeEgGaA":
        return t == ("long double" if ln == "L" else "double")
    if c == "s":
        return t in ("char *", "signed char *", "unsigned char *") or re.match(r"char\[", t) is not None
    if c == "p":
        return t.endswith("*")
    if c == "n":
        return False
    return c == "m"


def fits_scan(conv, t):
    ln, c, _, _ = conv
    c = c[0]
    if c == "n":
        return t == "int *"
    if c in "diouxX":
        want = {"": ("int *", "unsigned int *"), "l": ("long *", "unsigned long *"), "z": ("unsigned long *", "long *"),
                "ll": ("long long *", "unsigned long long *", "long *", "unsigned long *"),
                "h": ("short *", "unsigned short *"), "hh": ("char *", "signed char *", "unsigned char *")}
        return t in want.get(ln, ())
    if c in "sc[":
        return t == "char *"
    if c in "fegaE":
        return t == {"": "float *", "l": "double *", "L": "long double *"}.get(ln)
    return c == "p"


def check(prog, res):
    src = Sources(prog)
    nconv = 0
    for f in sorted(prog.fns.values(), key=lambda f: f.key):
        for n in f.calls():
            if not n.get("fmt"):
                continue
            ix = n["fmt"] - 1
            if ix >= len(n["a"]):
                continue
            res.count("formatting_calls")
            res.obligation("%s %s" % (f.loc(n), n["fn"]))
            if f.name in (n["fn"],):
                continue
            for text, what in src.of(f, n["a"][ix]):
                if text is None:
                    res.violation(("format", f.name, n["fn"]),
                                  "%s() takes its format from %s instead of constant text" % (n["fn"], what),
                                  f.loc(n) + " in " + f.name)
                    continue
                res.count("constant_formats")
                conv = conversions(text)
                first = n.get("fmt1") or 0
                if conv is None:
                    res.violation(("malformed", f.name, n["fn"]), "malformed conversion in the format of %s()" % n["fn"],
                                  f.loc(n) + " in " + f.name)
                    continue
                if n.get("fmtt") not in ("printf", "scanf", "gnu_printf", "gnu_scanf", "__printf__", "__scanf__") \
                        or not first or "at" not in n:
                    continue
                scan = "scanf" in n["fmtt"]
                at = n["at"][first - 1:]
                if scan:
                    want = [c for c in conv if c[2] != "*" and c[1] != "*"]
                else:
                    want = conv
                if any(c[1] == "m" for c in want):
                    want = [c for c in want if c[1] != "m"]
                if len(want) > len(at):
                    res.violation(("missing", f.name, n["fn"]),
                                  "the format of %s() asks for %d arguments, %d are given" % (n["fn"], len(want), len(at)),
                                  f.loc(n) + " in " + f.name)
                    continue
                for c, t in zip(want, at):
                    nconv += 1
                    if not (fits_scan if scan else fits_print)(c, t):
                        res.violation(("conversion", f.name, n["fn"], c[1]),
                                      "conversion %%%s%s of %s() is given a '%s'" % (c[0], c[1], n["fn"], t),
                                      f.loc(n) + " in " + f.name)
    res.coverage["conversions_checked"] = nconv
    res.rule("every call of a function that formats (format attribute of the declaration or built-in) has its "
             "format traced through conditions, variables, parameters and returned values to string literals only; "
             "each literal's conversions are matched with the types of the arguments as passed")
