"""Path-sensitive, interprocedural typestate engine (property simulation).

A check supplies a `Spec`: the events it watches (calls, branch assumptions,
destructors, field stores) and a transition for each.  The engine propagates
sets of (automaton state, tracked facts) over the control-flow graphs, descends
into in-tree callees with memoised summaries, correlates branches on facts the
spec tracks, follows exception edges and destructors, and resolves virtual calls
by the dynamic class where the context fixes it."""
import re
from facts import children

EXC_BASES = {
    "std::runtime_error": ["std::exception"],
    "std::logic_error": ["std::exception"],
    "std::out_of_range": ["std::logic_error"],
    "std::invalid_argument": ["std::logic_error"],
    "std::length_error": ["std::logic_error"],
    "std::bad_alloc": ["std::exception"],
    "std::system_error": ["std::runtime_error"],
}
SMART = re.compile(r"^(?:const )?std::(?:unique_ptr|shared_ptr|auto_ptr)<([^,<>]+)")
MAXTERM = 40


def tsize(v):
    if isinstance(v, tuple):
        return 1 + sum(tsize(x) for x in v if isinstance(x, tuple))
    return 0


def mentions(v, pred):
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and pred(v):
            return True
        return any(mentions(x, pred) for x in v if isinstance(x, tuple))
    return False


def clean_type(t):
    t = re.sub(r"\b(const|volatile|struct|class)\b", "", t or "")
    return t.replace("&", "").replace("*", "").strip()


class CallInfo:
    __slots__ = ("eng", "fn", "node", "name", "obj", "args", "env", "frame", "targets", "q")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    @property
    def loc(self):
        return self.fn.loc(self.node)

    def report(self, msg, key=None):
        self.eng.report(msg, self, key)

    def base(self):
        return self.name.rsplit("::", 1)[-1]


class Spec:
    """override what the property needs"""
    fields = frozenset()         # qualified field names whose values/truth are tracked
    calls = None                 # predicate on a callee's qualified name: an event of interest
    max_states = 4000000
    on_node = None               # optional hook (q, c) -> q before each expression element
    deciding = False             # decide() is asked also without cells
    only = None                  # keys of the functions entered at most
    counters = 0                 # counters are followed up to this value (0: not at all)
    transparent = frozenset()    # library functions whose value stands for their argument's

    def interest(self, name):
        return bool(self.calls and self.calls(name))

    def pure(self, name):
        return False

    def keep(self, v):
        """is a non-constant value worth remembering in locals / parameters?"""
        return mentions(v, lambda t: (t[0] == "call" and self.interest(t[1])) or
                        (t[0] == "f" and t[1] in self.fields) or t[0] == "new")

    def track(self, atom):
        """should branches on this atom be correlated?"""
        return self.keep(atom)

    def node_relevant(self, fn, n):
        return False

    def on_call(self, q, c):
        return None

    def on_assume(self, q, atom, truth, c):
        return q

    def on_dtor(self, q, typ, val, c):
        return q

    def on_store(self, q, field, val, c):
        return q

    def on_return(self, q, fn, val, c):
        return q

    def on_exit_process(self, q, c):
        pass

    def context(self, fn, parent_ctx):
        """calling context summaries are kept apart by"""
        return None

    def enter(self, q, fn, c):
        return q

    def leave(self, q, fn, kind, c):
        return q

    ren = None                   # values to rename after `resume`
    refine = False               # remember that a tracked attribute found null or false is 0

    maxterm = MAXTERM

    def decide(self, atom):
        """truth of an atom the specification knows, or None"""
        return None

    cells = False                # remember the attributes of named objects ("M" cells), ask `lookup`

    def lookup(self, term, env):
        return None

    def on_new(self, q, c):
        return q, None

    def on_delete(self, q, v, arr, c):
        return q

    def resume(self, q0, q, fn, c):
        """state of the caller after a callee entered with q0 left with q"""
        return q


class Frame:
    __slots__ = ("fn", "parent", "callnode", "dyncls", "trace", "cur", "ctx")

    def __init__(self, fn, parent, callnode, dyncls, ctx=None):
        self.ctx = ctx
        self.fn = fn
        self.parent = parent
        self.callnode = callnode
        self.dyncls = dyncls
        self.trace = {}
        self.cur = None


FIXED_SIZE = ("std::vector<", "std::array<", "std::deque<", "std::basic_string<")


def unsized(t, s):
    if not isinstance(t, tuple):
        return t
    if t == ("size", s):
        return None
    return tuple(unsized(x, s) for x in t)


def constant(t):
    """the term of a tree of constants: a number, a text or a row of them"""
    if t is None:
        return None
    if "v" in t:
        return ("c", t["v"])
    if "s" in t:
        return ("s", t["s"])
    if t.get("fl") and len(t["c"]) <= len(t["fl"]):
        return ("row", tuple((f, constant(x)) for f, x in zip(t["fl"], t["c"])))
    return None


def constrows(t, most=24):
    """the elements of a list of constants"""
    while t and "c" in t and len(t["c"]) == 1 and t["c"][0] and "c" in t["c"][0] and (
            "fl" not in t["c"][0] or t.get("fl")):
        t = t["c"][0]
    if not t or "c" not in t or t.get("fl") or not 0 < len(t["c"]) <= most:
        return None
    r = [constant(x) for x in t["c"]]
    return None if None in r else r


class Engine:
    def __init__(self, prog, spec):
        self.P = prog
        self.S = spec
        self.summ = {}
        self.inprog = {}
        self.violations = {}
        self.relcache = {}
        self.nstates = 0
        self.visited_fns = set()
        self.visited_calls = set()
        self._elemids = {}
        self._consumers = {}
        self._tries = {}
        self._byvalue = {}
        self._vartypes = {}

    # ------------------------------------------------------------- relevance
    def relevant(self, fn):
        r = self.relcache.get(fn.key)
        if r is not None:
            return r
        if not self.relcache:
            self._compute_relevance()
        return self.relcache.get(fn.key, False)

    def _compute_relevance(self):
        P, S = self.P, self.S
        callers = {}
        rel = set()
        for f in P.fns.values():
            hit = False
            for n in f.nodes():
                if n["k"] in ("call", "ctor"):
                    if n.get("fn") and S.interest(n["fn"]):
                        hit = True
                    for t in P.targets(n):
                        callers.setdefault(t.key, set()).add(f.key)
                if n["k"] == "lambda" and n.get("fk"):
                    callers.setdefault(n["fk"], set()).add(f.key)
                if n["k"] == "new" and clean_type(n["nt"]) in P.records:
                    hit = True
                if n["k"] == "ref" and n.get("dk") == "func" and n.get("fk"):
                    callers.setdefault(n["fk"], set()).add(f.key)
                if n["k"] == "fld" and n["q"] in S.fields:
                    hit = True
                if not hit and S.node_relevant(f, n):
                    hit = True
            for b, i, e in f.elems():
                if isinstance(e, dict) and e["k"] != "init":
                    for t in self.dtor_fns(e["t"]):
                        callers.setdefault(t.key, set()).add(f.key)
                    if self.S.interest(clean_type(e["t"]) + "::~"):
                        hit = True
                if isinstance(e, dict) and e["k"] == "init" and e.get("q") in S.fields:
                    hit = True
            if hit:
                rel.add(f.key)
        st = list(rel)
        while st:
            k = st.pop()
            for c in callers.get(k, ()):
                if c not in rel:
                    rel.add(c)
                    st.append(c)
        self.relcache = {k: (k in rel and (S.only is None or k in S.only)) for k in P.fns}

    def dtor_fns(self, typ):
        t = clean_type(typ)
        m = SMART.match(typ or "")
        if m:
            t = clean_type(m.group(1))
        key = ("d", t)
        c = self._vartypes.get(key)
        if c is not None:
            return c
        self._vartypes[key] = []
        out = []
        if t in self.P.records:
            name = t + "::~" + t.rsplit("::", 1)[-1]
            ex = [f for f in self.P.fn(name)]
            if ex:
                out = ex
            else:
                r = self.P.records[t]
                for f in r["fields"]:
                    if "*" not in f["t"] and "&" not in f["t"]:
                        out += self.dtor_fns(f["t"])
                for b in r["bases"]:
                    out += self.dtor_fns(b)
        self._vartypes[key] = out
        return out

    # ------------------------------------------------------------ small caches
    def elemids(self, fn):
        r = self._elemids.get(fn.key)
        if r is None:
            r = self._elemids[fn.key] = {e for b in fn.blocks.values() for e in b["e"] if isinstance(e, int)}
        return r

    def consumers(self, fn):
        r = self._consumers.get(fn.key)
        if r is None:
            r = {}
            for n in fn.ex.values():
                for c in children(n):
                    r.setdefault(c, []).append(n["i"])
            for b in fn.blocks.values():
                t = b.get("term")
                if t and t.get("cond"):
                    r.setdefault(t["cond"], []).append(-b["b"] - 1)
                for e in b["e"]:
                    if isinstance(e, dict) and e.get("x"):
                        r.setdefault(e["x"], []).append(0)
            self._consumers[fn.key] = r
        return r

    def local_of(self, fn, t):
        """the local variable of the function a cell of an aggregate belongs to"""
        while t[0] == "fld":
            t = t[2]
        return t[2] if t[0] == "l" and t[1] == fn.key else None

    def only_read(self, fn, i):
        """is the value of an lvalue expression only compared or computed with"""
        cs = self.consumers(fn).get(i)
        if not cs:
            return False
        for x in cs:
            if x < 0:
                continue
            n = fn.ex.get(x)
            if n is None or n["k"] not in ("bin", "un") or n["op"] in ("=", "&", "++", "--") and n["k"] == "un" or \
                    n["k"] == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                return False
        return True

    def try_dispatch(self, fn, line):
        r = self._tries.get(fn.key)
        if r is None:
            r = []
            for b in fn.blocks.values():
                t = b.get("term")
                if t and t["k"] == "CXXTryStmt":
                    r.append((t["l"], t["l2"], b["b"]))
            self._tries[fn.key] = r
        best = None
        for l1, l2, b in r:
            if l1 <= line <= l2 and (best is None or l1 >= best[0]):
                best = (l1, l2, b)
        return best[2] if best else None

    def lastcond(self, fn, i):
        ids = self.elemids(fn)
        while i:
            n = fn.ex[i]
            if n["k"] == "bin" and n["op"] in ("&&", "||") and i not in ids:
                i = n["c"][1]
            else:
                return i
        return i

    # ------------------------------------------------------------------ values
    def ev(self, fn, i, env, depth=0):
        if not i or depth > 30:
            return None
        t = env.get(("x", i))
        if t is not None:
            return t
        n = fn.ex[i]
        k = n["k"]
        if "v" in n:
            return ("c", n["v"])
        if k == "str":
            return ("s", n["s"])
        if k == "null" or k == "zero":
            return ("c", 0)
        if k == "ref":
            dk = n.get("dk")
            if dk in ("local", "parm", "slocal") and "d" in n:
                d = n["d"]
                v = env.get(("v", d))
                if v is None and ("r", d) in env:
                    r = env[("r", d)]
                    if r[0] == "M":
                        return self.looked(r[1], env)
                    v = env.get(r)
                    if v is None and r[0] == "F":
                        return self.looked(("f", r[1]), env)
                    if v is None and r[0] == "v":
                        return ("l", fn.key, r[1])
                return v if v is not None else ("l", fn.key, d)
            if dk == "global":
                if n["q"] in self.S.fields and ("F", n["q"]) in env:
                    return env[("F", n["q"])]
                return ("g", n["q"])
            if dk == "func":
                return ("fn", n.get("fn"), n.get("fk"))
            return None
        if k == "fld":
            q = n["q"]
            base = fn.ex.get(n.get("b"))
            if n.get("this") or (base and base["k"] == "this"):
                v = env.get(("F", q))
                return v if v is not None else self.looked(("f", q), env)
            if q in self.S.fields and not self.S.cells:
                v = env.get(("F", q))
                return v if v is not None else ("f", q)
            b = self.ev(fn, n.get("b"), env, depth + 1)
            if b is None:
                return None
            if b[0] == "pos":
                b = self.listed(b)
            if b is not None and b[0] == "row":
                return dict(b[1]).get(q.rsplit("::", 1)[-1])
            if b is None:
                return None
            if self.S.cells:
                q = pairfield(q)
                if b[0] == "rec":
                    return self.looked(dict(b[1]).get(q), env)
            v = ("f", q) if b == ("this",) else self.lim(("fld", q, b))
            return self.looked(v, env)
        if k == "this":
            return ("this",)
        if k == "call":
            return self.callvalue(fn, n, env, depth)
        if k == "ctor":
            a = [x for x in n["a"] if x]
            cls = n.get("cls", "")
            if len(a) >= 1 and (n.get("copy") or cls.startswith("std::")):
                if cls.startswith("std::") and len(a) > 1 and not re.search(r"(unique|shared)_ptr$|_ptr<", cls):
                    # std::string(ptr, alloc) and the like; a real 2-argument ctor stays opaque
                    extra = [x for x in a[1:] if fn.ex[x]["k"] not in ("ctor",)]
                    if extra:
                        return None
                return self.ev(fn, a[0], env, depth + 1)
            if not a and re.search(r"(unique|shared)_ptr$|_ptr<", cls):
                return ("c", 0)
            if not a:
                return ("new", cls) if cls in self.P.records else ("empty",) if (
                    "basic_string" in n.get("t", "") and "pair<" not in n["t"]) else None
            return ("new", cls) if cls in self.P.records else None
        if k == "new":
            return ("new", clean_type(n["nt"]))
        if k == "bin":
            op = n["op"]
            a, b = n["c"]
            if op not in ("=", ",", "&&", "||") and op.endswith("=") and op not in COMPARE:
                return None          # compound assignment
            if op in ("=", ","):
                return self.ev(fn, b, env, depth + 1)
            if op in ("&&", "||"):
                va = self.ev(fn, a, env, depth + 1)
                ta = self.truth(va, env)
                if ta is not None:
                    if op == "&&" and not ta:
                        return ("c", 0)
                    if op == "||" and ta:
                        return ("c", 1)
                    return self.boolify(self.ev(fn, b, env, depth + 1))
                vb = self.ev(fn, b, env, depth + 1)
                tb = self.truth(vb, env)
                if tb is not None:
                    if op == "&&" and not tb:
                        return ("c", 0)
                    if op == "||" and tb:
                        return ("c", 1)
                    return self.boolify(va)
                if va is None or vb is None:
                    return None
                return self.lim(("and" if op == "&&" else "or", self.boolify(va), self.boolify(vb)))
            va = self.ev(fn, a, env, depth + 1)
            vb = self.ev(fn, b, env, depth + 1)
            if op == "+" and vb is not None and vb[0] == "c":
                lst = self.constlist(fn, a)
                if lst is not None:
                    va = ("pos",) + lst + (0,)
            if va is None or vb is None:
                return None
            if op in ("==", "!=", "<", ">", "<=", ">="):
                if va[0] == "c" and vb[0] == "c" or va[0] == vb[0] == "pos" and va[1:3] == vb[1:3]:
                    return ("c", int(COMPARE[op](va[-1], vb[-1])))
                if vb[0] == "c" and fn.ex[a].get("t") == "bool" and op in ("==", "!="):
                    return va if (vb[1] != 0) == (op == "==") else ("not", va)
                return self.fold(("cmp", op, va, vb))
            if va[0] == "c" and vb[0] == "c":
                r = arith(op, va[1], vb[1])
                return None if r is None else ("c", r)
            if va[0] == "pos" and vb[0] == "c" and op in "+-":
                return self.moved(va, vb[1] if op == "+" else -vb[1])
            return self.lim(("op", op, va, vb))
        if k == "un":
            if n["op"] == "*":
                p = self.ev(fn, n["c"][0], env, depth + 1)
                if p is not None and p[0] == "pos":
                    return self.listed(p)
                x = fn.ex[n["c"][0]]
                if x["k"] == "ref" and ("P", x.get("d")) in env:
                    return env[("P", x["d"])]
            v = self.ev(fn, n["c"][0], env, depth + 1)
            if v is None:
                return None
            if n["op"] == "!":
                return self.fold(("not", v))
            if n["op"] == "*" and v[0] in ("new", "this"):
                return v
            if n["op"] == "&" and v[0] in ("new",):
                return v
            if n["op"] in ("++", "--"):
                return None
            if n["op"] in "-~+" and v[0] == "c":
                return ("c", -v[1] if n["op"] == "-" else ~v[1] if n["op"] == "~" else v[1])
            if n["op"] == "*" and v[0] == "addr":
                return v[1]
            if n["op"] == "&":
                return self.lim(("addr", v))
            return self.lim(("un", n["op"], v))
        if k == "cond":
            c, a, b = n["c"]
            tc = env.get(("x", c))
            if tc is None:
                tc = self.ev(fn, c, env, depth + 1)
            t = self.truth(tc, env)
            if t is None:
                va = self.ev(fn, a, env, depth + 1)
                vb = self.ev(fn, b, env, depth + 1)
                return va if va == vb else None
            return self.ev(fn, a if t else b, env, depth + 1)
        if k == "idx":
            lst = self.constlist(fn, n["c"][0])
            if lst is not None:
                b = self.ev(fn, n["c"][1], env, depth + 1)
                if b is not None and b[0] == "c":
                    return self.listed(("pos",) + lst + (b[1],))
            a = self.ev(fn, n["c"][0], env, depth + 1)
            b = self.ev(fn, n["c"][1], env, depth + 1)
            if a is None or b is None:
                return None
            return self.lim(("idx", a, b))
        if k == "lambda":
            return ("lambda", n.get("fk"))
        if k == "ilist" and len(n.get("c", [])) == 1:
            return self.ev(fn, n["c"][0], env, depth + 1)
        return None

    # ------------------------------------------------------- constant lists
    def constlist(self, fn, i, depth=0):
        """(function, node) of the list of constants an expression denotes, if it denotes one"""
        n = fn.ex.get(i)
        if n is None or depth > 5:
            return None
        if n["k"] == "ilist":
            c = [fn.ex[x] for x in n.get("c", []) if x]
            if len(c) == 1 and (c[0]["k"] == "ilist" and not c[0].get("fl") or c[0]["k"] == "ctor" and c[0].get("a")):
                return self.constlist(fn, c[0]["i"], depth + 1)
            if 0 < len(c) <= 24 and len(c) == len(n["c"]) and not n.get("fl") and all(
                    constant(self.tree(fn, x["i"])) is not None for x in c):
                return (fn.key, i)
            return None
        if n["k"] == "ref" and n.get("dk") in ("local", "slocal") and "d" in n:
            return self.constvars(fn).get(n["d"])
        if n["k"] == "ref" and n.get("dk") == "global":
            g = self.P.globals.get(n["q"], {})
            if "[" in g.get("t", "") or "std::array<" in g.get("t", ""):
                if constrows(g.get("tree")) is not None:
                    return ("@g", n["q"])
        return None

    def tree(self, fn, i, depth=0):
        """the constants an initialiser consists of (as the extractor gives them for global variables)"""
        n = fn.ex.get(i)
        if n is None or depth > 8:
            return None
        if "v" in n:
            return {"v": n["v"]}
        if n["k"] in ("null", "zero"):
            return {"v": 0}
        if n["k"] == "str":
            return {"s": n["s"]}
        if n["k"] == "ilist":
            c = [self.tree(fn, x, depth + 1) for x in n.get("c", [])]
            if len(c) == 1 and not n.get("fl") and c[0] is not None and "c" in c[0] and "fl" not in c[0]:
                return c[0]
            return {"c": c, "fl": n["fl"]} if n.get("fl") else {"c": c}
        if n["k"] == "ctor":
            a = [x for x in n["a"] if x]
            real = [x for x in a if fn.ex[x]["k"] not in ("defarg",)]
            if len(a) == 2 and n.get("fn", "").startswith("std::pair<") and not n.get("copy"):
                return {"c": [self.tree(fn, x, depth + 1) for x in a], "fl": ["first", "second"]}
            if len(real) == 1 or real and re.search(r"basic_string|std::map<|std::unordered_map<", n.get("cls", "")):
                return self.tree(fn, real[0], depth + 1)
        return None

    def consttable(self, fn, i):
        """{key: value} of a constant map (a variable never changed), if it is spelled out"""
        n = fn.ex.get(i)
        if n is None or n["k"] != "ref":
            return None
        t = None
        if n.get("dk") == "global":
            t = self.P.globals.get(n["q"], {}).get("tree")
        elif "d" in n:
            for x in fn.ex.values():
                for v in x["vars"] if x["k"] == "decl" else ():
                    if v["d"] == n["d"] and v["t"].startswith("const ") and v.get("init"):
                        t = self.tree(fn, v["init"])
        out = {}
        for r in constrows(t, 200) or ():
            r = dict(r[1]) if r[0] == "row" else {}
            if r.get("first") is None or r.get("second") is None:
                return None
            out.setdefault(r["first"], r["second"])
        return out or None

    def constvars(self, fn):
        """locals that hold a list of constants all the time"""
        r = fn._cache.get("constvars")
        if r is None:
            r = fn._cache["constvars"] = {}
            for n in fn.ex.values():
                for v in n["vars"] if n["k"] == "decl" else ():
                    t = v["t"]
                    if v.get("init") and (v.get("impl") or t.startswith("const ")) and \
                            ("initializer_list" in t or "[" in t or "std::array<" in t):
                        if v.get("static") and not t.startswith("const "):
                            continue
                        lst = self.constlist(fn, v["init"])
                        if lst is not None:
                            r[v["d"]] = lst
        return r

    def items(self, p):
        if p[1] == "@g":
            return constrows(self.P.globals[p[2]]["tree"])
        f = self.P.fns[p[1]]
        r = f._cache.setdefault("items", {})
        if p[2] not in r:
            r[p[2]] = [constant(self.tree(f, x)) for x in f.ex[p[2]]["c"]]
        return r[p[2]]

    def listed(self, p):
        c = self.items(p)
        return c[p[3]] if 0 <= p[3] < len(c) else None

    def moved(self, p, by):
        to = p[3] + by
        return p[:3] + (to,) if 0 <= to <= len(self.items(p)) else None

    def smallcounters(self, fn):
        """locals that only count up from a constant and are compared with a small constant"""
        r = fn._cache.get("smallcounters")
        if r is None:
            init, other, cmp, step = {}, set(), set(), set()
            for n in fn.ex.values():
                if n["k"] == "decl":
                    for v in n["vars"]:
                        x = fn.ex.get(v.get("init"))
                        if x is not None and "v" in x and not v.get("static") and not v.get("ref"):
                            init[v["d"]] = x["v"]
                c = [fn.ex.get(x) for x in n.get("c", []) if x]
                ref = [x["d"] for x in c if x and x["k"] == "ref" and x.get("dk") == "local" and "d" in x]
                if n["k"] == "bin" and ref and len(c) == 2:
                    v = [x.get("v") for x in c if x and "v" in x]
                    if n["op"] in COMPARE and n["op"] != "==" and v and isinstance(v[0], int) and 0 < v[0] <= 16:
                        cmp.add(ref[0])
                    elif n["op"].endswith("=") and n["op"] not in COMPARE and c[0]["k"] == "ref" and "d" in c[0]:
                        other.add(c[0]["d"])
                elif n["k"] == "un" and ref:
                    (step if n["op"] == "++" else other if n["op"] in ("--", "&") else cmp if 0 else set()).add(ref[0])
                elif n["k"] == "lambda":
                    init = {}
                    break
            r = fn._cache["smallcounters"] = {d for d in step & cmp if d in init} - other
        return r

    def looked(self, v, env):
        """value of an attribute the specification knows something about"""
        if v is None or not self.S.cells:
            return v
        x = env.get(("M", v))
        if x is None:
            x = self.S.lookup(v, env)
        return v if x is None else x

    def boolify(self, v):
        return v

    def fold(self, v):
        r = self.norm(v)
        if r is not None and r[0] == "const":
            return ("c", int(r[1]))
        return self.lim(v)

    def lim(self, v):
        return v if tsize(v) <= self.S.maxterm else None

    def callvalue(self, fn, n, env, depth):
        name = n.get("fn") or "?"
        base = name.rsplit("::", 1)[-1]
        op = n.get("op")
        if base in ("begin", "end", "cbegin", "cend", "size") and name.startswith("std::"):
            lst = self.constlist(fn, n["o"] if n.get("o") else n["a"][0] if n["a"] else None)
            if lst is not None:
                m = len(self.items(("pos",) + lst))
                return ("c", m) if base == "size" else ("pos",) + lst + (0 if "begin" in base else m,)
        o = self.ev(fn, n.get("o"), env, depth + 1) if n.get("o") else None
        args = tuple(self.ev(fn, a, env, depth + 1) for a in n["a"])
        if op in ("==", "!=") and len(args) + (1 if o else 0) >= 2:
            a, b = (o, args[0]) if o is not None else args[:2]
            if a is None or b is None:
                return None
            return self.fold(("cmp", op, a, b))
        if op in ("<", ">", "<=", ">=") and len(args) + (1 if o else 0) >= 2:
            a, b = (o, args[0]) if o is not None else args[:2]
            if a is None or b is None:
                return None
            return self.fold(("cmp", op, a, b))
        if op == "!" and o is not None:
            return self.fold(("not", o))
        if op in ("->", "*") and o is not None:
            if o[0] in ("new", "this"):
                return o
            if o[0] == "it":
                return o[2] if o[2] != ("end",) else None
            return self.lim(("un", "*", o))
        if base == "get" and "_ptr" in name and o is not None:
            return o
        if base in ("c_str", "data", "str") and o is not None and not args:
            return o
        if base == "operator bool" or base.startswith("operator "):
            if o is not None and not args:
                return o
        if base in ("size", "length", "empty") and o is not None and not args:
            n0 = len(o[1].encode()) if o[0] == "s" else 0 if o[0] == "empty" else None
            if n0 is not None:
                return ("c", int(not n0) if base == "empty" else n0)
            return self.lim(("not", ("size", o)) if base == "empty" else ("size", o))
        if base in self.S.transparent and len(args) == 1:
            return args[0]
        if base == "gettext" and len(args) == 1 and args[0] is not None and args[0][0] == "s":
            return args[0]           # translated or not: some text where this is some text
        if base in ("move", "forward") and name.startswith("std::") and len(args) == 1:
            return args[0]
        if base == "make_unique" or base == "make_shared":
            m = re.search(r"_ptr<([^,<>]+)", n.get("t", ""))
            if m:
                return ("new", clean_type(m.group(1)))
        if any(a is None for a in args):
            args = tuple(a if a is not None else ("?",) for a in args)
        site = () if self.S.pure(name) or base in PURE_STD else ("%s#%d" % (fn.key, n["i"]),)
        v = ("call", name, o, args) + site
        return self.lim(v)

    # ----------------------------------------------------------------- conditions
    def norm(self, v, pol=True):
        """-> ('const', bool) | (atom, polarity) | None"""
        r = self.norm0(v, pol)
        if r is not None and r[0] != "const" and (self.S.cells or self.S.deciding):
            t = self.S.decide(r[0])
            if t is not None:
                return ("const", t == r[1])
        return r

    def norm0(self, v, pol=True):
        while v is not None and v[0] == "not":
            v = v[1]
            pol = not pol
        if v is None:
            return None
        if v[0] == "c":
            return ("const", (v[1] != 0) == pol)
        if v[0] == "s":
            return ("const", pol)
        if v[0] in ("new", "fn", "this", "lambda", "hnd"):
            return ("const", pol)
        if v[0] == "empty":
            return None
        if v[0] == "cmp":
            op, a, b = v[1:]
            if a[0] == "c" and b[0] == "c":
                r = {"==": a[1] == b[1], "!=": a[1] != b[1], "<": a[1] < b[1], ">": a[1] > b[1],
                     "<=": a[1] <= b[1], ">=": a[1] >= b[1]}[op]
                return ("const", r == pol)
            if a[0] == "empty" and b[0] in ("s", "empty"):
                a = ("s", "")
            if b[0] == "empty" and a[0] == "s":
                b = ("s", "")
            if a[0] == "s" and b[0] == "s" and op in ("==", "!="):
                return ("const", ((a[1] == b[1]) == (op == "==")) == pol)
            if a[0] == "c" and b[0] != "c":
                a, b = b, a
                op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
            if b[0] == "c":
                c = b[1]
                if a[0] == "hnd":        # a valid handle: neither a null nor a negative value
                    if op in ("==", "!="):
                        return ("const", (op == "!=") == pol)
                    if (op in ("<", ">=") and c <= 0) or (op in ("<=", ">") and c < 0):
                        return ("const", (op in (">", ">=")) == pol)
                if op in ("==", "!="):
                    p = pol if op == "==" else not pol
                    if a[0] in ("new", "this", "fn", "lambda") and c == 0:
                        return ("const", not p)
                    if c == 0:
                        return self.norm(a, not p)
                    if a[0] in ("cmp", "not", "and", "or"):
                        return self.norm(a, p) if c == 1 else ("const", not p)
                    if a[0] == "call" and a[1].rsplit("::", 1)[-1] == "count" and c == 1:
                        return self.norm(a, p)
                    return (("eq", a, c), p)
                if op == ">=":
                    op, pol = "<", not pol
                elif op == ">":
                    op, pol, c = "<", not pol, c + 1
                elif op == "<=":
                    op, c = "<", c + 1
                if c == 1 and (a[0] == "size" or (a[0] == "call" and a[1].rsplit("::", 1)[-1] == "count")):
                    return self.norm(a, not pol)
                return (("lt", a, c), pol)
            if op in ("==", "!="):
                p = pol if op == "==" else not pol
                for x, y in ((a, b), (b, a)):
                    if x[0] == "call" and x[1].endswith("::find") and y[0] == "call" and \
                            y[1].rsplit("::", 1)[-1] in ("end", "cend") and x[2] == y[2]:
                        return (("has", x[2], x[3]), not p)
                if a == b:
                    return ("const", p)
                if y_key(b) < y_key(a):
                    a, b = b, a
                return (("eq", a, b), p)
            if op in (">", "<="):
                a, b = b, a
                op = "<" if op == ">" else ">="
            if op == ">=":
                op, pol = "<", not pol
            return (("ltv", a, b), pol)
        if v[0] == "call" and v[1].rsplit("::", 1)[-1] in ("count", "contains") and v[2] is not None:
            return (("has", v[2], v[3]), pol)
        if v[0] == "call" and v[1] in ("strcmp", "std::strcmp") and len(v[3]) == 2:
            return self.norm(("cmp", "==") + tuple(v[3]), not pol)
        if v[0] == "call" and v[1].startswith("std::") and v[1].endswith("::compare") and len(v[3]) == 1 and \
                v[2] is not None and v[3][0] is not None:
            return self.norm(("cmp", "==", v[2], v[3][0]), not pol)
        return (("nz", v), pol)

    def truth(self, v, env):
        if v is not None and v[0] == "and":
            a, b = self.truth(v[1], env), self.truth(v[2], env)
            if a is False or b is False:
                return False
            return True if a and b else None
        if v is not None and v[0] == "or":
            a, b = self.truth(v[1], env), self.truth(v[2], env)
            if a or b:
                return True
            return False if a is False and b is False else None
        if v is not None and v[0] == "not":
            t = self.truth(v[1], env)
            return None if t is None else not t
        r = self.norm(v)
        if r is None:
            return None
        if r[0] == "const":
            return r[1]
        t = env.get(("A", r[0]))
        if t is None:
            t = self.derived(r[0], env)
        if t is None:
            return None
        return t == r[1]

    def derived(self, atom, env):
        if atom[0] in ("eq", "nz"):
            x = atom[1]
            for k, t in env.items():
                if k[0] == "A" and t and k[1][0] == "eq" and k[1][1] == x and not isinstance(k[1][2], tuple):
                    c = k[1][2]
                    if atom[0] == "nz":
                        return c != 0
                    if not isinstance(atom[2], tuple):
                        return atom[2] == c
                if k[0] == "A" and not t and k[1] == ("nz", x) and atom[0] == "eq" and not isinstance(atom[2], tuple):
                    return False
        return None

    def assume(self, q, env, v, truth, c):
        """-> list of (q, env) consistent with v having the given truth"""
        if v is None:
            return [(q, env)]
        if v[0] == "not":
            return self.assume(q, env, v[1], not truth, c)
        if v[0] in ("and", "or"):
            if (v[0] == "and") == truth:
                out = []
                for q1, e1 in self.assume(q, env, v[1], truth, c):
                    out += self.assume(q1, e1, v[2], truth, c)
                return out
            out = []
            out += self.assume(q, env, v[1], truth, c)
            for q1, e1 in self.assume(q, env, v[1], not truth, c):
                out += self.assume(q1, e1, v[2], truth, c)
            return dedup(out)
        r = self.norm(v)
        if r is None:
            return [(q, env)]
        if r[0] == "const":
            return [(q, env)] if r[1] == truth else []
        atom, pol = r
        t = truth == pol
        known = env.get(("A", atom))
        if known is None:
            known = self.derived(atom, env)
        if known is not None:
            if known != t:
                return []
            return [(q, env)]
        c.q = q
        q2 = self.S.on_assume(q, atom, t, c)
        if q2 is None:
            return []
        if self.S.track(atom):
            env = dict(env)
            env[("A", atom)] = t
        if self.S.refine:
            x = val = None
            if atom[0] == "nz" and not t:
                x, val = atom[1], ("c", 0)
            elif atom[0] == "eq" and t and isinstance(atom[2], int):
                x, val = atom[1], ("c", atom[2])
            if x is not None:
                if x[0] in ("f", "g") and x[1] in self.S.fields:
                    env = dict(env)
                    env[("F", x[1])] = val
        return [(q2, env)]

    # --------------------------------------------------------------- exploration
    def dead(self, fn, b):
        """locals whose values need not be remembered at the start of a block"""
        return ()

    def run(self, fn, q, args=None, dyncls=None, env=None):
        e = dict(env or {})
        for i, p in enumerate(fn.params):
            if args and i < len(args) and args[i] is not None:
                e[("v", p["d"])] = args[i]
        return self.call_fn(fn, q, e, None, None, dyncls)

    def call_fn(self, fn, q, env, parent, callnode, dyncls):
        ctx = self.S.context(fn, parent.ctx if parent is not None else None)
        key = (fn.key, q, dyncls, ctx, frozenset(env.items()))
        if key in self.summ:
            return self.summ[key]
        if key in self.inprog:
            self.inprog[key][1] = True
            return self.inprog[key][0]
        slot = [set(), False]
        self.inprog[key] = slot
        while True:
            slot[1] = False
            out = self.explore(fn, q, env, parent, callnode, dyncls)
            if slot[1] and out - slot[0]:
                slot[0] = slot[0] | out
                continue
            break
        del self.inprog[key]
        out = frozenset(out | slot[0])
        self.summ[key] = out
        return out

    def explore(self, fn, q0, env0, parent, callnode, dyncls):
        S = self.S
        fr = Frame(fn, parent, callnode, dyncls,
                   S.context(fn, parent.ctx if parent is not None else None))
        self.visited_fns.add(fn.key)
        out = set()
        c0 = CallInfo(eng=self, fn=fn, node={"l": fn.line, "i": 0}, name=fn.name, obj=None, args=(),
                      env=env0, frame=fr, targets=[], q=q0)
        q0 = S.enter(q0, fn, c0)
        if q0 is None:
            return out
        start = (fn.entry, 0, q0, freeze(env0))
        seen = {start}
        work = [start]
        fr.trace[start] = None

        def push(b, i, q, env, prev, line):
            if i == 0:
                dd = self.dead(fn, b)
                if dd:
                    drop = [k for k in env if k[0] in ("v", "r") and k[1] in dd or
                            k[0] == "M" and k[1][0] == "fld" and self.local_of(fn, k[1]) in dd]
                    if drop:
                        env = dict(env)
                        for k in drop:
                            del env[k]
            st = (b, i, q, freeze(env))
            if st not in seen:
                seen.add(st)
                fr.trace[st] = (prev, line)
                self.nstates += 1
                if self.nstates > S.max_states:
                    raise RuntimeError("state budget exceeded in " + fn.name)
                work.append(st)

        def finish(kind, q, val, env, st):
            fr.cur = st
            c = CallInfo(eng=self, fn=fn, node={"l": fn.line, "i": 0}, name=fn.name, obj=None, args=(),
                         env=env, frame=fr, targets=[], q=q)
            q = S.leave(q, fn, kind, c)
            if q is None:
                return
            if val is not None and not (val[0] == "c" or S.keep(val)):
                val = None
            keep = {}
            mine = lambda t: t[0] == "l" and len(t) > 1 and t[1] == fn.key
            if val is not None and mentions(val, mine):
                val = None
            for k, v in env.items():
                if k[0] == "F":
                    keep[k] = v
                elif k[0] == "A" and not mentions(k[1], mine):
                    keep[k] = v
                elif k[0] == "E":
                    keep[k] = v
                elif k[0] == "C" :
                    keep[k] = v
                elif k[0] == "M" and not mentions(k[1], mine) and not mentions(v, mine):
                    keep[k] = v
            for ix, p in enumerate(fn.params):
                v = None
                if p.get("ref") and not p.get("cref"):
                    v = env.get(("v", p["d"]))
                elif "*" in p["t"]:
                    v = env.get(("P", p["d"]))
                if v is not None and not mentions(v, mine):
                    keep[("O", ix)] = v
            if S.cells and fn.is_lambda:
                own = self.declared(fn)
                for k, v in env.items():
                    if k[0] == "v" and k[1] not in own and not mentions(v, mine):
                        keep[("L", k[1])] = v
                for k in env0:
                    if k[0] == "v" and k[1] not in own and k not in env:
                        keep[("L", k[1])] = ("gone",)
            out.add((kind, q, val, frozenset(keep.items())))

        while work:
            st = work.pop()
            b, i, q, fenv = st
            env = dict(fenv)
            fr.cur = st
            blk = fn.blocks[b]
            elems = blk["e"]
            dead = False
            thrown = False
            while i < len(elems):
                e = elems[i]
                res = self.element(fn, fr, blk, i, e, q, env)
                # res: list of (kind, q, env[, line]); kind: next | exc | stop
                nxt = [r for r in res if r[0] == "next"]
                for r in res:
                    if r[0] == "exc":
                        line = fn.ex[e]["l"] if isinstance(e, int) else fn.line
                        self.raise_exc(fn, fr, blk, i, line, r[1], r[2], push, finish, st)
                if not nxt:
                    dead = True
                    break
                if len(nxt) == 1:
                    q, env = nxt[0][1], nxt[0][2]
                    i += 1
                    continue
                line = fn.ex[e]["l"] if isinstance(e, int) else 0
                for r in nxt:
                    push(b, i + 1, r[1], r[2], st, line)
                dead = True
                break
            if dead:
                continue
            if b == fn.exit:
                val = env.pop(("R",), None)
                finish("ret", q, val, env, st)
                continue
            self.terminator(fn, fr, blk, q, env, push, st, finish)
        fr_out = out
        return fr_out

    def alive(self, fn):
        """block -> local objects with destructors constructed and not yet destroyed on entry (in order)"""
        r = fn._cache.get("alive")
        if r is not None:
            return r
        ins = {fn.entry: ()}
        work = [fn.entry]
        while work:
            b = work.pop()
            cur = list(ins[b])
            for e in fn.blocks[b]["e"]:
                self.alive_step(fn, e, cur)
            out = tuple(cur)
            for s in fn.blocks[b]["s"]:
                if s is None:
                    continue
                old = ins.get(s)
                new = out if old is None else old + tuple(x for x in out if x not in old)
                if new != old:
                    ins[s] = new
                    work.append(s)
        fn._cache["alive"] = ins
        return ins

    def alive_step(self, fn, e, cur):
        if isinstance(e, dict):
            if e["k"] == "dtor":
                cur[:] = [x for x in cur if x[0] != e.get("d")]
        elif fn.ex[e]["k"] == "decl":
            for v in fn.ex[e]["vars"]:
                t = v.get("wt") or v["t"]
                if not v.get("static") and not v.get("ref") and "*" not in t.split("<", 1)[0] and (
                        SMART.match(v["t"]) or self.dtor_fns(v["t"])):
                    cur.append((v["d"], v["t"]))

    def unwind(self, fn, blk, i, target, q, env):
        """destroy what an exception at element i of blk leaves behind"""
        ins = self.alive(fn)
        cur = list(ins.get(blk["b"], ()))
        for e in blk["e"][:i]:
            self.alive_step(fn, e, cur)
        stay = set(ins.get(target, ())) if target is not None else set()
        return [x for x in reversed(cur) if x not in stay]

    def raise_exc(self, fn, fr, blk, i, line, q, env, push, finish, st):
        succs = blk["s"]
        term = blk.get("term")
        target = None
        if term is None and len(succs) == 2 and i == len(blk["e"]) - 1:
            target = succs[1]
        else:
            target = self.try_dispatch(fn, line)
        if target == fn.exit:
            target = None
        outs = [(q, env)]
        for d, t in self.unwind(fn, blk, i, target, q, env):
            nx = []
            for q1, e1 in outs:
                for r in self.element(fn, fr, blk, i, {"k": "dtor", "t": t, "d": d,
                                                       "fn": t + "::~" + t.rsplit("::", 1)[-1]}, q1, e1):
                    if r[0] == "next":
                        nx.append((r[1], r[2]))
            outs = dedup(nx)
        for q, env in outs:
            if target is None:
                finish("exc", q, None, env, st)
            else:
                push(target, 0, q, env, st, line)

    def exc_match(self, thrown, caught):
        caught = clean_type(caught)
        if caught == "..." or thrown is None:
            return True
        thrown = clean_type(thrown)
        seen = set()
        stt = [thrown]
        while stt:
            x = stt.pop()
            if x == caught or x.rsplit("::", 1)[-1] == caught.rsplit("::", 1)[-1]:
                return True
            if x in seen:
                continue
            seen.add(x)
            stt += EXC_BASES.get(x, [])
            if x in self.P.records:
                stt += self.P.records[x]["bases"]
        return False

    def terminator(self, fn, fr, blk, q, env, push, st, finish):
        S = self.S
        term = blk.get("term")
        succs = blk["s"]
        if term and term["k"] == "CXXTryStmt":
            thrown = env.get(("E",))
            for s in succs:
                if s is None or s == fn.exit:
                    continue
                sb = fn.blocks[s]
                if sb.get("lab") == "catch" and self.exc_match(thrown, sb.get("lt", "...")):
                    e2 = dict(env)
                    e2.pop(("E",), None)
                    push(s, 0, q, e2, st, term["l"])
                    return
            # escapes to an outer try or out of the function
            outer = [s for s in succs if s is not None and s != fn.exit and
                     fn.blocks[s].get("lab") != "catch"]
            if outer:
                push(outer[0], 0, q, env, st, term["l"])
            else:
                finish("exc", q, None, env, st)
            return
        if term and term["k"] == "SwitchStmt":
            cid = term.get("cond")
            v = self.ev(fn, cid, env)
            env = self.drop_temp(fn, env, cid)
            labels = []
            dflt = None
            for s in succs:
                if s is None:
                    continue
                sb = fn.blocks[s]
                if sb.get("lab") == "case":
                    labels.append((sb["lv"], sb.get("lv2", sb["lv"]), s))
                else:
                    dflt = s
            c = self.ci(fn, fr, cid, q, env)
            if v is not None and v[0] == "c":
                for lo, hi, s in labels:
                    if lo <= v[1] <= hi:
                        push(s, 0, q, env, st, term["l"])
                        return
                if dflt is not None:
                    push(dflt, 0, q, env, st, term["l"])
                return
            for lo, hi, s in labels:
                if v is not None and lo == hi:
                    for q2, e2 in self.assume(q, env, ("cmp", "==", v, ("c", lo)), True, c):
                        push(s, 0, q2, e2, st, term["l"])
                else:
                    push(s, 0, q, env, st, term["l"])
            if dflt is not None:
                cur = [(q, env)]
                if v is not None:
                    for lo, hi, s in labels:
                        if lo == hi:
                            nx = []
                            for q1, e1 in cur:
                                nx += self.assume(q1, e1, ("cmp", "==", v, ("c", lo)), False, c)
                            cur = dedup(nx)
                for q2, e2 in cur:
                    push(dflt, 0, q2, e2, st, term["l"])
            return
        real = [s for s in succs if s is not None]
        if term and term.get("cond") and len(succs) == 2 and not term.get("tmp"):
            cid = self.lastcond(fn, term["cond"])
            v = self.ev(fn, cid, env)
            logical = term["k"] in ("BinaryOperator", "ConditionalOperator", "BinaryConditionalOperator")
            ids = self.elemids(fn)
            for s, truth in ((succs[0], True), (succs[1], False)):
                if s is None:
                    continue
                c = self.ci(fn, fr, cid, q, env)
                for q2, e2 in self.assume(q, env, v, truth, c):
                    e2 = self.drop_temp(fn, e2, cid)
                    if logical:
                        # remember the outcome for the value of && || ?: in the join block
                        pid = [p for p in self.consumers(fn).get(term["cond"], []) if p > 0 and p in ids]
                        if pid:
                            e2 = dict(e2)
                            e2[("x", term["cond"])] = ("c", 1 if truth else 0)
                            if cid != term["cond"]:
                                pass
                    push(s, 0, q2, e2, st, term["l"])
            return
        if term and term.get("tmp"):
            for s in real:
                push(s, 0, q, env, st, term["l"])
            return
        if term is None and len(succs) == 2:
            if succs[0] is not None:
                push(succs[0], 0, q, env, st, 0)
            return
        for s in real:
            push(s, 0, q, env, st, term["l"] if term else 0)

    def ci(self, fn, fr, nid, q, env):
        n = fn.ex.get(nid) if nid else None
        return CallInfo(eng=self, fn=fn, node=n or {"l": fn.line, "i": 0}, name="", obj=None, args=(),
                        env=env, frame=fr, targets=[], q=q)

    def drop_temp(self, fn, env, i):
        if ("x", i) in env or ("xc", i) in env:
            env = dict(env)
            env.pop(("x", i), None)
            env.pop(("xc", i), None)
        return env

    def kill_var(self, env, fn, d):
        t = ("l", fn.key, d)
        drop = [k for k, v in env.items()
                if k == ("v", d) or k == ("r", d) or (k[0] == "A" and mentions(k[1], lambda x: x == t)) or
                (k[0] == "v" and mentions(v, lambda x: x == t))]
        if drop:
            env = dict(env)
            for k in drop:
                env.pop(k, None)
        return env

    def set_var(self, env, fn, d, v):
        if ("r", d) in env:
            return self.set_cell(env, fn, env[("r", d)], v)
        env = self.kill_var(env, fn, d)
        if v is not None and (v[0] in ("c", "pos", "row") or self.S.keep(v)):
            if not mentions(v, lambda x: x == ("l", fn.key, d)):
                env = dict(env)
                env[("v", d)] = v
        return env

    def set_field(self, env, q, v):
        t = ("f", q)
        drop = [k for k, x in env.items() if k == ("F", q) or (k[0] == "A" and mentions(k[1], lambda y: y == t))]
        if drop:
            env = dict(env)
            for k in drop:
                env.pop(k, None)
        if q in self.S.fields and v is not None and (v[0] == "c" or self.S.keep(v)) and v != t:
            env = dict(env)
            env[("F", q)] = v
        return env

    def bump(self, old, by):
        """the value of a counter or of a position in an array after a step"""
        if old is None:
            return None
        base, off = (None, old[1]) if old[0] == "c" else \
            (old[2], old[3][1]) if old[0] == "op" and old[1] == "+" and old[3][0] == "c" else (old, 0)
        off += by
        if abs(off) > self.S.counters or (base is not None and not self.S.keep(base)):
            return None
        return ("c", off) if base is None else ("op", "+", base, ("c", off)) if off else base

    def consume(self, fn, n, env):
        drop = [("x", c) for c in children(n) if ("x", c) in env]
        if self.S.cells:
            drop += [("xc", c) for c in children(n) if ("xc", c) in env]
        if drop:
            env = dict(env)
            for k in drop:
                del env[k]
        return env

    def element(self, fn, fr, blk, i, e, q, env):
        S = self.S
        if isinstance(e, dict):
            k = e["k"]
            if k == "init":
                v = self.ev(fn, e.get("x"), env) if e.get("x") else None
                if e.get("x") and ("x", e["x"]) in env:
                    env = self.drop_temp(fn, env, e["x"])
                if e.get("q"):
                    c = self.ci(fn, fr, e.get("x"), q, env)
                    q2 = S.on_store(q, e["q"], v, c)
                    if q2 is None:
                        return []
                    return [("next", q2, self.set_field(env, e["q"], v))]
                return [("next", q, env)]
            # destructors
            typ = e["t"]
            val = env.get(("v", e["d"])) if e.get("d") else None
            c = self.ci(fn, fr, None, q, env)
            c.node = {"l": self.dtor_line(fn, blk, i), "i": 0}
            c.name = e.get("fn") or ""
            m = SMART.match(typ)
            if m:
                if val is not None and val == ("c", 0):
                    return [("next", q, self.kill_var(env, fn, e["d"]) if e.get("d") else env)]
                inner = clean_type(m.group(1))
                if val is not None and val[0] == "new":
                    inner = val[1]
                if val is None and e["k"] == "dtor":
                    # may hold nothing
                    pass
                q2 = S.on_dtor(q, inner, val, c)
                typ = inner
            else:
                q2 = S.on_dtor(q, clean_type(typ), val, c)
            if q2 is None:
                return []
            outs = [(q2, env)]
            for t in self.dtor_fns(typ):
                if self.relevant(t):
                    nx = []
                    for q1, e1 in outs:
                        nx += [(r[1], r[2]) for r in self.descend(fn, fr, c, t, q1, e1, None, [], clean_type(typ))
                               if r[0] == "next"]
                    outs = dedup(nx)
            res = []
            for q1, e1 in outs:
                if e.get("d"):
                    e1 = self.kill_var(e1, fn, e["d"])
                res.append(("next", q1, e1))
            return res
        n = fn.ex[e]
        k = n["k"]
        if S.on_node is not None:
            c = self.ci(fn, fr, e, q, env)
            q = S.on_node(q, c)
            if q is None:
                return []
        if k in ("call", "ctor"):
            return self.call(fn, fr, blk, i, n, q, env)
        if k == "mth":
            return [("next", q, env)]       # the call that follows uses the object's value
        if k == "bin":
            op = n["op"]
            if op == "=" or (op.endswith("=") and op not in ("==", "!=", "<=", ">=")):
                v = self.ev(fn, n["c"][1], env) if op == "=" else None
                if S.counters and op in ("+=", "-="):
                    v = self.ev(fn, n["c"][1], env)
                    v = self.bump(self.ev(fn, n["c"][0], env), v[1] if op == "+=" else -v[1]) \
                        if v is not None and v[0] == "c" else None
                return self.store(fn, fr, n, n["c"][0], v, q, env, n["c"][1])
            if op in ("&&", "||"):
                v = self.ev(fn, e, env)
                env = self.consume(fn, n, env)
                if v is not None and self.consumers(fn).get(e) and (v[0] == "c" or S.keep(v)):
                    env = dict(env)
                    env[("x", e)] = v
                return [("next", q, env)]
            return self.plain(fn, n, e, q, env)
        if k == "un" and n["op"] in ("++", "--"):
            old = new = None
            x = fn.ex[n["c"][0]]
            if x["k"] == "ref" and x.get("dk") == "local" and (
                    env.get(("v", x.get("d")), ("?",))[0] == "pos" or x.get("d") in self.smallcounters(fn)):
                old = self.ev(fn, n["c"][0], env)
                if old is not None and old[0] == "pos":
                    new = self.moved(old, 1 if n["op"] == "++" else -1)
                elif old is not None and old[0] == "c" and old[1] <= 16:
                    new = ("c", old[1] + 1)
            elif S.counters:
                old = self.ev(fn, n["c"][0], env)
                new = self.bump(old, 1 if n["op"] == "++" else -1)
            outs = self.store(fn, fr, n, n["c"][0], new, q, env, None)
            if new is None or not self.consumers(fn).get(n["i"]):
                return outs
            return [o[:2] + (dict(o[2]) | {("x", n["i"]): old if n.get("post") else new},) for o in outs]
        if k == "decl":
            for v in n["vars"]:
                val = self.ev(fn, v["init"], env) if v.get("init") else None
                if v.get("init") and not v.get("ref") and "*" in v["t"]:
                    lst = self.constlist(fn, v["init"])     # the address of the first element
                    if lst is not None:
                        val = ("pos",) + lst + (0,)
                    elif fn.ex[v["init"]]["k"] == "bin" and fn.ex[v["init"]]["op"] == "+":
                        a, b = fn.ex[v["init"]]["c"]
                        lst, by = self.constlist(fn, a), self.ev(fn, b, env)
                        if lst is not None and by is not None and by[0] == "c":
                            val = self.moved(("pos",) + lst + (0,), by[1])
                ck = self.cell(fn, v["init"], True, env) if S.cells and v.get("ref") and v.get("init") else None
                if v.get("init"):
                    env = self.drop_temp(fn, env, v["init"])
                if v.get("static"):
                    val = None
                if S.cells and v.get("ref") and v.get("init"):
                    if ck is not None:
                        env = self.kill_var(env, fn, v["d"])
                        env = dict(env)
                        env[("r", v["d"])] = ck
                        continue
                env = self.set_var(env, fn, v["d"], val)
            return [("next", q, env)]
        if k == "ret":
            v = self.ev(fn, n["c"][0], env) if n["c"] else None
            c = self.ci(fn, fr, e, q, env)
            q2 = S.on_return(q, fn, v, c)
            if q2 is None:
                return []
            env = dict(self.consume(fn, n, env))
            env.pop(("R",), None)
            if v is not None:
                env[("R",)] = v
            return [("next", q2, env)]
        if k == "throw":
            env = dict(self.consume(fn, n, env))
            if n.get("tt"):
                env[("E",)] = n["tt"]
            return [("exc", q, env)]
        if k == "delete":
            v = self.ev(fn, n["c"][0], env) if n.get("c") else None
            q2 = S.on_delete(q, v, bool(n.get("arr")), self.ci(fn, fr, e, q, env))
            return [("next", q2, self.consume(fn, n, env))]
        if k == "new":
            q2, v = S.on_new(q, self.ci(fn, fr, e, q, env))
            env = self.consume(fn, n, env)
            return [("next", q2, self.put_temp(fn, n, env, v) if v is not None else env)]
        if k == "cond":
            v = self.ev(fn, e, env)
            env = self.consume(fn, n, env)
            if v is not None and self.consumers(fn).get(e) and (v[0] == "c" or S.keep(v)):
                env = dict(env)
                env[("x", e)] = v
            return [("next", q, env)]
        return self.plain(fn, n, e, q, env)

    def plain(self, fn, n, e, q, env):
        has = [c for c in children(n) if ("x", c) in env]
        if has:
            v = self.ev(fn, e, env)
            ck = self.mcell(fn, n, env) if self.S.cells and n["k"] == "fld" else None
            env = self.consume(fn, n, env)
            if ck is not None and self.consumers(fn).get(e):
                env = dict(env)
                env[("xc", e)] = ck
            if v is not None and self.consumers(fn).get(e):
                env = dict(env)
                env[("x", e)] = v
        return [("next", q, env)]

    def dtor_line(self, fn, blk, i):
        for e in reversed(blk["e"][:i]):
            if isinstance(e, int):
                return fn.ex[e]["l"]
        return fn.line

    def store(self, fn, fr, n, lhs, v, q, env, rhs):
        S = self.S
        ln = fn.ex[lhs]
        env0 = env
        env = self.consume(fn, n, env)
        if rhs and n["op"] == "=" and self.consumers(fn).get(n["i"]) and v is not None and \
                ("x", rhs) in env0 and v[0] in ("c", "hnd"):
            env = dict(env)
            env[("x", n["i"])] = v
        if ln["k"] == "ref" and "d" in ln:
            return [("next", q, self.set_var(env, fn, ln["d"], v))]
        if S.cells and ln["k"] == "fld":
            env, env0 = self.own_copy(fn, ln, env), self.own_copy(fn, ln, env0)
        if ln["k"] == "fld" or ln.get("dk") == "global" and ln["q"] in S.fields:
            c = self.ci(fn, fr, n["i"], q, env)
            q2 = S.on_store(q, ln["q"], v, c)
            if q2 is None:
                return []
            if S.cells and ln["k"] == "fld":
                ck = self.mcell(fn, ln, env0)
                return [("next", q2, self.set_cell(env, fn, ck, v) if ck is not None else env)]
            return [("next", q2, self.set_field(env, ln["q"], v))]
        if ln["k"] == "un" and ln["op"] == "*" and fn.ex[ln["c"][0]]["k"] == "ref" and \
                fn.ex[ln["c"][0]].get("dk") == "parm":
            return [("next", q, self.set_cell(env, fn, ("P", fn.ex[ln["c"][0]]["d"]), v))]
        if ln["k"] == "un" and ln["op"] == "*":
            base = self.ev(fn, ln["c"][0], env)
            if base is not None and base[0] == "addr" and base[1][0] == "f":
                return [("next", q, self.set_field(env, base[1][1], v))]
        return [("next", q, env)]

    def own_copy(self, fn, ln, env):
        """a member of a local aggregate held by value is about to be changed: the variable stops standing for
        what it was copied from"""
        base = fn.ex.get(ln.get("b"))
        if not base or base["k"] != "ref" or "d" not in base or ("v", base["d"]) not in env or \
                base["d"] not in self.by_value(fn):
            return env
        v = env[("v", base["d"])]
        if v[0] not in ("w", "o", "fld", "ent", "rec"):
            return env
        own = ("l", fn.key, base["d"])
        names = [k for k, _ in v[1]] if v[0] == "rec" else ("first", "second") if pairfield(ln["q"]) in (
            "first", "second") else self.member_names(ln["q"])
        env = dict(env)
        del env[("v", base["d"])]
        for f in names:
            x = self.looked(dict(v[1])[f] if v[0] == "rec" else ("fld", f, v), env)
            if x is not None:
                env[("M", ("fld", f, own))] = x
        return env

    def member_names(self, q):
        cls = q.rsplit("::", 1)[0]
        return [cls + "::" + f["n"] for f in (self.P.records.get(cls) or {"fields": ()})["fields"]]

    def by_value(self, fn):
        r = self._byvalue.get(fn.key)
        if r is None:
            r = {p["d"] for p in fn.params if not p.get("ref") and "*" not in p["t"]}
            for n in fn.nodes():
                if n["k"] == "decl":
                    r |= {v["d"] for v in n["vars"] if not v.get("ref") and "*" not in v.get("t", "")}
            self._byvalue[fn.key] = r
        return r

    # ---------------------------------------------------------------------- calls
    def mcell(self, fn, an, env):
        if env and ("xc", an["i"]) in env:
            return env[("xc", an["i"])]
        base = fn.ex.get(an.get("b"))
        if an.get("this") or (base and base["k"] == "this"):
            return ("F", an["q"]) if an["q"] in self.S.fields else ("M", ("f", an["q"]))
        b = self.ev(fn, an.get("b"), env or {})
        if b is None or b[0] == "rec":
            return None
        if b == ("this",):
            return ("F", an["q"]) if an["q"] in self.S.fields else ("M", ("f", an["q"]))
        t = self.lim(("fld", pairfield(an["q"]), b))
        return ("M", t) if t is not None else None

    def cell(self, fn, a, ref, env=None):
        """what an argument passed by reference / as a pointer designates:
        ("v", local) | ("F", field) | ("P", pointer parameter) | None"""
        an = fn.ex.get(a)
        if an is None:
            return None
        if an["k"] == "cond" and env is not None:
            t = self.truth(env.get(("x", an["c"][0])) or self.ev(fn, an["c"][0], env), env)
            return None if t is None else self.cell(fn, an["c"][1 if t else 2], ref, env)
        if ref:
            if an["k"] == "ref" and an.get("dk") in ("local", "parm") and "d" in an:
                return (env or {}).get(("r", an["d"])) or ("v", an["d"])
            if an["k"] == "fld" and an["q"] in self.S.fields and not self.S.cells:
                return ("F", an["q"])
            if an["k"] == "fld" and self.S.cells:
                return self.mcell(fn, an, env)
            if an["k"] == "un" and an["op"] == "*":
                x = fn.ex[an["c"][0]]
                if x["k"] == "ref" and x.get("dk") == "parm":
                    return ("P", x["d"])
            return None
        if an["k"] == "un" and an["op"] == "&":
            return self.cell(fn, an["c"][0], True, env)
        if an["k"] == "ref" and an.get("dk") == "parm" and "*" in an.get("t", ""):
            return ("P", an["d"])
        return None

    def set_cell(self, env, fn, key, v):
        if key[0] == "v":
            return self.set_var(env, fn, key[1], v)
        if key[0] == "F":
            return self.set_field(env, key[1], v)
        env = dict(env)
        env.pop(key, None)
        if v is not None and (v[0] == "c" or self.S.keep(v)):
            env[key] = v
        return env

    def invalidate_args(self, fn, n, env, targets):
        t = targets[0] if targets else None
        base = (n.get("fn") or "").rsplit("::", 1)[-1]
        for idx, a in enumerate(n["a"]):
            if not a:
                continue
            an = fn.ex[a]
            if an["k"] == "un" and an["op"] == "&":
                x = fn.ex[an["c"][0]]
                if x["k"] == "ref" and "d" in x:
                    env = self.kill_var(env, fn, x["d"])
                elif x["k"] == "fld":
                    env = self.set_field(env, x["q"], None)
                elif x["k"] == "un" and x["op"] == "*" and fn.ex[x["c"][0]]["k"] == "ref":
                    env = self.set_cell(env, fn, ("P", fn.ex[x["c"][0]].get("d")), None)
            elif an["k"] == "ref" and an.get("dk") == "parm" and ("P", an.get("d")) in env:
                env = self.set_cell(env, fn, ("P", an["d"]), None)
            elif an["k"] == "ref" and "d" in an and an.get("dk") in ("local", "parm"):
                if t is not None and idx < len(t.params):
                    p = t.params[idx]
                    if p.get("ref") and not p.get("cref"):
                        env = self.kill_var(env, fn, an["d"])
                elif t is None and (base in ("getline", "swap", "operator>>")):
                    env = self.kill_var(env, fn, an["d"])
        # mutating methods / operators on a local object
        keep = None
        if n["k"] == "call" and n.get("o"):
            on = fn.ex[n["o"]]
            mut = n.get("op") in ("=", "+=", "++", "--", "[]", "<<", ">>") or base in MUTATORS
            if mut and n.get("op") == "[]" and (n.get("fn") or "").startswith("std::basic_string<") and self.only_read(fn, n["i"]):
                mut = False
            if mut and n.get("op") == "[]" and (n.get("fn") or "").startswith(FIXED_SIZE):
                # an element may be written; the number of elements stays
                t2 = ("l", fn.key, on["d"]) if on["k"] == "ref" and "d" in on and ("r", on["d"]) not in env else \
                    ("f", on["q"]) if on["k"] == "fld" else None
                if t2 is not None:
                    keep = {k: v for k, v in env.items() if k[0] == "A" and mentions(k[1], lambda y: y == t2) and
                            not mentions(unsized(k[1], t2), lambda y: y == t2)}
            if mut:
                if on["k"] == "ref" and ("r", on.get("d")) in env:
                    env = self.set_cell(env, fn, env[("r", on["d"])], None)
                elif on["k"] == "ref" and "d" in on:
                    env = self.kill_var(env, fn, on["d"])
                elif on["k"] == "fld":
                    t2 = ("f", on["q"])
                    drop = [k for k in env if k[0] == "A" and mentions(k[1], lambda y: y == t2)]
                    if ("F", on["q"]) in env and base in TEXT_MUTATORS and \
                            env[("F", on["q"])][0] in ("s", "empty", "call", "c"):
                        drop.append(("F", on["q"]))
                    if drop:
                        env = dict(env)
                        for k in drop:
                            del env[k]
                if keep:
                    env = dict(env)
                    env.update(keep)
        return env

    def call(self, fn, fr, blk, i, n, q, env):
        S = self.S
        name = n.get("fn") or "?"
        obj = self.ev(fn, n.get("o"), env) if n.get("o") else None
        args = tuple(self.ev(fn, a, env) for a in n["a"])
        dyn = None
        P = self.P
        if n["k"] == "call" and n.get("o"):
            if n.get("othis") and fr.dyncls and not n.get("qual"):
                dyn = fr.dyncls
            elif obj is not None and obj[0] == "new":
                dyn = obj[1]
            else:
                on = fn.ex[n["o"]]
                ot = clean_type(on.get("t", ""))
                if on["k"] in ("ref", "fld") and "*" not in on.get("t", "") and ot in P.records:
                    # an object held by value has exactly its declared class
                    if on["k"] == "fld" or (on.get("dk") == "local"):
                        dyn = ot if not self.is_refvar(fn, on) else None
        elif n["k"] == "ctor":
            dyn = n.get("cls")
        if obj is not None and obj[0] == "lambda" and n.get("op") == "()":
            targets = [P.fns[obj[1]]] if obj[1] in P.fns else []
        elif not n.get("fk") and n.get("fe"):
            fv = self.ev(fn, n["fe"], env)
            targets = [P.fns[fv[2]]] if fv and fv[0] == "fn" and fv[2] in P.fns else []
        else:
            targets = P.targets(n, dyn if dyn in P.records else None)
        c = CallInfo(eng=self, fn=fn, node=n, name=name, obj=obj, args=args, env=env, frame=fr,
                     targets=targets, q=q)
        self.visited_calls.add((fn.key, n["i"]))
        env1 = self.consume(fn, n, env)
        res = S.on_call(q, c)
        outs = []
        if res is not None:
            env2 = self.invalidate_args(fn, n, env1, targets)
            for r in res:
                q2, rv = r[0], r[1]
                if q2 is None:
                    continue
                e3 = env2
                for ix, val in (r[2].items() if len(r) > 2 else ()):
                    if ix == "o":
                        ck = self.cell(fn, n.get("o"), True, env)
                    elif isinstance(ix, tuple):
                        ck = ix
                    else:
                        ck = self.cell(fn, n["a"][ix], False, env) if ix < len(n["a"]) else None
                    if ck is not None:
                        e3 = self.set_cell(e3, fn, ck, val)
                outs.append(("next", q2, self.put_temp(fn, n, e3, rv)))
            return self.assign_op(fn, fr, n, args, outs, env)
        if n.get("nr"):
            S.on_exit_process(q, c)
            return []
        rel = [t for t in targets if self.relevant(t)]
        # callables handed to an algorithm of the library
        callables = []
        if not targets:
            for a in args:
                if a is not None and a[0] in ("lambda", "fn"):
                    k = a[1] if a[0] == "lambda" else a[2]
                    if k in P.fns and self.relevant(P.fns[k]):
                        callables.append(P.fns[k])
        if callables:
            cur = [(q, env1)]
            answers = set()
            for _ in range(2):
                for t in callables:
                    for q1, e1 in list(cur):
                        for r in self.descend(fn, fr, c, t, q1, e1, None, [], None):
                            if r[0] == "exc":
                                outs.append(r)
                            else:
                                answers.add(r[2].get(("R",)))
                                cur.append((r[1], {k: v for k, v in r[2].items() if k != ("R",)}))
                    cur = dedup(cur)
            # what an algorithm says about a predicate that always answers the same
            rv = None
            if len(callables) == 1 and len(answers) == 1:
                a = self.truth(min(answers, key=repr), {})
                what = c.base() if name.startswith("std::") else None
                if a is False and what in ("any_of", "count_if"):
                    rv = ("c", 0)
                elif a is False and what == "none_of" or a and what == "all_of":
                    rv = ("c", 1)
                elif what in ("find_if", "find_if_not") and a is (what == "find_if_not") and len(args) == 3:
                    rv = args[1]
            for q1, e1 in cur:
                e1 = self.invalidate_args(fn, n, e1, targets)
                outs.append(("next", q1, self.put_temp(fn, n, e1, rv) if rv is not None else e1))
            return outs
        if rel:
            env2 = self.invalidate_args(fn, n, env1, targets)
            others = [t for t in targets if t not in rel]
            for t in rel:
                outs += self.descend(fn, fr, c, t, q, env2, n, args,
                                     dyn if (dyn and t.cls) else (fr.dyncls if n.get("othis") else None))
            if others:
                outs.append(("next", q, env2))
            return self.assign_op(fn, fr, n, args, dedup(outs), env)
        ends = [P.stops(t) for t in targets]
        if ends and all(ends):
            return [("exc", q, env1)] if "throw" in ends else []
        env2 = self.invalidate_args(fn, n, env1, targets)
        v = None
        if any(("x", ch) in env for ch in children(n)):
            v = self.ev(fn, n["i"], env)
        env2 = self.put_temp(fn, n, env2, v)
        return self.assign_op(fn, fr, n, args, [("next", q, env2)], env)

    def assign_op(self, fn, fr, n, args, outs, env0=None):
        """operator= on a local/field of class type (smart pointers, strings)"""
        S = self.S
        if n.get("op") == "=" and n.get("o") and args:
            on = fn.ex[n["o"]]
            res = []
            for r in outs:
                if r[0] == "next":
                    e2 = r[2]
                    if on["k"] == "ref" and "d" in on:
                        old = (env0 or {}).get(("v", on["d"]))
                        if SMART.match(on.get("t", "")) and old is not None and old[0] == "new":
                            q2 = self.S.on_dtor(r[1], old[1], old, self.ci(fn, fr, n["i"], r[1], e2))
                            if q2 is None:
                                continue
                            r = ("next", q2, e2)
                        e2 = self.set_var(e2, fn, on["d"], args[0])
                    elif on["k"] == "fld":
                        q2 = self.S.on_store(r[1], on["q"], args[0], self.ci(fn, fr, n["i"], r[1], e2))
                        if q2 is None:
                            continue
                        r = ("next", q2, e2)
                        if S.cells:
                            ck = self.mcell(fn, on, env0)
                            if ck is not None:
                                e2 = self.set_cell(e2, fn, ck, args[0])
                        else:
                            e2 = self.set_field(e2, on["q"], args[0])
                    r = ("next", r[1], e2)
                res.append(r)
            return res
        if n.get("o") and len(args) == 1 and args[0] is not None and (
                n.get("op") == "+=" or (n.get("fn") or "").endswith("basic_string<char>::append")):
            on = fn.ex[n["o"]]
            old = self.ev(fn, n["o"], env0 or {})
            if old is not None and on["k"] in ("ref", "fld") and \
                    (old[0] != "l" or on["k"] == "fld" or old != ("l", fn.key, on.get("d"))):
                v = self.lim(("call", "std::operator+", None, (old, args[0])))
                if v is not None:
                    if on["k"] == "ref" and "d" in on:
                        return [("next", r[1], self.set_var(r[2], fn, on["d"], v)) if r[0] == "next" else r
                                for r in outs]
                    if on["k"] == "fld":
                        return [("next", r[1], self.set_field(r[2], on["q"], v)) if r[0] == "next" else r
                                for r in outs]
        if re.search(r"_ptr(<.*>)?::(reset|release)$", n.get("fn") or "") and n.get("o"):
            on = fn.ex[n["o"]]
            res = []
            for r in outs:
                if r[0] == "next" and on["k"] == "ref" and "d" in on:
                    old = (env0 or {}).get(("v", on["d"]))
                    q2 = r[1]
                    if n["fn"].endswith("reset") and old is not None and old[0] == "new":
                        q2 = self.S.on_dtor(r[1], old[1], old, self.ci(fn, fr, n["i"], r[1], r[2]))
                        if q2 is None:
                            continue
                    r = ("next", q2, self.set_var(r[2], fn, on["d"], args[0] if args else ("c", 0)))
                res.append(r)
            return res
        return outs

    def put_temp(self, fn, n, env, rv):
        if rv is not None and self.consumers(fn).get(n["i"]) and (rv[0] in ("c", "s") or self.S.keep(rv)):
            env = dict(env)
            env[("x", n["i"])] = rv
        return env

    def is_refvar(self, fn, on):
        if fn._vars is None:
            fn._vars = {}
            for x in fn.ex.values():
                if x["k"] == "decl":
                    for v in x["vars"]:
                        fn._vars[v["d"]] = v
        v = fn._vars.get(on.get("d"))
        return bool(v and v.get("ref"))

    def descend(self, fn, fr, c, t, q, env, n, args, dyn):
        S = self.S
        cenv = {}
        mine = {}
        for k, v in env.items():
            if k[0] in ("F", "C", "M"):
                cenv[k] = v
            elif k[0] == "A":
                cenv[k] = v
            else:
                mine[k] = v
        cells = {}
        if n is not None:
            for idx, p in enumerate(t.params):
                if idx >= len(n["a"]):
                    break
                isref = p.get("ref") and not p.get("cref")
                isptr = "*" in p["t"] and not p["t"].startswith("const ")
                if not isref and not isptr:
                    continue
                ck = self.cell(fn, n["a"][idx], bool(isref), env)
                if ck is None:
                    continue
                cells[idx] = ck
                if not isref:
                    v = c.env.get(ck)
                    if v is not None:
                        cenv[("P", p["d"])] = v
        for idx, p in enumerate(t.params):
            if idx < len(args):
                a = args[idx]
                if a is not None and (a[0] in ("c", "s", "lambda", "fn", "empty") or S.keep(a)):
                    cenv[("v", p["d"])] = a
        caps = {}
        if t.is_lambda:
            caps = self.capture_map(t, fn)
            for d_in, d_out in caps.items():
                if ("v", d_out) in env:
                    cenv[("v", d_in)] = env[("v", d_out)]
        out = []
        parent_chain = fr
        depth = 0
        x = fr
        while x is not None:
            depth += 1
            x = x.parent
        if depth > 60:
            return [("next", q, env)]
        for kind, q2, val, keep in self.call_fn(t, q, cenv, fr, c.node, dyn):
            q2 = S.resume(q, q2, t, c)
            ren = S.ren
            if ren:
                val = ren.get(val, val)
            e2 = dict(mine)
            outv = {}
            for kk, vv in keep:
                if ren:
                    vv = ren.get(vv, vv)
                if kk[0] == "O":
                    outv[kk[1]] = vv
                elif kk[0] == "L":
                    o = caps.get(kk[1])
                    if o is not None:
                        e2 = self.kill_var(e2, fn, o) if vv == ("gone",) else self.set_var(e2, fn, o, vv)
                else:
                    e2[kk] = vv
            for idx, ck in cells.items():
                if ck[0] != "F" or idx in outv:
                    e2 = self.set_cell(e2, fn, ck, outv.get(idx))
            if kind == "exc":
                out.append(("exc", q2, e2))
            else:
                e2.pop(("E",), None)
                if n is not None:
                    e2 = self.put_temp(fn, n, e2, val if n["k"] == "call" else None)
                elif t.is_lambda and val is not None:
                    e2[("R",)] = val
                out.append(("next", q2, e2))
        return dedup(out)

    def declared(self, t):
        r = t._cache.get("declared")
        if r is None:
            r = {p["d"] for p in t.params}
            for x in t.ex.values():
                if x["k"] == "decl":
                    r |= {v["d"] for v in x["vars"]}
            t._cache["declared"] = r
        return r

    def capture_map(self, t, fn):
        r = t._cache.get("caps")
        if r is None:
            declared = self.declared(t)
            free = {}
            for x in t.ex.values():
                if x["k"] == "ref" and "d" in x and x["d"] not in declared:
                    free[x["d"]] = x["n"]
            names = {}
            for p in fn.params:
                names[p["n"]] = p["d"]
            for x in fn.ex.values():
                if x["k"] == "decl":
                    for v in x["vars"]:
                        names[v["n"]] = v["d"]
            r = t._cache["caps"] = {d: names[nm] for d, nm in free.items() if nm in names}
        return r

    # -------------------------------------------------------------------- reporting
    def path_of(self, c):
        lines = []
        fr = c.frame
        frames = []
        while fr is not None:
            frames.append(fr)
            fr = fr.parent
        for f in reversed(frames):
            ls = []
            st = f.cur
            guard = 0
            while st is not None and guard < 4000:
                guard += 1
                p = f.trace.get(st)
                if p is None:
                    break
                st, line = p
                if line and (not ls or ls[-1] != line):
                    ls.append(line)
            ls.reverse()
            lines.append({"function": f.fn.name, "file": f.fn.rel(), "line": f.fn.line,
                          "branches": ls[-40:]})
        return lines

    def report(self, msg, c, key=None):
        k = key or (msg, c.fn.name)
        if k not in self.violations:
            self.violations[k] = {"message": msg, "where": c.loc, "function": c.fn.name,
                                  "path": self.path_of(c)}


def pairfield(q):
    return q.rsplit("::", 1)[-1] if q.startswith("std::pair<") else q


COMPARE = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b,
           ">": lambda a, b: a > b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b}


def arith(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "|":
        return a | b
    if op == "&":
        return a & b
    if op == "^":
        return a ^ b
    if op == "<<" and 0 <= b < 63:
        return a << b
    if op == ">>" and 0 <= b < 63:
        return a >> b
    if op == "/" and b:
        return int(a / b)
    if op == "%" and b:
        return a - b * int(a / b)
    return None


PURE_STD = {"size", "length", "empty", "find", "end", "begin", "rbegin", "rend", "count", "cend",
            "cbegin", "at", "operator[]", "front", "back", "operator+"}
MUTATORS = {"insert", "erase", "clear", "push_back", "emplace", "emplace_back", "pop_back", "append",
            "assign", "swap", "resize", "replace", "open", "close", "reset", "release", "flush", "write"}


TEXT_MUTATORS = {"insert", "erase", "clear", "push_back", "append", "assign", "swap", "resize", "replace",
                 "pop_back"}


def y_key(v):
    return repr(v)


def freeze(env):
    return frozenset(env.items())


def dedup(xs):
    seen = set()
    out = []
    for x in xs:
        k = tuple(freeze(y) if isinstance(y, dict) else y for y in x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out
