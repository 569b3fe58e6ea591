"""C30: a transfer, its storage and the unpacking of what was fetched: every step forked over success and failure."""
import os

import esp
from checks.common import CardsSpec, error_fields

FAILONERROR, URL, WRITEFUNCTION, RESPONSE_CODE = 45, 10002, 20011, 0x200002
FULL, PART = 100, 60                    # what the callback is handed, and what of it could be stored
OUT = ("std::basic_ofstream", "std::ofstream", "std::basic_fstream", "std::fstream", "std::basic_ostream",
       "std::basic_ios", "std::basic_filebuf")
BAD_SIZES = (("c", -1), ("c", -2))      # ZSTD_CONTENTSIZE_UNKNOWN and _ERROR


class Transfer(CardsSpec):
    """q = flags: failed:<step>, newurl (another file is asked for since a failure), http (errors of the server count as
    failures), and for the stream at hand: out / in (which kind), unopened, pending (written, not known to be stored)"""
    max_states = 2000000

    def __init__(self, prog):
        self.fields = error_fields(prog) | {
            c + "::" + f["n"] for c in ("cards::dwl", "cards::sync") for f in prog.records.get(c, {"fields": ()})["fields"]
            if "std::" not in f["t"]}
        self.steps = {}
        self.callbacks = set()

    def calls(self, n):
        b = n.rsplit("::", 1)[-1]
        return b.startswith(("curl_easy_", "ZSTD_")) or b in ("treatErrors",) or n.startswith(OUT) and b in (
            "write", "close", "flush")

    def keep(self, v):
        return v[0] in ("c", "s") or v[0] == "o" and v[1] == "there"

    def track(self, a):
        return False

    def step(self, name):
        self.steps[name] = self.steps.get(name, 0) + 1

    def fork(self, q, name, good, *bad):
        self.step(name)
        return [(q, good)] + [(q | {"failed:" + name}, b) for b in bad]

    def stream(self, c):
        n = c.fn.ex.get(c.node.get("o"), {})
        t = n.get("t", "") + " " + c.name
        return "in" if "ifstream" in t else "out" if "ofstream" in t or "fstream" in t else None

    def on_call(self, q, c):
        b, args = c.base(), c.args
        if c.targets:
            return None
        if b == "curl_easy_setopt" and len(args) >= 3:
            if args[1] == ("c", FAILONERROR):
                q = q - {"http"} if args[2] == ("c", 0) else q | {"http"}
            elif args[1] == ("c", URL) and any(f.startswith("failed:") for f in q):
                q = q | {"newurl"}
            elif args[1] == ("c", WRITEFUNCTION):
                self.callbacks.add(callee(args[2]))
            return [(q, ("c", 0))]
        if b == "curl_easy_getinfo" and len(args) >= 2 and args[1] == ("c", RESPONSE_CODE):
            return [(q | {"http"}, ("c", 0))]
        if b == "curl_easy_perform":
            if "newurl" not in q:
                q = frozenset(f for f in q if not f.startswith("failed:"))
            if "http" not in q:
                q = q | {"nohttp"}
            return self.fork(q, "the transfer", ("c", 0), ("c", 7), ("c", 22))
        if b in ("fclose", "fflush"):
            return self.fork(q, "storing the data", ("c", 0), ("c", -1))
        if b == "ZSTD_getFrameContentSize":
            return self.fork(q, "reading the compressed size", ("c", 1000), *BAD_SIZES)
        if b == "ZSTD_decompress":
            return self.fork(q, "unpacking", ("c", 1000), ("c", -20))
        if b == "ZSTD_isError" and args:
            return [(q, ("c", int(args[0] is not None and args[0][0] == "c" and args[0][1] < 0)))]
        return self.streams(q, c, b, args)

    def streams(self, q, c, b, args):
        if os.path.basename(c.fn.file) not in self.files:
            return None
        if c.node["k"] == "ctor" and ("ofstream" in c.name or "ifstream" in c.name or "basic_fstream" in c.name):
            kind = "in" if "ifstream" in c.name else "out"
            q = frozenset(f for f in q if not f.startswith(kind + ":"))
            if not args:
                return [(q, None)]
            self.step("opening a file")
            return [(q | {kind + ":open"}, None), (q | {kind + ":bad", "failed:opening the file to " + (
                "read" if kind == "in" else "write")}, None)]
        k = self.stream(c)
        if k is None:
            return None
        if b == "open" and args:
            q = frozenset(f for f in q if not f.startswith(k + ":"))
            return [(q | {k + ":open"}, None), (q | {k + ":bad", "failed:opening the file to " + (
                "read" if k == "in" else "write")}, None)]
        if b in ("operator!", "fail", "bad"):
            return [(q, ("c", int(k + ":bad" in q)))]
        if b in ("operator bool", "good", "is_open"):
            return [(q, ("c", int(k + ":bad" not in q)))]
        if k == "out" and (b in ("write", "put") or b == "operator<<"):
            return [(q | {"out:pending"}, None)]
        if k == "out" and b in ("close", "flush") and "out:pending" in q:
            q = q - {"out:pending"}
            self.step("writing the file")
            return [(q, None), (q | {"out:bad", "failed:writing the file"}, None)]
        return None


def callee(v):
    if v is not None and v[0] == "addr":
        v = v[1]
    return v[2] if v is not None and v[0] == "fn" else v[1] if v is not None and v[0] == "lambda" else None


class Callback(CardsSpec):
    """the data handed over is FULL; q = flags: lost"""
    cells = True

    def __init__(self):
        self.stores = 0

    def calls(self, n):
        return n.rsplit("::", 1)[-1] in ("fopen", "fopen64", "fwrite", "write")

    def keep(self, v):
        return v[0] in ("c", "o")

    def track(self, a):
        return False

    def on_call(self, q, c):
        b = c.base()
        if c.targets:
            return None
        if b in ("fopen", "fopen64"):
            self.stores += 1
            return [(q, ("o", "there", "x")), (q | {"lost"}, ("c", 0))]
        if b in ("fwrite", "write"):
            self.stores += 1
            return [(q | {"stored"}, ("c", FULL)), (q | {"lost"}, ("c", PART))]
        return None


def check(prog, res):
    builders = {f.key for f in prog.fns.values() if any(n.get("fn", "").rsplit("::", 1)[-1] == "curl_easy_perform"
                                                        for n in f.calls())}
    spec = Transfer(prog)
    spec.files = {os.path.basename(f.file) for f in prog.fns.values() if f.cls in ("cards::sync", "cards::dwl")}
    made = [f for f in prog.fns.values() if f.cls == "cards::dwl" and f.ctor and not f.copyctor and f.params]
    keys = {f.key for f in made}
    roots = [f for f in prog.fns.values() if any(t.key in keys for n in f.calls() for t in prog.targets(n))]
    called = {t.key for f in roots for n in f.calls() for t in prog.targets(n)}
    roots += [f for f in made if f.key not in called]
    ends = 0
    eng = esp.Engine(prog, spec)
    for f in roots:
        for kind, q, v, keep in eng.run(f, frozenset(), dyncls=f.cls):
            if kind != "ret":
                continue
            ends += 1
            at = "%s:%s in %s" % (f.rel(), f.line, f.name)
            for x in sorted(q):
                if x.startswith("failed:"):
                    res.violation((f.name, x[7:]), "the download counts as done although %s failed" % x[7:], at)
            if "nohttp" in q and "http" not in q:
                res.violation((f.name, "http"), "an error answered by the server does not make the transfer fail", at)
            if "out:pending" in q:
                res.violation((f.name, "unknown"), "a file counts as written without that having been found out", at)
    res.from_engine(eng)
    res.coverage["steps"] = spec.steps
    res.coverage["roots"] = sorted({f.name for f in roots})
    res.coverage["normal_ends"] = ends
    res.coverage["functions_that_transfer"] = len(builders)
    stored = {}
    for k in sorted(x for x in spec.callbacks if x):
        f = prog.fns.get(k)
        if f is None or len(f.params) < 4:
            continue
        s = Callback()
        e = esp.Engine(prog, s)
        n = 0
        for kind, q, v, keep in e.run(f, frozenset(), args=[None, ("c", 1), ("c", FULL), ("o", "there", "destination")]):
            if kind != "ret":
                continue
            n += 1
            if "lost" in q and v == ("c", FULL):
                res.violation((f.name, "lost"), "data that could not be stored is reported as stored",
                              "%s:%s in %s" % (f.rel(), f.line, f.name))
        res.from_engine(e)
        stored[f.name] = {"stores": s.stores, "ends": n}
    res.coverage["callbacks"] = stored
    res.rule("each step of a download - the transfer, closing the file, opening and writing the unpacked list, reading its "
             "size and unpacking it - is forked over success and failure: no path on which one failed (or a write was "
             "never checked) ends normally in the function that asked for the download; errors answered by the server "
             "are made failures before the transfer; the write callback never reports as stored what was not")
