#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl, engine/checks and the table below"""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
TYPESTATE = ("whole-program path-sensitive typestate analysis (property simulation over Clang CFGs, "
             "interprocedural with summaries, exception and destructor edges)")
TECH = {
    "C01": TYPESTATE + ": lock state x every modifying system call reachable from the mains",
    "C02": TYPESTATE + " of the lock class's constructor and destructor; effect rule on unlock calls",
    "C03": TYPESTATE + ": uid-established state x every modifying call reachable from the mains",
    "C04": TYPESTATE + ": state of the temporary file list (open, written, flushed, tested, synchronised)",
    "C05": TYPESTATE + ": order of file removal/record deletion and of extraction/metadata/record completion",
    "C13": TYPESTATE + ": exception edges to the handlers of main, exit status by constant propagation",
    "C14": "interprocedural constant propagation of every fork/exec/wait outcome through the process runners, "
           "plus whole-program typestate of a child's failure up to its report",
    "C19": "abstract interpretation of the command-line parsers over argument vectors known only by what decides their "
           "fate (unknown word, missing value, ...): refusal on every path; position analysis of every use of an "
           "argument; operand guards against the command table",
    "C20": "definite-assignment dataflow over constructors, raw records, scalar locals and buffers filled by calls",
    "C21": TYPESTATE + " with a failing and a succeeding outcome of every acquiring call, null-value propagation",
    "C22": "ownership typestate of every handle, interprocedural, over normal, error and exception paths",
    "C24": TYPESTATE + ": protection state of the key file's descriptor and umask, from creation to close",
    "C26": "path-sensitive symbolic length analysis of every access to buffers, string tails, list elements and mapped "
           "files, parameters judged with their callers inlined",
    "C25": "interprocedural constant propagation of every format argument and type matching of each conversion",
    "C06": "exploration of every path under assumed conditions (constant propagation with the deciding call's "
           "answer forced, plus typestate): no modification and no normal return; abstract interpretation of the "
           "conflict scan with one generic file per source of conflict",
    "C07": "abstract interpretation of every removing operation with one generic witness file: set-content dataflow "
           "(sure / possible members), loops executed per element kind, iteration order tracked",
    "C08": "abstract interpretation of whole installing operations with one generic file and its deciding rule "
           "(set-content dataflow, loops executed per element kind) under each verdict of the rules",
    "C18": "table agreement decided by abstract interpretation: rule reader per event word, rule application per "
           "event and verdict, trigger dispatch per pending event",
    "C09": "exploration of every path under assumed refusal conditions (deciding calls' answers forced, constant "
           "propagation, typestate): no modification and no normal return",
    "C10": TYPESTATE + ": script executed or not in each context of options, archive members and script presence",
    "C15": "interprocedural effect reachability per command (constant-propagated command selector), with write "
           "targets resolved by value flow",
    "C28": "exploration of every path under assumed gate conditions (gate values forced, containers nothing was "
           "added to empty): no modification, loop entry or removal reached",
    "C27": "abstract interpretation of the commands with one generic package (and an ordered pair) among unknown "
           "others: set-content dataflow, loops executed per element kind; must-reach of the place it is worked on",
    "C29": "exploration with one generic package: value flow of the dependency mark from the resolver's list through "
           "the command into the metadata written, and back",
    "C11": TYPESTATE + ": each verification call of the library forked over its answers; the resolver explored with one "
           "generic package, checksum and signature required after its last download on every path onto the list",
    "C31": "abstract interpretation of purge with one generic collection (local, nameless, remote) among unknown "
           "others; typestate of the configuration reader and of the directory scan",
    "C36": TYPESTATE + " per object (by class): the root taken over before any path is composed from it",
    "C16": "abstract interpretation of cards remove with one generic package under each reason to keep it (base, "
           "needed at run time, chain of requests): no path runs the removal for it",
    "C30": TYPESTATE + ": each transfer, write and decompression forked over its outcomes; the receiving callback "
           "with concrete block sizes",
    "C23": TYPESTATE + ": provenance of every path a modifying call receives (built from the root, relative to it, "
           "archive entry under a rooted name), root option and working directory tracked",
    "C17": "table agreement decided by abstract interpretation: every reader of metadata lines explored once per field "
           "letter, value flow into attributes; written letters (C++ and pkgmk) matched to the value written",
    "C12": TYPESTATE + ": error recorded -> reporter; constant-propagated reporter per error condition",
}
NOTE = {}
NA = {
    "C32": "correct order for every dependency graph (with cycles) is a functional property of a "
           "fixed-point level computation over runtime data; no dataflow or typestate fact decides it",
    "C33": "that the value computed equals SHA-512 of the file and that sign/verify round-trip is numeric/"
           "cryptographic correctness of library calls, not decidable from the source by static analysis",
    "C34": "freshness of the synchronised list depends on server state and on what an interrupted transfer "
           "left on disk; runtime quantities no static argument in reach bounds",
    "C35": "termination depends on ranking arguments over runtime graphs and files (recursion guarded by "
           "visited sets filled at run time); no sound static bound in reach",
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in NA:
            na.append({"property": i, "reason": NA[i]})
        elif os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            checks.append({"property": i,
                           "quick_cmd": "python3 engine/run.py %s --tier quick" % i,
                           "thorough_cmd": "python3 engine/run.py %s --tier thorough" % i,
                           "technique": TECH.get(i, "static analysis"),
                           "level": "other",
                           "level_note": NOTE.get(i, "sound for the rule stated in DESIGN.md up to the "
                                                  "modelling assumptions listed there; nothing is executed")})
        else:
            na.append({"property": i, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "bash engine/build_tool.sh .cache", "checks": checks,
         "not_applicable": na}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "checks", len(na), "n/a")


main()
