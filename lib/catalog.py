"""The properties and what is claimed about them. Running this file rewrites
properties.jsonl and MANIFEST.json."""
import json, os, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
P = []          # properties
CLAIM = {}      # id -> (technique, level, note)
NA = {}         # id -> reason


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, hook=None,
         technique=None, level="exploration", note=None, na=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism], "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
    if na:
        NA[id] = na
    else:
        CLAIM[id] = (technique, level, note)


SIM = "deterministic simulation of the whole interpreter: "

prop("C01", "Programs evaluate to the results the language defines",
     "Every program prints exactly the values, output and error report that the language's definition gives it: closures capture variables, assignments are seen by every holder, "
     "arguments are evaluated left to right, multiple values and argument counts are checked, definitions and redefinitions take effect in order. "
     "The result never depends on when storage is collected, where objects lie or where the evaluation stack was split.",
     ["programs", "schedules"], "all programs over the core forms and procedures, under every collection schedule, object placement and stack segmentation",
     "the unit tests evaluate some hundreds of fixed expressions, each alone, with a collector that practically never runs; they cannot reach the combinations of nested frames, captured variables and compiler rewrites a program can contain",
     ["src/core/c/eval.c", "src/core/c/jitanalyze.c", "src/core/c/jitopt.c", "src/core/c/jitcompile.c", "src/core/c/env.c", "src/core/c/procedure.c", "src/core/c/frame.c", "src/core/s/prelude.min"],
     [("instruction interpreter and continuation frames", "src/core/c/eval.c"), ("closure elimination, constant folding, frame layout", "src/core/c/jitopt.c, src/core/c/jitanalyze.c"),
      ("environments and top-level lookup", "src/core/c/env.c")],
     hook="MINIM_SIM: the stack segment size is a variable, so that the simulator can split the stack at any frame",
     technique=SIM + "seeded programs and heap/stack schedules, compared with a reference interpreter",
     note="Seeded search over generated programs; the oracle is an independent reference interpreter. Covers the generator's language subset; sampling, not proof.")

prop("C07", "Output is complete and in order, or the failure is reported",
     "What a program writes to a file, to standard output or to a string port arrives there byte for byte, in order and without gaps or repetitions; a successful flush or close means the bytes have reached the file. "
     "If bytes cannot be delivered, the writing, flushing or closing operation raises an error or the program ends with a message and a non-zero exit code: nothing is lost silently. "
     "A crash leaves a prefix of what was written that contains everything flushed before.",
     ["fault_sequences", "crash_points", "histories"], "all histories of port operations, with failing, short or torn writes, failing opens and closes, full disks, and a crash at any point",
     "the tests write to one healthy string port; no test sees a write, flush, close or exit that fails, or a crash",
     ["src/core/c/io.c", "src/core/c/system.c", "src/core/c/error.c", "src/core/s/prelude.min"],
     [("ports over C streams, flush, close and their error checks", "src/core/c/io.c"), ("flush and exit code at the end of the process", "src/core/c/system.c"), ("writers", "src/core/s/prelude.min")],
     technique=SIM + "seeded port-operation histories with disk faults and crashes, checked against a port/file model",
     level="fault_enumeration",
     note="Fault plans and crash points are sampled per history; libio's own buffering is real code over simulated descriptors.")

prop("C08", "Reading delivers the source's characters exactly; failures are not end of input",
     "Reading a port by characters, by peeking or by whole data delivers exactly the bytes of the file, of standard input or of the string, once each and in order, however they are split into system reads and with whatever byte values. "
     "End of input is reported only at the real end, stays reported, and a failing open, read or close raises an error instead of looking like the end or like fewer characters.",
     ["histories", "fault_sequences"], "all sources, all histories of read, peek, ready and close operations, and all ways the system can split, delay or fail the reads",
     "tests read from short healthy string literals; they never see a short read, a failing read, bytes above 127 or interleaved readers",
     ["src/core/c/read.c", "src/core/c/io.c", "src/core/s/prelude.min"],
     [("character and datum reader over C streams", "src/core/c/read.c"), ("port objects and procedures", "src/core/c/io.c")],
     technique=SIM + "seeded reader histories over faulty simulated files and standard input, compared with a byte-exact model",
     level="fault_enumeration", note="Sources and fault positions are sampled.")

prop("C09", "Every opened file is closed exactly once and never used afterwards",
     "A port owns one descriptor: closing the port releases it once, and every operation on a closed port raises an error and never touches another file. "
     "Formatting, raising errors, loading files that fail, and running out of descriptors leave no descriptor behind, so a program can go on for ever opening and closing files, "
     "and ports that are dropped without being closed are released by the collector.",
     ["histories", "schedules", "fault_sequences"], "all histories of opening, closing, reusing and dropping ports under every collection schedule, descriptor limit and failing close",
     "tests open a handful of string ports; a leak of one descriptor per operation or a use after close does not show",
     ["src/core/c/io.c", "src/core/c/system.c", "src/core/c/error.c"],
     [("open/close and finalizers of ports", "src/core/c/io.c"), ("loading and its cleanup", "src/core/c/system.c"), ("formatting through string ports", "src/core/s/prelude.min")],
     technique=SIM + "seeded port life cycles under a descriptor limit, with an ownership ledger in the simulated C library",
     level="fault_enumeration", note="The collector is the simulator's (exact schedule control); its conservative stack scan allows a small slack for dropped ports.")

prop("C13", "Loading a file runs it in its own directory and always restores the caller's",
     "Loading a file evaluates its forms in order, with the current directory set to the file's own so that relative loads and opens work from there, and yields the value of the last form. "
     "Afterwards the caller's current directory is back, also when the file is missing, malformed or unreadable, raises an error, or itself changes directory, and failures are reported to the caller as errors.",
     ["histories", "fault_sequences"], "all trees of files loading each other by any path, with any operation failing at any time",
     "no test loads files from other directories, nests loads or makes a load fail",
     ["src/core/c/system.c", "src/core/c/read.c"],
     [("load: directory change, evaluation, restoration", "src/core/c/system.c"), ("current directory", "src/core/c/system.c")],
     technique=SIM + "seeded file trees on a simulated disk with failing opens, reads and directory changes, compared with a model of directories and effects",
     level="fault_enumeration", note="Trees, operations and faults are sampled.")

prop("C14", "Sessions print each result in order and end with the right exit code",
     "An interactive session reads each expression completely, evaluates it and prints its values before the next prompt, until the end of input, exit or an error. "
     "A batch run prints nothing by itself. The exit code is 0 at a normal end, the given code after exit, and non-zero with a message after any error, malformed form, unknown option, unreadable input or undeliverable output.",
     ["inputs", "fault_sequences"], "all sessions and batch runs with every command line, input delivered in arbitrary pieces, and failing input or output",
     "tests drive the interpreter as a library; none runs the command-line program, sends it malformed text or looks at its exit code",
     ["src/boot/c/minim.c", "src/core/c/check.c", "src/core/c/print.c", "src/core/c/error.c", "src/core/c/system.c"],
     [("command line and read-eval-print loop", "src/boot/c/minim.c"), ("syntax checks of core forms", "src/core/c/check.c"), ("printer of results", "src/core/c/print.c")],
     technique=SIM + "seeded sessions over simulated standard streams with faults, compared with a reference interpreter and driver model",
     level="fault_enumeration", note="Sessions and faults are sampled.")


prop("C02", "Calls nest to any depth and width; tail calls keep space constant",
     "Procedures call each other to any depth and with any number of arguments, in every position (operand, binding, multiple values, apply, rest arguments, nested evaluation, error handler), and still return the right result: "
     "nothing is lost or repeated where the evaluation stack is extended or cut back. "
     "A call in tail position needs no further space, so loops of tail calls of any length run in constant memory.",
     ["programs", "schedules"], "all depths, argument counts, call shapes and positions at which the stack is extended, under every collection schedule",
     "tests never nest deeper than a few dozen calls and never fill one stack segment; which frame meets the boundary is an accident of depth and argument counts",
     ["src/core/c/eval.c", "src/core/c/frame.c", "src/core/c/thread.c", "src/core/c/jitprims.c"],
     [("stack segments: growing, shrinking, frames", "src/core/c/eval.c"), ("apply, values, eval primitives", "src/core/c/jitprims.c")],
     hook="MINIM_SIM: the stack segment size is a variable, so that the simulator can split the stack at any frame",
     technique=SIM + "seeded families of deep, wide and tail-recursive procedures under seeded stack segment sizes, compared with a frame machine",
     note="Depths, shapes and segment sizes are sampled; space is measured on the simulated heap.")

prop("C05", "Hash tables behave as finite maps under every history",
     "A hash table maps each key, up to its equivalence, to the value last stored for it: setting, updating, deleting, clearing, copying and growing never lose, duplicate or confuse entries, "
     "and size, keys, values and entries agree with the lookups. A copy is independent of its original; equal tables are equal? and hash alike. "
     "It does not matter how keys hash or where they lie in memory, nor that an updater or a default procedure changes the table meanwhile.",
     ["histories", "schedules"], "all histories over tables of every kind, all hash functions, object placements and collection schedules",
     "tests store a few small keys at one memory layout; collisions, shrinking, re-entrant updates and copies that are changed later do not occur in them",
     ["src/core/c/hashtable.c", "src/core/s/prelude.min", "src/core/c/object.c"],
     [("buckets, copies, hashes", "src/core/c/hashtable.c"), ("lookup, growth, update, equality", "src/core/s/prelude.min")],
     technique=SIM + "seeded table histories with seeded object addresses and collections, compared with a dictionary model",
     note="Histories and key pools are sampled.")

prop("C06", "A symbol is one object per spelling, for ever, and its name never changes",
     "Symbols with the same spelling are the same object, and symbols with different spellings are different objects, however they are made: literals, conversion from strings, reading, loading, serialised data. "
     "This holds for any number of symbols and across collections, and changing a string a symbol was made from or converted to never changes the symbol. "
     "Top-level variables are found by such symbols, whatever their number.",
     ["histories", "schedules"], "all numbers and spellings of symbols, all routes to make them, and all collection schedules",
     "tests use a few dozen symbols, far below the size at which the intern table grows, and never collect between making and comparing them",
     ["src/core/c/symbol.c", "src/core/c/env.c", "src/core/c/read.c", "src/core/c/fasl.c"],
     [("intern table and its growth", "src/core/c/symbol.c"), ("top-level variable table and its growth", "src/core/c/env.c")],
     technique=SIM + "seeded histories of symbol creation and comparison under collection schedules, compared with spellings",
     note="Sampled; bulk cases cross one growth of the intern table.")

prop("C15", "Environments are isolated; evaluating in one leaves the current one in place",
     "Each environment maps names to values on its own: defining, assigning or evaluating in one is never visible in another, a copy shares nothing with its original, and a restricted copy holds exactly the chosen names. "
     "Procedures keep referring to the variables of the environment they were made in. "
     "Evaluating in another environment, also when it fails, nests or loads files, leaves the caller's current environment in place, and reading or listing an environment shows exactly what is defined there.",
     ["histories", "schedules"], "all histories of definitions, assignments, copies, evaluations and failures over any number of environments",
     "tests evaluate in one environment; a leak between environments, or a caller's environment lost after a failing evaluation, does not show",
     ["src/core/c/env.c", "src/core/c/eval.c", "src/core/c/jitprims.c", "src/core/s/prelude.min", "src/core/c/system.c"],
     [("environment tables and copies", "src/core/c/env.c"), ("top-level lookup, binding and assignment", "src/core/c/eval.c"), ("eval and its environment switch", "src/core/c/jitprims.c")],
     technique=SIM + "seeded histories over several environments with failing evaluations, compared with a name-to-cell model",
     note="Sampled histories.")


prop("C10", "Serialised data comes back equal, and damaged data is an error, not a crash",
     "Data written in the serialised format is read back equal, with record types and their properties, any number of objects in sequence, in any interleaving of writers and readers. "
     "The bytes are exactly the documented format, so that any tool and any version reads the same value from them. "
     "Truncated, corrupted, interrupted or foreign data, and objects that cannot be serialised, give an error report and leave everything before them intact; they never crash the process or return a value for an incomplete object.",
     ["inputs", "fault_sequences", "crash_points", "schedules"], "all serialisable data, all damaged byte sequences, all fault and crash points while writing or reading, all collection schedules",
     "tests round-trip a few dozen small values through one file without faults, and never read damaged data",
     ["src/core/c/fasl.c", "src/core/c/record.c", "src/core/s/prelude.min"],
     [("encoder and decoder with length and bounds checks", "src/core/c/fasl.c"), ("record types rebuilt from serialised descriptors", "src/core/c/fasl.c, src/core/c/record.c")],
     technique=SIM + "seeded data, damage and I/O faults; bytes and values compared with an independent encoder and decoder",
     level="fault_enumeration", note="Inputs and damage sampled; truncation and fault points are placed at seeded positions of every kind.")

prop("C11", "Reading gives exactly the data written, from any source and in any pieces",
     "The reader returns exactly the data a text denotes, whatever its layout, comments, brackets and abbreviations, from files, strings and standard input, delivered in pieces of any size; it consumes one datum at a time and leaves the rest of the input to the next operation. "
     "What the writer prints for a datum is the canonical text and reads back as an equal datum. "
     "Malformed or interrupted input gives an error report, at any nesting depth, never a crash, a wrong datum or a hang.",
     ["inputs", "fault_sequences", "schedules"], "all texts, layouts, deliveries and read faults, under all collection schedules",
     "tests read some dozens of one-line texts from one file in one piece, none with a collection or a read fault in the middle of a datum",
     ["src/core/c/read.c", "src/core/c/print.c", "src/core/c/port.c", "src/core/s/prelude.min", "src/core/c/syntax.c"],
     [("recursive reader with explicit port state", "src/core/c/read.c"), ("writer", "src/core/s/prelude.min (write, display, put-datum)")],
     technique=SIM + "seeded texts and deliveries with read faults; compared with the intended data and an independent printer",
     level="fault_enumeration", note="Sampled texts; symbols with plain spellings.")

prop("C12", "Data operations return their defined results and change nothing else",
     "Every selector, constructor, conversion, comparison and predicate on numbers, characters, strings, symbols, pairs, lists, vectors, boxes, syntax and exception objects and procedures' arities returns its defined value for every argument in its domain and reports an error for every other, whatever was done before. "
     "A mutation changes the one object it names, seen through every reference to that object, and nothing else; constructors return new objects. "
     "Equal data hash alike, and none of this depends on collections or on where objects lie.",
     ["histories", "schedules"], "all histories of data operations over shared objects, under all collection schedules",
     "tests call each primitive on one or two small values that nothing else refers to",
     ["src/core/c/list.c", "src/core/c/vector.c", "src/core/c/string.c", "src/core/c/number.c", "src/core/c/char.c", "src/core/c/box.c", "src/core/c/object.c", "src/core/c/syntax.c", "src/core/c/procedure.c", "src/core/s/prelude.min"],
     [("wrapped primitives and their contracts", "src/core/s/prelude.min"), ("kernel primitives", "src/core/c/prim.c")],
     technique=SIM + "seeded histories over a pool of shared objects under collection schedules, compared with a reference that performs the same history",
     note="Sampled histories of up to 80 operations over 12 shared variables; numerals beyond 64 bits, characters outside 1..127 and sharing of append's last argument are left open.")

prop("C16", "Records keep their type, their fields and their contracts",
     "A record holds exactly the values it was built with until a mutator of that very field changes it; accessors, mutators and predicates work on records of their type and its subtypes and report an error for anything else. "
     "Record types are distinct even with equal names, keep the name, parent, fields and mutability they were declared with, and malformed declarations are rejected. "
     "Equality, hashing and printing of records use the procedures of their type, those given before a subtype is made being inherited by it.",
     ["histories", "schedules"], "all histories of type declarations, constructions, accesses and mutations over type hierarchies, under all collection schedules",
     "tests declare one or two types with one or two fields; offsets of inherited fields, several live types and collections in between are not combined",
     ["src/core/c/record.c", "src/core/s/prelude.min"],
     [("record types, offsets of inherited fields, contracts", "src/core/s/prelude.min"), ("record storage", "src/core/c/record.c")],
     technique=SIM + "seeded histories over record type hierarchies under collection schedules, compared with a model",
     note="Sampled histories, up to seven types and seven records at a time.")


prop("C03", "Long-running programs stay in bounded memory and use bounded resources",
     "Storage a program can no longer reach is reclaimed: a program that keeps a bounded set of objects runs for any number of steps in bounded memory, whatever it makes and drops: data, closures, frames of deep recursions, tables, environments, evaluated or loaded code, failed operations. "
     "Ports that are dropped are closed and their files released. Tail calls use no stack.",
     ["histories", "schedules"], "all programs that keep a bounded set of objects, for any number of steps, under every collection schedule",
     "a test ends long before any growth matters, and no test measures storage or open files",
     ["src/core/c/eval.c", "src/core/c/io.c", "src/core/c/env.c", "src/core/c/hashtable.c", "src/core/c/global.c", "src/core/c/symbol.c", "src/core/c/frame.c"],
     [("continuation segments and their reuse", "src/core/c/eval.c"), ("finalizers of ports", "src/core/c/io.c"), ("roots and caches", "src/core/c/global.c, src/core/c/symbol.c")],
     technique=SIM + "seeded long loops under a simulated precise-address collector; reachable storage per phase and open files compared with a bound",
     note="Growth is measured at seeded collections of the simulated collector; a leak slower than the stated bound per step is not seen.")

prop("C04", "Every misuse is reported once, changes nothing, and never breaks the process",
     "Calling a procedure with arguments outside its contract, in number, kind or range, is reported to the error handler exactly once and changes no object, file or environment; arguments within the contract are never rejected. "
     "When the handler returns, its value takes the place of the failed call, the program continues, and everything done before and after is intact. No misuse reads or writes outside an object, crashes or hangs the process.",
     ["inputs", "programs", "schedules"], "all procedures, all argument lists of every kind of value, in every evaluation context, under every collection schedule",
     "the tests check results of correct calls; nearly no misuse is tested, none with a handler that returns, and a read outside an object goes unnoticed without instrumentation",
     ["src/core/c/error.c", "src/core/c/eval.c", "src/core/c/procedure.c", "src/core/c/number.c", "src/core/c/string.c", "src/core/c/vector.c", "src/core/c/io.c", "src/core/c/env.c", "src/core/c/record.c", "src/core/c/hashtable.c", "src/core/s/prelude.min"],
     [("contract checks of the primitives", "src/core/c/*.c"), ("contract checks of the library procedures", "src/core/s/prelude.min"), ("error reports and handlers", "src/core/c/error.c")],
     technique=SIM + "seeded misuse of every procedure in seeded contexts, against a contract table, with poisoned and bounds-checked storage",
     note="The contract table was written from the documented contracts; procedures with known unsafe or unchecked arguments are listed in DESIGN.md.")

prop("C17", "Minim-GC keeps everything reachable intact and reclaims everything else",
     "A block of the project's own collector stays at its address with its contents unchanged as long as it can be reached from the stack, the registers, a root or another reachable block, through the words its marker names; everything else is reclaimed by the next collections, and automatic collection bounds the garbage. "
     "A destructor runs exactly once, before its block is released by a collection, by GC_free or at the end. "
     "Resizing keeps contents and root status, and the statistics agree with the blocks.",
     ["histories", "schedules"], "all histories of allocations, links, roots, markers, destructors, resizings, releases and collections, for all addresses the system's allocator may return",
     "the repository has no test of its collector; the interpreter's tests run on another one",
     ["src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-impl.c", "src/gc/minim-gc/gc-types.h"],
     [("record table, growth and shrinking", "src/gc/minim-gc/gc-impl.c"), ("marking from stack, registers and roots; sweeping", "src/gc/minim-gc/gc-impl.c"), ("allocation interface", "src/gc/minim-gc/gc.c")],
     technique="deterministic simulation of the collector over a simulated allocator: seeded mutator histories, addresses and reuse, compared with an exact reachability model",
     note="The collector is conservative: the harness keeps all other copies of addresses encoded, so that reachability is exact. Sampling, not proof.")

prop("C18", "Minim-GC survives allocation failures and loses nothing",
     "When the system refuses memory, the project's own collector collects and tries again; if there is still none, the allocation or resizing returns NULL, as it does for sizes that overflow, and every existing block, root and destructor is as before. "
     "A failure to enlarge or shrink the collector's own tables loses no block. When memory is available again, everything works as if nothing had happened.",
     ["fault_sequences", "histories"], "all histories of operations and all sequences of allocation failures",
     "no test can make malloc fail at a chosen call; none tests the collector at all",
     ["src/gc/minim-gc/gc.c", "src/gc/minim-gc/gc-impl.c"],
     [("collect and retry", "src/gc/minim-gc/gc-impl.c: gc_alloc_record, gc_calloc_record, gc_realloc_record"), ("table resizing", "src/gc/minim-gc/gc-impl.c: gc_resize")],
     technique="deterministic simulation of the collector over a simulated allocator with seeded allocation failures, compared with an exact reachability model",
     level="fault_enumeration",
     note="Failure points and runs of failures are sampled per history. GC_init itself is assumed to get its memory.")

prop("C19", "Malformed core forms are rejected before any part of them runs",
     "A datum that is not a core form, because any form nested in it misses a part, has one too many, is improper or binds what is no identifier, is reported as an error by eval, by load and by a program run before any part of it has an effect; the forms before it keep theirs. "
     "A datum that is a core form, however unusual, is accepted and evaluated to its value.",
     ["inputs", "programs"], "all data given to eval, load and program runs, at every nesting depth and in code that is never reached",
     "the tests evaluate well-formed programs; almost none is malformed, and none checks that nothing of a malformed form has run",
     ["src/core/c/check.c", "src/core/c/jitcompile.c", "src/core/c/system.c", "src/core/c/eval.c"],
     [("syntax checker", "src/core/c/check.c"), ("checks of eval and load", "src/core/c/eval.c: do-eval; src/core/c/system.c: load_next_expr"), ("compiler of core forms", "src/core/c/jitcompile.c")],
     technique=SIM + "seeded well-formed and spoiled nested forms through every route of evaluation, compared with an independent grammar and a reference interpreter",
     note="Inner definitions and names bound twice by one form are not judged.")

prop("C20", "Large programs compile in proportionate work and mean the same",
     "A program keeps its meaning whatever its size: forms nested to a hundred levels, and bodies, bindings, clauses, parameters, captured variables, literals and definitions in their hundreds or thousands give the value the small ones compose to. "
     "Reading, checking and compiling it takes work that grows no faster than about the square of its text, never exponentially with nesting.",
     ["inputs", "programs"], "all compositions of source shapes, sizes and routes (program, load, eval), under every collection schedule",
     "the tests compile a few lines; no test has more than a handful of bindings, clauses or nested forms",
     ["src/core/c/jitopt.c", "src/core/c/jitanalyze.c", "src/core/c/jitcompile.c", "src/core/c/jit.c", "src/core/c/read.c"],
     [("optimiser", "src/core/c/jitopt.c"), ("variable analysis", "src/core/c/jitanalyze.c"), ("compiler and environments", "src/core/c/jitcompile.c; src/core/c/jitcommon.c"), ("evaluator", "src/core/c/eval.c")],
     technique=SIM + "seeded compositions of source shapes of seeded sizes; values computed while the text is built; simulated work bounded",
     note="At most 150 levels and 3000 parts; beyond that the C stack of recursive passes is the limit.")


def write(path, text):
    with open(path, "w") as f:
        f.write(text)


def main():
    P.sort(key=lambda p: p["id"])
    write(os.path.join(VERIF, "properties.jsonl"), "".join(json.dumps(p) + "\n" for p in P))
    hook = "9fe45ed"
    try:
        hook = subprocess.run(["git", "-C", "/repo", "rev-parse", hook], capture_output=True, text=True).stdout.strip() or hook
    except OSError:
        pass
    checks = []
    for p in P:
        if p["id"] not in CLAIM:
            continue
        t, l, n = CLAIM[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 lib/engine.py %s" % p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 lib/engine.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": t, "level": l, "level_note": n})
    m = {"version": 1, "setup_cmd": "python3 lib/simbuild.py",
         "hooks": {"guard": "MINIM_SIM", "enable": "the simulator build compiles /repo/src with -DMINIM_SIM=1 (lib/simbuild.py); the shipped build never defines it", "source_commits": [hook]},
         "checks": checks, "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
         "notes": "Every check is lib/engine.py running a property module of lib/props; the simulator is sim/. Replay: python3 lib/engine.py <id> --replay <file>."}
    write(os.path.join(VERIF, "MANIFEST.json"), json.dumps(m, indent=1) + "\n")
    P.sort(key=lambda p: p["id"])
    for i in P:
        assert len(i["title"]) <= 80, i["id"]
        assert i["statement"].count(". ") <= 3, i["id"]


if __name__ == "__main__":
    main()
