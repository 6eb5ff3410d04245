#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then a section per property put together from the texts below, the check
modules (RULE, ASSUME, N, TECH), known_findings.txt and tools/detected.txt, then tools/design_tail.md."""
import json, os, re, sys, importlib, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks"]
T = {}
def d(i, oracle, reach): T[i] = (oracle, reach)
d("C01", "No model: the oracle is the instrumentation. ASan (heap, stack, global bounds, use after free, double free), UBSan without recovery (overflow, null, alignment, shifts, bounds), MSan (uninitialised reads; the build leaves libxml2 out), an abnormal end, or an operation that has not answered when its alarm expires. The deciding executions include those of every other check (their generators are imported and their strings mutated).",
  "The tests give well-formed input to a plain build: an overflow by one byte or a read of freed memory goes unnoticed there. Here the input is hostile and every access is checked.")
d("C02", "Conservation: heap bytes from the sanitizer's allocator statistics, the library's own object counter (`co_stats_global`), the entries of /proc/self/fd and the children left (waitpid) are read after each repetition of a history. Growth from the second to the third repetition, objects left after `cligen_exit`, or a child left is a violation.",
  "A leak needs no wrong answer to exist, and most leaks sit on paths (errors, unusual grammars, several members of a set) that a test does not count bytes on.")
d("C03", "A reference interpreter (`lib/gram.py`: `Ref`) reads the abstract grammar that the specification text was printed from, never the library's data: the words of a line are resolved from the left, each against the alternatives at its place by keyword prefix or value syntax (`lib/types_.py`, exact integer and rational arithmetic); it answers accepted / unknown / ambiguous / incomplete or leaves the line open.",
  "Tests fix some dozens of lines. The verdict is a function over all (grammar, line) pairs, where interactions (abbreviation x variable x nesting) are what breaks.")
d("C04", "The same interpreter gives, for accepted lines, the values every callback of the command must see: full keywords, typed values (as their types print), the line as entry 0, arguments in declaration order with their types, order and number of calls, stop at the first failing callback, effect of the exclude-keys, expand-first and user-handle options. The wrapper function's calls are compared too.",
  "Callbacks in tests print one or two values.")
d("C05", "Preference is computed from the table in the tutorial; the verdict must be the one of the best alternative, or ambiguous; and three handles loaded with the alternatives declared in different orders must agree in verdict, chosen variable and values under each preference mode.",
  "Which alternatives tie, and at which depth, is a matter of combinations.")
d("C06", "Each interval is a pair of Python integers or fractions; a word is admitted iff its exact value lies in one of them. Both directions are judged: wrongly admitted and wrongly rejected, on the verdict, the value passed to the callback and the reason text.",
  "Boundaries of every width with several intervals are not sampled by tests.")
d("C07", "The interpreter gives the visible alternatives at the position; the listing is read back as a set of (name, help text) lines, `<cr>` included, and compared, as are truncation and the number of help lines.",
  "Help is the product of matching, expansion, hiding and layout; tests fix a few screens.")
d("C08", "The longest common extension of the visible candidates is computed from the grammar; the line after TAB must be the old line with exactly that inserted at the cursor (and one delimiter when one candidate is left); the text left of the cursor before and after must have the same reading.",
  "Needs the cursor inside lines, long lines, all completion modes.")
d("C09", "An interpreter of the documented set semantics enumerates every reading of a line (which members were used in which set) and answers accepted, refused with which reason, or open when there are several readings; callbacks and values are those of the single reading. Each line is judged alone, so a mark left behind by an earlier one shows.",
  "Orders of members grow factorially, and the failures are about what one line leaves in the grammar for the next.")
d("C10", "Two handles: the compact specification, and the same with every variant written out by the generator. Everything recorded must be equal, and the two printed grammars too.",
  "Tests use each construct once; the guarantee is about every nesting of them.")
d("C11", "Two handles: references, and the trees written out in their place by the generator (filters applied, callbacks merged by the documented rule). The referenced trees are printed and probed before and after to show that they are not changed. The tree resolve function must be asked with the words of the line at every depth.",
  "Nested, repeated, recursive and filtered references in every position.")
d("C12", "Print, load, print again: the texts must be equal, and both handles must answer the same probes alike.",
  "A lost limit, flag or escape only shows when the printed text is loaded and the affected value is tried.")
d("C13", "Per type an independent definition of the syntax and value range (regular expressions plus exact arithmetic and the calendar); the verdict and the printed text are compared, and what is printed is parsed again. Bounded printing must write exactly the prefix that fits, terminated.",
  "Twenty types times all texts.")
d("C14", "Axioms instead of values: sign antisymmetry, transitivity, zero exactly for equal values, numeric and time order against exact values; a copy compares equal, and changing, resetting or freeing either side leaves the other as it was (under ASan).",
  "Order axioms are statements about pairs and triples.")
d("C15", "Every operation is applied to a Python list as well and the whole vector is compared after each operation.", "Histories.")
d("C16", "Every operation is applied to a Python byte string as well; after each one content, length, capacity and termination are compared. One append per run is larger than 2 GiB.", "Growth boundaries at every initial size and growth limit.")
d("C17", "An independent splitter; joining, escaping and splitting back; re-spaced variants of a line must be the same command.", "Quotes and escapes in every combination.")
d("C18", "An editor model (`lib/editor.py`) executes the same keys on a Python string; the line returned and the number of keys consumed are compared.", "Key sequences; long lines; several widths.")
d("C19", "A terminal emulator (`lib/term.py`) executes every byte written; at every read of a key (logged by the harness through the input hook) the picture and the cursor must be those of prompt and line, in the wrapped or scrolled layout.",
  "The test scripts never look at the terminal.")
d("C20", "A list model of the history; lines recalled, found by search, saved and loaded are compared.", "Sequences of steps at the limits of the size.")
d("C21", "An independent model of terminal rows decides where prompts have to be; a parser takes prompts and answers out of the bytes written, the rest must be the bytes printed in order.", "Chunks and row lengths in combination; answers.")
d("C22", "Each filter has a Python model; the bytes on standard output must be those it gives for the bytes the callbacks print; open descriptors, children and the return value are compared after each command; a watchdog detects deadlock.",
  "Output larger than what sockets hold, filters that do not read, die or pause: schedules a test with `cat` does not meet. Two processes run freely; pauses are injected on both sides.")
d("C23", "Metamorphic: the same probes on a fresh handle and after a long history must give the same answers, and the grammar must be structurally unchanged (order, parents, no match marks, printed text).", "The property is about all histories.")
d("C24", "The expansion function of the harness answers from a table which the script changes between lines; the interpreter treats the alternatives as keywords bound to the variable. The calls of the function (name, arguments, values so far) are compared too.", "Alternatives that change, need quotes, or share prefixes with everything else.")
d("C25", "The model keeps the edit level; after each step a third handle is loaded with the present level written out, and lines, help and completion are compared with it.", "Histories of moving up, down and between trees.")
d("C26", "Texts that are illegal by construction must be refused with an error naming the line on which the error was planted (or a later one of the same statement), the earlier grammar answers as before, a later legal text loads, and nothing grows.", "All damaged texts.")
d("C27", "Several handles load the same grammar in different forms; all must print and answer alike, and the node order must be a strict order without duplicates and with right parents.", "Permutations and partitions.")
d("C28", "A trace monitor: the harness logs registrations, bytes written, callbacks and key reads in order; a set model says which callbacks are legal and which are missing.", "Interleavings of arrivals, registrations from within callbacks, signals and keys.")
d("C29", "The generator writes each expression twice, in the dialect under test and for Python's engine; `re.fullmatch` on the second decides membership (it shares nothing with libc or libxml2). Expressions that do not compile must be refused without accepting anything.", "All (expression, word) pairs; anchoring faults show only for words with a matching part.")
d("C30", "Two handles, with and without the hide marks: verdicts and callbacks must agree; nothing hidden may be seen in listings and completed lines and everything else must.", "Hiding at every depth, through references.")
d("C31", "Differential: lives of several handles interleaved, and each alone; every report must be equal. Options read back as a model says.", "Interleavings of lives.")
d("C32", "Differential on the real evaluator: entering the alias against entering its text.", "Texts of every kind; definitions, redefinitions, chains.")
d("C33", "Reference model: a table of the assignments in order for the globals; the reference interpreter of C03 for the command a line denotes, whose flags, assignments, name and help text are compared with those of the matched object.", "Sequences of loads from strings and files with and without a vector; flagged grammars, directly and through references; variables with run-time alternatives.")
d("C34", "A monitor on a pseudo terminal: a second thread types each key only once the terminal waits for it and notes whether it echoes or buffers lines then; the settings are compared with the first ones wherever the application has control; size against the size given to the terminal.", "Ways to end a line x initial settings x signals, changes of size, paged output in the middle of a line.")
d("C35", "A differential monitor: each line is matched and evaluated by itself, entered at the prompt of the read-and-evaluate call, and entered in the loop; verdicts, reasons, callbacks (order, exactly once), outcomes, printed text, messages and the input left unread are compared with what the lines by themselves imply.", "Specifications with every construct x sequences of accepted, refused, ambiguous, blank and comment lines x callbacks that succeed, fail, print or ask to exit.")
def num(n): return "{:,}".format(n)
seeds = {os.path.basename(os.path.dirname(f)): json.load(open(f)) for f in sorted(glob.glob(V + "/seeded/*/meta.json"))}
det = {}
if os.path.exists(V + "/tools/detected.txt"):
    for l in open(V + "/tools/detected.txt"):
        if l.strip(): a, b = l.rstrip("\n").split("|", 1); det[a.strip()] = b.strip()
fixed = {}
for l in open(V + "/known_findings.txt"):
    m = re.match(r"(fixed|finding): property=(C\d\d) (.*)", l)
    if m: fixed.setdefault(m.group(2), []).append(("repaired " if m.group(1) == "fixed" else "recorded ") + m.group(3))
out = [open(V + "/tools/design_head.md").read().rstrip("\n"), "", "## Properties"]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); i = p["id"]; m = importlib.import_module(i.lower())
    o, r = T[i]
    out += ["", "### %s %s" % (i, p["title"]), p["statement"], "",
            "- **Workload**: " + m.RULE + ".",
            "- **Oracle**: " + o,
            "- **Why tests cannot**: " + r,
            "- **Bounds and cost**: %s generated cases quick, %s thorough (check `checks/%s.py`, %s)." % (num(m.N["quick"]), num(m.N["thorough"]), i.lower(), m.TECH.strip()),
            "- **Left open**: " + "; ".join(m.ASSUME) + "."]
    s = ["`%s` (%s): %s" % (k, v["needs"], det.get(k, "not run yet")) for k, v in seeds.items() if v["property"] == i]
    if s: out += ["- **Planted bugs**: " + "; ".join(s) + "."]
    if i in fixed: out += ["- **Found in cligen**: " + "; ".join(fixed[i]) + "."]
out += ["", open(V + "/tools/design_tail.md").read().rstrip("\n")]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", sum(len(x) for x in out), "characters; planted bugs without result:", [k for k in seeds if k not in det])
