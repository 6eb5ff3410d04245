#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "No memory error or undefined behaviour on any spec, line or keystrokes",
  "Whatever text is given as a CLI specification, as a command line, as keystrokes or as a value to a public library call that accepts strings, the library never reads or writes outside its objects, uses freed memory, dereferences a null pointer, overflows arithmetic or aborts: it returns a result or an error.",
  ["inputs", "histories"], "all byte strings offered as specifications, command lines, values and keystrokes, in any order on one handle",
  "The tests feed well-formed fixed inputs to an uninstrumented build; a one-byte overread or an overflow on an unusual length is invisible to them.",
  ["cligen_match.c", "cligen_read.c", "cligen_getline.c", "cligen_cv.c", "cligen_parse.y", "cligen_parse.l", "cligen_expand.c", "cligen_io.c", "cligen_buf.c"],
  [("buffer growth in line editor and completion", "cligen_getline.c gl_*; cligen_match.c match_complete"), ("token vectors", "cligen_cvec.c cligen_str2cvv"), ("bounded string copies", "cligen_buf.c, cligen_cv.c")],
  ["sanitizer reports on instrumented builds of the library and the cligen_file program"])

p("C02", "Every object, descriptor and process created is released",
  "Once everything a program obtained from the library has been released and its handles closed, no heap memory, grammar object, file descriptor or child process created on its behalf remains, and repeating any operation (load, match, help, completion, evaluation, piped output) does not make any of these counts grow.",
  ["histories", "inputs"], "all sequences of load, match, help, complete, evaluate, edit, pipe and close operations, successful or failing",
  "The tests never look at leaks, descriptors or children and each runs a process that exits after a few operations.",
  ["cligen_object.c", "cligen_parsetree.c", "cligen_handle.c", "cligen_match.c", "cligen_expand.c", "cligen_read.c", "cligen_cvec.c", "cligen_history.c"],
  [("create/free counters for grammar objects", "cligen_object.c co_stats_global"), ("expanded-tree cleanup", "cligen_expand.c pt_expand_cleanup"), ("child reaping", "cligen_read.c cligen_eval")],
  ["LeakSanitizer at exit", "grammar object counter after close", "open descriptor table", "waitpid"])

p("C03", "A command line is accepted exactly when it denotes one complete command",
  "A line is accepted if and only if its words, each either a full keyword, an unambiguous abbreviation of one, or a value fitting a variable, lead, resolved word by word from the left, along exactly one path of the grammar to a point where a command may end. Otherwise nothing is executed and the verdict distinguishes an unknown word, an incomplete command and an ambiguous one, and an exact keyword always wins over longer keywords it is a prefix of.",
  ["programs", "inputs"], "all grammars of keywords, variables, nested and shared prefixes, and all command lines over them, with and without case-insensitive keywords",
  "Tests check a few dozen hand-written lines; abbreviation, exactness and ambiguity interact with sibling sets at every depth and cannot be sampled by hand.",
  ["cligen_match.c", "cligen_read.c", "cligen_result.c", "cligen_object.c"],
  [("per-level candidate matching", "cligen_match.c match_vec, match_pattern_sets"), ("uniqueness and terminality", "cligen_match.c match_pattern_exact; cligen_object.c co_terminal")],
  ["verdict, reason text and matched grammar node returned by the line parser; callbacks run"])

p("C04", "Callbacks get exactly the typed words, typed values and declared arguments",
  "When a line is accepted, the callbacks attached to the command that ended it are called in declaration order, once each, with the whole line as entered, then one value per matched keyword or variable in path order carrying the name and the type of the grammar and the value the user typed (through the translation function, applied once, when the variable names one), and with the constant arguments declared for that callback; a failing callback stops the rest and the failure is reported to the caller. The keyword-exclusion and expanded-first-word options change only the value vector they document.",
  ["programs", "inputs", "configurations"], "all grammars with callbacks and variables, all accepted lines, all option settings",
  "Tests compare printed values for single fixed lines; order, multiplicity and names over arbitrary depth, abbreviations and option combinations are not covered.",
  ["cligen_read.c", "cligen_match.c", "cligen_callback.c", "cligen_cvec.c", "cligen_parse.y"],
  [("value vector construction", "cligen_match.c match_pattern_exact, add_cov_to_cvec"), ("callback dispatch", "cligen_read.c cligen_eval"), ("vector rewriting", "cligen_cvec.c cvec_exclude_keys, cvec_expand_first")],
  ["arguments recorded by instrumented callbacks registered in the grammar"])

p("C05", "Ties between variables are resolved by documented preference only",
  "When several alternatives at one point accept the same word, the one with the highest preference (keyword exact, then more specific type before less specific, or the preference given in the specification) is taken, and a tie is reported as ambiguous unless the preference mode allows the first to be chosen. The outcome depends neither on the order in which alternatives were declared nor on words elsewhere in the line.",
  ["programs", "inputs", "configurations"], "all sets of sibling variables of every type, with explicit preferences, all words, all preference modes",
  "Tests try a couple of type pairs; the pairwise order over all types, explicit preferences and modes is a large product.",
  ["cligen_match.c", "cligen_object.c", "cligen_cv.c"],
  [("preference table", "cligen_object.c co_pref; cligen_cv.c"), ("best-preference filtering", "cligen_match.c match_vec, match_pattern_exact")],
  ["which variable the accepted word is bound to, or the ambiguity verdict"])

p("C06", "Range and length limits admit exactly the values inside the intervals",
  "A numeric, decimal or string variable with range or length limits accepts a word exactly when the word is a well-formed value of the type and lies in at least one of the stated closed intervals (an open lower end meaning the smallest value of the type). A rejected word yields an error reason and no callback, and the limit check compares with full precision at the extremes of every type.",
  ["inputs", "programs"], "all integer widths, decimals with every number of fraction digits, string lengths, any number of intervals, all words near and far from every bound",
  "Tests use small numbers far from the 8/16/32/64-bit limits and at most two intervals.",
  ["cligen_cv.c", "cligen_parse.y"],
  [("interval validation", "cligen_cv.c cv_validate"), ("bound parsing", "cligen_parse.y range/length clauses")],
  ["accept/reject verdict and bound value reported by a callback, and direct validation through the value API"])

p("C07", "Help lists exactly the visible alternatives that can come next",
  "Asking for help at any point of a line lists every non-hidden keyword or variable that can continue (for a partly typed word: keywords it is a prefix of and variables it is a valid value for) exactly once with its help text, lists nothing else, and shows the end-of-command marker exactly when the line ends with a blank and is, without it, already a complete command.",
  ["programs", "inputs", "configurations"], "all grammars, all prefixes of legal and illegal lines, all help display options",
  "Tests compare help output for a few points of a few grammars.",
  ["cligen_read.c", "cligen_io.c", "cligen_match.c", "cligen_expand.c"],
  [("alternative computation", "cligen_match.c match_pattern"), ("help formatting and duplicate collapse", "cligen_io.c print_help_lines"), ("end marker", "cligen_read.c show_help_line")],
  ["text written to the output when the help key is typed"])

p("C08", "TAB completion extends the line only by what every candidate agrees on",
  "Pressing TAB never alters text already typed elsewhere in the line; it appends exactly the longest text shared by all visible keyword candidates for the word before the cursor, followed by the word delimiter when that word is thereby determined, and if nothing can be appended the line is unchanged (in the tab mode that gives variables the same preference, nothing is appended while a variable is among the candidates). A completed line is recognised as the same command the abbreviated line was.",
  ["programs", "inputs", "configurations"], "all grammars, all partial lines and cursor positions, all tab modes, delimiters and case settings",
  "Tests press TAB on a handful of lines with the cursor at the end in default mode.",
  ["cligen_match.c", "cligen_read.c"],
  [("common-prefix computation", "cligen_match.c match_complete"), ("insertion at cursor", "cligen_read.c cli_tab_hook, cli_complete")],
  ["line returned by the editor after typed prefix, TAB and newline"])

p("C09", "Set grammars accept members in any order, each at most once",
  "In a set of alternatives each member may be used in any order and at most once on a line, nested members keep their own structure, a word continues the innermost set or member it fits, and a line is accepted exactly when the members used are legal and the point reached may end a command; a repeated member is rejected. Using a member on one line has no effect on the next line.",
  ["programs", "inputs", "histories"], "all set grammars incl. nested and mixed with sequences, all permutations and repetitions of members, across consecutive lines",
  "Tests try a few permutations of one or two sets.",
  ["cligen_match.c", "cligen_parsetree.c", "cligen_parse.y"],
  [("set iteration with matched marks", "cligen_match.c match_pattern_sets, match_pattern_sets_local"), ("reset of marks between lines", "cligen_match.c; cligen_result.c")],
  ["verdict and values for each permutation"])

p("C10", "Options, choices and groups mean the same as writing every variant out",
  "A specification using optional parts, alternatives in parentheses, choice variables and nesting accepts exactly the same lines, with the same callbacks, as the specification in which each variant is written out as a separate full command.",
  ["programs", "inputs"], "all nestings of option, group, choice and sequence up to a size, and all lines over their words",
  "Tests use one-level options; equivalence is a statement about whole languages.",
  ["cligen_parse.y", "cligen_match.c", "cligen_object.c"],
  [("parse-time expansion of options and groups", "cligen_parse.y cgy_* list handling"), ("choice expansion", "cligen_expand.c pt_expand_choice")],
  ["verdict and callback of each line under both specifications"])

p("C11", "A tree reference behaves as if the referenced tree were written in place",
  "A reference to a named tree accepts, helps and completes exactly as if the referenced tree's commands stood in its place, minus those whose labels the reference filters out; callbacks declared at the reference replace the tree's own callback function according to the documented rule with arguments concatenated in order. A tree resolve function of the program is asked with the words of the line, at every depth. Using a reference never changes the referenced tree, and a reference to a tree that does not exist is an error, not a match.",
  ["programs", "inputs", "histories"], "all forests of trees with (nested, repeated, recursive) references and label filters, all lines over them",
  "Tests reference one tree once or twice at fixed places.",
  ["cligen_expand.c", "cligen_callback.c", "cligen_pt_head.c", "cligen_object.c"],
  [("on-demand reference expansion", "cligen_expand.c pt_expand_treeref, pt_expand"), ("filtering", "cligen_expand.c co_isfilter"), ("callback merge", "cligen_expand.c treeref_merge_co")],
  ["verdict, callbacks and help under the referencing and the inlined specification"])

p("C12", "A printed grammar loads back as the same grammar",
  "Printing a loaded grammar as specification text and loading that text gives a grammar that accepts the same lines with the same callbacks, values, limits and help, and printing it again gives the same text.",
  ["programs"], "all grammars of keywords, typed variables with limits, help strings, callbacks, labels and sets",
  "Tests compare printed output of a few specs with fixed strings and never reload it.",
  ["cligen_print.c", "cligen_parse.y", "cligen_callback.c"],
  [("grammar printing", "cligen_print.c pt2cbuf, co2cbuf, cov2cbuf"), ("specification parser", "cligen_parse.y, cligen_parse.l")],
  ["second printed text equals the first; verdicts of both grammars on the same lines"])

p("C13", "Parsing a value and printing it are inverse, and only well-formed text parses",
  "For every value type, text is accepted exactly when it is a well-formed value in range for the type; printing a parsed value (for strings, one without backslashes) gives text that parses back to an equal value, all printing functions give the same text, and the reported text length equals the length printed. Rejected text gives an error reason and never crashes, wraps around or is silently truncated.",
  ["inputs"], "all types (8-64 bit signed and unsigned integers, decimals with 1-18 fraction digits, booleans, strings, addresses and prefixes, MAC, UUID, URL, time) and all strings",
  "Tests parse a couple of good values per type; extremes and near-miss texts are endless.",
  ["cligen_cv.c"],
  [("typed parsing", "cligen_cv.c cv_parse1, parse_int*, parse_uint*, parse_dec64, str2time, str2uuid, parse_url"), ("typed printing", "cligen_cv.c cv2cbuf, cv2str, cv2str_dup, cv_len, cv_print")],
  ["return code, reason, printed text of the value API compared with an independent implementation"])

p("C14", "Value comparison is a consistent order and copies are equal and independent",
  "Comparing two values of a type is antisymmetric, transitive, agrees with equality of the values, and for numbers and times agrees with numeric and chronological order over the whole range of the type. Values of different types never compare equal, except texts, which compare by their text. A copy or duplicate compares equal to its source, prints the same, keeps the name and flags, and stays unchanged when the source is later changed or released.",
  ["inputs", "histories"], "all pairs and triples of values of each type, and copy-then-mutate histories",
  "Tests never call comparison on extremes and never mutate after copying.",
  ["cligen_cv.c", "cligen_cvec.c"],
  [("comparison", "cligen_cv.c cv_cmp"), ("deep copy", "cligen_cv.c cv_cp, cv_dup; cligen_cvec.c cvec_dup")],
  ["sign of comparison, printed text before and after mutation"])

p("C15", "The value vector is a faithful ordered container",
  "Adding, appending, deleting, finding, iterating, copying and resetting entries of a value vector behave as on an ordinary list: lengths, order, contents and names are exactly those of the operations performed, lookups by name return the first entry with that name, and an index or entry that is not in the vector is reported, not acted upon.",
  ["histories"], "all sequences of vector operations incl. out-of-range and foreign entries",
  "Tests reach the vector only through parsing; arbitrary sequences of operations are not exercised.",
  ["cligen_cvec.c"],
  [("append/delete with reallocation", "cligen_cvec.c cvec_add, cvec_append_var, cvec_del, cvec_del_i"), ("lookup", "cligen_cvec.c cvec_find*")],
  ["full observable state after each operation versus a list model"])

p("C16", "The text buffer holds exactly what was appended, at every size",
  "After any sequence of formatted prints, string, character and block appends, truncations and resets on a text buffer, its content and length are exactly the concatenation the operations describe, it is always terminated, and its reported capacity is always larger than its length, whatever initial size and growth limits are configured.",
  ["histories", "inputs", "configurations"], "all operation sequences with sizes around every growth boundary and all start/threshold settings",
  "Tests write short strings far from growth boundaries.",
  ["cligen_buf.c"],
  [("exponential-then-linear growth", "cligen_buf.c cbuf_realloc, vcprintf")],
  ["content, length, capacity after each operation versus a byte-string model"])

p("C17", "Lines split into words by blanks, quotes and escapes, losslessly",
  "Splitting a line yields its words in order, where blanks separate words except inside double quotes or after a backslash, the quotes delimit but are not part of the word, and the remainder recorded for each word is exactly the rest of the line from that word. A comment character at the start of a word hides the rest of the line, surrounding and repeated blanks never change the verdict, and escaping a string without double quotes for insertion gives text that splits back to that string.",
  ["inputs"], "all strings over letters, blanks, quotes, backslashes and comment characters",
  "Tests use a few quoted words.",
  ["cligen_cvec.c", "cligen_read.c", "cligen_expand.c"],
  [("tokenizer", "cligen_cvec.c cligen_str2cvv, next_token"), ("trim and comment", "cligen_read.c cli_trim"), ("escaping", "cligen_expand.c cligen_escape_do")],
  ["word and remainder vectors versus an independent splitter; verdict metamorphism"])

p("C18", "The line editor returns exactly the text its keystrokes describe",
  "For any sequence of editing keystrokes (insert and overwrite, cursor movement by character and word, delete in both directions, kill and yank, transpose, escapes and special-key sequences) ended by newline, the line returned is the one a plain text buffer with those operations would hold, for lines of any length; when multi-byte mode is on, multi-byte characters are inserted whole (editing is per byte).",
  ["inputs", "configurations"], "all keystroke sequences, line lengths across buffer growth, insert/overwrite, UTF-8 and scrolling modes",
  "Tests type plain text; editing keys are hardly pressed and never in combination.",
  ["cligen_getline.c", "cligen_handle.c"],
  [("editing primitives", "cligen_getline.c gl_addchar, gl_del, gl_kill, gl_yank, gl_transpose, gl_word, gl_fixup"), ("line buffer growth", "cligen_handle.c cligen_buf_increase")],
  ["line returned by the editor for keystrokes fed on standard input"])

p("C19", "What the terminal shows is always the prompt and the line being edited",
  "After every keystroke, a terminal that executed the bytes written by the editor shows the prompt followed by the current line (or, in horizontal-scroll mode, a window of it), with the terminal cursor at the editing position and no leftover characters, for any terminal width that leaves at least nine columns after the prompt, with single-width printable characters.",
  ["inputs", "configurations"], "all keystroke sequences, terminal widths, wrapping and scrolling modes, prompts",
  "Tests never interpret the terminal output.",
  ["cligen_getline.c"],
  [("incremental redisplay", "cligen_getline.c gl_fixup, gl_puts, gl_putc")],
  ["bytes written by the editor interpreted by a small terminal emulator"])

p("C20", "Command history recalls entered lines exactly, newest first, within its size",
  "Stepping back and forth through history yields exactly the most recent non-blank lines entered, in order, without consecutive duplicates, up to the configured number (past either end an empty line is shown), and incremental search finds the most recent line containing the text typed. Saving the history and loading it into a new session gives the same recalled lines.",
  ["histories", "configurations"], "all sequences of entered lines, recalls, searches, history sizes, and save/load round trips",
  "Tests do not exercise ring wrap-around or search.",
  ["cligen_history.c", "cligen_getline.c"],
  [("history ring", "cligen_history.c hist_add, hist_prev, hist_next, hist_save"), ("search", "cligen_getline.c search_*")],
  ["line returned after recall keystrokes; saved file content"])

p("C21", "Paged output loses, duplicates and reorders nothing",
  "Whatever is printed through the output function, in whatever chunks and line lengths, the bytes written (page prompts aside) are exactly the bytes printed in order until the user quits, after which nothing more of that command's output is shown; between two page prompts no more terminal rows are used than the answer asked for (a page of one row less than the terminal, or one line), a prompt comes only when they are used up, resetting the output starts a new page, and keys typed ahead of a prompt's answer reach the following prompts and command lines.",
  ["inputs", "configurations"], "all chunkings and contents, terminal sizes, paging on or off, all answers at the page prompt",
  "Tests run with paging off and short output.",
  ["cligen_io.c"],
  [("paging state machine", "cligen_io.c cligen_output, cligen_output_scroll, cligen_output_basic")],
  ["bytes on standard output versus bytes printed"])

p("C22", "Piped command output reaches the filter completely and in order",
  "When a command is given with an output filter, the filter process receives exactly the bytes the command printed, the user sees exactly what the filter wrote and nothing unfiltered, the filter process is gone afterwards, and the next command prints normally, whatever the amount of output and also when the filter reads nothing, exits early, pauses or fails, when a callback fails, and when filters are combined (several on one command, or an alias of a filtered command filtered again). The filters that a command accepts are those of the filter tree given with the command itself, else with the nearest command above it that gives one, else of the default filter tree of the active tree; any other filter name is refused.",
  ["inputs", "fault_sequences", "histories"], "all output sizes up to several socket buffers, all filter behaviours (copy, select, count, early exit, no read), sequences of piped and plain commands",
  "Tests pipe a few short lines through grep and tail.",
  ["cligen_read.c", "cligen_io.c", "cligen_expand.c"],
  [("fork, socket pair and output redirection", "cligen_read.c cligen_eval_pipe_pre, cligen_eval_pipe_post, cligen_eval; cligen_io.c cligen_output"), ("pipe tree append", "cligen_expand.c pt_expand, cligen_match.c match_pattern_sets (default and local pipe tree)")],
  ["bytes on standard output, children and descriptors after each command"])

p("C23", "Interpreting a line never changes how later lines are interpreted",
  "The verdict, values, help and completion for a line depend only on the loaded grammar and options: any number of earlier lines, failed matches, help requests, completions and evaluations in between leave them and the printed grammar unchanged.",
  ["histories"], "all histories of match, help, completion and evaluation over all grammars incl. references, sets, dynamic expansion",
  "Tests start a fresh process per line.",
  ["cligen_match.c", "cligen_expand.c", "cligen_read.c", "cligen_result.c", "cligen_parsetree.c"],
  [("temporary expansion trees and their cleanup", "cligen_expand.c pt_expand, pt_expand_cleanup"), ("match flags reset", "cligen_match.c; cligen_result.c mr_*")],
  ["observations of the same probe lines on a fresh handle and after a history; printed grammar before and after"])

p("C24", "Dynamically offered alternatives behave as keywords bound to their variable",
  "Alternatives supplied at run time by an expansion function (below the first word of a tree) are offered in help and completion, can be abbreviated and are matched like keywords, the function receives its declared arguments and the values already entered, and the chosen alternative is passed to the command as the value of the variable under the variable's name. Alternatives containing blanks, question marks or backslashes, supplied through the library's escape function, can be completed and then matched back to the same value.",
  ["programs", "inputs", "histories"], "all sets of run-time alternatives (arbitrary text, changing between calls), all lines over them",
  "Tests use one function returning three fixed words.",
  ["cligen_expand.c", "cligen_match.c"],
  [("expansion callback invocation", "cligen_expand.c pt_expand_fnv, pt_callback_reference"), ("escaping", "cligen_expand.c cligen_escape_do")],
  ["verdict, bound value, help and completion with a recording expansion function"])

p("C25", "Switching tree or edit level selects exactly that tree's commands",
  "After selecting a tree by name only that tree's commands (and what it references) are recognised, after selecting an unknown name no command is recognised and every line is refused until a known tree is selected, and moving the edit point down, up and to the top of a tree makes exactly the commands at that level available and upward movement is the inverse of downward movement.",
  ["histories", "programs"], "all forests of trees and all sequences of selections and edit-point moves",
  "Tests switch between two trees and descend one level.",
  ["cligen_pt_head.c", "cligen_handle.c", "cligen_read.c"],
  [("tree list and active tree", "cligen_pt_head.c cligen_ph_find, cligen_ph_active_set_byname"), ("working point", "cligen_pt_head.c cligen_wp_*; cligen_expand.c reference_path_match")],
  ["verdict of probe lines after each move"])

p("C26", "A malformed specification is rejected cleanly",
  "Any text that is not a legal specification makes loading fail with an error and a line number, without aborting; what was loaded before stays usable with unchanged behaviour, the handle can load further specifications, and nothing is leaked.",
  ["inputs", "histories", "fault_sequences"], "all corruptions (truncation, deletion, insertion, swap) of legal specifications, interleaved with good ones on one handle",
  "Tests load only correct specifications.",
  ["cligen_parse.y", "cligen_parse.l", "cligen_syntax.c"],
  [("parser error paths", "cligen_parse.y clispec_parse_exit, yyerror"), ("cleanup", "cligen_syntax.c clispec_parse_str")],
  ["return code; probe observations before and after; leak report"])

p("C27", "Declaration order, splitting and merging of specifications do not matter",
  "Loading the same commands in any order, in one text or several, or by merging separately loaded trees, gives the same grammar: the same lines accepted, the same values and callbacks, the same help, and the same printed form, with siblings kept without duplicates in the order the application chose (by character, without regard to letter case, or numbers by value). A copied grammar equals the original and stays unaffected when the original is released.",
  ["programs", "histories"], "all partitions and permutations of declarations, all copy and merge sequences",
  "Tests load each spec once in one order.",
  ["cligen_parsetree.c", "cligen_object.c", "cligen_syntax.c"],
  [("sorted insertion with duplicate merge", "cligen_object.c co_insert1, co_insert_pos; cligen_parsetree.c cligen_parsetree_sort, cligen_parsetree_merge"), ("deep copy", "cligen_parsetree.c pt_dup, pt_copy; cligen_object.c co_copy")],
  ["printed form and verdicts of grammars built differently"])

p("C28", "Registered descriptors are served exactly while registered",
  "While the editor waits for a key, each registered descriptor that has input gets its callback with its own argument, descriptors that were unregistered get none, registering or unregistering one never affects the others, and no keystroke is lost by serving them.",
  ["histories", "schedules"], "all register/unregister sequences over many descriptors with input arriving in any order",
  "Tests never register descriptors.",
  ["cligen_getline.c", "cligen_io.c"],
  [("descriptor table", "cligen_getline.c gl_regfd, gl_unregfd, gl_select")],
  ["callback log versus a set model; line returned by the editor"])

p("C29", "Regular-expression limits constrain the whole value",
  "A variable with regular expressions accepts a word exactly when the entire word (not just a part of it) matches every expression given, inverted expressions being those that must not match, in both the POSIX and the XML-schema dialect; an invalid expression is reported as an error by the compilation and matches nothing.",
  ["inputs", "programs", "configurations"], "all expressions of the common regular core and all words, one or several expressions per variable, inverted or not, both dialects",
  "Tests try a few pattern/word pairs.",
  ["cligen_regex.c", "cligen_cv.c"],
  [("anchored compile and exec", "cligen_regex.c cligen_regex_posix_compile, cligen_regex_libxml2_*, match_regexp"), ("validation", "cligen_cv.c cv_validate")],
  ["accept/reject verdict versus an independent regular-expression matcher"])

p("C30", "Hidden commands work when typed but are never offered",
  "Marking commands hidden changes nothing about which lines are accepted and what they do, while hidden commands and everything reachable only through them never appear in help or in completion candidates.",
  ["programs", "inputs"], "all grammars with any subset of nodes hidden, all lines and help/completion points",
  "Tests hide one top-level command.",
  ["cligen_expand.c", "cligen_match.c", "cligen_parse.y"],
  [("hide flag filtering", "cligen_expand.c pt_expand; cligen_match.c"), ("hide label", "cligen_parse.y; cligen_object.c co_flags")],
  ["verdicts with and without hide; help and completion output"])

p("C31", "Handles are isolated from each other and options take effect as set",
  "Every handle option reads back as last set (prompts, comment and delimiter characters, modes, sizes), and loading, matching, editing or configuring one handle never changes what another handle in the same program accepts, recalls or reports.",
  ["histories", "configurations"], "all interleavings of operations on two or more handles, all option values",
  "Tests use one handle per process.",
  ["cligen_handle.c", "cligen_getline.c", "cligen_history.c"],
  [("per-handle state", "cligen_handle_internal.h struct cligen_handle"), ("option accessors", "cligen_handle.c")],
  ["observations on each handle in the interleaving versus alone"])

p("C32", "An alias runs the command it stands for",
  "Defining an alias adds one command that, when entered, has exactly the effect and result of entering the text it stands for; redefining it changes that effect, listing and help show it, it does not disturb other commands, and an alias that does not resolve gives an error.",
  ["histories", "programs"], "all sequences of alias definitions, redefinitions and uses over all grammars",
  "Tests define one alias.",
  ["cligen_syntax.c"],
  [("alias definition and call", "cligen_syntax.c cligen_alias_add, cligen_alias_call")],
  ["callbacks recorded for the alias and for its expansion"])
p("C33", "Values and flags assigned in a specification reach the application",
  "Every global assignment of a specification is found in the vector the application passes when loading: each name once, in the order of first assignment, with the value assigned last, over any number of loads into the same vector, from strings and files alike; assignments that name a tree are not among them. The flags and assignments given with a complete command are found on exactly that command when it is matched, in order and with their values, and so are its name and help text, also when it is reached through a tree reference; a function that computes run-time alternatives finds the variable it is called for, with its flags and values.",
  ["programs", "inputs"], "all specifications with assignments and flags, all sequences of loads, all matching lines",
  "Tests set a prompt and hide commands.",
  ["cligen_parse.y", "cligen_expand.c", "cligen_object.c", "cligen_cvec.c"],
  [("assignments and flags", "cligen_parse.y cgy_assignment, cgy_flag, cgy_terminal"), ("matched object", "cligen_read.c cliread_parse; cligen_expand.c pt_expand_fnv, co_expand_sub; cligen_object.c co_copy")],
  ["vector of globals after each load; vector, name and help text of the matched object"])
p("C34", "The terminal is given back as it was found and its size is followed",
  "Whatever happens while a command line is read from a terminal - the line is finished, ended by end of file or an exit character, the terminal hangs up, a signal character is typed, a signal arrives, help fails, a registered descriptor prints and is paged - all settings of the terminal are as they were found whenever the application has control again (after each line, in callbacks, in its signal handlers, after paged output). While keys are read the terminal neither echoes nor buffers lines, so the lines read are the keys typed. Width and rows follow the size of the terminal at the start and after each change, also in the middle of a line, which is not disturbed by it.",
  ["inputs", "histories", "signals"], "all key sequences, ways to end a line, initial terminal settings, sizes and signals",
  "Tests never run on a terminal.",
  ["cligen_getline.c", "cligen_io.c", "cligen_handle.c"],
  [("settings", "cligen_getline.c gl_char_init, gl_char_cleanup, gl_init1, gl_cleanup, gl_exit, gl_getc, gl_getline; cligen_io.c cligen_output_scroll"), ("size", "cligen_handle.c cligen_gwinsz, sigwinch_handler, cligen_init")],
  ["settings of the pseudo terminal at each line, callback, signal handler and end of output, and at each key", "width and rows"])
p("C35", "Each line entered at the prompt is handled once, as if given by itself",
  "Every line entered at the prompt - through the call that reads, matches and evaluates one line, or through the ready-made loop - is handled exactly once and in the order entered, as if it were matched and evaluated by itself: same line, verdict, reason, callbacks, values, printed text and outcome. Blank lines and comments are passed over. The loop prints one message for each line that is refused (with the line and the reason), is ambiguous or whose callback fails, and none for the others; it ends successfully at the end of input or once the application asks to exit, leaving the rest of the input unread, and with an error when a line cannot be interpreted.",
  ["inputs", "histories", "programs"], "all specifications, sequences of lines and outcomes of callbacks",
  "Tests feed a few scripts to the example program and look for patterns in its output.",
  ["cligen_read.c", "cligen_util.c"],
  [("read, match, evaluate", "cligen_read.c cliread, cliread_eval, cliread_parse, cligen_eval"), ("loop", "cligen_util.c cligen_loop")],
  ["verdict, reason, callbacks and outcome of each line at the prompt and by itself", "messages of the loop", "input left unread"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
