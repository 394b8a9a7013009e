"""Writes properties.jsonl and MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, na=None, note=None, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, na=na,
                  note=note, state=state, hook=hook))


SIM = "the intercepted system interface of the process (standard output and error, exit status, file operations, allocations)"
LIB = "the public API of the library: loading from files or memory, translating with options"

prop("C01", "Results never vary between processes, runs or translators",
     "The same table files and the same input always give the same translation, the same trace, the same parse and query output and the same error "
     "report, byte for byte. This holds in every process and for every translator loaded from the same files, whatever the hash seeds, the clock, the "
     "number of processors, the order in which directories are listed and the sizes in which files are read.",
     ["inputs", "configurations", "schedules"],
     "every table (in particular tables whose rules compete: equally long rules, several emphasis classes, redefinitions), every input with every "
     "option, every pair of processes with different hash seeds, entropy, clocks, heap layouts and read sizes",
     "Hash seeds are drawn anew per process and per map, so a dependence on iteration order shows only as a rare flake of a test that happens to have "
     "a tie; the tests compare one run with a literal on small tables without ties.",
     ["src/translator/trie.rs", "src/translator/table/primary.rs", "src/translator/table/multipass.rs", "src/translator/table.rs",
      "src/translator/match_pattern.rs", "src/translator/context_pattern.rs", "src/translator/indication/emphasis.rs", "src/parser/match_rule.rs",
      "src/parser/multipass/test.rs", "src/metadata.rs", "src/main.rs"],
     [("rules that match equally well are ordered by position in the table", "src/translator/trie.rs find_translations"),
      ("candidates of trie and patterns are merged and sorted", "src/translator/table/primary.rs translation_candidates"),
      ("emphasis events at one position are sorted", "src/translator/indication/emphasis.rs"),
      ("query results come in path order", "src/metadata.rs find"),
      ("sets in rules print in a stable order", "src/parser/match_rule.rs sorted, StableSet")],
     [LIB, SIM],
     note="Seeded search; every case runs three translators in each of two simulated processes whose entropy, hash seeds, clock, heap layout, CPU count, "
          "directory order and read sizes differ, and compares results byte for byte. Trusts the simulator's coverage of entropy sources.")
prop("C02", "A table with includes equals its textual expansion",
     "Loading a table gives exactly the rules of the flat text obtained by replacing every include line, in place and in order, by the content of the "
     "file it names, so that it translates like that text in both directions; several tables given together behave as their concatenation. Every rule "
     "keeps the file and the line it was written in. This does not depend on how the system cuts reads into pieces, interrupts calls or answers "
     "directory and status requests.",
     ["inputs", "configurations", "fault_sequences"],
     "every tree of table files with nested, repeated and shared includes, hyphenation dictionaries, links, comments and line-end styles, under every "
     "sequence of short reads and interrupted calls",
     "The tests expand two or three small fixed files from the local disk, where reads are never short and calls never interrupted; order and place of "
     "nested includes matter only through rules that compete.",
     ["src/parser.rs", "src/lib.rs", "src/translator/pipeline.rs", "src/hyphenation.rs"],
     [("include lines are replaced in place, recursively", "src/parser.rs expand_includes, expand_include"),
      ("the tables of a list are concatenated in order", "src/lib.rs Translator::new"),
      ("rules are anchored to path and line", "src/parser.rs table")],
     [LIB, SIM],
     note="Seeded search over file trees and read schedules against an independent model of include expansion; the reference translation is the real "
          "translator on the flat text, so translation itself is trusted here.")
prop("C03", "A load under I/O failures is all or nothing, and retryable",
     "When opening, reading or resolving any of the files of a table fails, loading either reports an I/O error or, if it reports success, the "
     "translator is complete: it translates as if nothing had failed; it never silently misses a part of the rules. A failed load leaves nothing "
     "behind: once the failures stop, loading the same tables again succeeds with the correct result. The command line prints either the fault-free "
     "output or an error, never a partial result.",
     ["fault_sequences", "inputs", "crash_points"],
     "every sequence of failing, short, delayed or interrupted opens, reads, status and path queries, and every failing allocation, at every point of "
     "a series of loads of every file tree",
     "No test makes a read, an open or an allocation fail part-way; the failing point has to be chosen among all system calls of a load.",
     ["src/parser.rs", "src/lib.rs", "src/hyphenation.rs", "src/translator/table.rs", "src/translator.rs", "src/main.rs"],
     [("an unreadable table is an error of the load", "src/parser.rs table_file, table_expanded_with"),
      ("errors of included tables reach the caller", "src/parser.rs expand_includes"),
      ("an unreadable dictionary is an error of the load", "src/hyphenation.rs, src/translator.rs TranslationError::HyphenationTableIoError")],
     [LIB, SIM],
     note="Seeded search over fault sequences: per case a fault-free run is the oracle for a run with injected failures of open, read, stat, realpath and "
          "malloc. A stat failure counts as a missing file, which the loader has to report.")
prop("C04", "Error reports are complete, in order and correctly located",
     "A table that has malformed lines, or whose includes are malformed, missing, unreadable or undecodable, is rejected, and no rule of it is printed or used. "
     "The report lists every malformed line of a file or, where the file itself is well-formed, every defect of everything it includes, each once, in the order "
     "of the include expansion, and names the file and line, or the missing name, it concerns. Library and command line report the same list.",
     ["inputs", "configurations", "fault_sequences"],
     "every tree of tables with any number of defects at any place and depth, under every sequence of short reads and interrupted calls",
     "Tests hold one error in one file at a time; completeness and order need several errors spread over several included files.",
     ["src/parser.rs", "src/lib.rs", "src/main.rs"],
     [("all malformed lines of a file are collected", "src/parser.rs table"),
      ("the errors of all includes of a file are collected in order", "src/parser.rs expand_includes"),
      ("reports are printed with path and line", "src/main.rs print_errors")],
     [LIB, SIM],
     note="Seeded search against an independent expansion that computes the whole list of errors; which single lines are malformed, and their wording, is "
          "taken from the parser run on that line alone.")
prop("C05", "Circular and too deep includes are rejected, shared ones accepted",
     "A table that includes itself, directly or through others, through links or different spellings of its name, is rejected with a report that lists "
     "the members of the circle, and a chain of more than 64 nested tables is rejected as too deep. A table included several times from different "
     "places without a circle is accepted and counts every time. Loading always ends.",
     ["inputs", "configurations"],
     "every graph of inclusions, with symbolic links to files and directories and alternative spellings, on both sides of the depth limit",
     "Tests cover a direct circle, a two-file circle, one diamond and one deep chain, all with plain names.",
     ["src/parser.rs"],
     [("the chain of resolved ancestors is compared before descending", "src/parser.rs table_expanded_with"),
      ("the depth limit", "src/parser.rs MAX_INCLUDE_DEPTH")],
     [LIB, SIM],
     note="Seeded search over include graphs (cycles, links, chains of 2 to 70, diamonds) against an independent expansion; a run that exceeds its step "
          "budget counts as not ending.")
prop("C06", "Tables are found through the search path, first match wins",
     "The name of a table, of an included table or of a dictionary is looked up in the directories of LOUIS_TABLE_PATH from first to last, and the first "
     "regular file found is used, also where later directories hold another file of the same name; without that variable the working directory is used. "
     "Included names are looked up the same way, independently of the directory of the including file. A name found nowhere is reported by that name.",
     ["inputs", "configurations"],
     "every search path (absolute, relative, repeated, empty and missing entries) and every placement of equally named files, directories and links",
     "The search path is process-wide state that the tests leave unset; shadowing needs several directories with the same names.",
     ["src/parser.rs", "src/main.rs"],
     [("lookup through the search path", "src/parser.rs table_expanded, table_expanded_with, expand_include")],
     [LIB, SIM],
     note="Seeded search over search paths and file placements against a model of the lookup, run on the simulator's file system.")
prop("C07", "A loaded translator is independent of files; a new load sees them",
     "After a translator has been loaded, changing, replacing or removing any of its files never changes what it translates, and translating performs no "
     "file access. Every new load reflects the files as they are at that time. When one file is replaced while a load is in progress, the load gives "
     "the result of the old or of the new content or reports an error, never a mixture within that file.",
     ["histories", "schedules", "inputs"],
     "every sequence of loads, translations and changes of files, and every point of a load at which a file changes, with other threads translating",
     "No test changes a file after loading; there is no cache now, and nothing would notice one that goes stale.",
     ["src/lib.rs", "src/parser.rs", "src/hyphenation.rs", "src/translator/table.rs", "src/translator/pipeline.rs"],
     [("rules and dictionaries are read completely before compiling", "src/parser.rs table_file, src/hyphenation.rs"),
      ("a translator owns its compiled tables", "src/lib.rs Translator, src/translator/pipeline.rs")],
     [LIB, SIM],
     note="Seeded search over edit histories; each version of the files is judged by a fresh simulated process, file operations during translations are "
          "counted by the simulator.")
prop("C08", "Translations do not depend on history, sharing or concurrency",
     "A translation depends only on the tables, the input and the options: not on what was translated before, not on other translators being loaded, used or "
     "dropped, and not on how many threads use the same translator at the same time. Under every schedule each thread gets exactly what a fresh "
     "translator asked once would give it.",
     ["schedules", "histories", "inputs"],
     "every interleaving of threads that share translators, every history of calls, with different options and easily confused inputs",
     "Every test translates once or twice on one thread with a fresh translator; state carried over between calls or threads cannot show.",
     ["src/lib.rs", "src/translator/pipeline.rs", "src/translator/table.rs", "src/translator/table/primary.rs", "src/translator/table/multipass.rs",
      "src/translator/indication.rs", "src/translator/regexp.rs", "src/hyphenation.rs"],
     [("translation takes the translator by shared reference and works on copies of the indicator state", "src/translator/table/primary.rs, "
       "src/translator/indication.rs"),
      ("variables of multipass rules live in an environment per translation", "src/translator/table/multipass.rs, src/translator/context_pattern.rs")],
     [LIB],
     note="Seeded search over schedules with preemption at basic blocks, loads and stores of the crate under sequential consistency (weak memory is not "
          "modelled); the oracle is a fresh translator asked once.")
prop("C09", "Files, memory and threads are given back",
     "After every load, successful or failed, no file stays open; after a translator is dropped, the memory it used is free; asking the same things again and "
     "again, through the library, the prompt or from several threads, does not make the process hold more and more memory. Checking many test files "
     "needs a number of open files that depends on the number of worker threads only, and leaves none open.",
     ["histories", "fault_sequences", "schedules"],
     "every series of loads, translations and drops, with I/O failures at any point, repeated in one process, and every set of test files under a limit "
     "of open files",
     "Tests end before a leak matters and do not look at descriptors or memory.",
     ["src/parser.rs", "src/lib.rs", "src/hyphenation.rs", "src/main.rs", "src/yaml.rs", "src/metadata.rs"],
     [("whole-file reads close the file", "src/parser.rs table_file, src/hyphenation.rs"),
      ("translators own everything they use", "src/translator/pipeline.rs"),
      ("a test file is open only while its worker reads it", "src/main.rs check_yaml_file")],
     [SIM],
     note="Seeded search; descriptors, live heap bytes and threads are counted by the simulator after every step; a leak is a steady growth over repeated "
          "identical cycles, confirmed over 30 cycles.")
prop("C10", "Nothing but reading, the terminal and worker threads",
     "Neither the library nor any command creates, changes or removes a file, directory or link, starts a process, opens a network connection or changes "
     "the environment, also when calls fail. The library itself writes nothing to the standard streams and reads nothing from them.",
     ["inputs", "fault_sequences", "configurations"],
     "every command and every sequence of library calls over every world of files, under every sequence of failing calls",
     "Tests do not watch the effects of the process; a side effect may need a particular table, failure or environment.",
     ["src/lib.rs", "src/main.rs", "src/parser.rs", "src/hyphenation.rs", "src/metadata.rs", "src/yaml.rs", "src/test.rs"],
     [("files are opened for reading only", "src/parser.rs, src/hyphenation.rs, src/metadata.rs, src/main.rs check_yaml_file"),
      ("messages go through the log facade, which is off in the library", "src/translator")],
     [SIM],
     note="Seeded search; the simulator replaces every file-changing, process-starting and networking call of libc by a counting stand-in and has no real file "
          "system behind it. Direct system-call instructions would be missed.")
prop("C11", "The prompt answers every line, in order, before reading on",
     "Without an input argument the commands that translate, trace or parse answer every line of standard input exactly once and in order, and every "
     "answer and the next prompt are on standard output before the next input is read. The answer to a line is the one a session of its own would give, "
     "whatever was asked before, however the input arrives in pieces and whatever happens to the table files meanwhile. When reading fails or the input "
     "is not text, everything asked before has been answered.",
     ["inputs", "schedules", "fault_sequences", "histories"],
     "every sequence of lines, every way of cutting input and output into pieces, interrupted and failing reads at any point, changes of the table "
     "files during the session",
     "There is no test of the prompt at all.",
     ["src/main.rs"],
     [("prompt and answers are flushed before the next read", "src/main.rs repl"),
      ("the table is compiled once before the session", "src/main.rs main")],
     [SIM],
     note="Seeded search; the transcript, and its length at every read of standard input, is compared with single-line sessions in fresh processes and with "
          "the library.")
prop("C12", "A failure to write output is never silent",
     "When standard output cannot take everything a command has to print, be it closed, full or failing at any byte, the command does not exit "
     "successfully; and what was written before is a prefix of the complete output. A command that exits successfully has written its complete "
     "output, also when writes are cut short or interrupted.",
     ["fault_sequences", "crash_points", "inputs"],
     "every command, every point of its output at which writing fails or is cut short, every error code",
     "No test makes a write fail.",
     ["src/main.rs"],
     [("printing fails loudly", "src/main.rs (println!, flush().unwrap())")],
     [SIM],
     note="Seeded search over failing and short writes; the oracle is the fault-free output of the same command.")
prop("C13", "The test runner's report is exact, ordered and isolated per file",
     "For the test files given, the report lists exactly the outcome of every test of every readable file, in the order of the arguments and of the tests in "
     "them, and the summary counts exactly those outcomes, whatever the number of worker threads and their schedule. A test's outcome compares the "
     "expected text with the translation under that test's table, direction, mode and emphasis. A file that cannot be read or is malformed is reported "
     "once, contributes nothing else and does not affect the others.",
     ["schedules", "inputs", "fault_sequences", "configurations"],
     "every set of test files with every mix of table kinds, flags and options, every number of worker threads and schedule, I/O failures in some of "
     "the files",
     "Tests parse one YAML text at a time on one thread; merging, counting and isolation across files is not tested.",
     ["src/main.rs", "src/yaml.rs", "src/test.rs"],
     [("files are checked in parallel and merged in argument order", "src/main.rs check_yaml"),
      ("a file's error replaces its results", "src/main.rs check_yaml_file"),
      ("a test runs its tables in its direction with its options", "src/test.rs")],
     [SIM],
     note="Seeded search over thread schedules of the real worker pool and over test files; a model of the file format computes the expected report, with "
          "the library as oracle for single translations.")
prop("C14", "A metadata query lists exactly the matching tables",
     "A query lists exactly the files of the search path's directories that carry all of the asked key and value pairs in well-formed metadata lines, each "
     "file once. Files that are unreadable or not text are skipped without affecting others, whatever the order in which directories are listed and "
     "files change meanwhile. When a directory cannot be listed, an error is reported instead of a partial list.",
     ["inputs", "configurations", "fault_sequences"],
     "every set of directories, files and metadata lines, every query, every listing order, failing listings, opens and reads, and changes during the "
     "query",
     "There is no test of the index or of queries.",
     ["src/metadata.rs", "src/main.rs"],
     [("metadata lines are indexed by key and value", "src/metadata.rs index"),
      ("a query is the intersection of its pairs", "src/metadata.rs find")],
     [SIM],
     note="Seeded search against a model of the index over the simulator's file system.")
prop("C15", "Command line, prompt, tracing, test runner and library agree",
     "For the same tables, direction, input and options, the library (from files or from the same text in memory), the translate and trace commands with an "
     "argument and at the prompt, and the test runner all give the same translation. A table set is accepted by all of them or rejected by all of them, "
     "with the same error reports.",
     ["inputs", "configurations", "histories"],
     "every table set, direction, input and option, each way of asking in a process of its own with its own hash seeds, clock, read sizes and schedule",
     "The commands are not tested at all; that the ways of asking agree needs every one of them on the same inputs.",
     ["src/main.rs", "src/lib.rs", "src/test.rs", "src/yaml.rs", "src/translator/pipeline.rs"],
     [("all ways share one pipeline", "src/translator/pipeline.rs TranslationPipeline"),
      ("tracing records the translation it prints", "src/main.rs trace, src/translator/pipeline.rs trace")],
     [LIB, SIM],
     note="Seeded search; differential between the ways of asking, each in its own simulated process.")

prop("C16", "No failure of the system makes a command or a call crash or hang",
     "Whatever fails while files and directories are opened, read, listed or resolved, once or for good, whatever happens to the files meanwhile and however "
     "threads are scheduled, every command and every library call that ends regularly when undisturbed comes to a regular end as well, within a number of "
     "steps bounded by the size of its task: it never panics, aborts, deadlocks, retries for ever or exhausts its memory. Reading a failing or interrupted "
     "standard input, and writing to an interrupted or slow standard output, likewise end regularly.",
     ["fault_sequences", "schedules", "inputs", "histories"],
     "every command, interactive session and series of library calls, every sequence of transient or lasting failures of opens, reads, listings, status and "
     "path queries, every change of a file at any point, every schedule of the worker threads",
     "No test makes the system fail; that every failing call has an error path that ends can be seen only by failing each of them, once and for ever.",
     ["src/main.rs", "src/lib.rs", "src/parser.rs", "src/hyphenation.rs", "src/metadata.rs", "src/yaml.rs", "src/test.rs"],
     [("failures are values passed to the caller", "src/parser.rs TableError, src/translator.rs TranslationError, src/yaml.rs YAMLError"),
      ("errors of a test file end as a line of the report", "src/main.rs check_yaml_file"),
      ("the prompt ends when reading fails", "src/main.rs repl")],
     [LIB, SIM],
     note="Seeded search over faults, lasting storms of faults, files changing during the run and schedules; a run has to end regularly within twenty times the "
          "steps of the undisturbed run and a constant. Failing allocations abort the process by Rust's convention and are excluded.")
prop("C17", "Logging, locale, terminal and other settings do not change results",
     "Apart from the arguments, the standard input, the tables and the search path in LOUIS_TABLE_PATH, nothing around the process changes what it prints or how it "
     "exits: not the log level, the locale, the time zone, the home, temporary or configuration directories and what lies in them, nor whether and how wide a "
     "terminal it writes to. Logging adds lines to standard error, only when asked for, and has no other effect.",
     ["configurations", "inputs"],
     "every command over every world of files in every environment, date, terminal and number of processors",
     "Tests run in one environment, without log output and without a terminal.",
     ["src/main.rs", "src/lib.rs", "src/parser.rs", "src/metadata.rs", "src/test.rs", "src/translator/table/primary.rs", "src/translator/indication/nocontract.rs",
      "src/translator/indication/lettersign.rs"],
     [("only LOUIS_TABLE_PATH is read", "src/parser.rs, src/metadata.rs, src/test.rs SearchPath"),
      ("messages go through the log facade to standard error", "src/main.rs env_logger, src/translator warn!")],
     [SIM],
     note="Seeded search; differential between a bare environment and random ones, with standard error compared after removing log lines. Error messages of the "
          "argument parser are compared too.")

# ---- pure functions: listed, not claimed
PURE = "A pure function of its input: no schedule, clock, I/O, fault or second party takes part, so simulation with fault injection decides nothing here; "
prop("C30", "Translation applies the rules the table format prescribes",
     "For every table and input, translation in either direction applies, at each position, the longest rule whose conditions hold, as the table format "
     "defines, and falls back to character definitions and escapes otherwise.",
     ["inputs"], "every table and every input",
     "Tests sample opcodes one by one; the interplay of opcodes is unbounded.",
     ["src/translator/table/primary.rs", "src/translator/trie.rs", "src/translator/position_constraints.rs"],
     [("candidate selection", "src/translator/table/primary.rs translation_candidates")], [LIB],
     na=PURE + "needs a reference translator or proof.")
prop("C31", "No input or table makes the library panic",
     "Loading any text as a table and translating any string with any accepted table returns a value or an error and never panics or overflows.",
     ["inputs"], "every text as table, every string as input",
     "Tests sample; the space of texts is unbounded.",
     ["src/parser.rs", "src/translator/table/primary.rs", "src/translator/context_pattern.rs", "src/hyphenation.rs"],
     [("errors are values", "src/parser.rs ParseError")], [LIB],
     na=PURE + "totality over inputs is a matter of fuzzing or proof (the checks skip inputs that panic).")
prop("C32", "Position maps are monotone and within bounds",
     "The maps between input and output positions are monotone, have one entry per character and point inside the other text.",
     ["inputs"], "every translation", "Tests check a handful of literals.",
     ["src/lib.rs"], [("position computation", "src/lib.rs compute_output_positions, compute_input_positions")], [LIB],
     na=PURE + "moreover the maps are not reachable from the public API yet.")
prop("C33", "Multipass translation ends",
     "Every pass of a translation ends for every accepted table and input, in a number of steps polynomial in the input length.",
     ["inputs"], "every table and input", "Tests use small rules that end.",
     ["src/translator/table/multipass.rs", "src/translator/regexp.rs"],
     [("passes advance at least one character per step", "src/translator/table/multipass.rs")], [LIB],
     na=PURE + "a property of rules and input alone; needs a ranking argument or fuzzing.")
prop("C34", "Table syntax is decoded as documented",
     "Escapes, dot patterns, character classes, attributes and operands of every opcode are decoded as the table format documents, and everything else is "
     "rejected.",
     ["inputs"], "every line of text", "Tests sample each opcode a few times.",
     ["src/parser.rs", "src/parser/braille.rs", "src/parser/match_rule.rs", "src/parser/multipass"],
     [("recursive-descent parser", "src/parser.rs RuleParser")], [LIB],
     na=PURE + "needs a reference grammar.")
prop("C35", "Hyphenation follows the pattern dictionary",
     "The break points of a word are exactly those of the pattern algorithm over the dictionary, limited by word boundaries.",
     ["inputs"], "every dictionary and word", "Tests use one small dictionary.",
     ["src/hyphenation.rs"], [("pattern matching", "src/hyphenation.rs")], [LIB], na=PURE + "needs a reference implementation of the algorithm.")
prop("C36", "Indicators are balanced and correctly nested",
     "Begin and end indicators of emphasis, capitals and numbers are balanced, nested as the table prescribes and placed around the characters they concern.",
     ["inputs"], "every table, input and emphasis", "Tests sample emphasis patterns.",
     ["src/translator/indication.rs", "src/translator/indication"], [("indicator state machines", "src/translator/indication")], [LIB],
     na=PURE + "needs a reference model of the indicator rules.")
prop("C37", "Back-translation inverts unambiguous tables",
     "For a table in which every character has its own cell and no contraction, translating back what was translated gives the input.",
     ["inputs"], "every unambiguous table and every input over its characters", "Tests sample words.",
     ["src/translator/table/primary.rs"], [("backward tables", "src/translator/table/primary.rs compile")], [LIB], na=PURE + "a matter of property-based testing.")


def entry(p):
    a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"],
         "hook_needed": p["hook"]}
    if p["state"]:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
    return {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"], "anchors": a}


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(entry(p), ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m dst.build",
         "hooks": {"guard": "none", "enable": "no hooks: the unmodified sources of /repo are built with sanitizer-coverage callbacks "
                                              "(compiler flags) and run under the preloaded simulator", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": "bin/check %s quick" % p["id"],
                            "thorough_cmd": "bin/check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                            "technique": "deterministic simulation with fault injection, seeded search", "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
