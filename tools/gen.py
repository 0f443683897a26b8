#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "sa"))
import props

P = []


def p(pid, title, statement, over, text, tests, files, mech, observe, na=None):
    P.append((pid, title, statement, over, text, tests, files, mech, observe, na))


C, M, T = "src/controller.rs", "src/main.rs", "src/trace.rs"

p("C01", "Exit status reflects what the executed jobs found",
  "The process exits with 0 only if every executed job ended without a problem (leaving out jobs configured not to set the return code), with 1 if at least one other executed job detected problems, and with 2 whenever the configuration, the command line or the writing of output failed. No failure or detected problem is ever turned into a better status, whatever the order and number of jobs.",
  ["inputs", "configurations", "fault_sequences"], "every configuration, every list of jobs, every set of problems found and every i/o failure",
  "No test runs the binary or the job loop; the status depends on the combination of all jobs' outcomes and failures.",
  [M, C], [("run_jobs folds the job outcomes", C), ("main_rc maps the result to the status", M)], ["process exit status"])
p("C02", "Exactly the requested jobs run, in the order requested",
  "The jobs named on the command line, or the configured default jobs if none are named, are each run exactly once per mention and in that order. If any requested name is not a configured job, if no jobs are named and no default exists, or if the configuration is inconsistent, an error is returned and no job has run or written anything.",
  ["inputs", "configurations"], "every list of job names and every job table",
  "Tests never execute a job list; the guarantee is over every list, including repeated and unknown names anywhere in it.",
  [C, M], [("run_default_jobs, run_jobs_by_name, run_jobs", C), ("run_cli_jobs", M)], ["files written", "process exit status"])
p("C03", "A job reports errors iff its query found at least one problem",
  "A tracing job detects errors exactly if there is a tracing error, an input error of any artefact, an uncovered requirement in any relation or a derived requirement in any artefact; a parsing job detects errors exactly if any artefact has an input error. The output format and target of the job do not influence this.",
  ["inputs", "configurations"], "every traced graph and every job",
  "Tests never call a job; problems may sit in any artefact or relation alone.",
  [C], [("run inspects the traced graph", C)], ["result of a job", "process exit status"])
p("C04", "A job writes its query's result in its format to its target",
  "A job hands the parsed graph (parse query) or the traced graph (trace query) to the formatter of its configured format and writes to standard output if its file is '-', otherwise to the configured file, taken relative to the base directory unless absolute, whose directory is created when missing and whose old content is replaced. Combinations of query and format that are not supported are refused with an error.",
  ["inputs", "configurations"], "every job configuration (query, format, file) and base directory",
  "No test runs a job; formats and targets are configuration values.",
  [C, "src/formatters/mod.rs"], [("run selects the writer and formatter", C), ("format dispatch", "src/formatters/mod.rs")], ["files written", "standard output"])
p("C05", "Output that could not be written completely is always an error",
  "If creating the target, any single write of a report, or the final flush fails, the job ends with an error and the process with status 2; a report is never truncated while success is reported.",
  ["fault_sequences", "inputs"], "every i/o operation of every report failing at any point",
  "Tests write into memory buffers that never fail.",
  [C, "src/formatters/gnuerr.rs", "src/formatters/markdown.rs", "src/formatters/tags.rs", "src/formatters/mod.rs"], [("every write's result is propagated", "src/formatters"), ("run maps write errors", C)], ["result of a job", "process exit status"])
p("C06", "Downward coverage: exactly the matching depends links of a relation",
  "A traced relation lists a downward coverage for an upper requirement and a lower requirement exactly if the upper requirement has a depends reference to the lower requirement's id and a lower artefact of the relation contains it (duplicates of an id already found in another artefact are reported, not traced to). The entry names both requirements' ids and the location of that reference, whether or not titles agree.",
  ["inputs"], "every set of artefacts, relations, requirements and references",
  "The trace test checks one small graph; the claim is an equivalence over all graphs.",
  [T], [("trace_relation", T)], ["traced relations in the JSON trace", "markdown trace"])
p("C07", "Upward coverage: exactly the matching covers links of a relation",
  "A traced relation lists an upward coverage for an upper requirement and a lower requirement exactly if the lower requirement of a lower artefact of the relation has a covers reference to the id of a requirement of the relation's upper artefact (references of requirements reported as duplicates are left out). The entry names both requirements' ids and the location of that reference, whether or not titles agree.",
  ["inputs"], "every set of artefacts, relations, requirements and references",
  "The trace test checks one small graph; the claim is an equivalence over all graphs.",
  [T], [("trace_relation", T)], ["traced relations in the JSON trace", "markdown trace"])
p("C08", "Uncovered lists exactly the upper requirements without coverage",
  "For every relation, a requirement of the upper artefact is listed as uncovered exactly if the relation has neither an upward nor a downward coverage for it. Every configured relation is evaluated and reported once, with its own lists, independently of other relations.",
  ["inputs"], "every set of artefacts, relations, requirements and references",
  "The trace test checks one small graph; the claim is an equivalence over all graphs.",
  [T], [("trace_relation", T)], ["uncovered in every tracing report", "exit status"])
p("C09", "A relation in which nothing is covered is reported as unused",
  "A tracing error 'unused relation' names a configured relation exactly if no requirement of its upper artefact is covered in that relation; relations with coverage never produce it.",
  ["inputs"], "every set of artefacts and relations",
  "Tests contain one relation; the claim is over all of them.",
  [T], [("validation after tracing", T)], ["tracing errors", "exit status"])
p("C10", "Derived lists exactly the requirements that cover nothing",
  "A requirement of an artefact that does not ignore derived requirements is listed as derived exactly if it takes part as lower requirement in no coverage of any relation, in either direction. Artefacts that ignore derived requirements never list any, and requirements are listed under their own artefact.",
  ["inputs", "configurations"], "every set of artefacts, relations, requirements and references",
  "The trace test checks one small graph; the claim is an equivalence over all graphs.",
  [T], [("validate_upwards / per-artefact derived table", T)], ["derived in every tracing report", "exit status"])
p("C11", "Every reference that traces to nothing is reported, no other",
  "A requirement that depends on or covers an id is reported for that link, as a dependency on or cover of an unknown requirement with the referring requirement, the referenced id and the location of such a reference, exactly if no relation contains a coverage for that link in that direction. Each such pair of requirement and id is reported once per direction, and links that take part in a coverage of any relation are never reported.",
  ["inputs"], "every set of artefacts, relations, requirements and references",
  "Tests contain one dangling reference; the claim is an equivalence over all graphs, including several references to one id and several relations.",
  [T], [("validate_downwards / validate_upwards", T)], ["tracing errors", "exit status"])
p("C12", "Title mismatches and missing titles are reported, and only those",
  "When a reference that traces carries a title different from the title of the referenced requirement, a wrong-title error names the referring requirement, the referenced requirement, the wrong title and the location; equal titles are never reported. Only for artefacts configured to require titles, each requirement without a title and each tracing reference to one of its requirements without a title is reported.",
  ["inputs"], "every pair of titles and every reference, in both directions",
  "Tests contain single examples; the claim is over all references in both directions.",
  [T], [("trace_relation compares titles", T)], ["tracing errors", "exit status"])
p("C13", "Duplicate requirement ids are reported, the first one is kept",
  "If a requirement id occurs more than once within an artefact or in several artefacts, every further occurrence is reported as a duplicate that names both occurrences, and ids that occur once are never reported as duplicates. The occurrence that was read first stays in its artefact.",
  ["inputs"], "every multiset of requirement ids over files and artefacts",
  "No test has duplicates; the claim covers every position and number of repetitions.",
  [C, T], [("parse_multiple_files / parse_from_config insert by id", C), ("add_artefact", T)], ["errors of artefacts and tracing", "exit status"])
p("C14", "The GNU error report names every problem found",
  "The GNU style tracing report contains a line for every tracing error, every input error of every artefact, every uncovered and every derived requirement. The line names the requirement or file concerned and, where it is known, its location as file:line[:column]. Items stand under the heading of their kind, and what the words of a line call a value (expected and actual title, note of the previous place) is that value.",
  ["inputs"], "every traced graph",
  "No test formats a report; the claim is over every kind and number of problems.",
  ["src/formatters/gnuerr.rs"], [("errors, tracing", "src/formatters/gnuerr.rs")], ["GNU error output"])
p("C15", "The markdown trace shows every requirement, link and problem",
  "The markdown tracing report contains every tracing error, every input error of every artefact, every uncovered and derived requirement, and every requirement of every artefact with each of its coverages in both directions and all relations; a requirement is identified by its id. Only repeated, identically rendered tracing errors may be left out. In the section of a requirement, its upwards and its downwards tracing are told apart, it is called derived if and only if nothing it covers is found, and a relation is called uncovered if and only if nothing there covers it. Items stand under the heading of their kind, and what the words of an error call a value (upper or lower requirement, its title, the title used, the first place of a duplicate) is that value.",
  ["inputs"], "every traced graph",
  "No test formats a trace; the claim is over every kind and number of entries.",
  ["src/formatters/markdown.rs", "src/aggregator.rs"], [("tracing, err, traced_requirement", "src/formatters/markdown.rs"), ("per-requirement aggregation", "src/aggregator.rs")], ["markdown output"])
p("C16", "JSON reports carry the complete graph",
  "The JSON reports serialise every requirement (id, title, location, references, tags and attributes), every error, and for tracing every relation with its coverages, uncovered and derived requirements, without dropping or renaming entries depending on their content. Identifiers are serialised as their exact text.",
  ["inputs"], "every graph",
  "Tests compare one small document; the claim is over all fields of all entries.",
  ["src/formatters/serialize.rs", "src/formatters/mod.rs", "src/models.rs"], [("serialisation structs", "src/formatters/serialize.rs"), ("serde derives", "src/models.rs")], ["JSON output"])
p("C17", "Requirement listings contain every requirement",
  "The markdown listing contains each requirement of each artefact with its id, title, description, every non-blank attribute and every covers and depends reference; the tags listing has one entry, on a line of its own, for every requirement whose line is known, with id, file and line. What the words of an input error in the markdown listing call a value is that value.",
  ["inputs"], "every parsed graph",
  "No test formats a listing; the claim is over every graph.",
  ["src/formatters/markdown.rs", "src/formatters/tags.rs"], [("requirements", "src/formatters/markdown.rs"), ("requirements", "src/formatters/tags.rs")], ["markdown output", "tags output"])
p("C18", "Every input problem is reported and the remaining input still read",
  "A pattern that is invalid or matches nothing, a file that cannot be read, a wrong number of paths for the artefact's parser, and every error a parser finds is kept as an error of that artefact, naming the path concerned. All other patterns, files and requirements, of this and every other artefact, are still read and kept.",
  ["inputs", "fault_sequences"], "every set of patterns and files, with any subset failing",
  "No test reads from a configured path list; failures can occur in any subset of the files.",
  [C], [("glob_paths, parse_single_file, parse_multiple_files, parse_from_config", C)], ["errors of artefacts", "exit status"])
p("C19", "The markdown parser keeps every requirement and all its text",
  "Every requirement heading of a markdown document yields one requirement with exactly that id and title, and the description text, attribute values and covers/depends references that follow belong to that requirement, none lost or moved to a neighbour. The first line after an attribute that cannot be understood is reported with its position and the lines up to the next heading are passed over; read errors are reported; neither loses the requirement being read.",
  ["inputs", "fault_sequences"], "every sequence of lines and a read error at any line",
  "Tests parse three documents; the parser is a state machine over all line sequences.",
  ["src/parsers/markdown.rs"], [("parse and its states", "src/parsers/markdown.rs")], ["parsed requirements and errors"])
p("C20", "Locations point at the file and line that was read",
  "Every location in a requirement, reference or error carries the path of the file being read and the 1-based number of the line on which the item was found (for an item in Rust source the line of its name, not of a comment or attribute before it); path and numbers reach the reports unchanged, in whatever state the parser is.",
  ["inputs"], "every file and line",
  "Tests check a few line numbers in small documents.",
  ["src/parsers/markdown.rs", "src/parsers/monoreq.rs", "src/parsers/rust.rs", "src/models.rs"], [("location helpers of the parsers", "src/parsers"), ("Location and LocationInFile", "src/models.rs")], ["locations in all reports"])
p("C21", "Every coverage mark in Rust source becomes a covers reference",
  "Each requirement_covered mark inside an item that can hold one yields a requirement for that item with a covers reference of exactly the marked id and title; marks that are malformed or lie outside any such item, and files that cannot be read or parsed, are reported as errors. Several marks in one item are all kept, and nested items keep their own marks.",
  ["inputs"], "every Rust source file",
  "Tests parse two functions with one mark each.",
  ["src/parsers/rust.rs"], [("syntax tree visitor", "src/parsers/rust.rs")], ["parsed requirements and errors"])
p("C22", "A single-requirement document yields one requirement with its links",
  "A single-requirement file yields exactly one requirement: named after the file, titled by its first line, with one depends reference for every later line that holds a fat arrow link, carrying exactly the id, title and line of that link, in order; other lines add nothing. A read error is reported with the path of the file.",
  ["inputs", "fault_sequences"], "every sequence of lines and a read error at any line",
  "One test parses one document.",
  ["src/parsers/monoreq.rs"], [("parse", "src/parsers/monoreq.rs")], ["parsed requirements and errors"])
p("C23", "Bad input never crashes the tool",
  "No configuration, input file, job list or i/o failure makes the tool panic; every failure is reported through its errors and exit status.",
  ["inputs", "configurations", "fault_sequences"], "every input and every i/o failure",
  "Tests only use well-formed small inputs.",
  [M, C, T, "src/aggregator.rs", "src/parsers", "src/formatters"], [("all unwrap/expect/index/arithmetic sites", "src")], ["process exit status"])
p("C24", "Output is deterministic",
  "Reports depend only on the configuration and the content of the input files: the same inputs give byte-identical reports, in a fixed order, on every run.",
  ["inputs", "histories"], "every pair of runs on the same inputs",
  "Tests run once; hash seeds and clocks differ between runs.",
  ["src/models.rs", T, "src/aggregator.rs", "src/formatters"], [("ordered maps and sets", "src/models.rs")], ["all reports"])
p("C25", "Inconsistent configurations are refused before any job runs",
  "A configuration that names an unknown artefact in a relation, configures the same artefact twice, has a newer version than supported, or cannot be read or parsed is refused with an error that names the culprit, and no job runs. Consistent configurations are never refused.",
  ["configurations"], "every configuration",
  "No test builds a controller from a configuration.",
  [C, M], [("Controller::new validates", C), ("get_config", M)], ["process exit status"])
p("C26", "Artefacts, relations and jobs are used as configured",
  "Every configured artefact is loaded from its own paths with its own parser settings, and every relation and job reaches tracing and execution unchanged. Unless configured otherwise, artefacts that are on the lower side of no relation ignore derived requirements, and all others do not.",
  ["configurations"], "every configuration",
  "No test builds a controller from a configuration.",
  [C], [("Controller::new", C)], ["all reports"])
p("C27", "Identifiers are compared and shown as exact text",
  "Requirement and artefact ids are equal exactly if their texts are equal, order consistently with that, and are displayed and serialised as exactly that text, unchanged from what was read.",
  ["inputs"], "every pair of identifiers",
  "Tests use a handful of ASCII ids.",
  ["src/models.rs"], [("derives and impls of the id types", "src/models.rs")], ["all reports"])
p("C28", "Location text splits and prints consistently",
  "Parsing a location text takes trailing numeric fields as line and column and the rest as file, rejects an empty file, and printing a location gives file, line and column again in the same order, separated by colons.",
  ["inputs"], "every location text and location",
  "Tests parse seven texts.",
  ["src/models.rs"], [("Location::parse and Display", "src/models.rs")], ["locations in reports"])
p("C29", "Ids in headings and references follow the documented grammar",
  "Requirement headings, the lines of a reference list and fat arrow links are recognised exactly where the documented identifier grammar, \\p{XID_Start}\\p{XID_Continue}+, allows the id: every id it allows is read whole and unchanged, and a text it does not allow is never read as an id there.",
  ["inputs"], "every line of text",
  "Tests try a handful of strings; the claim is an equality of languages.",
  ["src/parsers/markdown.rs", "src/parsers/monoreq.rs"], [("regular expressions of the line kinds", "src/parsers"), ("captures become ids", "src/parsers")], ["parsed requirements"])
p("C30", "Processing time grows in proportion to the input",
  "Loading and tracing finish in time bounded by a low polynomial in the size of the input.",
  ["inputs"], "every input size",
  "Tests have tiny inputs.",
  [C, T], [("loops over requirements and links", "src")], ["run time"],
  na="run time is a quantity of the library containers and the host; no static argument in reach bounds it")
p("C31", "Every run comes to an end, also on failing input and cyclic relations",
  "Loading, tracing and reporting end for every input and configuration. A reader that has reported its end or a failure is not read again for more (an interrupted call may be repeated), so a file that cannot be read, such as a directory, ends the reading of that artefact; every other loop moves on through a finite collection in every round; and nothing follows relations, references or other links between the loaded items recursively or by a growing list of things to do without remembering what was visited, as these may form cycles.",
  ["inputs", "configurations", "fault_sequences"], "every input file, every failure of reading it, every set of relations and references, cyclic ones included",
  "A test samples a few files that are read without failures and have no cycles; a run that does not end shows for specific input only.",
  ["src/parsers/markdown.rs", "src/parsers/monoreq.rs", "src/parsers/rust.rs", C, T], [("line loops of the parsers", "src/parsers"), ("loops over jobs, paths and artefacts", C), ("tracing of relations", T)], ["end of the process"])

NOTE = ("Static analysis of the type-checked program: the check dumps rustc's optimised-off MIR of the current tree, interprets it abstractly "
        "(all paths, loops summarised as rounds over symbolic collections) and decides the rules of this property on the resulting event graph. "
        "Trusted: rustc front end, the models of std/third-party calls in sa/models.py, the rule text in sa/rules_*.py. "
        "Where the abstraction cannot decide a round it stays quiet and says so in the evidence notes.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, title, st, over, text, tests, files, mech, obs, na in P:
            assert len(title) <= 80, title
            f.write(json.dumps({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
                                "why_tests_cant": tests,
                                "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": obs, "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "./setup", "checks": [], "not_applicable": []}
    for pid, *_r, na in P:
        t = props.TABLE.get(pid)
        if t is None:
            man["not_applicable"].append({"property": pid, "reason": na or "not decided yet: the rules for it are being built"})
            continue
        man["checks"].append({"property": pid, "quick_cmd": "./check %s" % pid, "thorough_cmd": "./check --tier thorough %s" % pid,
                              "technique": t.technique, "level": "other", "level_note": NOTE})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
