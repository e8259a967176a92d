"""Which function decides which property."""
import cancel
import clean
import command
import db
import deps
import driver
import fabmain
import files
import indent
import run
import static
import top
import yamlcheck

CHECKS = {p: run.check for p in ("C01", "C02", "C03", "C04", "C05")}
CHECKS.update({p: files.check for p in ("C06", "C07", "C08", "C09")})

def args_check(c):
    run.check(c, with_design=False)
    yamlcheck.check(c)


CHECKS["C16"] = args_check
CHECKS["C10"] = db.check
CHECKS["C12"] = clean.check
CHECKS["C20"] = CHECKS["C21"] = deps.check
CHECKS["C13"] = command.check
CHECKS["C18"] = driver.check
CHECKS["C19"] = top.check
CHECKS["C22"] = static.check
CHECKS["C23"] = fabmain.check
def names_check(c):
    yamlcheck.check(c)
    command.check(c)
    deps.check(c)


def dry_check(c):
    files.check(c, with_design=False)
    clean.check(c, 0.5)
    command.check(c)
    deps.check(c)
    fabmain.check(c)


CHECKS["C15"] = names_check
CHECKS["C11"] = dry_check
CHECKS["C17"] = indent.check
CHECKS["C25"] = cancel.check
CHECKS["C14"] = CHECKS["C24"] = yamlcheck.check

_RUN = "TLA+ specification FabRun (checked and refined by FabController with TLC); its behaviours drive the real Controller, and recorded executions are validated against it by TLC"
_RUN_NOTE = ("Behaviours of the specification generated by TLC are replayed step by step on the real controller, and free concurrent runs "
             "(also of a schedule-perturbed build) are recorded; TLC decides for every recorded execution whether it is a behaviour of FabRun. "
             "Bounded by the generated programs (up to about 14 targets, some with over 100) and schedules.")
_FILES = "TLA+ specification FabFiles (refined by FabFilesImpl, checked with TLC); histories of edits, builds and crashes generated from it are executed with the real Files targets and hash databases, and the recorded histories validated by TLC"
_FILES_NOTE = ("Histories of up to 18 operations (edits, swaps, renames, restores, rule changes, builds in different modes, failures, SIGKILL) on generated "
               "projects of up to 5 Files targets are taken from behaviours of FabFilesImpl and executed for real, in one process or several; "
               "TLC decides whether each recorded history is a behaviour of FabFiles.")
DOC = {p: (_RUN, _RUN_NOTE) for p in ("C01", "C02", "C03", "C04", "C05")}
DOC.update({p: (_FILES, _FILES_NOTE) for p in ("C06", "C07", "C08", "C09")})
DOC["C10"] = ("TLA+ specification FabDB (refined by FabDBImpl, checked with TLC); histories generated from it are executed with real sqlite databases, and the recorded histories validated by TLC",
              "Histories of up to 24 rounds of sequential or concurrent operations, clock advances, and opening and closing of up to 3 handles, "
              "plus rounds of up to 300 concurrent operations and histories with fab's own handle; TLC decides whether each is a behaviour of FabDB.")
DOC["C12"] = ("TLA+ specification FabClean (FabCleanImpl implements it, checked with TLC); histories generated from it are executed with real Clean and Files targets, and the recorded histories validated by TLC",
              "Histories of up to 20 operations (files, directories and links coming and going, directories becoming read-only, Files targets with and without Autoclean, "
              "one or two Clean targets running, dry or not, from Go or YAML); TLC decides whether each is a behaviour of FabClean.")
DOC["C17"] = ("TLA+ specification FabIndent (whose consequences are checked with TLC); its behaviours are replayed with real controllers and copiers, and the recorded executions validated by TLC",
              "The text is built from line ends of all kinds and stretches of other text (up to 5000 bytes, any bytes), cut into writes in all sorts of ways, "
              "at nesting depths of up to 4, with up to 3 copiers; TLC compares what arrived after every write with what FabIndent says.")
DOC["C13"] = ("TLA+ specification FabCommand (conservation of output checked with TLC); its behaviours are replayed with real Command targets and processes, and the recorded executions validated by TLC",
              "Configurations (Go or YAML, shell or program, arguments, directory, environment, input, all kinds of destinations, verbose, nested) and what the processes do "
              "(writing in pieces to both streams, reading, exiting, dying) come from behaviours of the specification; every execution happens in a process of its own; "
              "TLC compares what the processes saw, what arrived where, and the result with what FabCommand says.")
DOC["C14"] = DOC["C24"] = (
    "TLA+ specifications FabYaml (implemented by FabYamlImpl, checked with TLC for all small projects) and FabRun; generated projects are read and run with the real Controller, and the recorded executions validated against both by TLC",
    "Projects of up to 4 YAML files in different directories (any order of definitions and of reading, references of all spellings, forward, cyclic between files, missing; all built-in "
    "tags and user-defined ones; all YAML styles; for C24 also mistakes of all kinds) are read by the real code. TLC decides whether what was accepted, registered, documented and run is what FabYaml says.")
DOC["C16"] = (
    "TLA+ specifications FabYaml (what the words of a command line select) and FabRun (what running it with arguments means); generated command lines and programs are executed with the real Controller and fab.Main, and the recorded executions validated by TLC",
    "Lists of words (names, unknown names, hyphens, empty words, odd characters) over registries of Go and YAML targets with odd names, and programs with nested ArgTargets; "
    "TLC decides whether what is selected, reported, run, and seen by GetArgs is what the specification says.")
DOC["C20"] = (
    "TLA+ specification FabDeps (implemented by FabDepsImpl, checked with TLC for all small projects); histories of generated projects are executed with the real proto.Deps and proto.Proto, and the recorded histories validated by TLC",
    "Projects of up to about 12 .proto files in 6 directories (imports of all forms, cycles, several files of the same name, comments, strings and nested blocks in between, up to 4 include directories in any spelling), "
    "changing over time; TLC decides whether each list, and each decision to compile, is what FabDeps says.")
DOC["C21"] = (
    "TLA+ specification FabDeps; generated Go modules are given to the real golang.Deps, golang.Binary and ts.Decls, and the recorded histories validated by TLC",
    "Modules of up to 12 packages (nested, internal, hidden, excluded files, tests in and outside of the package, embedded files and directories, assembler files, nested and other modules), "
    "files changing over time; TLC decides whether each list, and each decision to compile, is what FabDeps says. The compiler itself is a stand-in.")
DOC["C19"] = (
    "TLA+ specification FabTop (implemented by FabTopImpl, checked with TLC for all small projects); searches in generated projects by the real TopDir are recorded and validated by TLC",
    "Directory trees up to 6 deep with _fab directories (and files and links of that name), fab.yaml and fab.yml files with right, wrong, odd and missing _dir declarations in all YAML styles, changing between searches "
    "that start anywhere; TLC decides whether each result is what FabTop says.")
DOC["C18"] = (
    "TLA+ specification FabDriver (implemented by FabDriverImpl with crashes at every step, checked with TLC); generated histories are executed with the real fab command, and the recorded histories validated by TLC",
    "Histories of up to 14 runs of two versions of fab, in up to 2 projects sharing a driver directory, between edits, swaps, renames, reverts and damage, with failing compilations, and fab killed "
    "at any of its steps; the go command's mod and build subcommands are stand-ins producing a script that reports what it was made from. TLC decides whether each history is one of FabDriver.")
DOC["C22"] = (
    "TLA+ specification FabStatic (which variables of a Go package are targets; consequences checked with TLC for all small sets of types); drivers for generated packages are compiled, listed and run by the real fab command, and what they offer validated by TLC",
    "Packages of up to about 12 declarations and 8 types (structs embedding others, interfaces, generic, defined and alias types, right and wrong methods with value and pointer receivers), in up to 3 files among tests and excluded files, "
    "with all forms of variable declarations and comments, and YAML targets; TLC decides whether the names and documentation listed, and what runs, are what FabStatic says.")
DOC["C23"] = (
    "TLA+ specification FabMain (implemented by FabMainImpl, checked with TLC); generated histories of invocations of the real fab command are validated by TLC",
    "Histories of up to 8 invocations with any flags in any form, words (odd names, arguments, unknown names), database directories and current directories, in projects with Go targets, YAML targets in up to 2 files, "
    "or both, coming and going, between edits. TLC decides whether exit status, targets run, modes and arguments seen, streams, listing, files and the databases' places are what FabMain says. "
    "The drivers are compiled by the real fab beforehand; the compiler is a stand-in afterwards.")
DOC["C11"] = (
    "TLA+ specifications FabFiles, FabClean, FabCommand, FabDeps and FabMain (what dry runs do is part of each; implementations checked with TLC); generated histories with dry runs are executed with the real code and the fab command, and validated by TLC",
    "Histories with dry runs in between: Files targets with all modes and databases, Clean targets, Commands with all kinds of destinations, proto, Go and TypeScript targets, and whole invocations of fab with and without a driver. "
    "TLC decides whether files, databases, processes and results, also of later real runs, are what the specifications say.")
DOC["C15"] = (
    "TLA+ specifications FabPath and FabYaml (what names and patterns in YAML denote), FabCommand and FabDeps; generated YAML lists, projects, Commands and dependency lists are given to the real readers, and what they make of them validated by TLC",
    "Lists of names and patterns (all forms, tagged sublists, mistakes) in directories at any place (with odd names, above, below and beside the top directory, which may be relative), over generated trees; what Clean removes, "
    "Files targets' order, Commands' directories, inputs and outputs, and proto and Go settings. TLC decides whether each name denotes the file that FabPath says.")
DOC["C25"] = (
    "TLA+ specification FabCancel (its consequences, and that canceled builds end, checked with TLC); its behaviours are replayed with real controllers, commands and hash databases, and the recorded executions validated by TLC",
    "Programs of up to about 25 targets (commands of all forms, functions, All, Seq, Deps, ArgTarget, names, Files with a hash DB) and up to 3 builds sharing a database, canceled at any moment: when everything due has "
    "started, right after some command was told to end, right after the beginning, or before it; also with a schedule-perturbed build. TLC decides whether what started, was killed, was returned, and what later builds did again is what FabCancel says.")
NOT_APPLICABLE = {}
