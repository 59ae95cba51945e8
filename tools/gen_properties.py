#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the texts are easy to edit."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over.split(),text=text),why_tests_cant=why,
      anchors=dict(files=files.split(),mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or ["processes started by bab, their order, exit status and output"],hook_needed=None)))

p("C01","Dependencies first, items in order, every task at most once",
 "Running a task (by name or alias) first completes its dependencies in the listed order and then its run items in the listed order; nothing starts before everything that has to precede it has finished. Within one invocation the commands of a task run at most once, however many dependencies, task references or parallel items lead to it. Nothing outside the requested task's closure runs.",
 "programs schedules","every acyclic task graph (deps, task references, parallel blocks, aliases, included files) and every timing of its commands",
 "The runner tests execute a handful of two- or three-task graphs with instant commands; sharing patterns and orderings of larger graphs are never exercised.",
 "internal/runner/runner.go internal/runner/parallel.go",[("task states claimed once per invocation","internal/runner/runner.go runTask"),("dependencies before run items","internal/runner/runner.go runTask")])
p("C02","A failure stops what follows it and decides the exit status",
 "When a command fails, no later item of its task runs, and neither does anything of a task that depends on or refers to the failed one after that point. bab exits non-zero with an error message exactly when a command it ran, or a step needed to run one (unresolved variable, missing directory, prompt without answer, unknown task), failed; otherwise it exits 0.",
 "programs","every task graph and every choice of failing commands and exit codes or signals in it",
 "Tests fail one command in a tiny task; which of many commands fails, through which chain of references, is an input they do not vary.",
 "internal/runner/runner.go internal/runner/parallel.go main.go",[("error returned up the call chain","internal/runner/runner.go runTask, executeTask"),("exit code mapping","main.go run")])
p("C03","A parallel block runs every selected item once and waits for all",
 "Every item of a parallel block that its platforms and when select runs to completion exactly once, also when other items of the block fail; only a failing dependency of a referenced task, all of which come first, keeps the block from starting. The next run item starts only after all items of the block have finished, and the block fails exactly when at least one of its items failed.",
 "programs schedules","every block size, limit, mode, mixture of commands, task references and logs, failing subset and completion order",
 "Tests run two or three fast items whose completion order is whatever happens.",
 "internal/runner/parallel.go",[("wait group and first error","internal/runner/parallel.go executeParallelInterleaved, executeParallelTUI")])
p("C04","Parallel limits are respected and used fully",
 "At no moment are more than limit items of a parallel block executing; without a limit (0 or absent) all items execute at the same time. A waiting item is started as soon as a slot is free: fewer than limit items execute only when none is waiting.",
 "schedules programs","every limit, block size, nesting of blocks through task references, and order in which items finish or fail",
 "Counting concurrent executions needs control over when commands finish; tests only check that limited blocks complete.",
 "internal/runner/parallel.go",[("semaphore channel of size limit","internal/runner/parallel.go")])
p("C05","Concurrent branches share a task run correctly",
 "When several concurrently running branches need the same task, it runs once, every branch waits for that run to finish before it goes on, and if the run fails every branch that needs it fails. Such sharing is never reported as a circular dependency and never deadlocks.",
 "schedules programs","every acyclic graph in which tasks are shared between parallel branches, and every schedule of the branches",
 "The suite has no test in which two concurrent branches reach the same unfinished task.",
 "internal/runner/parallel.go internal/runner/runner.go",[("claim, wait and finish of a task run","internal/runner/parallel.go syncState")])
p("C06","when decides execution, whatever the variable's value",
 "An item or task with a when runs exactly when the condition holds: X == 'v' and X != 'v' (either quote style) compare the interpolated operands as strings, and any other condition holds unless it is empty, blank or 'false' (any case). This is true for every value of the variables involved, whatever characters they contain. A skipped task runs none of its dependencies or items, a skip is not a failure, and a condition naming an undefined variable is an error.",
 "inputs programs","every condition form, position (task, item, parallel item, block, task reference, prompt) and variable value, including empty, multi-line and quote- or operator-bearing ones",
 "Tests use a dozen friendly values; a value that looks like an operator or a quote changes how the condition could be read.",
 "internal/condition/condition.go internal/runner/runner.go internal/runner/parallel.go",[("condition evaluation","internal/condition/condition.go Evaluate"),("skip before deps and items","internal/runner/runner.go runTask")])
p("C07","platforms select exactly the items of this platform",
 "A run item, parallel item, parallel block or prompt whose platforms list is absent or names the current platform runs, and any other is skipped without failing its task, except that a task none of whose items apply to the platform is an error. Skipped items leave no trace: no command, no output, no prompt.",
 "programs configurations","every subset of platforms on every kind and position of item",
 "Tests check the predicate on single items, not its effect on every position an item can have.",
 "internal/babfile/platform.go internal/runner/runner.go internal/runner/parallel.go",[("ShouldRunOnPlatform","internal/runner/runner.go executeTask")])
p("C08","Interpolation is exact and single-pass in every field",
 "In cmd, env, dir, log, when and prompt texts every ${{ name }} is replaced by exactly the variable's value and every ${{ env.NAME }} by the environment variable's (empty when unset), every $${{ becomes a literal ${{, and all other text is unchanged. A value is inserted literally and never interpreted again, whatever it contains. An undefined name is an error, reported before the item that uses it runs.",
 "inputs","every template and every variable value, including values that themselves contain references, escapes, quotes, newlines or non-ASCII text",
 "Tests interpolate short literal samples field by field; second passes only show on values that contain syntax.",
 "internal/interpolate/interpolate.go internal/runner/runner.go",[("escape placeholder and one regexp pass","internal/interpolate/interpolate.go Interpolate")])
p("C09","Variables resolve by scope, independent of definition order",
 "A variable's value is its definition with the references in it resolved: task variables see and override included-file and root variables, references reach any variable in scope in any order of definition, and escaped references stay literal. Resolution fails exactly when a variable in scope refers to an undefined name or depends on itself, and the outcome never varies between runs.",
 "inputs programs histories","every set of variable definitions, scopes, reference chains and cycles",
 "Resolution walks Go maps in random order; the tests cover chains of two or three variables.",
 "internal/interpolate/interpolate.go internal/parser/include.go",[("memoized depth-first resolution with a cycle check","internal/interpolate/interpolate.go ResolveVarsWithLocation")])
p("C10","Every command gets exactly its own environment",
 "A command's environment is bab's own environment overlaid with the root, included-file, task and command env maps, the more specific level winning, with each value interpolated once; in parallel blocks bab adds only its colour variables, which those maps override. No command sees a value that belongs to another command or task, also when they run concurrently.",
 "programs inputs schedules","every combination of env levels, names and values, inherited variables, sequential and parallel",
 "Tests check one overlay at a time in sequence.",
 "internal/runner/runner.go internal/babfile/env.go internal/parser/include.go",[("map overlay per command","internal/runner/runner.go executeCommand")])
p("C11","Every command runs in its own working directory",
 "A command runs in the directory given by the first of command dir, task dir, dir of the file that defines the task, and the directory of that file; relative dirs are taken from the directory of the defining file, wherever bab was started. A dir that does not exist or is not a directory makes the command fail without running.",
 "programs configurations","every combination of dir levels, includes, invocation directories and ways to name the Babfile",
 "Tests resolve single combinations and never through included files run end to end.",
 "internal/runner/runner.go internal/parser/include.go",[("dir cascade","internal/runner/runner.go resolveDir")])
p("C12","silent and output apply at the most specific level set",
 "The echo of a command, task or dependency is shown exactly when silent resolves to false, and a command's own stdout and stderr are shown exactly when output resolves to true; the command's setting wins over that of the task reference or parallel block it runs under, then the task's, then the file's (included, then root). Neither setting changes which commands run or the exit status.",
 "programs configurations","every assignment of true, false or unset to silent and output on each level, in sequence and in parallel",
 "The cascade has more than a thousand combinations; tests check a few.",
 "internal/runner/runner.go internal/runner/parallel.go internal/parser/include.go",[("first non-nil setting wins","internal/runner/runner.go isSilent, isOutput")])
p("C13","Parallel output is neither lost, mixed nor misattributed",
 "In a parallel block every line a command writes to stdout or stderr appears exactly once on the same stream of bab, whole, with the label of its item, and in the order written, however the output is cut into writes and however many items write at once. A last line without newline is kept.",
 "schedules inputs","every interleaving and chunking of writes by concurrent items, line length, CRLF line ends, empty lines, invalid UTF-8",
 "Tests feed a writer from one goroutine with small, line-aligned writes.",
 "internal/runner/writer.go internal/runner/parallel.go",[("line buffer per item and shared lock per block","internal/runner/writer.go PrefixWriter")],["bab's stdout and stderr"])
p("C14","Parallel output cannot control the user's terminal",
 "In a parallel block the only escape sequences of a command's output that reach bab's output are colour and style sequences; cursor movement, erasing, title, clipboard and every other control sequence or control character is removed. With color: false no escape sequence of the command passes and the command is told not to use colour. Printable text is kept.",
 "inputs schedules","every byte string a command can print, in every chunking",
 "Tests try about a dozen hand-written sequences; malformed, truncated and split ones are unbounded.",
 "internal/runner/writer.go",[("sanitizeLine and color stripping","internal/runner/writer.go")],["bab's stdout and stderr"])
p("C15","Cancelling bab ends everything it started",
 "After SIGINT or SIGTERM, at whatever moment, bab starts nothing more, ends every process in the process groups of the commands still running, including their background children, and exits within seconds by itself. No process of those groups outlives bab.",
 "schedules crash_points programs","every moment of a run, sequential or parallel with any limit or mode, with commands that ignore signals or leave background children",
 "Tests cancel one sleeping command through the API; signals, process trees and timing are not covered.",
 "main.go internal/runner/process_unix.go internal/runner/runner.go internal/runner/parallel.go",[("signal context and kill of process groups","internal/runner/runner.go runCommandWithWriters")])
p("C16","No data races",
 "No execution of bab contains a data race in bab's own code or data, a concurrent map access or a panic, whatever tasks, output, prompts, display mode and signals are involved (races purely inside the terminal library's own goroutines are outside).",
 "schedules programs","every schedule of parallel blocks, output writers, display updates, cancellation and the background update check",
 "The suite runs a few parallel blocks under the race detector, with trivial sharing between items.",
 "internal/runner/parallel.go internal/runner/writer.go internal/tui/parallel.go internal/update/update.go",[("mutex-protected task state, per-item copies of variables","internal/runner/parallel.go")])
p("C17","Malformed Babfiles are rejected before anything runs",
 "A Babfile, or a file it includes, that breaks a structural rule of the format (wrong node kinds, several or no action in a run item, unknown platform, level, mode or prompt type, missing or inconsistent prompt fields, bad limit, duplicate task, prompt or parallel inside parallel) makes every use of it fail with an error and without running any command. --validate accepts every file that breaks none, and never runs or prompts for anything.",
 "inputs programs","every single structural mutation, at every position, of every well-formed Babfile",
 "Tests hold one sample per rule at one position; rules must hold at all nesting positions and in included files.",
 "internal/parser/unmarshal.go internal/parser/parser.go cmd/validate.go",[("collecting validator over YAML nodes","internal/parser/unmarshal.go")])
p("C18","Reference errors and cycles are found exactly",
 "Loading a Babfile fails exactly when a dependency or task reference (also inside parallel blocks and included files) names no task, an alias equals a task name or another task's alias, two tasks get the same full name, included files form a cycle, or tasks form a cycle through dependencies and references; the message names the offender, and a reported task cycle is a real one. It never hangs or overflows, and an accepted Babfile never fails at run time with a reference or cycle error.",
 "programs inputs","every task graph, alias set and include graph",
 "Cycle detection is graph search with shared state: correctness over all graphs cannot be sampled by five fixtures.",
 "internal/parser/validate.go internal/parser/parser.go internal/parser/include.go",[("depth-first search with recursion stack","internal/parser/validate.go validateRunCycles")])
p("C19","No input makes bab crash or hang",
 "Whatever bytes the Babfile, its includes and the arguments contain, bab ends within seconds with an exit status of 0 or 1, without panicking, and with an error message when the status is 1.",
 "inputs","every byte string as Babfile, every YAML document, every argument vector",
 "Tests parse a few dozen well-behaved documents.",
 "internal/parser internal/errs cmd main.go",[("error returns on every parse step","internal/parser/unmarshal.go")])
p("C20","An included task behaves as in its own file",
 "Including a file under a namespace makes every task, alias, dependency and task reference of it available under namespace:name and nothing else, to any include depth, and running namespace:task runs the same commands with the same variables, environment, directory, conditions, silent and output settings as running task from that file itself, except for what the root file's env, vars, silent and output add where the included files set nothing. Name collisions are errors.",
 "programs configurations","every tree of included files and every combination of settings in them",
 "Tests include one or two files with one setting each; the fields to be carried over are copied one by one in code.",
 "internal/parser/include.go",[("namespacing copy of every field","internal/parser/include.go resolveInclude, prefixTaskRuns")])
p("C21","Dry runs execute nothing and show what would run",
 "With --dry-run no command is started, no prompt is shown and no file changes; the commands listed for the requested task and its dependencies are exactly those, with the same interpolated text, directory and number of environment variables and in the same order, that a real run of the task would execute in its own sequential run items. A task that would fail to resolve fails in the dry run too.",
 "programs","every task graph and item kind",
 "Tests dry-run two simple tasks.",
 "internal/runner/runner.go internal/runner/parallel.go",[("dry-run branch at every side effect","internal/runner/runner.go")])
p("C22","Without a terminal prompts take their defaults or fail",
 "When standard input is not a terminal, a confirm, input, select or number prompt yields its default (confirm as true or false), a multiselect its defaults joined with commas, and a prompt without one, and any password prompt, fails the task before later items run; nothing is read from standard input. The result is available to the later items of the same task and changes no other task's variables.",
 "programs inputs","every prompt type, default, interpolated default and position",
 "Tests call the prompt helper directly for single types; the scope of results and concurrent prompts are not covered.",
 "internal/tui/prompt.go internal/runner/runner.go",[("non-interactive handler","internal/tui/prompt.go handleNonInteractive")])
p("C23","Interactive prompts return only answers that satisfy their rules",
 "On a terminal a prompt's result is what the user entered or chose, and always satisfies its constraints: input matches its pattern, a number is an integer within min and max, a selection is one of the options, a multiselection is a subset in option order within its size limits, a confirmed password was entered twice alike. A list shows all its options where the terminal has room for them. Aborting a prompt fails the task and runs nothing after it, and a password is never shown.",
 "inputs histories","every sequence of key presses at every prompt type and constraint",
 "There are no terminal tests of prompts at all.",
 "internal/tui/prompt.go",[("validators attached to form fields","internal/tui/prompt.go")],["a pseudo terminal and the commands run afterwards"])
p("C24","The picker runs exactly the highlighted task",
 "Started without a task on a terminal, bab offers every task; typing narrows the list to the tasks whose name or an alias contains the typed characters in order (ignoring case), a task with exactly this alias first, and puts the highlight on the first; clearing the query restores the list, and the highlight stays on a visible entry while moving, editing and resizing. Enter runs exactly the highlighted task and Escape or Ctrl+C run nothing.",
 "histories inputs","every task set, terminal size and sequence of keys and resizes",
 "Tests press a few keys on small lists.",
 "internal/tui/picker internal/tui/tui.go cmd/interactive.go",[("cursor and scroll clamping","internal/tui/picker/model.go")],["rendered screen and the command run"])
p("C25","Listing, completion and lookup agree with the tasks",
 "bab --list shows every task with its aliases and description and nothing else; shell completion offers exactly the task names and aliases that start with the typed prefix; and exactly these names are accepted as the task to run, an alias running its own task. An unknown name is an error and runs nothing.",
 "programs inputs","every set of tasks, aliases, descriptions, namespaces and includes, and every prefix",
 "Tests list and complete two or three tasks.",
 "cmd/list.go cmd/complete.go internal/runner/runner.go internal/parser/parser.go",[("alias map and prefix filter","cmd/complete.go, internal/runner/runner.go")])
p("C26","The nearest Babfile is used, or the one asked for",
 "Without --babfile bab uses the first existing name of Babfile, Babfile.yaml, Babfile.yml, babfile.yaml, babfile.yml in the current directory or else in the nearest ancestor that has one, and fails when there is none; with --babfile it uses exactly that path. This holds the same for running, listing, validating, completing and dry runs.",
 "configurations","every placement of files over a directory chain and every start directory",
 "Tests place one or two files.",
 "internal/finder/finder.go internal/runner/runner.go",[("upward search","internal/finder/finder.go")])
p("C27","The update cache survives crashes, races and corruption",
 "At every instant, also when bab is killed at any point, when the disk refuses an operation or when several bab processes refresh at once, the update cache file is absent (only if there was none before) or one complete earlier or new version; a version whose writing or synchronising failed is never put into place, and the new data is synchronised before it replaces the old. A refresh leaves no temporary file behind, what killed refreshes left (older than an hour) goes away with the next refresh, and other files stay, also those of a refresh that is still running. A missing, corrupt, foreign or future-dated cache never makes bab fail, crash or report an update from it, and the next good reply replaces it, whatever a killed refresh has left.",
 "crash_points fault_sequences schedules","every crash point and failing system call of a refresh, every cache content, every number of concurrent processes",
 "Tests write one valid cache in one process without faults.",
 "internal/update/cache.go",[("temporary file, sync and rename","internal/update/cache.go saveCache")],["system calls on the cache directory and the file's content"])
p("C28","Update checks stay in the background and tell the truth",
 "bab announces an update exactly when the cached latest version is newer than its own, and contacts the network (the releases API of its own repository only, naming the cached ETag) only if its version is a release, no opt-out (CI=true or 1, BAB_NO_UPDATE_CHECK=1) is set and the cache is missing, invalid or at least a day old. Whatever the server does (errors, redirects, untrusted certificates, garbage, endless or stalled replies), the tasks run, the exit status is theirs and bab is not delayed; a bad reply never replaces the cache, an endless or stalled one is given up within seconds and megabytes, and an unchanged reply (304) keeps the known version for another day.",
 "configurations fault_sequences","every server behaviour, cache age and content, version pair and environment",
 "Tests never involve a server and check version comparison on samples.",
 "internal/update/update.go internal/update/cache.go cmd/root.go",[("background refresh with limits","internal/update/update.go")],["requests at a local proxy, bab's stderr and exit status, cache file"])
p("C29","The JSON schema and the parser agree",
 "The published schema file equals the one generated from the code, and it and the parser accept every Babfile form the documentation shows. Every Babfile the schema accepts is accepted by the parser too, unless it breaks a rule that relates several values (references and cycles, keys and defaults that do not fit the prompt's type, options or range, patterns, included files).",
 "inputs programs","every document the schema accepts and every documented form",
 "Tests look for individual keys in the generated schema and never compare verdicts.",
 "internal/schema internal/babfile schema/babfile.schema.json internal/parser/unmarshal.go",[("schema generated from the same enumerations","internal/babfile")],["schema verdicts against --validate"])
p("C30","The installer installs only what matches the published checksum",
 "install.sh puts a binary into the target directory only if the downloaded archive's SHA-256 equals the one listed under exactly that archive's name; when reading the release information, the archive or the list fails or breaks off, when the archive is truncated, tampered with, unlisted or cannot be unpacked, or when no usable download or hash tool is there, the target directory stays as it was and the script fails. A good release, the latest or the one asked for, is installed with every supported download and hash tool, and nothing else in the target directory changes.",
 "fault_sequences inputs","every fault of every download step, every tampering of archive or checksum list, and every hash tool found on the system",
 "The repository has no test of the installer.",
 "install.sh",[("hash_sha256_verify under set -e","install.sh")],["target directory and exit status"])
p("C31","Sequential commands own the standard streams",
 "A command that runs outside parallel blocks with its output shown gets bab's standard input, output and error unchanged: it can read all input that earlier commands left, every byte it writes arrives unmodified and in order, bab writes nothing of its own to standard output, and output written before the next command's echo stays before it.",
 "inputs programs","every byte stream on the three streams and every split of the input between commands",
 "Tests capture small text outputs.",
 "internal/runner/runner.go internal/output/output.go",[("file descriptors handed to the child","internal/runner/runner.go runCommand")],["bab's standard streams"])
p("C32","Errors point at the line that caused them",
 "An error about a mistake in a Babfile names the file that contains it and the line where it is: for structural errors the offending node, its key or its run item, for dangling references the run item or the dependency list, for undefined variables and variable cycles the run item or task that uses them, for duplicate tasks and aliases the lines of both, for an alias that is a task name the task that has it. This holds in included files, blocks and dry runs too.",
 "inputs programs","every position of every kind of error in every file of an include tree",
 "Tests check that some line number is present in single-file samples.",
 "internal/parser internal/errs internal/runner/runner.go",[("node lines carried to errors","internal/parser/unmarshal.go")],["bab's error output"])
p("C33","YAML anchors and aliases mean their content",
 "Replacing any key or value of a Babfile by a YAML alias to an anchored equal one changes nothing: validation verdict, executed commands, environment, directories, conditions and output stay the same. A self-referential alias is an error.",
 "inputs programs","every node position of every Babfile, scalar, sequence or mapping",
 "Tests contain no aliases.",
 "internal/parser/unmarshal.go",[("alias resolution before interpretation","internal/parser/unmarshal.go unmarshalBabfile")])
p("C34","Display modes change only the display",
 "On a terminal the modes interleaved, grouped and tabs run the same commands with the same order guarantees, failures and exit status, while a block runs their display shows the true state and latest output of the items, its summary marks every item exactly as it ended, in tabs all output of an item can be scrolled to, and the terminal is left in its original state at exit. Without a terminal grouped and tabs behave like interleaved.",
 "programs schedules histories","every block, nesting, failing subset, terminal size and key sequence",
 "Tests exercise the models without commands or a terminal.",
 "internal/tui/parallel.go internal/tui/parallel_grouped.go internal/tui/parallel_tabs.go internal/runner/parallel.go internal/output/output.go",[("per-item results collected for the summary","internal/runner/parallel.go executeParallelTUI")],["a pseudo terminal, termios state and the commands run"])
p("C35","Log items show once, at their level and in their place",
 "A log item that is reached prints its interpolated message exactly once, marked with its level (info when none is given); one that is skipped prints nothing. Outside parallel blocks it goes to standard error, after everything run before it and before anything run after it; within a block it appears under its item's label. A debug message is shown exactly when bab runs with --verbose. silent and output do not apply to log items, and a log item never changes which other items run or the exit status.",
 "programs inputs configurations schedules","every position and level of log items, message, setting of silent and output, and mixture with commands",
 "Tests render single messages; levels, streams and order show only in whole runs.",
 "internal/runner/parallel.go internal/runner/runner.go internal/output/output.go cmd/root.go",[("log items printed by level","internal/runner/parallel.go executeRunItem, internal/runner/runner.go executeLog"),("log level set by --verbose","cmd/root.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
