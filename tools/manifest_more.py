t("C04","online scheduler: every command of a block waits at a gate, the monitor counts running commands after every release","held on the generated blocks and release orders; a slot is expected to be taken again within 20 s")
t("C13","byte-exact output monitor: every command's written lines must come out once, in order, under its label","held on the generated output chunkings; inside a line only the text after its last CR counts")
t("C14","output monitor: escape sequences reaching the terminal parsed by an independent grammar","held on the generated byte strings")
t("C15","process-table and event-log monitor of cancelled runs, signals at random and chosen moments, also on a pseudo-terminal","held at the observed moments; processes that leave the session of bab are not required to end; 12 s count as hung")
t("C16","Go race detector and panic monitor on a race build of bab under the workloads of the other checks","held on the executed schedules; races with both stacks inside the terminal library are not counted")
t("C34","differential and reference-model monitor of the three display modes on a pseudo-terminal, with an emulated screen and termios comparison","held on the generated blocks, sizes and keys")
t("C23","editor and list models run against real prompts on a pseudo-terminal; the emulated screen and the values later commands get are compared with them","held on the generated prompts and key sequences; one prompt is open at a time")
t("C17","metamorphic verdict monitor: one structural mistake injected into a valid generated Babfile must be rejected by every mode and no command run; harmless rewrites must keep the verdict","held on the generated files and about 40 kinds of mistake; unknown keys, nulls and merge keys are left out")
t("C18","differential monitor: verdict, named offenders and reported cycles of real runs against an independent graph computation","held on the generated projects, up to 5 files, and some large graphs")
t("C25","parsed --list trees, completion output (direct and through the generated bash script in bash) and runs compared with the expected names","held on the generated projects and prefixes; zsh, fish and powershell scripts cannot run here")
t("C26","every mode run in random directory trees; the file used is recognised by the task it holds and compared with an independent search","held on the generated trees; completion is not asked for the glued spelling -bPATH, which the command-line library does not complete")
t("C31","byte-exact monitor of both ends of bab's standard streams (files, pipes, sockets, terminal) around recorded commands","held on the generated sequences; a command reading a terminal is a known finding; commands with output: false are only required to leave the input alone")
t("C19","crash and hang monitor: mutated and random Babfiles, includes and arguments given to every mode of the real binary; exit status, panic text, time and error message judged","held on the generated inputs; 30 s count as a hang")
t("C33","metamorphic differential monitor: values replaced by aliases to equal anchored values, events, environments, directories, output and verdicts compared with the unaliased original","held on the generated projects; merge keys are left out")
t("C29","differential monitor: documents made from the published schema and from the documented forms judged by a JSON schema validator and by the real bab --validate, generated schema compared with the published file","held on the generated documents and the documentation's examples; rules that relate several values are left out")
t("C32","metamorphic location monitor: one mistake put at a known line of a generated project, every file and line in the message of the real binary compared with the lines that caused it","held on the generated mistakes; YAML syntax errors and undefined variables of a whole file are only required to name the file")
t("C24","reference-model monitor of the picker on a pseudo-terminal: the emulated screen after every key and resize and the command that runs after Enter compared with a model of query, list and highlight","held on the generated lists and key histories, terminals of at least 6 lines; the order of matches other than exact aliases is learned and must stay the same")
t("C27","fault injection and trace monitor: a supervisor sees every system call on the cache directory (seccomp notification), kills or fails each in turn and delays them in racing processes; the cache content, the order of calls and the leftovers are judged","held at every call of the generated refreshes, for the injected errors and the observed races; power failures only through the order of calls")
t("C28","online monitor of the real binary against a hostile local release server: requests, announcements, cache, status, time and bytes compared with an independent model","held on the generated versions, caches, opt-outs and server behaviours")
t("C30","fault injection on install.sh: a stand-in downloader plays releases with one fault each (transfers, archive, checksum list, tools, kills); exit status, target directory before and after and the installed bytes are judged","held for the generated faults with sh (dash) and bash, played systems and four hash tools; install.ps1 cannot run here, and faults while the verified program is copied into place are left out")

t("C35","output monitor of log items (level, stream, order, count) against the reference semantics","held on the generated projects; messages of one line")
