import json,subprocess
m={}
for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"]).decode().splitlines():
    h,s=l.split(" ",1); m[s]=h
F=[
("C06","fix: recognize when comparisons before interpolating variable values","when: ${{ v }} == 'x' with a value containing quotes or operators was parsed as part of the comparison"),
("C10","fix: interpolate global and task env values only once","a global or task env value inserting a variable whose value contains ${{ x }} or $${{ was interpolated a second time for each command"),
("C08","fix: interpolate global and task env values only once","same second interpolation pass seen from C08"),
("C09","fix: ignore escaped references when resolving variables","a variable with $${{ name }} depended on name: unknown names were errors and self references cycles"),
("C33","fix: resolve YAML aliases in every Babfile position","an alias to an anchored mapping or sequence was rejected or ignored"),
("C13","fix: keep CRLF terminated lines in parallel output","lines ending in CRLF disappeared from parallel output"),
("C06","fix: honor platforms and when on parallel items","when on an item of a parallel block was ignored"),
("C07","fix: honor platforms and when on parallel items","platforms on an item of a parallel block was ignored"),
("C12","fix: keep silent and output of parallel blocks in included tasks","silent and output of a parallel block were dropped in included files"),
("C20","fix: keep silent and output of parallel blocks in included tasks","same, seen from C20"),
("C11","fix: apply the root dir only to the root Babfile's tasks","the root file's dir was applied to tasks of included files"),
("C16","fix: keep prompt results out of the shared global variables","concurrent prompts wrote one shared map (data race, concurrent map write)"),
("C22","fix: keep prompt results out of the shared global variables","a prompt's result leaked into other tasks"),
("C18","fix: report only real cycles when validating task references","a diamond of references was reported as a cycle"),
("C20","fix: evaluate a task's when with the task's own variables","a task's when did not see the task's own variables or those of its included file"),
("C06","fix: evaluate a task's when with the task's own variables","same, seen from C06"),
("C06","fix: leave out dependencies of parallel tasks whose when is false","dependencies of a parallel task reference ran although the when of the item or task was false"),
("C32","fix: name the defining Babfile in errors about included tasks","errors about included tasks named the root Babfile with the included file's line"),
("C13","fix: keep parallel item labels on one line","a multi-line command's label broke the lines of parallel output"),
("C15","fix: kill background children of a finished shell on cancellation","background children of a command whose shell had ended survived cancellation"),
("C21","fix: let dry runs continue past prompts","a dry run failed at a prompt without default"),
("C05","fix: wait for a task another parallel branch is running","a branch did not wait for, or reported as cycle, a task another branch was running"),
("C23","fix: use a number prompt's default for an empty answer","an empty answer to a number prompt with default was accepted as the empty string"),
("C11","fix: apply an included file's dir only to the tasks it defines","an included file's dir was applied to the tasks of the files it includes"),
("C06","fix: compare a when operand's value without trimming it","a value with leading or trailing blanks equalled the trimmed literal"),
("C14","fix: filter parallel output with a strict escape sequence parser","CSI sequences ending in m that are no colours, truncated sequences, C1 characters and (colour off) C0 characters reached the terminal; more than 32 parameters crashed bab"),
("C13","fix: filter parallel output with a strict escape sequence parser","with color: false invalid UTF-8 was dropped and mangled"),
("C15","fix: let only the context end a TUI program on a signal","a signal while bab waited for a prompt, the picker or the parallel display could hang it for good"),
("C15","fix: treat a command as cancelled even if its shell exited cleanly","after a cancellation bab went on with the items after a command whose shell had exited with status 0 or after a block whose waiting items were cancelled"),
("C15","fix: stop waiting for detached children of a cancelled command","a process that left the command's process group and held its output open kept a cancelled bab from ending"),
("C23","fix: check a number prompt's default like any other answer","an empty answer returned a default outside min and max"),
("C23","fix: keep passwords out of the verbose log","with --verbose an entered password was shown"),
("C23","fix: keep keys pressed after a prompt's answer from changing it","keys following Enter at once changed the accepted answer past its constraints, and moving the cursor in a list filtered to nothing crashed bab"),
("C23","fix: keep ended TUI programs from taking keys","the reader of an ended prompt took the next chunk of keys from the following prompt"),
('C17','fix: reject lists and mappings where a Babfile needs a string','a list or mapping given for when, desc, alias, cmd, task, log, level, label, message, type, default, placeholder or validate was read as the empty string, so for example a command with a malformed when ran unconditionally'),
('C17','fix: reject fractions where a Babfile needs an integer','limit: 0.5 was read as 0, that is as no limit, and min: 1.5 as 1'),
("C26","fix: skip directories when looking for a Babfile","a directory named like a Babfile was taken for the Babfile"),
("C29","fix: let the schema accept integer defaults as documented","the schema rejected default: 3 of a number prompt, as the README and the guide show it"),
("C29","fix: quote commands in the documentation that are not valid YAML","two examples of the guide were no valid YAML"),
("C24","fix: rank the task with the typed alias first in the picker","typing exactly the alias of a task put another task first when its name contains the typed characters next to each other (fuzzy score above 1000)"),
("C24","fix: show multi-line task descriptions on one line in the picker","a description of several lines made its entry several rows high, so that entries and the highlight left the screen"),
("C24","fix: do not crash in the picker on task names and aliases with NUL characters","typing in the picker with a task or alias name holding a NUL (\"a\\0b\") panicked inside the fuzzy matcher"),
("C30","fix: verify the checksum with openssl in the installer","with openssl as the only hash tool (cut -f a) no release could be installed"),
("C30","fix: match the archive's exact name in the installer's checksum list","a checksum listed under a similar name (name.sig, xname, dots as wildcards) was accepted for the archive, or made a good release fail"),
("C30","fix: give up the installation when curl breaks off reading the release","a broken transfer of the release information was used as far as it came, so that a cut tag could name another release"),
("C23","fix: show all options of a multiselect prompt","a multiselect prompt showed one option less than it has: with one option its list was empty"),
("C13","fix: keep a line of a parallel block that ends in several carriage returns","a line ended by \\r\\r\\n was shown empty"),
("C35","fix: hide debug messages of parallel items without --verbose","a log item of level debug in a parallel block showed without --verbose"),
("C19","fix: limit the number of files a Babfile may include","files that include the next one twice each multiply: 24 small files kept bab busy for minutes and used up the memory"),
("C19","fix: limit the length of texts that variables multiply","variables that refer to others ten times each multiply: a Babfile of 15 lines crashed bab with out of memory"),
]
d=json.load(open("/verif/known-findings.json"))
d["fixed"]=[f"fixed: property={p} {m[s]} {w}" for p,s,w in F]
used={s for _,s,_ in F}
print([s for s in m if s.startswith("fix:") and s not in used])
json.dump(d,open("/verif/known-findings.json","w"),indent=1,ensure_ascii=False)
open("/verif/known-findings.json","a").write("\n")
