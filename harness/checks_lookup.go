package main

// C25: listing, completion and lookup agree. C26: which Babfile is used.

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register("C25", "random projects (names that are prefixes of each other, namespaces, included files, aliases, descriptions): the tree printed by --list is parsed and compared with the expected tasks, aliases and descriptions; __complete and the generated bash script (run in bash) must offer exactly the names and aliases with the typed prefix; every name and alias must run its own task only, near misses (case, cut, missing namespace, namespace alone, blanks) must fail naming the word and run nothing; non-trivial when the project has at least two tasks",
		func(c *Ctx) {
			c.Bab()
			c.Each("names", c.N(600, 9000), func(cs *Case) { cs.lookupCase() })
		}, "the bash script runs with a stand-in for bash-completion's _get_comp_words_by_ref, which is not installed")
	register("C26", "random directory trees with several Babfile names, decoys (other names, directories and dangling links of these names) at every level: each mode (run, dry run, list, validate, complete, picker) must use the file an independent search selects, or fail when there is none; --babfile in all its spellings must use exactly the given path; every candidate holds a distinct task; non-trivial when at least two candidates exist",
		func(c *Ctx) {
			c.Bab()
			c.Each("find", c.N(1000, 12000), func(cs *Case) { cs.finderCase() })
		}, "directories above the scratch directory hold no Babfile")
}

var lookSegs = []string{"build", "build-all", "b", "bu", "test", "t", "dev", "Dev", "start", "api", "db", "x_1", "0", "a", "aa", "help", "completion", "list", "lint", "linter", "deploy", "production", "under_score", "9lives"}

var lookDescs = []string{"Build the application", "Run tests (fast)", "x", "Déployer → prod", "with: colon, comma", "100% sure", "a \"quoted\" word", "日本語の説明", "-v flag like", "long " + strings.Repeat("words ", 30) + "end"}

func lookupProject(r *randT) *Project {
	p := &Project{Files: map[string]*File{}, Main: "Babfile"}
	uid := 0
	var mk func(fp string, depth int) *File
	mk = func(fp string, depth int) *File {
		f := &File{Path: fp}
		used := map[string]bool{}
		n := 1 + r.Intn(7)
		if depth == 0 && r.Intn(10) == 0 {
			n = 0
		}
		many := depth == 0 && r.Intn(25) == 0
		if many {
			n = 100 + r.Intn(400)
		}
		for i := 0; i < n; i++ {
			name := pick(r, lookSegs...)
			for r.Intn(4) == 0 {
				name += ":" + pick(r, lookSegs...)
			}
			if many || r.Intn(40) == 0 {
				name += fmt.Sprintf("%s%d", strings.Repeat("-more", 1+r.Intn(12)), i)
			}
			if used[name] || strings.HasPrefix(name, "inc") {
				continue
			}
			used[name] = true
			uid++
			id := fmt.Sprintf("id%d", uid)
			t := &Task{Name: name, Run: []*Item{{Kind: kCmd, ID: id, Cmd: "$R " + id}}}
			if r.Intn(2) == 0 {
				t.Desc = pick(r, lookDescs...)
			}
			for k := r.Intn(3) * r.Intn(3); k > 0; k-- {
				uid++
				a := fmt.Sprintf("%s%d", pick(r, lookSegs...), uid)
				if r.Intn(5) == 0 {
					a = fmt.Sprintf("%s:%s%d", pick(r, lookSegs...), pick(r, lookSegs...), uid)
				}
				if r.Intn(30) == 0 {
					a += strings.Repeat(pick(r, "-long", ":deep", "_x"), 5+r.Intn(30))
				}
				if t.Alias == "" && r.Intn(2) == 0 {
					t.Alias = a
				} else {
					t.Aliases = append(t.Aliases, a)
				}
			}
			f.Tasks = append(f.Tasks, t)
		}
		if depth < 2 {
			for i := r.Intn(3) * r.Intn(2); i > 0; i-- {
				uid++
				sub := fmt.Sprintf("d%d/Babfile", uid)
				f.Includes = append(f.Includes, Inc{fmt.Sprintf("inc%d", uid), sub})
				mk(filepath.Join(filepath.Dir(fp), sub), depth+1)
			}
		}
		p.Files[fp] = f
		return f
	}
	mk("Babfile", 0)
	return p
}

type listed struct {
	aliases string
	desc    string
	task    bool
}

var treeLine = regexp.MustCompile(`^((?:│   |    )*)(├── |└── )?(.*)$`)

// parseTree reads the output of --list into full name -> rest of the line.
func parseTree(out string) (map[string]string, string) {
	m := map[string]string{}
	var stack []string
	for _, l := range strings.Split(strings.TrimRight(stripSGR(out), "\n"), "\n") {
		l = strings.TrimRight(l, " ")
		if l == "" {
			continue
		}
		g := treeLine.FindStringSubmatch(l)
		depth := len([]rune(g[1])) / 4
		if g[2] != "" {
			depth++
		}
		if depth > len(stack) {
			return nil, "the tree skips a level at " + l
		}
		name, rest, _ := strings.Cut(g[3], " ")
		stack = append(append([]string{}, stack[:depth]...), name)
		full := strings.Join(stack, ":")
		if _, dup := m[full]; dup {
			return nil, "listed twice: " + full
		}
		m[full] = strings.TrimSpace(rest)
	}
	return m, ""
}

func (cs *Case) lookupCase() {
	r := cs.R
	p := lookupProject(r)
	pl := cs.Place(p, nil, cs.modelEnv())
	m := pl.M
	names := m.TaskNames()
	var aliases []string
	for a := range m.Aliases {
		aliases = append(aliases, a)
	}
	sort.Strings(aliases)
	files := func() string { return showFiles(readAll(pl.Root, p)) }
	if len(names) >= 2 {
		cs.Case(files())
	} else {
		cs.Case("")
	}
	if cs.I < 3 {
		cs.Sample(map[string]any{"tasks": names, "aliases": aliases})
	}
	dir := pl.Root
	if r.Intn(3) == 0 {
		dir = filepath.Join(pl.Root, "some", "where")
		_ = os.MkdirAll(dir, 0o755)
	}

	// --list
	res := cs.Bab(Run{Dir: dir, Args: []string{pick(r, "--list", "-l")}})
	if !cs.healthy(res, "bab --list") {
		return
	}
	fail := func(f string, a ...any) {
		cs.Fail("%s\nexit %d\nstdout:\n%s\nstderr:\n%s\ntasks %v aliases %v\nfiles:\n%s", fmt.Sprintf(f, a...), res.Code, clip(stripSGR(res.Out), 3000), clip(res.Err, 1000), names, m.Aliases, files())
	}
	if res.Code != 0 || len(res.Events) > 0 {
		fail("--list fails or runs something")
		return
	}
	want := map[string]listed{}
	for _, n := range names {
		parts := strings.Split(n, ":")
		for i := 1; i < len(parts); i++ {
			h := strings.Join(parts[:i], ":")
			if _, ok := want[h]; !ok {
				want[h] = listed{}
			}
		}
		t := m.Tasks[n]
		a := append([]string{}, t.Aliases...)
		sort.Strings(a)
		want[n] = listed{strings.Join(a, " "), t.T.Desc, true}
	}
	if len(names) > 0 {
		got, why := parseTree(res.Out)
		if why != "" {
			fail("--list: %s", why)
			return
		}
		for n, w := range want {
			rest, ok := got[n]
			if !ok {
				fail("--list does not show %q", n)
				return
			}
			al := strings.TrimSpace(strings.TrimSuffix(rest, w.desc))
			if w.desc != "" && !strings.HasSuffix(rest, w.desc) {
				fail("--list shows %q without its description %q: %q", n, w.desc, rest)
				return
			}
			words := strings.FieldsFunc(al, func(c rune) bool { return strings.ContainsRune(" (),", c) })
			sort.Strings(words)
			if strings.Join(words, " ") != w.aliases {
				fail("--list shows %q with aliases %q, expected %q (line %q)", n, words, w.aliases, rest)
				return
			}
			cs.Obs("listed entries checked", 1)
		}
		for n := range got {
			if _, ok := want[n]; !ok {
				fail("--list shows %q, which is no task", n)
				return
			}
		}
	}

	// completion
	all := append(append([]string{}, names...), aliases...)
	for k := 0; k < 3; k++ {
		pre := ""
		if len(all) > 0 && r.Intn(5) > 0 {
			pre = all[r.Intn(len(all))]
			pre = pre[:r.Intn(len(pre)+1)]
			if r.Intn(8) == 0 {
				pre = strings.ToUpper(pre)
			}
		}
		if r.Intn(15) == 0 {
			pre = pick(r, "zz", "build ", ":", "*", ".", "b:")
		}
		var offer []string
		for _, n := range all {
			if strings.HasPrefix(n, pre) {
				offer = append(offer, n)
			}
		}
		sort.Strings(offer)
		args := []string{"__complete"}
		switch r.Intn(6) {
		case 0:
			args = append(args, "-n")
		case 1:
			args = append(args, "--babfile", filepath.Join(pl.Root, "Babfile"))
		case 2:
			args = append(args, "--babfile="+filepath.Join(pl.Root, "Babfile"), "-v")
		case 3:
			args[0] = "__completeNoDesc"
		}
		res = cs.Bab(Run{Dir: dir, Args: append(args, pre)})
		if !cs.healthy(res, "bab "+strings.Join(args, " ")) {
			return
		}
		var got []string
		directive := ""
		for _, l := range strings.Split(strings.TrimRight(res.Out, "\n"), "\n") {
			w, _, _ := strings.Cut(l, "\t")
			if strings.HasPrefix(l, ":") && strings.Trim(l, ":0123456789") == "" {
				directive = l
				continue
			}
			got = append(got, w)
		}
		sort.Strings(got)
		if res.Code != 0 || len(res.Events) > 0 || strings.Join(got, "\n") != strings.Join(offer, "\n") || directive != ":4" {
			fail("bab %q %q offers %q, expected %q (directive %q)", args, pre, got, offer, directive)
			return
		}
		cs.Obs("completions checked", 1)
		cs.Obs("words offered", len(got))
	}
	if len(all) > 0 && r.Intn(2) == 0 {
		// after a task nothing is offered
		res = cs.Bab(Run{Dir: dir, Args: []string{"__complete", all[r.Intn(len(all))], pick(r, "", "b")}})
		if !cs.healthy(res, "bab __complete TASK") {
			return
		}
		if strings.TrimSpace(res.Out) != ":4" {
			fail("completion offers words after the task")
			return
		}
	}
	if cs.I%4 == 0 && len(all) > 0 {
		if !cs.bashCompletion(dir, all, fail) {
			return
		}
	}

	// lookup
	for k := 0; k < 3 && len(all) > 0; k++ {
		n := all[r.Intn(len(all))]
		ft := m.lookup(n)
		args := []string{n}
		if r.Intn(6) == 0 {
			args = append(args, "other", "words")
		}
		res = cs.Bab(Run{Dir: dir, Args: args})
		if !cs.healthy(res, "bab "+n) {
			return
		}
		if res.Code != 0 || strings.Join(started(res.Events), " ") != ft.T.Run[0].ID {
			fail("bab %s runs %v, expected %s of task %s", n, started(res.Events), ft.T.Run[0].ID, ft.Name)
			return
		}
		cs.Obs("names and aliases run", 1)
	}
	for k := 0; k < 3; k++ {
		w := pick(r, "nothing", "zz", "bui", "", " ", ":", "inc1", "../Babfile", "Babfile", "task s")
		if len(all) > 0 && r.Intn(4) > 0 {
			n := all[r.Intn(len(all))]
			segs := strings.Split(n, ":")
			switch r.Intn(9) {
			case 0:
				w = strings.ToUpper(n)
			case 1:
				w = n[:r.Intn(len(n))]
			case 2:
				w = segs[len(segs)-1]
			case 3:
				w = segs[0]
			case 4:
				w = n + ":"
			case 5:
				w = n + pick(r, " ", "x", ":"+n, "\n")
			case 6:
				w = " " + n
			case 7:
				w = strings.ReplaceAll(n, ":", "/")
			case 8:
				w = ":" + n
			}
		}
		if contains(all, w) || strings.HasPrefix(w, "-") {
			continue
		}
		args := []string{w}
		if r.Intn(4) == 0 {
			args = []string{"-n", w}
		}
		res = cs.Bab(Run{Dir: dir, Args: args})
		if !cs.healthy(res, fmt.Sprintf("bab %q", args)) {
			return
		}
		if res.Code != 1 || len(res.Events) > 0 {
			fail("bab %q: an unknown name must fail and run nothing, ran %v", args, started(res.Events))
			return
		}
		if !strings.Contains(res.Err, strings.Trim(fmt.Sprintf("%q", w), `"`)) && !strings.Contains(res.Err, strings.TrimSpace(w)) {
			fail("bab %q: the message does not name the word", args)
			return
		}
		cs.Obs("unknown names refused", 1)
	}
}

// bashCompletion runs the generated script in bash.
func (cs *Case) bashCompletion(dir string, all []string, fail func(string, ...any)) bool {
	r := cs.R
	pre := all[r.Intn(len(all))]
	pre = pre[:r.Intn(len(pre)+1)]
	var offer []string
	for _, n := range all {
		if strings.HasPrefix(n, pre) {
			offer = append(offer, n)
		}
	}
	sort.Strings(offer)
	script := `
_get_comp_words_by_ref() { words=("${W[@]}"); cword=$((${#W[@]}-1)); cur=${W[cword]}; prev=${W[cword-1]}; }
source <("$BAB" --completion bash) || exit 3
W=("$BAB" "$@"); COMP_WORDS=("${W[@]}"); COMP_CWORD=$((${#W[@]}-1)); COMPREPLY=()
__start_bab
printf '%s\n' "${COMPREPLY[@]}"
`
	cmd := exec.Command("bash", "--norc", "-c", script, "bash", pre)
	cmd.Dir = dir
	cmd.Env = append(cs.env(nil, nil, "/dev/null"), "BAB="+cs.Ctx.Bab())
	out, err := cmd.Output()
	if err != nil {
		if _, ok := err.(*exec.ExitError); !ok {
			cs.Inconclusive("cannot run bash")
			return true
		}
	}
	var got []string
	for _, l := range strings.Split(string(out), "\n") {
		if l = strings.TrimSpace(l); l != "" {
			got = append(got, l)
		}
	}
	sort.Strings(got)
	if strings.Join(got, "\n") != strings.Join(offer, "\n") {
		fail("the bash completion script offers %q for %q, expected %q", got, pre, offer)
		return false
	}
	cs.Obs("bash completions checked", 1)
	return true
}

var babNames = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

func (cs *Case) finderCase() {
	r := cs.R
	for d := cs.Dir; ; d = filepath.Dir(d) {
		for _, n := range babNames {
			if _, err := os.Lstat(filepath.Join(d, n)); err == nil {
				cs.Inconclusive("a Babfile above the scratch directory")
				return
			}
		}
		if d == filepath.Dir(d) {
			break
		}
	}
	depth := 1 + r.Intn(5)
	d := filepath.Join(cs.Dir, "top")
	var levels []string
	for i := 0; i < depth; i++ {
		levels = append(levels, d)
		d = filepath.Join(d, pick(r, "a", "b c", "Babfiles", "x", "é"))
	}
	if err := os.MkdirAll(levels[depth-1], 0o755); err != nil {
		cs.Inconclusive("cannot make directories")
		return
	}
	other := filepath.Join(cs.Dir, "other")
	_ = os.MkdirAll(other, 0o755)
	uid := 0
	valid, bare := map[string]bool{}, map[string]bool{}
	marker := map[string]string{} // what errors about the file name
	ids := map[string]string{}
	write := func(p string) {
		uid++
		id := fmt.Sprintf("F%d", uid)
		s := fmt.Sprintf("tasks:\n  go:\n    run:\n      - cmd: $R %s\n  only%s:\n    run:\n      - cmd: $R no\n", id, id)
		valid[id] = true
		if r.Intn(8) == 0 {
			s += "  bad:\n    deps: [missing" + id + "]\n"
			valid[id], marker[id] = false, "missing"+id
		}
		if r.Intn(10) == 0 {
			// no Babfile by its content, but found all the same
			bare[id] = true
			s, valid[id], marker[id] = pick(r, "", "", "\n", "# only a note\n", "tasks\n", "vars: {}\n", "\x00"), false, ""
		}
		_ = os.WriteFile(p, []byte(s), 0o644)
		ids[p] = id
	}
	dens := pick(r, 0.0, 0.1, 0.3, 0.6)
	cands, decoys := 0, 0
	for _, l := range levels {
		for _, n := range babNames {
			p := filepath.Join(l, n)
			if r.Float64() < dens {
				switch r.Intn(6) {
				case 0:
					q := filepath.Join(other, fmt.Sprintf("real%d.yml", uid))
					write(q)
					_ = os.Symlink(q, p)
					ids[p] = ids[q]
				default:
					write(p)
				}
				cands++
			} else if r.Intn(8) == 0 {
				decoys++
				switch r.Intn(2) {
				case 0:
					_ = os.MkdirAll(filepath.Join(p, "sub"), 0o755)
				case 1:
					_ = os.Symlink(filepath.Join(other, "nowhere"), p)
				}
			}
		}
		for _, n := range []string{"babfile", "BABFILE", "Babfile.yaml.bak", ".Babfile", "Babfile.json", "BabFile", "Babfile.YML", "Makefile", "bab.yml"} {
			if r.Intn(8) == 0 {
				write(filepath.Join(l, n))
				decoys++
			}
		}
	}
	// nothing else in a directory ends the search
	for _, l := range levels {
		for r.Intn(3) == 0 {
			decoys++
			n := pick(r, ".git", ".git", ".hg", "go.mod", "package.json", "node_modules", ".babroot", "bab.lock", ".bab", "Taskfile.yml", "justfile", "LICENSE")
			if r.Intn(2) == 0 {
				_ = os.MkdirAll(filepath.Join(l, n), 0o755)
			} else {
				_ = os.WriteFile(filepath.Join(l, n), []byte("gitdir: elsewhere\n"), 0o644)
			}
		}
	}
	if cands+decoys >= 2 {
		cs.Case(fmt.Sprint(levels, ids, decoys))
	} else {
		cs.Case("")
	}
	start := levels[r.Intn(depth)]
	if r.Intn(2) == 0 {
		start = levels[depth-1]
	}
	wantID := ""
	for l := start; wantID == "" && len(l) >= len(levels[0]); l = filepath.Dir(l) {
		for _, n := range babNames {
			p := filepath.Join(l, n)
			if st, err := os.Stat(p); err == nil && st.Mode().IsRegular() {
				wantID = ids[p]
				break
			}
		}
	}
	var flag []string
	how := "search"
	if r.Intn(3) == 0 {
		how = "--babfile"
		var l []string
		for p := range ids {
			l = append(l, p)
		}
		sort.Strings(l)
		p := filepath.Join(levels[0], "gone.yml")
		if len(l) > 0 && r.Intn(6) > 0 {
			p = l[r.Intn(len(l))]
		} else if r.Intn(3) == 0 {
			p = levels[r.Intn(depth)]
		}
		wantID = ids[p]
		if r.Intn(3) > 0 {
			if q, err := filepath.Rel(start, p); err == nil {
				p = q
				if r.Intn(3) == 0 {
					p = "./" + p
				}
			}
		}
		switch r.Intn(5) {
		case 0:
			flag = []string{"-b", p}
		case 1:
			flag = []string{"-b" + p}
		case 2:
			flag = []string{"--babfile=" + p}
		case 3:
			flag = []string{"-b=" + p}
		default:
			flag = []string{"--babfile", p}
		}
	}
	if cs.I < 4 {
		cs.Sample(map[string]any{"candidates": ids, "start": start, "flag": flag, "expected": wantID})
	}
	cs.Obs("searches: "+how, 1)
	if wantID == "" {
		cs.Obs("nothing to find", 1)
	}
	ok := wantID != "" && valid[wantID]
	var env []string
	if r.Intn(2) == 0 {
		env = append(env, "HOME="+levels[r.Intn(depth)]) // nor does the home directory
	}
	var tree strings.Builder
	_ = filepath.Walk(cs.Dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && (strings.Contains(p, "/top") || strings.Contains(p, "/other")) {
			fmt.Fprintf(&tree, "%s %v %s\n", strings.TrimPrefix(p, cs.Dir), i.Mode(), ids[p])
		}
		return nil
	})
	for _, mode := range [][]string{{"go"}, {"-n", "go"}, {"--list"}, {"--validate"}, {"__complete", "only"}, {}} {
		args := append(append([]string{}, flag...), mode...)
		if len(mode) > 0 && mode[0] == "__complete" {
			if len(flag) == 1 && strings.HasPrefix(flag[0], "-b") && !strings.HasPrefix(flag[0], "-b=") {
				continue // the completion of the command-line library does not know this spelling
			}
			args = append(append([]string{"__complete"}, flag...), mode[1])
		} else if r.Intn(2) == 0 {
			args = append(append([]string{}, mode...), flag...)
		}
		res := cs.Bab(Run{Dir: start, Args: args, Env: env})
		if !cs.healthy(res, fmt.Sprintf("bab %q", args)) {
			return
		}
		fail := func(f string, a ...any) {
			cs.Fail("bab %q in %s: %s (expected file: %q, valid=%v)\nexit %d\nstdout:\n%s\nstderr:\n%s\ntree:\n%s", args, strings.TrimPrefix(start, cs.Dir), fmt.Sprintf(f, a...), wantID, ok, res.Code, clip(res.Out, 1000), clip(res.Err, 1000), tree.String())
		}
		if len(mode) > 0 && mode[0] == "__complete" {
			want := ":4"
			if ok {
				want = "only" + wantID + "\n:4"
			}
			if strings.TrimSpace(res.Out) != want {
				fail("completion offers other tasks")
				return
			}
			cs.Obs("modes checked", 1)
			continue
		}
		if len(mode) == 0 { // no terminal: the picker cannot start, a missing file is reported first
			if res.Code != 1 || len(res.Events) > 0 {
				fail("starting the picker without a terminal must fail")
				return
			}
			if !ok && strings.Contains(strings.ToLower(res.Err), "tty") {
				fail("gets past the missing or invalid Babfile")
				return
			}
			if wantID != "" && !ok && !strings.Contains(res.Err, marker[wantID]) {
				fail("reads another file")
				return
			}
			cs.Obs("modes checked", 1)
			continue
		}
		if bare[wantID] && (mode[0] == "--list" || mode[0] == "--validate") {
			if strings.Contains(res.Out+res.Err, "only") || mode[0] == "--validate" && strings.Contains(res.Err, "tasks=2") {
				fail("reads another file")
				return
			}
			cs.Obs("files without a task", 1)
			continue
		}
		if !ok {
			if res.Code != 1 || len(res.Events) > 0 || strings.TrimSpace(res.Err) == "" {
				fail("must fail with a message")
				return
			}
			if wantID != "" && !strings.Contains(res.Err, marker[wantID]) {
				fail("reads another file")
				return
			}
			cs.Obs("modes checked", 1)
			continue
		}
		if res.Code != 0 {
			fail("fails")
			return
		}
		switch mode[0] {
		case "go":
			if strings.Join(started(res.Events), " ") != wantID {
				fail("runs %v", started(res.Events))
				return
			}
		case "-n":
			if !strings.Contains(res.Err, "$R "+wantID) && !strings.Contains(res.Err+res.Out, wantID) || len(res.Events) > 0 {
				fail("dry run shows another file's task")
				return
			}
		case "--list":
			got, why := parseTree(res.Out)
			if why != "" || len(got) != 2 {
				fail("--list: %s %v", why, got)
				return
			}
			if _, there := got["only"+wantID]; !there {
				fail("--list shows another file's tasks")
				return
			}
		case "--validate":
			// the verdict was compared above
		}
		cs.Obs("modes checked", 1)
	}
}
