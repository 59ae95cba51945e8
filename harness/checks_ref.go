package main

// C08 C09 C12 C20 C21 C22: interpolation, variables, echo, includes, dry runs
// and prompts without a terminal, against the reference semantics.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const hereEnd = "VEOF"

// heredoc gives a command its text on standard input, which the recorder logs.
func heredoc(body string) string { return " in <<'" + hereEnd + "'\n" + body + "\n" + hereEnd }

func heredocBody(cmd string) (string, bool) {
	i := strings.Index(cmd, "<<'"+hereEnd+"'\n")
	if i < 0 {
		return "", false
	}
	rest := cmd[i+len("<<'"+hereEnd+"'\n"):]
	j := strings.LastIndex(rest, "\n"+hereEnd)
	if j < 0 {
		return "", false
	}
	return rest[:j] + "\n", true
}

// sawTexts compares what every command received with the interpolated text.
func (cs *Case) sawTexts(p *Plan, r *Res) bool {
	for _, s := range p.Steps {
		want, ok := heredocBody(s.Text)
		if !ok || startOf(r.Events, s.ID) == nil {
			continue
		}
		got, _ := stdinOf(r.Events, s.ID)
		cs.Obs("interpolated texts compared", 1)
		if got != want {
			cs.Fail("command %s of task %q got the text\n%q\nexpected\n%q\nfrom\n%q\n%s", s.ID, s.Task.Name, got, want, s.Item.Cmd, ctxOf(p, r))
			return false
		}
	}
	return true
}

func refTo(r *randT, name string) string {
	return pick(r, "${{ "+name+" }}", "${{"+name+"}}", "${{  "+name+" }}", "${{\t"+name+"}}", "${{ "+name+"\t}}")
}

// tmpl makes a text of literals, references, escapes and near misses.
func tmpl(r *randT, names []string, oneLine bool) string {
	return tmplN(r, names, oneLine, 1+r.Intn(6))
}

// tmplLong is tmpl with, now and then, hundreds of pieces.
func tmplLong(r *randT, names []string, oneLine bool) string {
	if r.Intn(12) == 0 {
		return tmplN(r, names, oneLine, 30+r.Intn(200))
	}
	return tmpl(r, names, oneLine)
}

func tmplN(r *randT, names []string, oneLine bool, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		switch x := r.Intn(10); {
		case x < 4 && len(names) > 0:
			b.WriteString(refTo(r, pick(r, names...)))
		case x == 4:
			nm := "zz"
			if len(names) > 0 {
				nm = pick(r, names...)
			}
			b.WriteString("$" + refTo(r, nm))
		case x == 5:
			b.WriteString(pick(r, "${{ 1a }}", "${{ a b }}", "{{ a }}", "${{}}", "${{ x }", "$ {{ a }}", "${{ a-b }}", "${a}", "$$", "}}", "${{ ", "$", "${{ a.b- }}", "$$$", "${ { a } }", "%d"))
		case x == 6:
			b.WriteString(pick(r, "${{ env.AMB }}", "${{env.UNSET_X}}", "${{ env.AMB2 }}", "${{ env.amb }}"))
			if len(names) > 0 && r.Intn(3) == 0 { // not the variable
				b.WriteString(refTo(r, "env."+pick(r, names...)))
			}
		default:
			b.WriteString(pick(r, "text", " ", "'", `"`, "\\", "é", "日", "a=b", "#", ":", "|", "0", "==", "*", "~", "&&", ";", "$HOME", "`x`", "$(x)", "1"))
			if !oneLine && r.Intn(5) == 0 {
				b.WriteString(pick(r, "\n", "\t", "\r", "\r\n", " \n"))
			}
		}
	}
	return b.String()
}

func init() {
	register("C08", "templates of references in every spelling, escapes, near misses and hostile text in cmd, env, dir, log, prompt defaults and options and message, over variables whose values themselves look like templates; the text each field produces (captured from the real command's input, environment, directory, log line, prompt result) must be the single-pass substitution, an undefined name must be an error before its item runs; non-trivial when a template holds a reference or escape",
		func(c *Ctx) {
			c.Bab()
			c.Each("fields", c.N(900, 15000), func(cs *Case) { cs.interpCase() })
		})

	register("C09", "random variable graphs over root, included-file and task scopes with shadowing, any definition order, escapes, environment references, and in a part of the cases undefined names or cycles; every variable's value as seen by a real command must be the scoped resolution and the run must fail exactly when the resolution does; every case is run twice; non-trivial when a definition refers to another variable",
		func(c *Ctx) {
			c.Bab()
			c.Each("vars", c.N(800, 12000), func(cs *Case) { cs.varsCase() })
		})

	register("C12", "random projects with silent and output set to true, false or nothing on files, included files, tasks, references, blocks and commands; every command prints a marker on both streams: echo lines, task headers and markers must appear exactly as the most specific setting says, and commands run and exit status stay the same; non-trivial when a setting is present",
		func(c *Ctx) {
			c.Bab()
			base := Prof{Files: 3, Tasks: 5, Items: 4, TaskRef: 0.3, Silent: 0.35, Output: 0.35, Fail: 0.03,
				CmdText: func(g *Gen, id string, f *File, t *Task) string {
					rest := " o=OUT-" + id + ". e=ERR-" + id + "."
					if g.p(0.15) { // several lines
						rest += " || exit"
						for i, n := 0, 1+g.R.Intn(6); i < n; i++ {
							rest += fmt.Sprintf("\n: %s.%d %s", id, i, pick(g.R, "x", "'  '", "日本", strings.Repeat("long ", 30)))
						}
					}
					return rest
				}}
			seq := base
			seq.Deps = 0.4
			par := base
			par.Par, par.ParItems, par.Modes = 0.35, 3, []string{"", "grouped", "tabs"}
			c.Each("seq", c.N(450, 8000), func(cs *Case) {
				cs.execCase(seq, 2, func(pl *Placed, p *Plan, r *Res) bool { return cs.sawEcho(p, r) })
			})
			c.Each("par", c.N(450, 8000), func(cs *Case) {
				cs.execCase(par, 2, func(pl *Placed, p *Plan, r *Res) bool { return cs.sawEcho(p, r) })
			})
		})

	register("C20", "random files (variables, env, dirs, conditions, silent/output, aliases, dependencies, blocks, prompts, own includes) run directly and through an including file at depth 1 or 2: both runs must produce the same events (commands, order, directory, environment, input, output, exit status) up to the namespace; the flattened names, aliases and nothing else must be accepted; name collisions must be errors; non-trivial when the task runs a command",
		func(c *Ctx) {
			c.Bab()
			c.Each("include", c.N(700, 10000), func(cs *Case) { cs.includeCase() })
			c.Each("collision", c.N(40, 400), func(cs *Case) { cs.collisionCase() })
			c.Each("override", 1, func(cs *Case) { cs.overrideCase() })
			c.Each("diamond", c.N(40, 400), func(cs *Case) { cs.diamondInclude() })
		}, "the root file adds nothing in the direct comparison; what it adds is covered by the model in C09, C10, C12")

	register("C21", "random projects with every kind of run item; a dry run must start no process of the recorder, prompt for nothing, change no file, and list exactly the commands (text, directory, order) of the reference semantics, which for tasks made of plain commands equal the commands a real run then executes; unresolvable tasks must fail in it too; non-trivial when at least one command is listed",
		func(c *Ctx) {
			c.Bab()
			c.Each("dry", c.N(800, 12000), func(cs *Case) { cs.dryCase() })
			c.Each("picked", c.N(24, 400), func(cs *Case) { cs.dryPicked() })
		})

	register("C22", "random projects with prompts of every type, with and without defaults, in tasks, dependencies and parallel branches, standard input a pipe full of data or /dev/null; results as seen by later commands, the failure of prompts without default, the scope of a result and the untouched standard input are compared with the reference semantics; non-trivial when a prompt is reached",
		func(c *Ctx) {
			c.Bab()
			c.Each("prompts", c.N(900, 15000), func(cs *Case) { cs.promptDefaults() })
		})
}

// noTab: tabs in log messages are shown as spaces.
func noTab(s string) string { return strings.ReplaceAll(s, "\t", " ") }

// ---- C08 ----

func (cs *Case) interpCase() {
	r := cs.R
	f := &File{Path: "Babfile"}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}
	own := f
	inc := r.Intn(3) == 0
	if inc {
		own = &File{Path: "lib/inc.yml"}
		proj.Files[own.Path] = own
		f.Includes = []Inc{{"ns", own.Path}}
		f.Tasks = []*Task{{Name: "unused", Run: []*Item{{Kind: kCmd, Cmd: "true"}}}}
	}
	names := []string{}
	defs := func(n int, prefix string) []KV {
		var out []KV
		for i := 0; i < n; i++ {
			k := prefix + pick(r, "a", "B", "_c", "d9", "e.f", "g_h") + fmt.Sprint(i)
			out = append(out, KV{k, oddValue(r)})
			names = append(names, k)
		}
		return out
	}
	f.Vars = defs(2, "r")
	if inc {
		own.Vars = defs(2, "i")
	}
	t := &Task{Name: "main", Vars: defs(2, "t")}
	for _, k := range []string{"env", "environ", "env_x"} {
		if r.Intn(6) == 0 {
			t.Vars = append(t.Vars, KV{k, oddValue(r)})
			names = append(names, k)
		}
	}
	simple := KV{"tdir", pick(r, "d1", "my dir", "é", "a.b", "$${{ x }}", "${{ra}}'", "q\"", "$HOME", "it's")}
	simple.V = strings.ReplaceAll(simple.V, "${{ra}}", "")
	t.Vars = append(t.Vars, simple)
	own.Env = []KV{{"E_FILE", tmpl(r, names, false)}}
	t.Env = []KV{{"E_TASK", tmplLong(r, names, false)}}
	undefAt := -1
	if r.Intn(4) == 0 {
		undefAt = r.Intn(6)
	}
	undef := func(i int) string {
		if i == undefAt {
			return pick(r, "${{ nodef }}", "x${{nodef.y}}", "${{ ra }}${{ RA }}")
		}
		return ""
	}
	cmd := func(id string, i int) *Item {
		return &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + heredoc(tmplLong(r, names, false)+undef(i))}
	}
	c2 := &Item{Kind: kCmd, ID: "c2", Cmd: "$R c2", Env: []KV{{"E_CMD", tmpl(r, names, false) + undef(1)}, {"E_C2", tmpl(r, names, false)}}}
	dirT := pick(r, "${{ tdir }}", "w/${{ tdir }}", "w/$${{ tdir }}")
	c3 := &Item{Kind: kCmd, ID: "c3", Cmd: "$R c3", Dir: dirT + undef(2)}
	logI := &Item{Kind: kLog, ID: "log1", Log: "LOG1<" + noTab(tmpl(r, []string{"tdir"}, true)) + ">" + undef(3)}
	pv := pick(r, "pa", "pb")
	prompt := &Item{Kind: kPrompt, Prompt: pv, PType: "input", Message: tmpl(r, names, true) + undef(4), Default: "D" + tmpl(r, names, false) + undef(5)}
	sel := &Item{Kind: kPrompt, Prompt: "ps", PType: "multiselect", Message: "m", Options: []string{"o1" + tmpl(r, names, true), "o2"}, Defaults: []string{""}}
	sel.Defaults[0] = sel.Options[0]
	names = append(names, pv)
	t.Run = []*Item{cmd("c1", 0), c2, c3, logI, prompt}
	if r.Intn(2) == 0 {
		t.Run = append(t.Run, sel)
		names = append(names, "ps")
	}
	t.Run = append(t.Run, cmd("c4", -2))
	par := &Item{Kind: kParallel, Items: []*Item{
		{Kind: kCmd, ID: "c5", Cmd: "$R c5" + heredoc(tmplLong(r, names, false)), Label: "five"},
		{Kind: kLog, ID: "log2", Log: "LOG2<" + noTab(tmpl(r, []string{"tdir"}, true)) + ">", Label: "l"},
		{Kind: kCmd, ID: "c6", Cmd: "$R c6", Env: []KV{{"E_P", tmpl(r, names, false)}}, Label: "six"},
	}}
	logI.Level = pick(r, "", "", "info", "warn", "error")
	par.Items[1].Level = pick(r, "", "", "info", "warn", "error", "error")
	t.Run = append(t.Run, par, cmd("c7", -2))
	own.Tasks = append(own.Tasks, t)
	osenv := cs.modelEnv()
	amb := []string{"AMB=" + pick(r, "amb", "${{ ra }}", "two\nlines", "'q'"), "AMB2=" + pick(r, "second", "second", " blanks ", "line\n", "x\n\n", "")}
	for _, kv := range amb {
		k, v, _ := strings.Cut(kv, "=")
		osenv[k] = v
	}
	pl := cs.Place(proj, nil, osenv)
	name := "main"
	if inc {
		name = "ns:main"
	}
	// create the directories the templates resolve to
	ft := pl.M.Tasks[name]
	if vars, err := pl.M.taskVars(ft); err == nil {
		if d, err := (Scope{vars, osenv}).interp(dirT); err == nil {
			_ = os.MkdirAll(filepath.Join(pl.M.srcDir(ft), d), 0o755)
		}
	}
	p := pl.M.Execute(name)
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{name}, Env: amb})
	cs.Case(fmt.Sprint(proj.Dump(), amb))
	if len(p.Steps) > 2 {
		cs.Sample(map[string]any{"case": cs.Name, "template": p.Steps[0].Item.Cmd, "text": p.Steps[0].Text})
	}
	if p.Fail {
		cs.Obs("runs with an undefined name", 1)
	}
	if !cs.healthy(res, "interpolation") || !cs.sawCommands(p, res) || !cs.sawExit(p, res) || !cs.sawTexts(p, res) {
		return
	}
	if p.Fail && strings.HasPrefix(p.FailWhy, "undefined variable: ") {
		if n := strings.TrimPrefix(p.FailWhy, "undefined variable: "); !strings.Contains(res.Err, n) {
			cs.Fail("the error does not name the undefined variable %q\n%s", n, ctxOf(p, res))
			return
		}
	}
	for _, s := range p.Steps {
		e := startOf(res.Events, s.ID)
		for k, v := range s.Env {
			if e.Env[k] != v {
				cs.Fail("command %s: %s=%q, expected %q\n%s", s.ID, k, e.Env[k], v, ctxOf(p, res))
				return
			}
		}
		if w, err := filepath.EvalSymlinks(s.Dir); err == nil && e.Cwd != w {
			cs.Fail("command %s (dir %q): ran in %q, expected %q", s.ID, s.Item.Dir, e.Cwd, w)
			return
		}
	}
	for _, l := range p.Logs {
		at := 0
		all := lines(stripSGR(res.Err) + stripSGR(res.Out))
		for _, want := range strings.Split(l.Text, "\n") {
			for at < len(all) && !strings.Contains(all[at], want) {
				at++
			}
		}
		if at == len(all) {
			cs.Fail("log text %q does not appear\n%s", l.Text, ctxOf(p, res))
			return
		}
	}
}

// ---- C09 ----

func (cs *Case) varsCase() {
	r := cs.R
	root := &File{Path: "Babfile"}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": root}}
	depth := r.Intn(3)
	files := []*File{root}
	ns := ""
	for d := 1; d <= depth; d++ {
		f := &File{Path: fmt.Sprintf("%s/i%d.yml", files[d-1].dir(), d)}
		f.Path = strings.TrimPrefix(f.Path, "./")
		files[d-1].Includes = []Inc{{fmt.Sprintf("n%d", d), filepath.Base(f.Path)}}
		ns += fmt.Sprintf("n%d:", d)
		proj.Files[f.Path] = f
		files = append(files, f)
	}
	bad := r.Intn(5) == 0
	// names of a scope: shared names shadow, "o" names are overridden below but
	// never referred to by the file level itself
	scopeNames := []string{"a", "b", "c", "d", "x.y", "_z"}
	mk := func(prefix string, visible []string, shadow []string) []KV {
		n := 1 + r.Intn(5)
		var ks []string
		for i := 0; i < n; i++ {
			ks = append(ks, prefix+pick(r, scopeNames...))
		}
		ks = uniq(ks)
		var out []KV
		for i, k := range ks {
			refs := append(append([]string{}, visible...), ks[:i]...) // earlier ones only: no cycle
			if bad && r.Intn(4) == 0 {
				refs = append(append(refs, ks...), "undefd")
			}
			out = append(out, KV{k, tmpl(r, refs, false)})
		}
		for _, s := range shadow {
			if r.Intn(2) == 0 {
				out = append(out, KV{s, tmpl(r, ks, false)})
			}
		}
		r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
		return out
	}
	keys := func(kvs []KV) []string {
		var o []string
		for _, x := range kvs {
			o = append(o, x.K)
		}
		return o
	}
	visible := []string{}
	shadow := []string{}
	for i, f := range files {
		f.Vars = mk(fmt.Sprintf("f%d", i), visible, shadow)
		visible = uniq(append(visible, keys(f.Vars)...))
		f.Vars = append(f.Vars, KV{fmt.Sprintf("o%d", i), tmpl(r, nil, false)})
		shadow = append(shadow, fmt.Sprintf("o%d", i))
	}
	visible = minus(visible, shadow)
	own := files[len(files)-1]
	mkTask := func(name string) *Task {
		t := &Task{Name: name}
		t.Vars = mk("t", visible, shadow)
		var body strings.Builder
		all := uniq(append(append(append([]string{}, visible...), keys(t.Vars)...), shadow...))
		sort.Strings(all)
		for _, v := range all {
			fmt.Fprintf(&body, "%s=<${{ %s }}>\n", v, v)
		}
		id := name + "c"
		t.Run = []*Item{{Kind: kCmd, ID: id, Cmd: "$R " + id + heredoc(body.String())}}
		if r.Intn(4) == 0 {
			t.Run = []*Item{{Kind: kParallel, Items: t.Run}}
		}
		return t
	}
	own.Tasks = []*Task{mkTask("dep"), mkTask("main")}
	own.Tasks[1].Deps = []string{"dep"}
	if r.Intn(2) == 0 {
		own.Tasks[1].Deps = nil
		own.Tasks[1].Run = append([]*Item{{Kind: kTask, Task: "dep"}}, own.Tasks[1].Run...)
	}
	osenv := cs.modelEnv()
	amb := []string{"AMB=${{ a }}", "AMB2=x"}
	osenv["AMB"], osenv["AMB2"] = "${{ a }}", "x"
	pl := cs.Place(proj, nil, osenv)
	p := pl.M.Execute(ns + "main")
	cs.Case(fmt.Sprint(proj.Dump()))
	var prev string
	for k := 0; k < 2; k++ {
		res := cs.Bab(Run{Dir: pl.Root, Args: []string{ns + "main"}, Env: amb})
		if k == 0 {
			if p.Fail {
				cs.Obs("unresolvable", 1)
			} else {
				cs.Sample(map[string]any{"case": cs.Name, "task": ns + "main", "vars": own.Tasks[1].Vars, "text": clip(p.Steps[len(p.Steps)-1].Text, 300)})
			}
		}
		if !cs.healthy(res, "variables") || !cs.sawCommands(p, res) || !cs.sawExit(p, res) || !cs.sawTexts(p, res) {
			return
		}
		sum := fmt.Sprint(res.Code, started(res.Events))
		if k > 0 && sum != prev {
			cs.Fail("two runs differ: %s and %s", prev, sum)
			return
		}
		prev = sum
		if p.Fail && !strings.Contains(res.Err, "undefined variable") && !strings.Contains(res.Err, "circular variable") {
			cs.Fail("the failure (%s) is not explained\n%s", p.FailWhy, ctxOf(p, res))
			return
		}
	}
}

func (f *File) dir() string { return filepath.Dir(f.Path) }

func uniq(l []string) []string {
	seen := map[string]bool{}
	var out []string
	for _, x := range l {
		if !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	return out
}

func minus(l, m []string) []string {
	var out []string
	for _, x := range l {
		keep := true
		for _, y := range m {
			keep = keep && x != y
		}
		if keep {
			out = append(out, x)
		}
	}
	return out
}

// ---- C12 ----

// sharedRefs are tasks several references of a parallel plan lead to, and all
// tasks below them: which reference comes first is not determined.
func (p *Plan) sharedRefs() map[string]bool {
	count := map[string]int{}
	var walk func(n *Node)
	walk = func(n *Node) {
		if n.Kind == "ref" {
			count[n.Name]++
		}
		for _, c := range n.Children {
			walk(c)
		}
	}
	for _, n := range p.Nodes {
		walk(n)
	}
	out := map[string]bool{}
	var mark func(name string)
	mark = func(name string) {
		if out[name] {
			return
		}
		out[name] = true
		n := p.Nodes[name]
		if n == nil {
			return
		}
		var in func(n *Node)
		in = func(n *Node) {
			if n.Kind == "ref" {
				mark(n.Name)
			}
			for _, c := range n.Children {
				in(c)
			}
		}
		in(n)
	}
	for n, k := range count {
		if k > 1 {
			mark(n)
		}
	}
	return out
}

func (cs *Case) sawEcho(p *Plan, r *Res) bool {
	if p.Ambiguous {
		return true
	}
	if !cs.sawCommands(p, r) || !cs.sawExit(p, r) {
		return false
	}
	skip := map[string]bool{}
	if p.HasPar {
		skip = p.sharedRefs()
	}
	errL := lines(stripSGR(r.Err))
	outL := lines(stripSGR(r.Out))
	count := func(ls []string, text string, par bool) int {
		n := 0
		for _, l := range ls {
			if l == text || par && strings.HasSuffix(l, "] "+text) {
				n++
			}
		}
		return n
	}
	for _, s := range p.Steps {
		if skip[s.Task.Name] {
			continue
		}
		want := 1
		if s.Silent {
			want = 0
		}
		cs.Obs("echo decisions compared", 1)
		for i, l := range strings.Split("$ "+s.Text, "\n") {
			ls := errL
			if strings.Contains(s.Text, "\n") {
				// the lines are padded to the longest
				ls, l = trimmedR(errL), strings.TrimRight(l, " ")
			}
			if n := count(ls, l, s.Par); n != want {
				cs.Fail("command %s of task %q: line %d of it echoed %d times, expected %d\n%s", s.ID, s.Task.Name, i+1, n, want, ctxOf(p, r))
				return false
			}
		}
		want = 1
		if !s.Output {
			want = 0
		}
		if n := count(outL, "OUT-"+s.ID+".", s.Par); n != want {
			cs.Fail("command %s of task %q: stdout line shown %d times on stdout, expected %d\nstdout:\n%s\n%s", s.ID, s.Task.Name, n, want, r.Out, ctxOf(p, r))
			return false
		}
		if n := count(errL, "ERR-"+s.ID+".", s.Par); n != want {
			cs.Fail("command %s of task %q: stderr line shown %d times on stderr, expected %d\n%s", s.ID, s.Task.Name, n, want, ctxOf(p, r))
			return false
		}
	}
	for _, h := range p.Heads {
		if skip[h.Name] {
			continue
		}
		want := 1
		if h.Silent {
			want = 0
		}
		text := "▶ " + h.Name
		if h.Main {
			text = "● Running " + h.Name
		}
		if n := count(errL, text, h.Par); n != want {
			cs.Fail("task %q: header shown %d times, expected %d\n%s", h.Name, n, want, ctxOf(p, r))
			return false
		}
	}
	return true
}

func trimmedR(ls []string) []string {
	out := make([]string, len(ls))
	for i, l := range ls {
		out[i] = strings.TrimRight(l, " ")
	}
	return out
}

// ---- C20 ----

func richProf() Prof {
	return Prof{Files: 1, Tasks: 5, Items: 4, Deps: 0.35, TaskRef: 0.25, Par: 0.15, ParItems: 3, Log: 0.08, Prompt: 0.06, Fail: 0.03,
		When: 0.15, TaskWhen: 0.1, Plat: 0.08, Vars: 0.6, Env: 0.5, Dir: 0.35, Silent: 0.25, Output: 0.25, Alias: 0.5, NoRun: 0.05, Undef: 0.01, Color: 0.3, Limit: 0.2,
		Modes:  []string{"", "grouped"},
		Values: func(r *randT) string { return pick(r, "sub", "x.y", "true", "false", "it's $${{ vA }}", "a b", "") },
		CmdText: func(g *Gen, id string, f *File, t *Task) string {
			vs := g.varsInScope(f, t)
			s := " o=OUT-" + id + ". e=ERR-" + id + "."
			if len(vs) > 0 && g.p(0.6) {
				v := pick(g.R, vs...)
				s += heredoc("${{ " + v + " }}")
			}
			return s
		}}
}

func (cs *Case) includeCase() {
	r := cs.R
	g := newGen(r, richProf())
	inner := g.Generate()
	// move it below a directory
	sub := pick(r, "lib", "a/b", "x y")
	proj := &Project{Files: map[string]*File{}, Main: "Babfile"}
	for path, f := range inner.Files {
		f.Path = sub + "/" + path
		proj.Files[f.Path] = f
	}
	innerMain := sub + "/" + inner.Main
	var dirs []string
	for _, d := range g.Dirs {
		dirs = append(dirs, sub+"/"+d)
	}
	plain := func(name string) []*Task {
		return []*Task{{Name: name, Run: []*Item{{Kind: kCmd, ID: "c-" + name, Cmd: "$R c-" + name}}}}
	}
	root := &File{Path: "Babfile", Tasks: plain("rt")}
	proj.Files["Babfile"] = root
	ns := "ns:"
	if r.Intn(2) == 0 {
		mid := &File{Path: "mid/m.yml", Tasks: plain("mt"), Includes: []Inc{{"ns", "../" + innerMain}}}
		proj.Files[mid.Path] = mid
		root.Includes = []Inc{{"mid", mid.Path}}
		ns = "mid:ns:"
		if r.Intn(2) == 0 {
			// also included a second time, under another name
			root.Includes = append(root.Includes, Inc{"again", innerMain})
		}
	} else {
		root.Includes = []Inc{{"ns", innerMain}}
	}
	pl := cs.Place(proj, dirs, cs.modelEnv())
	direct := NewModel(&Project{Files: proj.Files, Main: innerMain}, pl.Root, pl.M.OSEnv)
	direct.BaseDir = pl.Root
	direct.DirOK = pl.M.DirOK
	names := direct.TaskNames()
	for k := 0; k < 2; k++ {
		name := pick(r, names...)
		arg := name
		ft := direct.Tasks[name]
		if len(ft.Aliases) > 0 && r.Intn(2) == 0 {
			arg = pick(r, ft.Aliases...)
		}
		plan := direct.Execute(name)
		a := cs.Bab(Run{Dir: pl.Root, Args: []string{"-b", innerMain, arg}})
		b := cs.Bab(Run{Dir: pl.Root, Args: []string{ns + arg}})
		key := ""
		if len(plan.Steps) > 0 {
			key = fmt.Sprint(proj.Dump(), name)
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "included as": ns + name, "commands": ids(plan.Steps)})
		}
		cs.Case(key)
		if !cs.healthy(a, "direct run") || !cs.healthy(b, "included run") {
			return
		}
		if d := cs.sameRuns(plan, ns, a, b); d != "" {
			cs.Fail("task %q run from its own file and as %q differ: %s\n--- direct\n%s\n--- included\n%s", arg, ns+arg, d, ctxOf(plan, a), ctxOf(plan, b))
			return
		}
		// the bare name does not exist in the including file
		if r.Intn(4) == 0 && pl.M.lookup(arg) == nil {
			x := cs.Bab(Run{Dir: pl.Root, Args: []string{arg}})
			if x.Code != 1 || len(x.Events) > 0 {
				cs.Fail("the bare name %q of an included task is accepted: exit %d, ran %v", arg, x.Code, started(x.Events))
				return
			}
		}
	}
	if r.Intn(5) == 0 {
		x := cs.Bab(Run{Dir: pl.Root, Args: []string{"--validate"}})
		if x.Code != 0 {
			cs.Fail("the including file does not validate: %s", x.Err)
		}
	}
}

var padRe = regexp.MustCompile(` +\]`)

// sameRuns compares two runs of the same plan up to the namespace.
func (cs *Case) sameRuns(p *Plan, ns string, a, b *Res) string {
	if a.Code != b.Code {
		return fmt.Sprintf("exit status %d and %d", a.Code, b.Code)
	}
	sa, sb := started(a.Events), started(b.Events)
	if p.HasPar {
		sa, sb = sorted(sa), sorted(sb)
	}
	if !p.Ambiguous && !same(sa, sb) {
		return fmt.Sprintf("commands %v and %v", sa, sb)
	}
	for _, id := range sa {
		x, y := startOf(a.Events, id), startOf(b.Events, id)
		if x == nil || y == nil {
			continue
		}
		if x.Cwd != y.Cwd {
			return fmt.Sprintf("command %s ran in %s and %s", id, x.Cwd, y.Cwd)
		}
		if p.HasPar && len(p.sharedRefs()) > 0 {
			// which reference runs a shared task first decides how it is shown
			for _, k := range []string{"FORCE_COLOR", "NO_COLOR", "TERM"} {
				delete(x.Env, k)
				delete(y.Env, k)
			}
		}
		if d := diffMaps(x.Env, y.Env); d != "" {
			return fmt.Sprintf("command %s: environment: %s", id, d)
		}
		i, _ := stdinOf(a.Events, id)
		j, _ := stdinOf(b.Events, id)
		if i != j {
			return fmt.Sprintf("command %s got the text %q and %q", id, i, j)
		}
		cs.Obs("commands compared between own file and include", 1)
	}
	if p.Ambiguous || p.Fail {
		return ""
	}
	norm := func(s string) []string {
		var out []string
		for _, l := range lines(stripSGR(s)) {
			// labels carry the namespace and are padded to the longest
			if strings.HasPrefix(l, "[") {
				if i := strings.Index(l, "] "); i > 0 {
					lab := strings.TrimSuffix(strings.TrimRight(l[1:i], " "), "]")
					l = "[" + strings.ReplaceAll(lab, ns, "") + "] " + l[i+2:]
				}
			}
			l = strings.ReplaceAll(l, ns, "")
			out = append(out, l)
		}
		if p.HasPar {
			for i, l := range out {
				// nested labels are padded independently
				out[i] = strings.Join(strings.Fields(padRe.ReplaceAllString(l, "]")), " ")
			}
			sort.Strings(out)
		}
		return out
	}
	if p.HasPar && len(p.sharedRefs()) > 0 {
		return ""
	}
	if x, y := norm(a.Out), norm(b.Out); !same(x, y) {
		return fmt.Sprintf("standard output\n%s\nand\n%s", strings.Join(x, "\n"), strings.Join(y, "\n"))
	}
	if x, y := norm(a.Err), norm(b.Err); !same(x, y) {
		return fmt.Sprintf("standard error\n%s\nand\n%s", strings.Join(x, "\n"), strings.Join(y, "\n"))
	}
	return ""
}

func (cs *Case) collisionCase() {
	r := cs.R
	one := func(name string) *Task {
		return &Task{Name: name, Run: []*Item{{Kind: kCmd, ID: "c", Cmd: "$R c"}}}
	}
	lib := &File{Path: "lib.yml", Tasks: []*Task{one("t0"), one("sub:t1")}}
	root := &File{Path: "Babfile", Includes: []Inc{{"ns", "lib.yml"}}, Tasks: []*Task{one("ok")}}
	want := 1
	switch r.Intn(5) {
	case 0:
		root.Tasks = append(root.Tasks, one("ns:t0"))
	case 1:
		root.Tasks = append(root.Tasks, one("ns:sub:t1"))
	case 2:
		root.Tasks[0].Alias = "ns:t0"
	case 3:
		lib.Tasks[0].Alias = "x"
		root.Tasks[0].Aliases = []string{"ns:x"}
	default:
		root.Tasks = append(root.Tasks, one("t0"), one("ns:other"))
		lib.Tasks[0].Alias = "ok"
		want = 0
	}
	pl := cs.Place(&Project{Main: "Babfile", Files: map[string]*File{"Babfile": root, "lib.yml": lib}}, nil, cs.modelEnv())
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{pick(r, "ok", "--validate", "-l")}})
	cs.Case(fmt.Sprint(pl.Proj.Dump()))
	if cs.healthy(res, "collision") && (res.Code != want || want == 1 && len(res.Events) > 0) {
		cs.Fail("name collision: exit status %d, expected %d, ran %v\n%s", res.Code, want, started(res.Events), res.Err)
	}
}

// overrideCase: a task of an included file overrides a variable that another
// file-level variable refers to.
func (cs *Case) overrideCase() {
	for i, tv := range []KV{{"b", "2"}, {"b", "${{ a }}x"}} {
		lib := &File{Path: "lib.yml", Vars: []KV{{"a", "<${{ b }}>"}, {"b", "1"}}}
		lib.Tasks = []*Task{{Name: "t", Vars: []KV{tv}, Run: []*Item{{Kind: kCmd, ID: "c", Cmd: "$R c" + heredoc("${{ a }} ${{ b }}")}}}}
		root := &File{Path: "Babfile", Includes: []Inc{{"ns", "lib.yml"}}, Tasks: []*Task{{Name: "x", Run: []*Item{{Kind: kCmd, Cmd: "true"}}}}}
		pl := cs.Place(&Project{Main: "Babfile", Files: map[string]*File{"Babfile": root, "lib.yml": lib}}, nil, cs.modelEnv())
		a := cs.Bab(Run{Dir: pl.Root, Args: []string{"-b", "lib.yml", "t"}})
		b := cs.Bab(Run{Dir: pl.Root, Args: []string{"ns:t"}})
		x, _ := stdinOf(a.Events, "c")
		y, _ := stdinOf(b.Events, "c")
		cs.Case(fmt.Sprint("override", i))
		if x != y || a.Code != b.Code {
			cs.FailKey("task-overrides-file-var-used-by-another-file-var", "a task that overrides a file-level variable which another file-level variable refers to sees %q (exit %d) in its own file and %q (exit %d) when included\n%s", x, a.Code, y, b.Code, b.Err)
		}
	}
}

// diamondInclude includes one file under several namespaces.
func (cs *Case) diamondInclude() {
	r := cs.R
	shared := &File{Path: "s/shared.yml", Vars: []KV{{"v", "shared"}}}
	shared.Tasks = []*Task{
		{Name: "t", Deps: []string{"d"}, Run: []*Item{{Kind: kCmd, ID: "ct", Cmd: "$R ct"}}},
		{Name: "d", Run: []*Item{{Kind: kCmd, ID: "cd", Cmd: "$R cd"}}},
	}
	a := &File{Path: "a.yml", Includes: []Inc{{"s", "s/shared.yml"}}, Tasks: []*Task{{Name: "a", Deps: []string{"s:t"}, Run: []*Item{{Kind: kCmd, ID: "ca", Cmd: "$R ca"}}}}}
	b := &File{Path: "b.yml", Includes: []Inc{{"s", "s/shared.yml"}}, Tasks: []*Task{{Name: "b", Deps: []string{"s:t"}, Run: []*Item{{Kind: kCmd, ID: "cb", Cmd: "$R cb"}}}}}
	root := &File{Path: "Babfile", Includes: []Inc{{"a", "a.yml"}, {"b", "b.yml"}, {"s", "s/shared.yml"}}}
	order := []string{"a:a", "b:b", "s:t"}
	r.Shuffle(3, func(i, j int) { order[i], order[j] = order[j], order[i] })
	root.Tasks = []*Task{{Name: "main", Deps: order, Run: []*Item{{Kind: kCmd, ID: "cm", Cmd: "$R cm"}}}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": root, "a.yml": a, "b.yml": b, "s/shared.yml": shared}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	p := pl.M.Execute("main")
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{"main"}})
	cs.Case(fmt.Sprint("diamond include", order))
	if cs.healthy(res, "diamond include") {
		_ = cs.sawCommands(p, res) && cs.sawExit(p, res)
	}
}

// ---- C21 ----

// dryText reads the commands a dry run lists.
type dryLine struct {
	cmd, dir string
	env      int
}

func unq(s string) (string, string) {
	// returns the value at the start of s and the rest
	if strings.HasPrefix(s, `"`) {
		var b strings.Builder
		for i := 1; i < len(s); i++ {
			if s[i] == '\\' && i+1 < len(s) && s[i+1] == '"' {
				b.WriteByte('"')
				i++
				continue
			}
			if s[i] == '"' {
				return b.String(), s[i+1:]
			}
			b.WriteByte(s[i])
		}
		return b.String(), ""
	}
	v, rest, _ := strings.Cut(s, " ")
	return v, " " + rest
}

func dryLines(errOut string) []dryLine {
	var out []dryLine
	ls := lines(stripSGR(errOut))
	for i := 0; i < len(ls); i++ {
		l := ls[i]
		k := strings.Index(l, "Would run")
		if k < 0 {
			continue
		}
		rest := l[k+len("Would run"):]
		d := dryLine{}
		if strings.TrimSpace(rest) == "" {
			// several lines
			var cmd []string
			for i+1 < len(ls) {
				n := ls[i+1]
				if strings.TrimSpace(n) == "cmd=" {
					i++
					continue
				}
				if strings.HasPrefix(n, "  │ ") {
					cmd = append(cmd, strings.TrimPrefix(n, "  │ "))
					i++
					continue
				}
				break
			}
			d.cmd = strings.Join(cmd, "\n")
			if i+1 < len(ls) {
				rest = ls[i+1]
				i++
			}
		} else {
			j := strings.Index(rest, "cmd=")
			if j < 0 {
				continue // another "Would run" line (task, parallel)
			}
			d.cmd, rest = unq(rest[j+4:])
		}
		if j := strings.Index(rest, " dir="); j >= 0 {
			d.dir, _ = unq(rest[j+5:])
		}
		if j := strings.Index(rest, "env="); j >= 0 {
			v, _ := unq(rest[j+4:])
			d.env, _ = strconv.Atoi(v)
		}
		out = append(out, d)
	}
	return out
}

// DryPlan gives what a dry run lists.
func (m *Model) DryPlan(name string) *Plan {
	p := &Plan{M: m, Nodes: map[string]*Node{}, Results: map[string]bool{}, Vars: map[string]map[string]string{}, dry: true}
	ft := m.lookup(name)
	if ft == nil {
		p.Fail, p.FailWhy = true, "unknown task"
		return p
	}
	if _, err := m.rootVars(); err != nil {
		p.Fail, p.FailWhy = true, err.Error()
		return p
	}
	p.Main = ft.Name
	if !p.run(ft.Name, true, nil, nil, parCtx{color: true}) {
		p.Fail = true
	}
	return p
}

// dryPicked asks for a dry run without naming a task and chooses one in the picker.
func (cs *Case) dryPicked() {
	r := cs.R
	f := &File{Path: "Babfile"}
	for i := 0; i < 1+r.Intn(5); i++ {
		id := fmt.Sprintf("c%d", i)
		t := &Task{Name: fmt.Sprintf("t%d", i), Run: []*Item{{Kind: kCmd, ID: id, Cmd: "$R " + id + " > made"}}}
		if i > 0 && r.Intn(3) == 0 {
			t.Deps = []string{f.Tasks[0].Name}
		}
		if r.Intn(4) == 0 {
			t.Run = append(t.Run, &Item{Kind: kPrompt, Prompt: "v", PType: "input", Message: "Well?"})
		}
		f.Tasks = append(f.Tasks, t)
	}
	pl := cs.Place(&Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}, nil, cs.modelEnv())
	before := snapshot(pl.Root)
	args := []string{pick(r, "-n", "--dry-run")}
	if r.Intn(3) == 0 {
		args = append(args, "-b", "Babfile")
	}
	pt, err := cs.PtyStart(Run{Dir: pl.Root, Args: args}, 24, 80)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	pt.WaitFor(10*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, ""), "bab.sh") || !pt.Alive() })
	for k := r.Intn(4); k > 0; k-- {
		pt.Send(pick(r, kDown, kUp))
	}
	pt.Send("\r")
	res := pt.Wait(20 * time.Second)
	cs.Case(fmt.Sprint(pl.Proj.Dump(), args, cs.I))
	if !cs.healthy(res, "a dry run of a picked task") {
		return
	}
	text := strings.Join(pt.vt.All(), "\n")
	switch {
	case len(res.Events) > 0:
		cs.Fail("a dry run of the picked task ran %v\n%s", started(res.Events), text)
	case snapshot(pl.Root) != before:
		cs.Fail("a dry run of the picked task changed files\n%s", text)
	case res.Code != 0:
		cs.Fail("a dry run of the picked task: exit status %d\n%s", res.Code, text)
	case !strings.Contains(text, "Would run"):
		cs.Fail("a dry run of the picked task lists nothing\n%s", text)
	}
	cs.Obs("picked tasks run dry", 1)
}

func (cs *Case) dryCase() {
	r := cs.R
	p := Prof{Files: 2, Tasks: 5, Items: 5, Deps: 0.5, TaskRef: 0.12, Par: 0.12, Log: 0.08, Prompt: 0.1, When: 0.15, TaskWhen: 0.08, Plat: 0.1, Vars: 0.7, Dir: 0.3, BadDir: 0.01, Undef: 0.02, Env: 0.2, Fail: 0.05,
		Values: func(r *randT) string {
			return pick(r, "sub", "x.y", "a b", `q"q`, "it's", "true", "", "${ x", "日本")
		},
		CmdText: func(g *Gen, id string, f *File, t *Task) string {
			vs := g.varsInScope(f, t)
			s := ""
			if len(vs) > 0 {
				s += " a='" + refTo(g.R, pick(g.R, vs...)) + "'"
			}
			if g.p(0.15) && len(vs) > 0 {
				s += heredoc("first\n  ${{ " + pick(g.R, vs...) + " }} x")
			}
			if g.p(0.1) {
				s += " > made-" + id
			}
			return s
		}}
	plain := r.Intn(3) == 0
	if plain {
		p.TaskRef, p.Par, p.Prompt, p.Fail = 0, 0, 0, 0
		p.Values = func(r *randT) string { return pick(r, "sub", "x.y", "a b", `q"q`, "true", "") }
	}
	g := newGen(r, p)
	proj := g.Generate()
	pl := cs.Place(proj, g.Dirs, cs.modelEnv())
	before := snapshot(pl.Root)
	names := pl.M.TaskNames()
	for k := 0; k < 2; k++ {
		name := pick(r, names...)
		plan := pl.M.DryPlan(name)
		run := cs.invoke(pl, cs.taskArg(pl, name))
		run.Args = append([]string{pick(r, "-n", "--dry-run")}, run.Args...)
		run.Stdin = []byte("typed\n")
		res := cs.Bab(run)
		key := ""
		if len(plan.Steps) > 0 {
			key = fmt.Sprint(proj.Dump(), name)
		}
		cs.Case(key)
		if !cs.healthy(res, "dry run") {
			return
		}
		if len(res.Events) > 0 {
			cs.Fail("a dry run of %q ran commands: %v\n%s", name, started(res.Events), ctxOf(plan, res))
			return
		}
		if after := snapshot(pl.Root); after != before {
			cs.Fail("a dry run of %q changed files:\nbefore\n%s\nafter\n%s", name, before, after)
			return
		}
		got := dryLines(res.Err)
		var want []dryLine
		for _, s := range plan.Steps {
			want = append(want, dryLine{s.Text, s.Dir, len(s.Env)})
		}
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
			cs.Fail("a dry run of %q lists\n%q\nexpected\n%q\n%s", name, got, want, ctxOf(plan, res))
			return
		}
		cs.Obs("listed commands compared", len(want))
		logged := 0
		for _, l := range lines(stripSGR(res.Err)) {
			logged += b2i(strings.HasPrefix(l, "INFO Would log"))
		}
		if logged != len(plan.Logs) {
			cs.Fail("a dry run of %q lists %d log items, expected %d\n%s", name, logged, len(plan.Logs), ctxOf(plan, res))
			return
		}
		cs.Obs("listed log items", logged)
		if !cs.sawExit(plan, res) {
			return
		}
		if len(want) > 1 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "listed": want})
		}
		if plain && !plan.Fail {
			// the real run executes exactly what was listed
			real := cs.Bab(Run{Dir: pl.Root, Args: []string{name}})
			if !same(started(real.Events), ids(plan.Steps)) {
				cs.Fail("the real run of %q executes %v, the dry run listed %v\n%s", name, started(real.Events), ids(plan.Steps), ctxOf(plan, real))
				return
			}
			for i, s := range plan.Steps {
				e := startOf(real.Events, s.ID)
				if w, err := filepath.EvalSymlinks(got[i].dir); err == nil && e.Cwd != w {
					cs.Fail("command %s really runs in %s, the dry run says %s", s.ID, e.Cwd, got[i].dir)
					return
				}
			}
			cs.Obs("dry runs compared with the real run", 1)
			before = snapshot(pl.Root)
		}
	}
}

func snapshot(root string) string {
	var b strings.Builder
	_ = filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err == nil {
			fmt.Fprintf(&b, "%s %v %d %d\n", strings.TrimPrefix(p, root), info.Mode(), info.Size()*int64(b2i(!info.IsDir())), info.ModTime().UnixNano()*int64(b2i(!info.IsDir())))
		}
		return nil
	})
	return b.String()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ---- C22 ----

func (cs *Case) promptDefaults() {
	r := cs.R
	p := Prof{Files: 1, Tasks: 4, Items: 5, Deps: 0.4, TaskRef: 0.25, Par: 0.12, ParItems: 3, Prompt: 0.4, Vars: 0.6, When: 0.05,
		Values: func(r *randT) string { return pick(r, "glob", "x", "true", "") },
		CmdText: func(g *Gen, id string, f *File, t *Task) string {
			vs := g.varsInScope(f, t)
			if len(vs) == 0 {
				return ""
			}
			var b strings.Builder
			for _, v := range vs {
				fmt.Fprintf(&b, "%s=<${{ %s }}>\n", v, v)
			}
			return heredoc(b.String())
		}}
	g := newGen(r, p)
	proj := g.Generate()
	for _, f := range proj.Files {
		for _, t := range f.Tasks {
			for _, it := range t.Run {
				if it.Kind != kPrompt {
					continue
				}
				if it.PType == "confirm" && it.Default != "" {
					it.Default = pick(r, "true", "false", "yes", "no", "y", "n", "1", "0", "True", "NO")
				}
				if r.Intn(12) == 0 {
					it.PType, it.Default, it.Options, it.Defaults = "password", "", nil, nil
				}
				vs := g.varsInScope(f, &Task{Vars: t.Vars})
				if it.PType == "input" && it.Default != "" && len(vs) > 0 && r.Intn(3) == 0 {
					it.Default += "${{ " + pick(r, vs...) + " }}"
				}
				if r.Intn(2) == 0 { // rules the defaults satisfy, and hints
					switch it.PType {
					case "number":
						if n, err := strconv.Atoi(it.Default); err == nil {
							it.Min, it.Max = ip(n-r.Intn(2)), ip(n+r.Intn(2))
						}
						it.Placeholder = pick(r, "", "5")
					case "multiselect":
						it.Min, it.Max = ip(len(it.Defaults)-r.Intn(len(it.Defaults)+1)), ip(len(it.Defaults)+r.Intn(len(it.Options)-len(it.Defaults)+1))
					case "input":
						it.Validate, it.Placeholder = "^(?s:.*)$", pick(r, "", "hint")
					}
					cs.Obs("prompts with rules", 1)
				}
			}
		}
	}
	// variables defined by way of one that a prompt sets later keep their values
	for _, f := range proj.Files {
		for _, t := range f.Tasks {
			own := map[string]bool{}
			for _, x := range t.Vars {
				own[x.K] = true
			}
			body := ""
			for _, x := range f.Vars {
				if !own[x.K] && r.Intn(3) == 0 {
					t.Vars = append(t.Vars, KV{"of_" + x.K, "was ${{ " + x.K + " }}"})
					body += "${{ of_" + x.K + " }} is ${{ " + x.K + " }}\n"
				}
			}
			if body != "" && t.Run != nil {
				id := g.id("of")
				t.Run = append(t.Run, &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + heredoc(body)})
			}
		}
	}
	// the last thing the main task does is to read what is left of its input
	pl := cs.Place(proj, g.Dirs, cs.modelEnv())
	names := pl.M.TaskNames()
	name := pick(r, names...)
	for i := 0; i < 3; i++ {
		n := pick(r, names...)
		if len(pl.M.Execute(n).Prompted) > len(pl.M.Execute(name).Prompted) {
			name = n
		}
	}
	ft := pl.M.Tasks[name]
	readsAll := false
	if ft.T.Run != nil && ft.T.When == "" {
		ft.T.Run = append(ft.T.Run, &Item{Kind: kCmd, ID: "rest", Cmd: "$R rest in"})
		readsAll = true
		pl = cs.Place(proj, g.Dirs, cs.modelEnv())
	}
	plan := pl.M.Execute(name)
	// commands without a heredoc must not take the input away
	in := fmt.Sprintf("line one %d\ny\nsecret\n\n3\nlast without newline", r.Intn(1000))
	run := Run{Dir: pl.Root, Args: []string{name}, Stdin: []byte(in)}
	if r.Intn(4) == 0 {
		run.Stdin, in = nil, ""
	}
	res := cs.Bab(run)
	key := ""
	if len(plan.Prompted) > 0 {
		key = fmt.Sprint(proj.Dump(), name, in)
		cs.Obs("prompts reached", len(plan.Prompted))
		if plan.Fail {
			cs.Obs("runs failing for want of a default", 1)
		}
		if len(plan.Steps) > 1 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "prompts": plan.Prompted, "commands": ids(plan.Steps)})
		}
	}
	cs.Case(key)
	if !cs.healthy(res, "prompts without a terminal") || plan.Ambiguous {
		return
	}
	if !cs.sawCommands(plan, res) || !cs.sawExit(plan, res) || !cs.sawTexts(plan, res) {
		return
	}
	if readsAll && !plan.Fail {
		if got, ok := stdinOf(res.Events, "rest"); ok && got != in {
			cs.Fail("after the prompts %q is left on standard input, expected %q", got, in)
		}
	}
}
