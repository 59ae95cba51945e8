package main

// C01 C02 C03 C05 C06 C07 C10 C11: which commands run, when, where and with what.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// healthy reports crashes and hangs, which break every property.
func (cs *Case) healthy(r *Res, what string) bool {
	if r.Hung {
		cs.Fail("%s: bab did not end (killed after %v)\nstderr:\n%s", what, r.Dur, clip(r.Err, 4000))
		return false
	}
	if p := panicked(r); p != "" {
		cs.Fail("%s: bab crashed (%s)\nstderr:\n%s", what, p, clip(r.Err, 4000))
		return false
	}
	if r.Code < 0 {
		cs.Fail("%s: bab ended by signal %v\nstderr:\n%s", what, r.Sig, clip(r.Err, 4000))
		return false
	}
	return true
}

func ids(steps []*Step) []string {
	out := make([]string, len(steps))
	for i, s := range steps {
		out[i] = s.ID
	}
	return out
}

func sorted(l []string) []string {
	o := append([]string{}, l...)
	sort.Strings(o)
	return o
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffSets(want, got []string) string {
	w, g := map[string]int{}, map[string]int{}
	for _, x := range want {
		w[x]++
	}
	for _, x := range got {
		g[x]++
	}
	var miss, extra []string
	for x, n := range w {
		if g[x] < n {
			miss = append(miss, x)
		}
	}
	for x, n := range g {
		if w[x] < n {
			extra = append(extra, x)
		}
	}
	sort.Strings(miss)
	sort.Strings(extra)
	return fmt.Sprintf("not run: %v; run but not expected (or too often): %v", miss, extra)
}

// sawCommands compares the executed commands with the plan: the exact order for
// sequential plans, the set and the required order for parallel ones.
func (cs *Case) sawCommands(p *Plan, r *Res) bool {
	got := started(r.Events)
	want := ids(p.Steps)
	if !p.HasPar {
		if !same(want, got) {
			cs.Fail("task %q: commands run: %v\nexpected:            %v\n%s", p.Main, got, want, ctxOf(p, r))
			return false
		}
		// one command ends before the next starts
		open := ""
		for _, e := range r.Events {
			switch e.Ev {
			case "start":
				if open != "" && !killed(p, open) {
					cs.Fail("task %q: command %s started while %s was still running\n%s", p.Main, e.ID, open, ctxOf(p, r))
					return false
				}
				open = e.ID
			case "end":
				if open == e.ID {
					open = ""
				}
			}
		}
		return true
	}
	if !same(sorted(want), sorted(got)) {
		cs.Fail("task %q: %s\n%s", p.Main, diffSets(want, got), ctxOf(p, r))
		return false
	}
	sp, dup := spans(r.Events)
	if dup != "" {
		cs.Fail("task %q: command %s ran twice\n%s", p.Main, dup, ctxOf(p, r))
		return false
	}
	if bad := p.CheckOrder(sp); bad != "" {
		cs.Fail("%s\n%s", bad, ctxOf(p, r))
		return false
	}
	return true
}

func killed(p *Plan, id string) bool { return false }

func ctxOf(p *Plan, r *Res) string {
	var b strings.Builder
	fmt.Fprintf(&b, "expected failure: %v (%s); exit status %d\nstderr:\n%s\nevents:", p.Fail, p.FailWhy, r.Code, clip(stripSGR(r.Err), 3000))
	for i, e := range r.Events {
		if i > 80 {
			break
		}
		fmt.Fprintf(&b, " %s(%s)", e.Ev, e.ID)
	}
	return b.String()
}

func (cs *Case) sawExit(p *Plan, r *Res) bool {
	want := 0
	if p.Fail {
		want = 1
	}
	if r.Code != want {
		cs.Fail("task %q: exit status %d, expected %d (%s)\n%s", p.Main, r.Code, want, p.FailWhy, ctxOf(p, r))
		return false
	}
	if p.Fail && strings.TrimSpace(r.Err) == "" {
		cs.Fail("task %q failed (%s) without any message", p.Main, p.FailWhy)
		return false
	}
	return true
}

// startNames are the ways to name a task on the command line.
func (cs *Case) taskArg(pl *Placed, name string) string {
	ft := pl.M.Tasks[name]
	if len(ft.Aliases) > 0 && cs.R.Intn(2) == 0 {
		return pick(cs.R, ft.Aliases...)
	}
	return name
}

// invoke chooses where bab is started and how the Babfile is named.
func (cs *Case) invoke(pl *Placed, args ...string) Run {
	r := Run{Dir: pl.Root, Args: args}
	switch cs.R.Intn(4) {
	case 0:
		r.Dir = cs.Dir
		r.Args = append([]string{"-b", "proj/" + pl.Proj.Main}, args...)
	case 1:
		r.Dir = "/"
		r.Args = append(args, "--babfile", filepath.Join(pl.Root, pl.Proj.Main))
	}
	return r
}

func (cs *Case) modelEnv() map[string]string {
	m := map[string]string{}
	for _, kv := range cs.env(nil, nil, "") {
		k, v, _ := strings.Cut(kv, "=")
		m[k] = v
	}
	return m
}

// execCase generates a project, runs some of its tasks and hands plan and
// result to the oracle.
func (cs *Case) execCase(p Prof, nrun int, oracle func(pl *Placed, p *Plan, r *Res) bool) {
	g := newGen(cs.R, p)
	proj := g.Generate()
	pl := cs.Place(proj, g.Dirs, cs.modelEnv())
	names := pl.M.TaskNames()
	for k := 0; k < nrun; k++ {
		name := pick(cs.R, names...)
		if k == 0 {
			// prefer a task that reaches much
			for i := 0; i < 4; i++ {
				n := pick(cs.R, names...)
				if len(pl.M.Execute(n).Nodes) > len(pl.M.Execute(name).Nodes) {
					name = n
				}
			}
		}
		plan := pl.M.Execute(name)
		run := cs.invoke(pl, cs.taskArg(pl, name))
		r := cs.Bab(run)
		key := ""
		if len(plan.Steps)+len(plan.Logs) > 0 || plan.Fail {
			key = fmt.Sprint(proj.Dump(), name)
		}
		cs.Case(key)
		if len(plan.Steps) > 3 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "commands": ids(plan.Steps), "files": len(proj.Files), "parallel": plan.HasPar, "fails": plan.FailWhy})
		}
		if !cs.healthy(r, "task "+name) {
			return
		}
		if !oracle(pl, plan, r) {
			return
		}
	}
}

func init() {
	register("C01", "random projects (includes, dependencies, references, parallel blocks, aliases) run by name or alias from several directories; the recorder's event log must be the order the reference semantics gives (sequential) or a linear extension of it (parallel), every command once, none outside the closure; a case is non-trivial when the task runs something",
		func(c *Ctx) {
			c.Bab()
			seq := Prof{Files: 3, Tasks: 7, Items: 4, Deps: 0.5, TaskRef: 0.35, Log: 0.05, Alias: 0.3, NoRun: 0.1, Weird: true}
			par := seq
			par.Par, par.Sleep, par.Limit, par.Modes = 0.3, 15, 0.3, []string{"", "interleaved", "grouped", "tabs"}
			c.Each("seq", c.N(350, 6000), func(cs *Case) {
				cs.execCase(seq, 2, func(pl *Placed, p *Plan, r *Res) bool { return cs.sawCommands(p, r) })
			})
			c.Each("par", c.N(350, 6000), func(cs *Case) {
				cs.execCase(par, 2, func(pl *Placed, p *Plan, r *Res) bool { return cs.sawCommands(p, r) })
			})
		})
}

// ---- shared profiles ----

// oddValue makes definitions whose value holds characters that matter to the
// shell, to YAML, to interpolation and to conditions.
func oddValue(r *randT) string {
	n := r.Intn(5)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, "a", "b", " ", "'", `"`, "==", "!=", "$${{ vA }}", "$${{", "}}", "false", "False", "x == 'y'", " != ", "é", "日本", "\\", "$HOME", "`id`", "$(id)", "%s", "#", ": ", "{", "}", "0", "\t", "\n", "\r", "\u00a0", "\u2028", "true", "-", "$$", "$", "|", "&", "=", "😀", "$1", "${1}", "$0", "\\1"))
	}
	return b.String()
}

// trickyWhenValue makes values close to the literals conditions compare with.
func trickyWhenValue(r *randT) string {
	switch r.Intn(10) {
	case 0:
		return oddValue(r)
	case 1:
		return pick(r, "prod' == 'prod", "x' != 'y", "a == 'a'", `b" == "b`, "' == '", "false == 'false'", "x != 'x'", "'prod'", `"prod"`, " prod", "prod ", "a'b", "== 'x'")
	case 2:
		return pick(r, "false", "FALSE", "False", " false ", "", " ", "\t", "true", "0", "no", "null", "off", "falsey", "\n")
	case 3:
		return pick(r, "$${{ vB }}", "$${{ vA }} == 'x'", "$${{ none }}")
	}
	return pick(r, "prod", "dev", "x", "true", "false", "", "Prod")
}

func init() {
	register("C02", "random projects with commands that fail by exit status or signal, undefined variables, missing directories, prompts without defaults and unknown tasks; the event log must hold exactly the commands the reference semantics runs and the exit status must be 1 with a message exactly when it says so; non-trivial when the task fails",
		func(c *Ctx) {
			c.Bab()
			seq := Prof{Files: 2, Tasks: 6, Items: 4, Deps: 0.5, TaskRef: 0.35, Log: 0.05, Alias: 0.2, NoRun: 0.15, Fail: 0.12, Undef: 0.05, BadDir: 0.03, Prompt: 0.08, When: 0.1, Plat: 0.05, Output: 0.2, Silent: 0.2}
			par := seq
			par.Par, par.Sleep, par.Limit, par.Modes = 0.35, 15, 0.3, []string{"", "grouped", "tabs"}
			or := func(cs *Case) func(pl *Placed, p *Plan, r *Res) bool {
				return func(pl *Placed, p *Plan, r *Res) bool {
					if p.Fail {
						cs.Obs("failing runs", 1)
					}
					if p.Ambiguous {
						cs.Obs("dependency of a parallel item failed", 1)
						return cs.sawExit(p, r)
					}
					return cs.sawCommands(p, r) && cs.sawExit(p, r)
				}
			}
			c.Each("seq", c.N(400, 8000), func(cs *Case) { cs.execCase(seq, 2, or(cs)) })
			c.Each("par", c.N(400, 8000), func(cs *Case) { cs.execCase(par, 2, or(cs)) })
			c.Each("unknown", c.N(60, 600), func(cs *Case) {
				g := newGen(cs.R, seq)
				pl := cs.Place(g.Generate(), g.Dirs, cs.modelEnv())
				bad := pick(cs.R, "nope", "t", "T0", "t0 ", " t0", "", "ns1:", ":t0", "t0:", "t99", "t0,t1", "*")
				if pl.M.lookup(bad) != nil {
					return
				}
				flags := []string{}
				if cs.R.Intn(3) == 0 {
					flags = append(flags, "-n")
				}
				r := cs.Bab(cs.invoke(pl, append(flags, "--", bad)...))
				cs.Case("unknown " + bad + fmt.Sprint(pl.Proj.Dump()))
				if !cs.healthy(r, "unknown task") {
					return
				}
				if len(r.Events) > 0 || r.Code != 1 || strings.TrimSpace(r.Err) == "" {
					cs.Fail("unknown task %q: exit status %d, commands run %v, stderr %q", bad, r.Code, started(r.Events), r.Err)
				}
			})
		})

	register("C03", "random projects of tasks with parallel blocks (commands, logs, task references, nested blocks) whose items last different times and often fail; every selected item must run exactly once to its end before the next run item starts, and the block must fail exactly when an item failed; non-trivial when a block has at least two items",
		func(c *Ctx) {
			c.Bab()
			p := Prof{Files: 1, Tasks: 5, Items: 4, TaskRef: 0.25, Par: 0.45, ParItems: 6, Log: 0.1, Fail: 0.15, Sleep: 40, Limit: 0.4, When: 0.1, Plat: 0.1, Modes: []string{"", "interleaved", "grouped", "tabs"}, Output: 0.2, Silent: 0.2}
			c.EachP("long", c.N(8, 24), 8, func(cs *Case) { cs.longBlock(c.N(11, 45)) })
			c.Each("twins", c.N(60, 1500), func(cs *Case) { cs.twins() })
			c.Each("needs", c.N(80, 2000), func(cs *Case) { cs.blockNeeds() })
			c.Each("block", c.N(700, 12000), func(cs *Case) {
				p := p
				if cs.I%3 == 0 {
					p.Deps, p.NoRun, p.Tasks, p.TaskRef = 0.35, 0.1, 7, 0.4
				}
				cs.execCase(p, 2, func(pl *Placed, p *Plan, r *Res) bool {
					if p.HasPar {
						cs.Obs("runs with a block", 1)
					}
					if p.Fail && p.HasPar {
						cs.Obs("runs with a block that fail", 1)
					}
					if p.Ambiguous {
						return cs.sawExit(p, r)
					}
					if !cs.sawCommands(p, r) {
						return false
					}
					// logs are items too
					txt := stripSGR(r.Err) + stripSGR(r.Out)
					for _, l := range p.Logs {
						n := 0
						for _, ln := range lines(txt) {
							if strings.HasSuffix(strings.TrimRight(ln, " "), " "+l.Text) {
								n++
							}
						}
						if n != 1 {
							cs.Fail("log item %q appears %d times\n%s", l.Text, n, ctxOf(p, r))
							return false
						}
					}
					return cs.sawExit(p, r)
				})
			})
		})

	register("C05", "random projects whose tasks are shared between concurrently running branches (parallel blocks below parallel blocks, dependencies, references) under random delays; every shared task must run once, every branch must wait for it, a failed one must fail every branch that needs it, and no circular dependency may be reported; non-trivial when several branches of a run share a task",
		func(c *Ctx) {
			c.Bab()
			c.Each("diamond", c.N(250, 4000), func(cs *Case) { cs.diamond() })
			c.Each("shared", c.N(900, 20000), func(cs *Case) {
				p := Prof{Files: 0, Tasks: 8, Items: 3, TaskRef: 0.55, Par: 0.3, ParItems: 4, Deps: 0.25, Sleep: 25, Limit: 0.25, NoRun: 0.12, Weird: true}
				if cs.R.Intn(3) == 0 {
					p.Fail = 0.1
				}
				if cs.R.Intn(6) == 0 {
					p.When, p.TaskWhen, p.Vars = 0.1, 0.1, 0.4
				}
				cs.execCase(p, 2, func(pl *Placed, p *Plan, r *Res) bool {
					if p.HasPar {
						cs.Obs("runs with a block", 1)
					}
					if strings.Contains(r.Err, "circular") {
						cs.Fail("task %q: a circular dependency is reported\n%s", p.Main, ctxOf(p, r))
						return false
					}
					if p.Ambiguous {
						return cs.sawExit(p, r)
					}
					return cs.sawCommands(p, r) && cs.sawExit(p, r)
				})
			})
		})

	register("C06", "random projects with a when on tasks, items, blocks and block items over variables with hostile values (quotes, operators, references, blanks); executed commands and exit status must be those of the condition semantics; a case is non-trivial when a condition decides something",
		func(c *Ctx) {
			c.Bab()
			p := Prof{Files: 2, Tasks: 5, Items: 5, Deps: 0.3, TaskRef: 0.2, Par: 0.15, Log: 0.12, When: 0.7, TaskWhen: 0.35, Vars: 0.95, Values: trickyWhenValue, Prompt: 0.05}
			or := func(cs *Case) func(pl *Placed, p *Plan, r *Res) bool {
				return func(pl *Placed, p *Plan, r *Res) bool {
					if p.Ambiguous {
						return true
					}
					return cs.sawCommands(p, r) && cs.sawExit(p, r) && cs.sawLogs(pl, p, r)
				}
			}
			c.Each("when", c.N(700, 15000), func(cs *Case) { cs.execCase(p, 3, or(cs)) })
			c.Each("forms", c.N(400, 8000), func(cs *Case) { cs.whenForms() })
		})

	register("C07", "random projects with platforms on commands, logs, references, prompts, blocks and block items; only items of this platform may leave a trace (command, output, echo, prompt), the others never fail the task except when nothing is left; non-trivial when an item is excluded",
		func(c *Ctx) {
			c.Bab()
			p := Prof{Files: 2, Tasks: 5, Items: 5, Deps: 0.3, TaskRef: 0.2, Par: 0.2, Log: 0.15, Plat: 0.6, Prompt: 0.1, When: 0.08, CmdText: func(g *Gen, id string, f *File, t *Task) string { return " o=OUT-" + id + "." }}
			c.Each("plat", c.N(800, 15000), func(cs *Case) {
				cs.execCase(p, 3, func(pl *Placed, p *Plan, r *Res) bool {
					if p.Ambiguous {
						return true
					}
					if !cs.sawCommands(p, r) || !cs.sawExit(p, r) {
						return false
					}
					ran := map[string]bool{}
					for _, s := range p.Steps {
						ran[s.ID] = true
					}
					for _, s := range p.Logs {
						ran[s.ID] = true
					}
					txt := stripSGR(r.Err) + stripSGR(r.Out)
					for _, f := range pl.Proj.Files {
						for _, t := range f.Tasks {
							for _, it := range flatItems(t.Run) {
								if it.ID == "" {
									continue
								}
								mark := "OUT-" + it.ID + "."
								if it.Kind == kLog {
									mark = it.Log
								}
								if strings.Contains(txt, mark) != ran[it.ID] {
									cs.Fail("task %q: output of item %s (platforms %v) shown: %v, expected: %v\n%s", p.Main, it.ID, it.Platforms, !ran[it.ID], ran[it.ID], ctxOf(p, r))
									return false
								}
								if it.Kind == kCmd && !ran[it.ID] && strings.Contains(txt, "R "+it.ID+" ") {
									cs.Fail("task %q: excluded command %s is echoed\n%s", p.Main, it.ID, ctxOf(p, r))
									return false
								}
							}
						}
					}
					return true
				})
			})
		})

	register("C10", "random projects with overlapping env maps at file, included-file, task and command level over an ambient environment, hostile values and references, commands run sequentially and concurrently; the recorder's environment of every command must be exactly the overlay; non-trivial when a command has an env of its own levels",
		func(c *Ctx) {
			c.Bab()
			c.Each("env", c.N(700, 12000), func(cs *Case) { cs.envCase() })
		})

	register("C11", "random projects with dir at file, task and command level (relative, absolute, interpolated, missing, not a directory, in included files), started from several directories; every command's own working directory must be the documented one and a bad dir must fail without running; non-trivial when a dir is set somewhere",
		func(c *Ctx) {
			c.Bab()
			c.Each("dir", c.N(800, 12000), func(cs *Case) { cs.dirCase() })
		})
}

func flatItems(items []*Item) []*Item {
	var out []*Item
	for _, it := range items {
		out = append(out, it)
		out = append(out, flatItems(it.Items)...)
	}
	return out
}

// longBlock runs a block (or a sequence) of which one part takes long.
func (cs *Case) longBlock(secs int) {
	r := cs.R
	f := &File{Path: "Babfile"}
	ms := 1000*secs + r.Intn(1500)
	cmd := func(id string, ms, exit int) *Item {
		return &Item{Kind: kCmd, ID: id, Cmd: fmt.Sprintf("$R %s s=%d x=%d", id, ms, exit), Exit: exit}
	}
	fail := cs.I % 2
	long := cmd("long", ms, 0)
	if cs.I%4 >= 2 {
		f.Tasks = append(f.Tasks, &Task{Name: "sub", Run: []*Item{long, cmd("after-long", 0, 0)}})
		long = &Item{Kind: kTask, Task: "sub"}
	}
	run := []*Item{cmd("first", 0, 0)}
	if cs.I == 7 { // a sequence
		run = append(run, long)
	} else {
		blk := &Item{Kind: kParallel, Mode: pick(r, "", "interleaved", "grouped", "tabs"), Items: []*Item{cmd("short", 60, fail), long, cmd("mid", 500, 0)}}
		if r.Intn(3) == 0 {
			blk.Items = append(blk.Items, &Item{Kind: kParallel, Items: []*Item{cmd("n1", 10, 0), cmd("n2", ms+300, 0)}})
			blk.Items[3] = &Item{Kind: kTask, Task: "nest"}
			f.Tasks = append(f.Tasks, &Task{Name: "nest", Run: []*Item{{Kind: kParallel, Items: []*Item{cmd("n1", 10, 0), cmd("n2", ms+300, 0)}}}})
		}
		run = append(run, blk)
	}
	run = append(run, cmd("last", 0, 0))
	f.Tasks = append(f.Tasks, &Task{Name: "main", Run: run})
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	p := pl.M.Execute("main")
	rn := Run{Dir: pl.Root, Args: []string{"main"}, Timeout: time.Duration(secs+60) * time.Second}
	var res *Res
	if cs.I%3 == 2 {
		pt, err := cs.PtyStart(rn, 24, 80)
		if err != nil {
			cs.Inconclusive("no terminal")
			return
		}
		res = pt.Wait(rn.Timeout)
	} else {
		res = cs.Bab(rn)
	}
	cs.Case(fmt.Sprint(proj.Dump(), cs.I))
	cs.Obs("items that take seconds", 1)
	if !cs.healthy(res, "long item") {
		return
	}
	_ = cs.sawCommands(p, res) && cs.sawExit(p, res)
}

// twins runs blocks and sequences that hold the same item several times over.
// sawLogs: exactly the expected log items appear.
func (cs *Case) sawLogs(pl *Placed, p *Plan, r *Res) bool {
	want := map[string]int{}
	for _, l := range p.Logs {
		want[l.ID]++
	}
	txt := lines(stripSGR(r.Err) + stripSGR(r.Out))
	var look func(its []*Item) bool
	look = func(its []*Item) bool {
		for _, it := range its {
			if !look(it.Items) {
				return false
			}
			if it.Kind != kLog || it.Level == "debug" {
				continue
			}
			n := 0
			for _, l := range txt {
				n += b2i(strings.HasSuffix(strings.TrimRight(l, " "), " "+it.Log))
			}
			if n != want[it.ID] {
				cs.Fail("log item %q appears %d times, expected %d\n%s", it.Log, n, want[it.ID], ctxOf(p, r))
				return false
			}
		}
		return true
	}
	for _, f := range pl.Proj.Files {
		for _, t := range f.Tasks {
			if !look(t.Run) {
				return false
			}
		}
	}
	cs.Obs("log items expected", len(p.Logs))
	return true
}

// blockNeeds runs a block whose items refer to tasks with dependencies, some of
// which fail: then nothing that needs those may start, nor what follows the block.
func (cs *Case) blockNeeds() {
	r := cs.R
	f := &File{Path: "Babfile"}
	cmd := func(id string, fail bool) *Item {
		it := &Item{Kind: kCmd, ID: id, Cmd: fmt.Sprintf("$R %s s=%d", id, r.Intn(15))}
		if fail {
			it.Exit = 1 + r.Intn(100)
			it.Cmd += fmt.Sprintf(" x=%d", it.Exit)
		}
		return it
	}
	var deps []string
	for i, bad := 0, r.Intn(6); i < 1+r.Intn(5); i++ {
		t := &Task{Name: fmt.Sprintf("dep%d", i), Run: []*Item{cmd(fmt.Sprintf("d%d", i), i == bad)}}
		if i > 0 && r.Intn(4) == 0 {
			t.Deps = []string{pick(r, deps...)}
		}
		deps = append(deps, t.Name)
		f.Tasks = append(f.Tasks, t)
	}
	blk := &Item{Kind: kParallel, Mode: pick(r, "", "interleaved", "grouped", "tabs")}
	for i, n := 0, 1+r.Intn(9); i < n; i++ {
		id := fmt.Sprintf("i%d", i)
		if r.Intn(3) == 0 {
			blk.Items = append(blk.Items, cmd(id, false))
			continue
		}
		t := &Task{Name: "t" + id, Run: []*Item{cmd(id, false)}}
		for k := r.Intn(3); k > 0; k-- {
			t.Deps = uniq(append(t.Deps, pick(r, deps...)))
		}
		f.Tasks = append(f.Tasks, t)
		blk.Items = append(blk.Items, &Item{Kind: kTask, Task: t.Name})
	}
	if r.Intn(3) == 0 {
		blk.Limit = 1 + r.Intn(len(blk.Items))
	}
	main := &Task{Name: "main", Run: []*Item{cmd("m1", false), blk, cmd("m2", false)}}
	if r.Intn(4) == 0 {
		main.Deps = []string{deps[0]}
	}
	f.Tasks = append(f.Tasks, main)
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	p := pl.M.Execute("main")
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{"main"}})
	cs.Case(fmt.Sprint(proj.Dump()))
	if !cs.healthy(res, "a block with dependencies") {
		return
	}
	if p.Fail {
		cs.Obs("blocks with a failing dependency", 1)
	}
	if !p.Ambiguous {
		_ = cs.sawCommands(p, res) && cs.sawExit(p, res)
		return
	}
	if !cs.sawExit(p, res) {
		return
	}
	// whether the other items start is open, but what needs the failed task never does
	lost := map[string]bool{"m2": true}
	bads := map[string]bool{}
	for _, t := range f.Tasks {
		bad := t.Run[0].Exit != 0
		for _, d := range t.Deps {
			bad = bad || bads[d]
		}
		bads[t.Name] = bad
		if bad && t.Run[0].Exit == 0 && t.Name != "main" {
			lost[t.Run[0].ID] = true
		}
	}
	seen := map[string]bool{}
	for _, id := range started(res.Events) {
		if lost[id] || seen[id] {
			cs.Fail("%s must not start (again)\n%s", id, ctxOf(p, res))
			return
		}
		seen[id] = true
	}
}

func (cs *Case) twins() {
	r := cs.R
	f := &File{Path: "Babfile"}
	want := map[string]int{}
	n := 0
	mk := func() *Item {
		n++
		id := fmt.Sprintf("w%d", n)
		it := &Item{Kind: kCmd, ID: id, Cmd: fmt.Sprintf("$R %s s=%d", id, r.Intn(15)), Label: pick(r, "", "", "same label")}
		if r.Intn(4) == 0 {
			it.Env = []KV{{"E_A", "x"}}
		}
		return it
	}
	var run []*Item
	for b := 0; b < 1+r.Intn(3); b++ {
		if r.Intn(4) == 0 {
			it := mk()
			for k := 0; k < 2+r.Intn(3); k++ {
				run = append(run, it)
				want[it.ID]++
			}
			continue
		}
		blk := &Item{Kind: kParallel, Mode: pick(r, "", "interleaved", "grouped", "tabs")}
		for k := 0; k < 1+r.Intn(3); k++ {
			it := mk()
			for j := 0; j < 1+r.Intn(6); j++ {
				blk.Items = append(blk.Items, it)
				want[it.ID]++
			}
		}
		if r.Intn(2) == 0 {
			sub := mk()
			name := "sub" + sub.ID
			f.Tasks = append(f.Tasks, &Task{Name: name, Run: []*Item{sub, sub}})
			want[sub.ID] += 2
			for j := 0; j < 2+r.Intn(3); j++ {
				blk.Items = append(blk.Items, &Item{Kind: kTask, Task: name})
			}
		}
		if r.Intn(3) == 0 {
			r.Shuffle(len(blk.Items), func(i, j int) { blk.Items[i], blk.Items[j] = blk.Items[j], blk.Items[i] })
		}
		if r.Intn(3) == 0 {
			blk.Limit = 1 + r.Intn(len(blk.Items))
		}
		run = append(run, blk)
	}
	f.Tasks = append(f.Tasks, &Task{Name: "main", Run: run})
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{"main"}})
	cs.Case(fmt.Sprint(proj.Dump()))
	if !cs.healthy(res, "equal items") {
		return
	}
	var w []string
	for id, k := range want {
		for ; k > 0; k-- {
			w = append(w, id)
		}
	}
	if got := started(res.Events); !same(sorted(w), sorted(got)) {
		cs.Fail("items that are written several times: %s", diffSets(w, got))
		return
	}
	if res.Code != 0 {
		cs.Fail("exit status %d, expected 0\n%s", res.Code, clip(stripSGR(res.Err), 2000))
	}
}

// diamond builds one block whose branches meet in shared tasks in a regular way.
func (cs *Case) diamond() {
	r := cs.R
	g := newGen(r, Prof{})
	f := &File{Path: "Babfile"}
	g.Proj.Main, g.Proj.Files["Babfile"] = "Babfile", f
	ns, nb := 1+r.Intn(3), 2+r.Intn(6)
	cmd := func(ms int, exit int) *Item {
		id := g.id("c")
		it := &Item{Kind: kCmd, ID: id, Cmd: fmt.Sprintf("$R %s s=%d", id, r.Intn(ms+1)), Exit: exit}
		if exit != 0 {
			it.Cmd += fmt.Sprintf(" x=%d", exit)
		}
		return it
	}
	var shared []string
	for i := 0; i < ns; i++ {
		t := &Task{Name: fmt.Sprintf("shared%d", i)}
		exit := 0
		if r.Intn(4) == 0 {
			exit = 3
		}
		t.Run = append(t.Run, cmd(40, 0), cmd(20, exit))
		if i > 0 && r.Intn(2) == 0 {
			t.Run = append([]*Item{{Kind: kTask, Task: shared[r.Intn(i)]}}, t.Run...)
		}
		shared = append(shared, t.Name)
		f.Tasks = append(f.Tasks, t)
	}
	var leaves []string // tasks that depend on shared ones
	for i := 0; i < r.Intn(3); i++ {
		t := &Task{Name: fmt.Sprintf("leaf%d", i), Deps: []string{pick(r, shared...)}, Run: []*Item{cmd(10, 0)}}
		if r.Intn(3) == 0 {
			t.Deps = append([]string{}, shared...)
		}
		leaves = append(leaves, t.Name)
		f.Tasks = append(f.Tasks, t)
	}
	blk := &Item{Kind: kParallel}
	for b := 0; b < nb; b++ {
		t := &Task{Name: fmt.Sprintf("branch%d", b)}
		if r.Intn(2) == 0 {
			t.Run = append(t.Run, cmd(15, 0))
		}
		for k := 0; k < 1+r.Intn(2); k++ {
			ref := &Item{Kind: kTask, Task: pick(r, shared...)}
			if len(leaves) > 0 && r.Intn(3) == 0 {
				in := &Item{Kind: kParallel, Items: []*Item{cmd(10, 0), {Kind: kTask, Task: pick(r, leaves...)}, cmd(5, 0)}}
				t.Run = append(t.Run, in)
			} else if r.Intn(4) == 0 {
				t.Run = append(t.Run, &Item{Kind: kParallel, Items: []*Item{ref, cmd(10, 0)}})
			} else {
				t.Run = append(t.Run, ref)
			}
		}
		t.Run = append(t.Run, cmd(5, 0))
		f.Tasks = append(f.Tasks, t)
		blk.Items = append(blk.Items, &Item{Kind: kTask, Task: t.Name})
	}
	if r.Intn(3) == 0 {
		blk.Items = append(blk.Items, &Item{Kind: kTask, Task: pick(r, shared...)})
	}
	if r.Intn(4) == 0 {
		blk.Limit = 1 + r.Intn(nb)
	}
	f.Tasks = append(f.Tasks, &Task{Name: "main", Run: []*Item{cmd(3, 0), blk, cmd(3, 0)}})
	pl := cs.Place(g.Proj, nil, cs.modelEnv())
	p := pl.M.Execute("main")
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{"main"}})
	cs.Case(fmt.Sprint(g.Proj.Dump()))
	if !cs.healthy(res, "shared tasks") {
		return
	}
	if strings.Contains(res.Err, "circular") {
		cs.Fail("a circular dependency is reported\n%s", ctxOf(p, res))
		return
	}
	if !p.Ambiguous {
		_ = cs.sawCommands(p, res) && cs.sawExit(p, res)
		return
	}
	if !cs.sawExit(p, res) {
		return
	}
	// whether the other items start is open, but what needs the failed task never does
	lost := map[string]bool{"m2": true}
	bads := map[string]bool{}
	for _, t := range f.Tasks {
		bad := t.Run[0].Exit != 0
		for _, d := range t.Deps {
			bad = bad || bads[d]
		}
		bads[t.Name] = bad
		if bad && t.Run[0].Exit == 0 && t.Name != "main" {
			lost[t.Run[0].ID] = true
		}
	}
	seen := map[string]bool{}
	for _, id := range started(res.Events) {
		if lost[id] || seen[id] {
			cs.Fail("%s must not start (again)\n%s", id, ctxOf(p, res))
			return
		}
		seen[id] = true
	}
}

// whenForms tries one condition text against one variable assignment.
func (cs *Case) whenForms() {
	r := cs.R
	f := &File{Path: "Babfile"}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": f}}
	f.Vars = []KV{{"a", trickyWhenValue(r)}, {"b", trickyWhenValue(r)}, {"e", ""}}
	t := &Task{Name: "main"}
	for i := 0; i < 12; i++ {
		ref := pick(r, "${{ a }}", "${{b}}", "${{ e }}", "${{ env.AMB }}", "${{ env.UNSETX }}", "${{ a }}${{ b }}", "${{ a }}-x", "lit", "'${{ a }}'", "\"${{ b }}\"", "$${{ a }}", "x${{ e }}")
		if r.Intn(60) == 0 {
			ref = "${{ undefd }}"
		}
		q := pick(r, "'", `"`)
		lit := pick(r, "prod", "dev", "x", "", "true", "false", " prod", "${{ a }}", "${{ b }}", "$${{ a }}", "a == b", "==", "Prod", "!=")
		if q == `"` && r.Intn(3) == 0 {
			lit = pick(r, "it's", "'prod'", "'")
		}
		w := ""
		switch r.Intn(4) {
		case 0:
			w = pick(r, ref, " "+ref+" ", ref+ref)
		case 1:
			w = pick(r, "false", "true", "FALSE", " false ", "  ", "0", "no", "'false'", "''", `""`, "null", "~", "off", "n", "00", "0.0", "f", "nil", "!true", "!", "not true", "false.", "fa lse", "fALSE", "${{ e }}", "${{e}} ${{ e }}")
		default:
			w = pick(r, "", " ") + ref + pick(r, " ", "", "  ") + pick(r, "==", "!=") + pick(r, " ", "", "  ") + q + lit + q + pick(r, "", " ")
		}
		it := &Item{Kind: kCmd, ID: fmt.Sprintf("c%d", i), Cmd: fmt.Sprintf("$R c%d", i), When: w}
		if r.Intn(5) == 0 {
			it = &Item{Kind: kParallel, Items: []*Item{it}}
			if r.Intn(2) == 0 {
				it.When, it.Items[0].When = w, ""
			}
		}
		t.Run = append(t.Run, it)
	}
	f.Tasks = []*Task{t}
	env := cs.modelEnv()
	amb := pick(r, "prod", "false", "", "x == 'x'", "'prod'")
	env["AMB"] = amb
	pl := cs.Place(proj, nil, env)
	p := pl.M.Execute("main")
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{"main"}, Env: []string{"AMB=" + amb}})
	cs.Case(fmt.Sprint(proj.Dump(), amb))
	if len(p.Steps) > 2 {
		cs.Sample(map[string]any{"case": cs.Name, "vars": f.Vars, "when": t.Run[0].When, "runs": ids(p.Steps)})
	}
	if cs.healthy(res, "conditions") {
		_ = cs.sawCommands(p, res) && cs.sawExit(p, res)
	}
}

func (cs *Case) envCase() {
	r := cs.R
	p := Prof{Files: 2, Tasks: 4, Items: 4, Deps: 0.3, TaskRef: 0.25, Par: 0.25, ParItems: 5, Env: 0.7, Vars: 0.6, Values: oddValue, Sleep: 6, Prompt: 0.03}
	g := newGen(r, p)
	proj := g.Generate()
	// references in env values, and keys bab itself sets
	var each func(f *File, t *Task, kvs []KV)
	each = func(f *File, t *Task, kvs []KV) {
		for i := range kvs {
			vs := g.varsInScope(f, t)
			if t.Name == "" {
				// file-level values are evaluated in every task's scope
				vs = nil
				for _, x := range f.Vars {
					vs = append(vs, x.K)
				}
			}
			if len(vs) > 0 && r.Intn(2) == 0 {
				kvs[i].V += "${{ " + pick(r, vs...) + " }}" + pick(r, "", "$${{ x }}", "-", "${{ env.E_A }}")
			} else if r.Intn(6) == 0 {
				kvs[i].V += "${{ env.E_B }}"
			}
			if r.Intn(12) == 0 {
				kvs[i].K = pick(r, "FORCE_COLOR", "NO_COLOR", "TERM")
			} else if r.Intn(8) == 0 {
				// ones that mean something to bab, the shell or other programs
				kvs[i].K = pick(r, "PATH", "HOME", "LANG", "USER", "SHELL", "XDG_CACHE_HOME", "BAB_NO_UPDATE_CHECK", "TMPDIR", "PS1X", "COLORTERM", "CLICOLOR", "GOMAXPROCS", "EDITOR", "LC_ALL")
			}
		}
	}
	for _, f := range proj.Files {
		each(f, &Task{}, f.Env)
		for _, t := range f.Tasks {
			each(f, t, t.Env)
			for _, it := range flatItems(t.Run) {
				each(f, t, it.Env)
				if it.Kind == kParallel && r.Intn(3) == 0 {
					it.Color = bp(r.Intn(2) == 0)
				}
			}
		}
	}
	dedupEnv(proj)
	amb := map[string]string{"E_A": "ambient a", "E_C": oddAmbient(r), "E_Z": "only ambient", "e_a": "lower", "VENVALL": "1"}
	for _, k := range []string{"BAB_LEVEL", "BAB_X", "BABFILE", "CI", "EMPTY", "_X", "E_b", "TASK", "DEBUG", "SHELL", "EDITOR", "GOFLAGS", "LD_X", "npm_config_x", "E_NUM1", "LC_TIME"} {
		if r.Intn(3) == 0 {
			amb[k] = pick(r, "", "1", "x y", oddAmbient(r))
		}
	}
	osenv := cs.modelEnv()
	var extra []string
	for k, v := range amb {
		osenv[k] = v
		extra = append(extra, k+"="+v)
	}
	pl := cs.Place(proj, g.Dirs, osenv)
	names := pl.M.TaskNames()
	for k := 0; k < 2; k++ {
		name := pick(r, names...)
		plan := pl.M.Execute(name)
		res := cs.Bab(Run{Dir: pl.Root, Args: []string{name}, Env: extra})
		key := ""
		for _, s := range plan.Steps {
			if len(s.Env) > 0 {
				key = fmt.Sprint(proj.Dump(), name)
			}
		}
		cs.Case(key)
		if !cs.healthy(res, "env") {
			return
		}
		n := 0
		shared := map[string]bool{}
		if plan.HasPar {
			shared = plan.sharedRefs()
		}
		for _, s := range plan.Steps {
			e := startOf(res.Events, s.ID)
			if e == nil {
				if plan.Fail {
					continue
				}
				cs.Fail("command %s did not run\n%s", s.ID, ctxOf(plan, res))
				return
			}
			n++
			want := map[string]string{}
			for k, v := range osenv {
				want[k] = v
			}
			delete(want, "VENVALL")
			delete(want, "VLOG")
			if s.Par {
				// the colour variables go to commands whose output bab relays
				if s.Output {
					if s.Color {
						want["FORCE_COLOR"] = "1"
					} else {
						want["TERM"], want["NO_COLOR"] = "dumb", "1"
					}
				}
			}
			for k, v := range s.Env {
				want[k] = v
			}
			got := map[string]string{}
			for k, v := range e.Env {
				switch k {
				case "PWD", "OLDPWD", "_", "SHLVL": // the shell's own
				default:
					got[k] = v
				}
			}
			if shared[s.Task.Name] {
				// which reference runs a shared task first decides its colours
				for _, k := range []string{"FORCE_COLOR", "NO_COLOR", "TERM"} {
					delete(want, k)
					delete(got, k)
				}
			}
			if d := diffMaps(want, got); d != "" {
				cs.Fail("command %s of task %q: environment differs: %s\n%s", s.ID, s.Task.Name, d, ctxOf(plan, res))
				return
			}
		}
		cs.Obs("command environments compared", n)
		if n > 1 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "command": plan.Steps[0].ID, "env": plan.Steps[0].Env})
		}
	}
}

func oddAmbient(r *randT) string {
	return pick(r, "x", "${{ vA }}", "a=b", "line1\nline2", "$${{ q }}", "'\"`$(x)")
}

func dedupEnv(p *Project) {
	dd := func(kvs []KV) []KV {
		seen := map[string]bool{}
		var out []KV
		for _, x := range kvs {
			if !seen[x.K] {
				seen[x.K] = true
				out = append(out, x)
			}
		}
		return out
	}
	for _, f := range p.Files {
		f.Env = dd(f.Env)
		for _, t := range f.Tasks {
			t.Env = dd(t.Env)
			for _, it := range flatItems(t.Run) {
				it.Env = dd(it.Env)
			}
		}
	}
}

func diffMaps(want, got map[string]string) string {
	var out []string
	for k, v := range want {
		if g, ok := got[k]; !ok {
			out = append(out, fmt.Sprintf("%s is missing (expected %q)", k, v))
		} else if g != v {
			out = append(out, fmt.Sprintf("%s=%q, expected %q", k, g, v))
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			out = append(out, fmt.Sprintf("%s=%q should not be set", k, g))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (cs *Case) dirCase() {
	r := cs.R
	p := Prof{Files: 3, Tasks: 4, Items: 3, Deps: 0.3, TaskRef: 0.25, Par: 0.15, Dir: 0.5, BadDir: 0.03, OddDir: 0.25, Vars: 0.5, Values: func(r *randT) string { return pick(r, "sub", "sub/deep", ".", "x.y", "sub/../x.y", "") }}
	g := newGen(r, p)
	proj := g.Generate()
	root := filepath.Join(cs.Dir, "proj")
	special := func(f *File, t *Task, d *string) {
		if *d == "" || *d == "nonexistent" || strings.HasPrefix(*d, "/nonexistent") {
			return
		}
		switch r.Intn(10) {
		case 6:
			*d = "dangling"
		case 0:
			*d = filepath.Join(root, "abs")
			g.Dirs = append(g.Dirs, "abs")
		case 1:
			if t != nil {
				vs := g.varsInScope(f, t)
				if len(vs) > 0 {
					for _, x := range []string{"sub", "sub/deep", "x.y", "sub/x.y", "sub/sub"} {
						g.Dirs = append(g.Dirs, filepath.Join(filepath.Dir(f.Path), x), filepath.Join(filepath.Dir(f.Path), "sub", x))
					}
					*d = pick(r, "", "", "sub/", "./") + "${{ " + pick(r, vs...) + " }}" + pick(r, "", "", "", "/..", "/../x.y", "/", "//../sub", "/.")
				}
			}
		case 2:
			*d = "afile"
		case 3:
			*d = "${{ env.DVAR }}"
			g.Dirs = append(g.Dirs, filepath.Join(filepath.Dir(f.Path), "from env"))
		case 4:
			*d = "../sibling"
			g.Dirs = append(g.Dirs, filepath.Join(filepath.Dir(f.Path), "../sibling"))
		case 5:
			*d = "a $${{ b }} c/é"
			g.Dirs = append(g.Dirs, filepath.Join(filepath.Dir(f.Path), "a ${{ b }} c/é"))
		}
	}
	for _, f := range proj.Files {
		special(f, nil, &f.Dir)
		for _, t := range f.Tasks {
			special(f, t, &t.Dir)
			for _, it := range flatItems(t.Run) {
				if it.Kind == kCmd {
					special(f, t, &it.Dir)
				}
			}
		}
	}
	osenv := cs.modelEnv()
	osenv["DVAR"] = "from env"
	for _, f := range proj.Files {
		_ = mkfile(filepath.Join(root, filepath.Dir(f.Path), "afile"))
		_ = os.Symlink("nowhere", filepath.Join(root, filepath.Dir(f.Path), "dangling"))
	}
	pl := cs.Place(proj, g.Dirs, osenv)
	if r.Intn(3) == 0 { // directories reached through symbolic links
		sort.Strings(g.Dirs)
		for _, d := range g.Dirs {
			p := filepath.Join(root, d)
			if st, err := os.Lstat(p); err != nil || !st.IsDir() || p == root || r.Intn(2) == 0 || !strings.HasPrefix(p, cs.Dir+"/") {
				continue
			}
			if os.Rename(p, p+" itself") == nil {
				_ = os.Symlink(pick(r, filepath.Base(p)+" itself", p+" itself"), p)
				cs.Obs("linked directories", 1)
			}
		}
	}
	names := pl.M.TaskNames()
	for k := 0; k < 2; k++ {
		name := pick(r, names...)
		plan := pl.M.Execute(name)
		run := cs.invoke(pl, name)
		run.Env = []string{"DVAR=from env"}
		res := cs.Bab(run)
		key := ""
		for _, s := range plan.Steps {
			if s.Dir != pl.Root {
				key = fmt.Sprint(proj.Dump(), name, run.Dir)
			}
		}
		cs.Case(key)
		if !cs.healthy(res, "dir") {
			return
		}
		if !plan.Ambiguous {
			if !cs.sawCommands(plan, res) || !cs.sawExit(plan, res) {
				return
			}
		}
		for _, s := range plan.Steps {
			e := startOf(res.Events, s.ID)
			if e == nil {
				continue
			}
			want, err := filepath.EvalSymlinks(s.Dir)
			if err != nil {
				want = s.Dir
			}
			cs.Obs("working directories compared", 1)
			in, err := filepath.EvalSymlinks(e.Cwd)
			if err != nil {
				in = e.Cwd
			}
			if in != want {
				cs.Fail("command %s of task %q (defined in %s): ran in %s, expected %s\n%s", s.ID, s.Task.Name, s.Task.Src.Path, e.Cwd, want, ctxOf(plan, res))
				return
			}
			if e.Env["PWD"] != "" && e.Env["PWD"] != e.Cwd && e.Env["PWD"] != s.Dir {
				cs.Fail("command %s: PWD=%s in %s", s.ID, e.Env["PWD"], e.Cwd)
				return
			}
		}
		if len(plan.Steps) > 1 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "command": plan.Steps[0].ID, "dir": plan.Steps[0].Dir, "started in": run.Dir})
		}
	}
}
