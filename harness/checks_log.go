package main

// C35: log items.

import (
	"fmt"
	"regexp"
	"strings"
	"time"
)

func init() {
	register("C35", "random projects rich in log items of every level at every position (tasks, dependencies, references, blocks, included files), run with and without --verbose, with silent and output set at random and commands printing marked lines in between; every message must appear exactly once with its level, debug messages exactly with --verbose, on standard error and in its place among the commands' lines outside blocks, under its item's label within one; non-trivial when a log item is reached",
		func(c *Ctx) {
			c.Bab()
			c.Each("seq", c.N(400, 8000), func(cs *Case) { cs.logCase(0) })
			c.Each("par", c.N(300, 6000), func(cs *Case) { cs.logCase(0.3) })
		}, "messages of one line; the exact look of the level is not judged beyond its name")
}

func (cs *Case) logCase(par float64) {
	r := cs.R
	p := Prof{Files: 2, Tasks: 5, Items: 5, Deps: 0.45, TaskRef: 0.2, Par: par, Log: 0.4, When: 0.08, TaskWhen: 0.04, Plat: 0.05, Vars: 0.4, Silent: 0.25, Output: 0.2, Fail: 0.03, Undef: 0.01, Alias: 0.2, Limit: 0.3, Color: 0.2, Modes: []string{"", "interleaved", "grouped", "tabs"},
		Values: func(r *randT) string { return pick(r, "prod", "a b", "it's", `"q"`, "é 日本", "50%d", "x=1") },
		CmdText: func(g *Gen, id string, f *File, t *Task) string {
			return " " + pick(g.R, "o", "e") + "=OUT-" + id + "."
		}}
	g := newGen(r, p)
	proj := g.Generate()
	for _, f := range proj.Files {
		for _, t := range f.Tasks {
			for _, it := range flatItems(t.Run) {
				if it.Kind != kLog {
					continue
				}
				it.Level = pick(r, "", "debug", "info", "warn", "error")
				it.Log = it.ID + "." + pick(r, "", " done", " 100%", " key=value", ` "quoted" it's`, " é日本 😀", " $HOME `x`", " a: b # c", " INFO", " -n", " {{x}}", " %s %d")
				if vs := g.varsInScope(f, t); len(vs) > 0 && r.Intn(3) == 0 {
					it.Log += " <${{ " + pick(r, vs...) + " }}>"
				}
			}
		}
	}
	pl := cs.Place(proj, g.Dirs, cs.modelEnv())
	names := pl.M.TaskNames()
	name := pick(r, names...)
	for i := 0; i < 4; i++ {
		n := pick(r, names...)
		if len(pl.M.Execute(n).Logs) > len(pl.M.Execute(name).Logs) {
			name = n
		}
	}
	plan := pl.M.Execute(name)
	run := cs.invoke(pl, cs.taskArg(pl, name))
	verbose := r.Intn(2) == 0
	if verbose {
		run.Args = append([]string{pick(r, "-v", "--verbose")}, run.Args...)
	}
	run.Merge = r.Intn(2) == 0
	run.Timeout = 40 * time.Second
	res := cs.Bab(run)
	key := ""
	if len(plan.Logs) > 0 {
		key = fmt.Sprint(proj.Dump(), name, verbose)
	}
	cs.Case(key)
	if !cs.healthy(res, "logs") || plan.Ambiguous {
		return
	}
	if res.Code != b2i(plan.Fail) {
		cs.Fail("exit status %d, expected failure: %v (%s)\n%s", res.Code, plan.Fail, plan.FailWhy, ctxOf(plan, res))
		return
	}
	// which item a line belongs to
	type seen struct {
		step   *Step
		stdout bool
		line   string
	}
	byMark := map[string]*Step{}
	for _, s := range plan.All {
		if s.Item.Kind == kLog {
			byMark[s.ID+"."] = s
		} else {
			byMark["OUT-"+s.ID+"."] = s
		}
	}
	logLine := regexp.MustCompile(`^((?:\[.*\] )?)(\w*) ?((log\d+\.).*)$`)
	cmdLine := regexp.MustCompile(`^(?:\[.*\] )?(OUT-c\d+\.)$`)
	var got []seen
	scan := func(text string, stdout bool) bool {
		for _, l := range lines(stripSGR(text)) {
			if m := cmdLine.FindStringSubmatch(l); m != nil {
				got = append(got, seen{byMark[m[1]], stdout, l})
				continue
			}
			m := logLine.FindStringSubmatch(l)
			if m == nil {
				continue
			}
			s := byMark[m[4]]
			if s == nil {
				cs.Fail("a log item that is not reached shows: %q\n%s", l, ctxOf(plan, res))
				return false
			}
			level := s.Item.Level
			if level == "" {
				level = "info"
			}
			switch name := strings.ToLower(m[2]); {
			case len(name) < 3 || !strings.HasPrefix(level, name) && !strings.HasPrefix(name, level):
				cs.Fail("log item %s of level %q shows as %q\n%s", s.ID, level, l, ctxOf(plan, res))
				return false
			case m[3] != s.Text && strings.TrimRight(m[3], " ") != strings.TrimRight(s.Text, " "):
				cs.Fail("log item %s shows %q, expected the text %q\n%s", s.ID, l, s.Text, ctxOf(plan, res))
				return false
			case s.Par != (m[1] != ""):
				cs.Fail("log item %s (in a block: %v) shows %q\n%s", s.ID, s.Par, l, ctxOf(plan, res))
				return false
			case !s.Par && stdout && !run.Merge:
				cs.Fail("log item %s shows on standard output: %q\n%s", s.ID, l, ctxOf(plan, res))
				return false
			}
			got = append(got, seen{s, stdout, l})
		}
		return true
	}
	if !scan(res.Out, true) || !run.Merge && !scan(res.Err, false) {
		return
	}
	count := map[*Step]int{}
	for _, g := range got {
		count[g.step]++
	}
	shows := func(s *Step) bool {
		if s.Item.Kind != kLog {
			return s.Output
		}
		return s.Item.Level != "debug" || verbose
	}
	for _, s := range plan.Logs {
		if want := b2i(shows(s)); count[s] != want {
			cs.Fail("log item %s (level %q, in a block: %v, --verbose: %v) shows %d times, expected %d\n%s", s.ID, s.Item.Level, s.Par, verbose, count[s], want, ctxOf(plan, res))
			return
		}
		cs.Obs("log items judged", 1)
	}
	if !plan.HasPar && run.Merge {
		var w, h []string
		for _, s := range plan.All {
			if shows(s) {
				w = append(w, s.ID)
			}
		}
		for _, g := range got {
			h = append(h, g.step.ID)
		}
		if !same(w, h) {
			cs.Fail("commands and log items show in the order %v, expected %v\n%s", h, w, ctxOf(plan, res))
			return
		}
		cs.Obs("orders compared", 1)
		if len(w) > 4 {
			cs.Sample(map[string]any{"case": cs.Name, "task": name, "order": w, "verbose": verbose})
		}
	}
}
