package main

// C34: the display modes of parallel blocks on a terminal.

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
)

// topBlocks returns the blocks of the project.
func (p *Project) blocks() []*Item {
	var out []*Item
	var walk func(its []*Item)
	walk = func(its []*Item) {
		for _, it := range its {
			if it.Kind == kParallel {
				out = append(out, it)
			}
			walk(it.Items)
		}
	}
	for _, path := range sortedKeys(p.Files) {
		for _, t := range p.Files[path].Tasks {
			walk(t.Run)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	return sorted(out)
}

// summaries returns the summary lines a terminal still shows.
func summaries(all []string) []string {
	var out []string
	for _, l := range all {
		if strings.HasPrefix(l, "● Parallel [") {
			out = append(out, strings.TrimRight(l, " "))
		}
	}
	return out
}

func wantSummary(b BlockSum) string {
	var parts []string
	for i, l := range b.Labels {
		parts = append(parts, l+" "+map[bool]string{true: "✓", false: "✗"}[b.OK[i]])
	}
	return "● Parallel [" + strings.Join(parts, "  ") + "]"
}

// terminalLeft tells what bab left changed on the terminal.
func (p *Pty) terminalLeft() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	var bad []string
	if p.before != p.after {
		bad = append(bad, fmt.Sprintf("settings changed (lflag %x, was %x)", p.after.Lflag, p.before.Lflag))
	}
	if p.vt.inAlt {
		bad = append(bad, "alternate screen left on")
	}
	if p.vt.CursorHid {
		bad = append(bad, "cursor left hidden")
	}
	if p.vt.Kitty != 0 {
		bad = append(bad, "keyboard protocol left on")
	}
	for m, on := range p.vt.Modes {
		if on && m != "25" && m != "7" {
			bad = append(bad, "private mode "+m+" left on")
		}
	}
	return strings.Join(sorted(bad), ", ")
}

// disturb presses keys without meaning for the run and changes the window size.
func (p *Pty) disturb(cs *Case, stop <-chan struct{}) {
	r := newRand(cs.R.Int63())
	for {
		select {
		case <-stop:
			return
		case <-p.done:
			return
		case <-time.After(time.Duration(r.Intn(12000)) * time.Microsecond):
		}
		if r.Intn(3) == 0 {
			p.Resize(pick(r, 3, 8, 24, 50, 1), pick(r, 20, 80, 200, 9, 2))
		} else {
			p.Send(pick(r, "\t", "\x1b[Z", "\x1b[A", "\x1b[B", "\x1b[5~", "\x1b[6~", "j", "k", "q", "x", "\r", " ", "\x1b", "\x04", "G", "\x1b[200~paste\x1b[201~", "\x1b[<0;5;5M"))
			cs.Obs("keys pressed during the run", 1)
		}
	}
}

func (cs *Case) modeCase() {
	r := cs.R
	p := Prof{Files: 1, Tasks: 4, Items: 3, Deps: 0.25, TaskRef: 0.25, Par: 0.5, ParItems: 5, Log: 0.08, Fail: 0.1, Sleep: 25, Limit: 0.4, When: 0.1, Plat: 0.08, Silent: 0.15, Output: 0.1}
	p.CmdText = func(g *Gen, id string, f *File, t *Task) string {
		s := ""
		for i := g.R.Intn(9); i > 0; i-- {
			s += fmt.Sprintf(" %s='%s line %d%s'", pick(g.R, "o", "e"), id, i, pick(g.R, "", "", " é日本😀", strings.Repeat(" long", 60)))
		}
		return s
	}
	g := newGen(r, p)
	proj := g.Generate()
	pl := cs.Place(proj, g.Dirs, cs.modelEnv())
	name := ""
	for i := 0; i < 12; i++ {
		n := pick(r, pl.M.TaskNames()...)
		if name == "" || len(pl.M.Execute(n).Blocks) > len(pl.M.Execute(name).Blocks) {
			name = n
		}
	}
	blocks := proj.blocks()
	var plain *Res
	for _, mode := range []string{"interleaved", "grouped", "tabs", "mixed", "no terminal"} {
		for _, b := range blocks {
			b.Mode = mode
			if mode == "mixed" || mode == "no terminal" {
				b.Mode = pick(r, "", "interleaved", "grouped", "tabs")
			}
		}
		_ = proj.Write(pl.Root, nil)
		plan := pl.M.Execute(name)
		run := Run{Dir: pl.Root, Args: []string{name}}
		var res *Res
		var left string
		var all []string
		noisy := r.Intn(2) == 0 // resizes garble what stays on the screen
		if mode == "no terminal" {
			res = cs.Bab(run)
		} else {
			if mode == "mixed" && r.Intn(3) == 0 {
				f, err := os.Open(os.DevNull)
				if err == nil {
					defer f.Close()
					run.StdinF = f
				}
			}
			pt, err := cs.PtyStart(run, 60, 230)
			if err != nil {
				cs.Inconclusive("no terminal")
				return
			}
			stop := make(chan struct{})
			fin := make(chan struct{})
			go func() {
				if noisy {
					pt.disturb(cs, stop)
				}
				close(fin)
			}()
			res = pt.Wait(40 * time.Second)
			close(stop)
			<-fin
			left = pt.terminalLeft()
			all = pt.vt.All()
		}
		key := ""
		if plan.HasPar {
			key = mode + fmt.Sprint(proj.Dump(), name)
		}
		cs.Case(key)
		what := fmt.Sprintf("mode %s, task %q", mode, name)
		if !cs.healthy(res, what) {
			return
		}
		if plan.Ambiguous {
			if !cs.sawExit(plan, res) {
				return
			}
		} else if !cs.sawCommands(plan, res) || !cs.sawExit(plan, res) {
			return
		}
		if left != "" {
			cs.Fail("%s: %s", what, left)
			return
		}
		if mode == "no terminal" || mode == "interleaved" {
			if s := summaries(lines(stripSGR(res.Out))); len(s) > 0 {
				cs.Fail("%s: summary shown: %v", what, s)
				return
			}
		}
		if mode == "no terminal" && !plan.Ambiguous && len(plan.sharedRefs()) == 0 {
			// the display falls back to interleaved: same lines
			for _, b := range blocks {
				b.Mode = "interleaved"
			}
			_ = proj.Write(pl.Root, nil)
			plain = cs.Bab(run)
			a, b := sorted(lines(stripSGR(res.Out))), sorted(lines(stripSGR(plain.Out)))
			if !plan.Fail && !same(a, b) {
				cs.Fail("%s: standard output differs from interleaved: %s", what, firstDiff(b, a))
				return
			}
			if a, b = sorted(lines(stripSGR(res.Err))), sorted(lines(stripSGR(plain.Err))); !plan.Fail && !same(a, b) {
				cs.Fail("%s: standard error differs from interleaved: %s", what, firstDiff(b, a))
				return
			}
		}
		if mode != "interleaved" && mode != "no terminal" && !noisy && !plan.Ambiguous {
			var want []string
			for _, b := range plan.Blocks {
				if !b.Par && !b.Silent && (b.Item.Mode == "grouped" || b.Item.Mode == "tabs") {
					want = append(want, wantSummary(b))
				}
			}
			if got := summaries(all); !same(want, got) {
				cs.Fail("%s: summaries shown\n  %s\nexpected\n  %s\n%s", what, strings.Join(got, "\n  "), strings.Join(want, "\n  "), strings.Join(all, "\n"))
				return
			}
			cs.Obs("summaries judged", len(want))
		}
	}
}

// ---- the live display ----

type liveItem struct {
	id, label string
	lines     []string
	last      string // what it prints when it is released
	started   bool
	done      bool
	failed    bool
	cancelled bool
}

func (it *liveItem) icon(cancelled bool) string {
	switch {
	case it.cancelled:
		return "⊘"
	case it.failed:
		return "✗"
	case it.done:
		return "✓"
	case it.started:
		return "◦"
	}
	return "∙"
}

// hasRun tells whether want appears as consecutive lines.
func hasRun(screen, want []string) bool {
	for i := 0; i+len(want) <= len(screen); i++ {
		ok := true
		for j := range want {
			if screen[i+j] != want[j] {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func cut(s string, w int) string {
	n := 0
	for i, r := range s {
		n += runeWidth(r)
		if n > w {
			return s[:i]
		}
	}
	return s
}

// liveCase releases the commands of a block one at a time and compares what the
// terminal shows in between, then lets the block end or presses Ctrl+C.
func (cs *Case) liveCase() {
	r := cs.R
	mode := pick(r, "grouped", "tabs")
	n := 1 + r.Intn(5)
	limit := 0
	if r.Intn(2) == 0 {
		limit = 1 + r.Intn(n)
	}
	blk := &Item{Kind: kParallel, Mode: mode, Limit: limit}
	items := make([]*liveItem, n)
	byID := map[string]*liveItem{}
	stopAt, slow := -1, -1
	if r.Intn(3) == 0 {
		if stopAt = r.Intn(n); r.Intn(2) == 0 {
			slow = r.Intn(n) // its output stays open for a while after the cancellation
		}
	}
	for i := range items {
		it := &liveItem{id: fmt.Sprintf("c%d", i), label: fmt.Sprintf("%s%d", pick(r, "job", "é", "a b ", "日本"), i)}
		text := "$R " + it.id
		if i == slow {
			text = "setsid sleep 3 & " + text
		}
		if r.Intn(5) == 0 { // more than the screen holds
			k := 45 + r.Intn(60)
			text = fmt.Sprintf("for i in $(seq %d); do echo \"%s counts $i\"; done; ", k, it.id) + text
			for j := 1; j <= k; j++ {
				it.lines = append(it.lines, fmt.Sprintf("%s counts %d", it.id, j))
			}
		}
		for k := r.Intn(9); k > 0; k-- {
			l := fmt.Sprintf("%s says %d%s", it.id, k, pick(r, "", "", "", " é日本", " "+strings.Repeat("wide ", 40)))
			text += fmt.Sprintf(" %s='%s'", pick(r, "o", "e"), l)
			it.lines = append(it.lines, strings.TrimRight(l, " "))
		}
		text += " g"
		if r.Intn(3) == 0 { // its line ends with the command
			it.last = pick(r, it.id+" ends", "."+it.id+" é")
			text += fmt.Sprintf(" %s='%s'", pick(r, "o", "e", "on", "en"), it.last)
		}
		items[i] = it
		byID[it.id] = it
		c := &Item{Kind: kCmd, ID: it.id, Cmd: text, Label: it.label, Silent: bp(true)}
		blk.Items = append(blk.Items, c)
	}
	main := &Task{Name: "main", Run: []*Item{blk, {Kind: kLog, ID: "note", Log: "afterwards."}, {Kind: kCmd, ID: "after", Cmd: "$R after"}}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	g, err := cs.gates()
	if err != nil {
		cs.Inconclusive("no socket")
		return
	}
	defer g.Close()
	rows, cols := 24+r.Intn(30), 60+r.Intn(120)
	if mode == "grouped" {
		rows = 50
	}
	pt, err := cs.PtyStart(Run{Dir: pl.Root, Args: []string{name}, Env: []string{"VSOCK=" + g.Path}}, rows, cols)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	active := 0
	var shown []string
	look := func() string {
		var want [][]string
		if mode == "grouped" {
			var all []string
			for _, it := range items {
				b := []string{cut("┌─ "+it.label+" "+it.icon(false), cols)}
				tail := it.lines
				if !it.started && !it.done {
					tail = nil
				}
				if len(tail) > 5 {
					tail = tail[len(tail)-5:]
				}
				for _, l := range tail {
					b = append(b, strings.TrimRight(cut("│  "+l, cols), " "))
				}
				if !it.done && len(tail) > 0 {
					for k := len(tail); k < 5; k++ {
						b = append(b, "│")
					}
				}
				all = append(all, append(b, "└")...)
			}
			want = append(want, all)
		} else {
			row := ""
			for _, it := range items {
				row += "│ " + it.icon(false) + " " + it.label + " │"
			}
			if runesWidth(row) <= cols-1 {
				want = append(want, []string{row})
			}
			it := items[active]
			var body []string
			switch {
			case !it.started:
				body = []string{"Waiting…"}
			case len(it.lines) == 0:
				body = []string{"Running…"}
			default:
				body = it.lines
				if h := rows - 4; len(body) > h {
					body = body[len(body)-h:]
				}
			}
			for i, l := range body {
				body = append(append([]string{}, body[:i]...), append([]string{l}, body[i+1:]...)...)
				w := cols - 2
				l = cut(l, w)
				body[i] = "│" + l + strings.Repeat(" ", w-runesWidth(l)) + "│"
			}
			want = append(want, body)
		}
		ok := pt.WaitFor(8*time.Second, func(s []string) bool {
			shown = s
			for _, w := range want {
				if !hasRun(s, w) {
					return false
				}
			}
			return true
		})
		cs.Obs("screens compared", 1)
		if ok {
			return ""
		}
		var b strings.Builder
		for _, w := range want {
			b.WriteString(strings.Join(w, "\n") + "\n--\n")
		}
		return fmt.Sprintf("mode %s, limit %d, screen %dx%d: the terminal shows\n%s\nexpected to contain\n%s", mode, limit, rows, cols, strings.TrimRight(strings.Join(shown, "\n"), "\n"), b.String())
	}
	var held []arrival
	bad := ""
	left := n
	finish := func() {
		for _, a := range held {
			a.release(0)
		}
		go func() {
			for {
				select {
				case a := <-g.ch:
					a.release(0)
				case <-pt.done:
					return
				}
			}
		}()
	}
	cancelled := false
	for left > 0 && bad == "" {
		want := left
		if limit > 0 {
			want = min(want, limit)
		}
		for len(held) < want && bad == "" {
			select {
			case a := <-g.ch:
				if byID[a.id] == nil {
					bad = "unexpected command " + a.id
					break
				}
				byID[a.id].started = true
				held = append(held, a)
			case <-pt.done:
				bad = "bab ended although " + fmt.Sprint(left) + " items were left"
			case <-time.After(20 * time.Second):
				bad = fmt.Sprintf("%d commands running after 20 s, expected %d", len(held), want)
			}
		}
		if bad != "" {
			break
		}
		if mode == "tabs" {
			for k := r.Intn(4); k > 0; k-- {
				if r.Intn(3) == 0 {
					pt.Send("\x1b[Z")
					active = (active + n - 1) % n
				} else {
					pt.Send("\t")
					active = (active + 1) % n
				}
			}
		}
		if bad = look(); bad != "" {
			break
		}
		if it := items[active]; mode == "tabs" && it.started && len(it.lines) > rows-4 {
			// the lines above can be scrolled to
			for k := 0; k < len(it.lines)/(rows-4)+1; k++ {
				pt.Send("\x1b[5~")
			}
			var seen []string
			if !pt.WaitFor(8*time.Second, func(s []string) bool {
				seen = s
				return hasRunPre(s, []string{"│" + cut(it.lines[0], cols-2) + "\x00", "│" + cut(it.lines[1], cols-2) + "\x00"})
			}) {
				bad = fmt.Sprintf("tab %d of %d, screen %dx%d: scrolled up by %d pages, the first of %d lines (%q) is not shown\n%s", active, n, rows, cols, len(it.lines)/(rows-4)+1, len(it.lines), it.lines[0], strings.Join(seen, "\n"))
				break
			}
			for k := 0; k < len(it.lines)/(rows-4)+1; k++ {
				pt.Send("\x1b[6~")
			}
			if bad = look(); bad != "" {
				break
			}
			cs.Obs("tabs scrolled back", 1)
		}
		if n-left == stopAt {
			pt.Send("\x03")
			for _, it := range items {
				if !it.done {
					it.cancelled = true
				}
			}
			cancelled = true
			// while the display stays, what had ended before is still shown as it ended
			wrong, seen := "", 0
			pt.WaitFor(20*time.Second, func(s []string) bool {
				seen++
				for _, l := range s {
					if strings.HasPrefix(l, "● ") {
						continue
					}
					for _, it := range items {
						if it.done && (strings.HasPrefix(l, "┌─ "+it.label+" ⊘") || strings.Contains(l, "│ ⊘ "+it.label+" ")) {
							wrong = "after ^C item " + it.label + ", which had ended, is shown as cancelled\n" + strings.Join(s, "\n")
						}
					}
				}
				select {
				case <-pt.done:
					return true
				default:
					return wrong != ""
				}
			})
			cs.Obs("screens watched while a block was cancelled", seen)
			bad = wrong
			break
		}
		i := r.Intn(len(held))
		a := held[i]
		held = append(held[:i], held[i+1:]...)
		code := pick(r, 0, 0, 0, 1, 3)
		it := byID[a.id]
		it.done, it.failed = true, code != 0
		if it.last != "" {
			it.lines = append(it.lines, it.last)
		}
		a.release(code)
		left--
	}
	if !cancelled {
		finish()
	}
	res := pt.Wait(20 * time.Second)
	cs.Case(fmt.Sprint(proj.Dump(), rows, cols, cs.I))
	if bad != "" {
		cs.Fail("%s", bad)
		return
	}
	what := fmt.Sprintf("mode %s, cancelled %v", mode, cancelled)
	if !cs.healthy(res, what) {
		return
	}
	if s := pt.terminalLeft(); s != "" {
		cs.Fail("%s: %s", what, s)
		return
	}
	failed := false
	var parts []string
	for _, it := range items {
		failed = failed || it.failed
		parts = append(parts, it.label+" "+it.icon(false))
	}
	want := "● Parallel [" + strings.Join(parts, "  ") + "]"
	if runesWidth(want) <= cols {
		if got := summaries(pt.vt.All()); len(got) != 1 || got[0] != want {
			cs.Fail("%s: summary %v, expected %s\n%s", what, got, want, strings.Join(pt.vt.All(), "\n")+fmt.Sprintf("\nraw %q", res.Out[max(0, len(res.Out)-1500):]))
			return
		}
		cs.Obs("summaries judged", 1)
	}
	ran := startOf(res.Events, "after") != nil
	if ran != (!failed && !cancelled) {
		cs.Fail("%s: item after the block run: %v, an item failed: %v", what, ran, failed)
		return
	}
	if d := said(pt.vt.All(), cancelled, failed); d != "" {
		cs.Fail("%s: %s\n%s", what, d, strings.Join(pt.vt.All(), "\n"))
		return
	}
	if !cancelled && res.Code != b2i(failed) {
		cs.Fail("%s: exit status %d, an item failed: %v", what, res.Code, failed)
	}
}

func runesWidth(s string) int {
	n := 0
	for _, r := range s {
		n += runeWidth(r)
	}
	return n
}

// suspended: the size of the window changes and signals arrive that end nothing.
func (cs *Case) winchStorm() {
	r := cs.R
	blk := &Item{Kind: kParallel, Mode: pick(r, "grouped", "tabs")}
	for i := 0; i < 4; i++ {
		id := fmt.Sprintf("c%d", i)
		blk.Items = append(blk.Items, &Item{Kind: kCmd, ID: id, Label: id, Cmd: fmt.Sprintf("for i in 1 2 3 4 5 6 7 8 9; do echo %s $i; sleep 0.0%d; done; $R %s", id, 1+r.Intn(4), id)})
	}
	main := &Task{Name: "main", Run: []*Item{blk}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	pt, err := cs.PtyStart(Run{Dir: pl.Root, Args: []string{name}}, 24, 80)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	stop := make(chan struct{})
	fin := make(chan struct{})
	go func() {
		defer close(fin)
		rr := newRand(r.Int63())
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rr.Intn(2000)) * time.Microsecond):
			}
			pt.Resize(rr.Intn(60), rr.Intn(200))
			_ = syscall.Kill(pt.Cmd.Process.Pid, syscall.SIGWINCH)
			cs.Obs("resizes", 1)
		}
	}()
	res := pt.Wait(30 * time.Second)
	close(stop)
	<-fin
	cs.Case(cs.Name + fmt.Sprint(cs.Seed))
	if !cs.healthy(res, "resizing") {
		return
	}
	if got := sorted(started(res.Events)); res.Code != 0 || !same(got, []string{"c0", "c1", "c2", "c3"}) {
		cs.Fail("resizing: exit status %d, commands run %v", res.Code, got)
		return
	}
	if s := pt.terminalLeft(); s != "" {
		cs.Fail("resizing: %s", s)
	}
}

func init() {
	register("C34", "random projects with parallel blocks run on a terminal in every display mode, while keys are pressed and the window is resized, and without one; commands, order and exit status must be those of the reference semantics, the summary lines left on the emulated screen must mark every item as it ended, the terminal must be as before, and without a terminal the output must equal interleaved; blocks, also blocks in blocks, whose commands wait at gates are compared with the live screen after every step; non-trivial when a block runs",
		func(c *Ctx) {
			c.Bab()
			c.EachP("modes", c.N(200, 1500), 12, func(cs *Case) { cs.modeCase() })
			c.EachP("live", c.N(260, 2000), 12, func(cs *Case) { cs.liveCase() })
			c.EachP("nested", c.N(200, 2000), 12, func(cs *Case) { cs.liveNested() })
			c.EachP("resize", c.N(40, 300), 12, func(cs *Case) { cs.winchStorm() })
		}, "the terminal emulator of the harness shows what a real terminal shows", "summaries are judged in runs without window changes")
}
