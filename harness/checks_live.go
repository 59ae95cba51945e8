package main

// C34: the live display of blocks whose items run blocks themselves.

import (
	"fmt"
	"strings"
	"time"
)

// liveNode is an item of a block, or a step of a task that is an item.
type liveNode struct {
	id, label string
	text      []string // what a command prints
	up        *liveNode
	leaf      bool
	step      bool // a command that is a step of its task
	block     bool // a block that is a step of its task
	silent    bool
	limit     int
	steps     []*liveNode // of a task
	kids      []*liveNode // of a block
	at        int         // the step a task is at

	started, done, failed, cancelled bool
	lines                            []string
	shown                            []*liveNode // kids shown below the item
}

func (n *liveNode) icon() string {
	it := liveItem{started: n.started, done: n.done, failed: n.failed, cancelled: n.cancelled}
	return it.icon(false)
}

// need is the number of commands that wait at their gates.
func (n *liveNode) need() int {
	switch {
	case n.done:
		return 0
	case n.leaf:
		return 1
	case n.block:
		c, left := 0, 0
		for _, k := range n.kids {
			c += k.need()
			if !k.done {
				left++
			}
		}
		if n.limit > 0 {
			return min(n.limit, left)
		}
		return c
	}
	return n.steps[n.at].need()
}

// rename puts a namespace before the names of the tasks.
func (n *liveNode) rename(ns string) {
	if !n.leaf && !n.block {
		n.id = ns + n.id
	}
	for _, k := range append(append([]*liveNode{}, n.kids...), n.steps...) {
		k.rename(ns)
	}
}

// arrived records that a command is running.
func (n *liveNode) arrived() {
	n.started = true
	if !n.step {
		n.lines = n.text
	} else {
		n.up.lines = append(n.up.lines, n.text...)
	}
	for p := n.up; p != nil; p = p.up {
		// a block that is the first step clears the header
		if !p.started && !p.block && !p.silent && !p.steps[0].block {
			p.lines = append([]string{"▶ " + p.id}, p.lines...)
		}
		p.started = true
	}
}

// enter starts the step a task is at.
func (n *liveNode) enter() {
	if s := n.steps[n.at]; s.block {
		n.lines, n.shown = nil, s.kids
		for _, k := range s.kids {
			if !k.leaf {
				k.enter()
			}
		}
	}
}

func (n *liveNode) end(failed bool) {
	n.done, n.failed = true, failed
	p := n.up
	if p == nil {
		return
	}
	if p.block {
		bad := false
		for _, k := range p.kids {
			if !k.done {
				return
			}
			bad = bad || k.failed
		}
		p.end(bad)
		return
	}
	// the step of a task
	if n.block {
		p.shown = nil
		if !p.silent {
			p.lines = append(p.lines, liveSummary(n.kids))
		}
	}
	if failed || p.at == len(p.steps)-1 {
		p.end(failed)
		return
	}
	p.at++
	p.enter()
}

func liveSummary(kids []*liveNode) string {
	var parts []string
	for _, k := range kids {
		parts = append(parts, k.label+" "+k.icon())
	}
	return "● Parallel [" + strings.Join(parts, "  ") + "]"
}

type liveGen struct {
	cs    *Case
	byID  map[string]*liveNode
	tasks []*Task
	n     int
}

func (g *liveGen) leaf(step bool) (*liveNode, *Item) {
	r := g.cs.R
	g.n++
	n := &liveNode{id: fmt.Sprintf("c%d", g.n), leaf: true, step: step}
	n.label = fmt.Sprintf("%s%d", pick(r, "job", "é", "a b ", "жук"), g.n) // the library leaves halves of wide characters behind
	text := "$R " + n.id
	for k := r.Intn(7); k > 0; k-- {
		l := fmt.Sprintf("%s says %d%s", n.id, k, pick(r, "", "", "", " éж", " "+strings.Repeat("wide ", 40)))
		text += fmt.Sprintf(" %s='%s'", pick(r, "o", "e"), l)
		n.text = append(n.text, strings.TrimRight(l, " "))
	}
	g.byID[n.id] = n
	return n, &Item{Kind: kCmd, ID: n.id, Cmd: text + " g", Silent: bp(true)}
}

func (g *liveGen) block(depth int, mode string) (*liveNode, *Item) {
	r := g.cs.R
	n := &liveNode{block: true}
	it := &Item{Kind: kParallel, Mode: mode}
	if depth > 0 {
		it.Mode = pick(r, "grouped", "tabs")
	}
	flat := true
	k := 1 + r.Intn(3)
	if depth > 0 && r.Intn(8) == 0 {
		k = 6 + r.Intn(8)
	}
	for i := 0; i < k; i++ {
		var kid *liveNode
		var sub *Item
		if depth < 2 && k < 6 && r.Intn(2+depth) == 0 {
			kid, sub = g.task(depth)
			flat = false
		} else {
			kid, sub = g.leaf(false)
		}
		sub.Label = kid.label
		kid.up = n
		n.kids = append(n.kids, kid)
		it.Items = append(it.Items, sub)
	}
	if flat && r.Intn(2) == 0 {
		n.limit = 1 + r.Intn(k)
		it.Limit = n.limit
	}
	return n, it
}

func (g *liveGen) task(depth int) (*liveNode, *Item) {
	r := g.cs.R
	t := &Task{Name: fmt.Sprintf("t%d", len(g.tasks))}
	g.tasks = append(g.tasks, t)
	n := &liveNode{id: t.Name, label: fmt.Sprintf("task%d", len(g.tasks))}
	if r.Intn(2) == 0 {
		n.silent, t.Silent = true, bp(true)
	}
	add := func(s *liveNode, it *Item) {
		s.up = n
		n.steps = append(n.steps, s)
		t.Run = append(t.Run, it)
	}
	if r.Intn(2) == 0 {
		add(g.leaf(true))
	}
	add(g.block(depth+1, ""))
	if r.Intn(2) == 0 {
		add(g.leaf(true))
	}
	if r.Intn(5) == 0 {
		add(g.block(depth+1, ""))
	}
	return n, &Item{Kind: kTask, Task: t.Name}
}

// flatKids tells whether no item of the block has items of its own.
func flatKids(n *liveNode) bool {
	for _, k := range n.kids {
		if !k.leaf {
			return false
		}
	}
	return true
}

func clipDots(s string, w int) string {
	if runesWidth(s) <= w {
		return s
	}
	return cut(s, w-1) + "…"
}

// compact are the lines of an item below another one in grouped mode.
func (n *liveNode) compact(indent string, cols int) []string {
	prefix := n.icon() + " " + n.label
	line := indent + prefix
	if !n.done || n.failed {
		for i := len(n.lines) - 1; i >= 0; i-- {
			if strings.TrimSpace(n.lines[i]) != "" {
				if w := cols - runesWidth(indent) - runesWidth(prefix) - 2; w > 0 {
					line += "  " + clipDots(n.lines[i], w)
				}
				break
			}
		}
	}
	out := []string{strings.TrimRight(cut(line, cols), " ")}
	for _, k := range n.shown {
		out = append(out, k.compact(indent+"  ", cols)...)
	}
	return out
}

// liveNested runs blocks in blocks, releases their commands one at a time and
// compares the screen in between.
func (cs *Case) liveNested() {
	r := cs.R
	mode := pick(r, "grouped", "tabs")
	lg := &liveGen{cs: cs, byID: map[string]*liveNode{}}
	root, blk := lg.block(0, mode)
	if root.limit == 0 && (mode != "tabs" || r.Intn(3) > 0) {
		for len(lg.tasks) == 0 {
			lg = &liveGen{cs: cs, byID: map[string]*liveNode{}}
			root, blk = lg.block(0, mode)
		}
	}
	for _, k := range root.kids {
		if !k.leaf {
			k.enter()
		}
	}
	main := &Task{Name: "main", Run: []*Item{blk, {Kind: kLog, ID: "note", Log: "afterwards."}, {Kind: kCmd, ID: "after", Cmd: "$R after"}}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: append([]*Task{main}, lg.tasks...)}}}
	name := cs.included(proj, "main")
	root.rename(strings.TrimSuffix(name, "main"))
	pl := cs.Place(proj, nil, cs.modelEnv())
	g, err := cs.gates()
	if err != nil {
		cs.Inconclusive("no socket")
		return
	}
	defer g.Close()
	rows, cols := 160, 60+r.Intn(120)
	if mode == "tabs" {
		rows = 22 + r.Intn(30)
		if r.Intn(3) > 0 && flatKids(root) {
			rows = 6 + r.Intn(8)
		}
	}
	pt, err := cs.PtyStart(Run{Dir: pl.Root, Args: []string{name}, Env: []string{"VSOCK=" + g.Path}}, rows, cols)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	active := 0
	var shown []string
	look := func() string {
		var want [][]string
		if mode == "grouped" {
			var all []string
			for _, n := range root.kids {
				b := []string{cut("┌─ "+n.label+" "+n.icon(), cols)}
				if len(n.shown) > 0 {
					for _, k := range n.shown {
						b = append(b, k.compact("│  ", cols)...)
					}
				} else {
					tail := n.lines[max(0, len(n.lines)-5):]
					for _, l := range tail {
						b = append(b, strings.TrimRight(cut("│  "+l, cols), " "))
					}
					if !n.done && len(tail) > 0 {
						for k := len(tail); k < 5; k++ {
							b = append(b, "│")
						}
					}
				}
				all = append(all, append(b, "└")...)
			}
			want = append(want, all)
		} else {
			row := ""
			for _, n := range root.kids {
				row += "│ " + n.icon() + " " + n.label + " │"
			}
			if runesWidth(row) <= cols-1 {
				want = append(want, []string{row})
			}
			n := root.kids[active]
			w := cols - 2
			var body []string
			full := func(l string) string {
				l = cut(l, w)
				return "│" + l + strings.Repeat(" ", w-runesWidth(l)) + "│"
			}
			switch {
			case len(n.shown) > 0:
				for _, k := range n.shown {
					l := k.icon() + " " + k.label
					switch {
					case k.done && k.failed: // and why
						l = "│" + cut(l+"  ", w) + "\x00"
					case len(k.lines) > 0:
						l = full(l + "  " + k.lines[len(k.lines)-1])
					default:
						l = full(l)
					}
					body = append(body, l)
				}
			case !n.started:
				body = []string{full("Waiting…")}
			case len(n.lines) == 0:
				body = []string{full("Running…")}
			default:
				for _, l := range n.lines[max(0, len(n.lines)-(rows-4)):] {
					body = append(body, full(l))
				}
			}
			want = append(want, body)
		}
		ok := pt.WaitFor(8*time.Second, func(s []string) bool {
			shown = s
			for _, w := range want {
				if !hasRunPre(s, w) {
					return false
				}
			}
			return true
		})
		cs.Obs("screens of nested blocks compared", 1)
		if ok {
			return ""
		}
		var b strings.Builder
		for _, w := range want {
			b.WriteString(strings.Join(w, "\n") + "\n--\n")
		}
		return fmt.Sprintf("mode %s, screen %dx%d: the terminal shows\n%s\nexpected to contain\n%s", mode, rows, cols, strings.TrimRight(strings.Join(shown, "\n"), "\n"), b.String())
	}
	var held []arrival
	bad := ""
	cancelled, anyFailed := false, false
	stopAt, step := -1, 0
	if r.Intn(4) == 0 {
		stopAt = r.Intn(6)
	}
	for bad == "" && root.need() > 0 {
		for len(held) < root.need() && bad == "" {
			select {
			case a := <-g.ch:
				if lg.byID[a.id] == nil {
					bad = "unexpected command " + a.id
					break
				}
				lg.byID[a.id].arrived()
				held = append(held, a)
			case <-pt.done:
				bad = "bab ended although items were left"
			case <-time.After(20 * time.Second):
				bad = fmt.Sprintf("%d commands running after 20 s, expected %d", len(held), root.need())
			}
		}
		if bad != "" {
			break
		}
		if mode == "tabs" {
			for k := r.Intn(3); k > 0; k-- {
				pt.Send("\t")
				active = (active + 1) % len(root.kids)
			}
		}
		if bad = look(); bad != "" {
			break
		}
		if step == stopAt && !anyFailed {
			pt.Send("\x03")
			for _, n := range root.kids {
				if !n.done {
					n.cancelled = true
				}
			}
			cancelled = true
			break
		}
		step++
		i := r.Intn(len(held))
		a := held[i]
		held = append(held[:i], held[i+1:]...)
		code := pick(r, 0, 0, 0, 0, 0, 1, 3)
		anyFailed = anyFailed || code != 0
		a.release(code)
		lg.byID[a.id].end(code != 0)
	}
	if !cancelled {
		for _, a := range held {
			a.release(0)
		}
		go func() {
			for {
				select {
				case a := <-g.ch:
					a.release(0)
				case <-pt.done:
					return
				}
			}
		}()
	}
	res := pt.Wait(20 * time.Second)
	cs.Case(fmt.Sprint(proj.Dump(), rows, cols, cs.I))
	if bad != "" {
		cs.Fail("%s", bad)
		return
	}
	what := fmt.Sprintf("nested, mode %s, cancelled %v", mode, cancelled)
	if !cs.healthy(res, what) {
		return
	}
	if s := pt.terminalLeft(); s != "" {
		cs.Fail("%s: %s", what, s)
		return
	}
	want := liveSummary(root.kids)
	if runesWidth(want) <= cols {
		if got := summaries(pt.vt.All()); len(got) != 1 || got[0] != want {
			cs.Fail("%s: summary %v, expected %s\n%s", what, got, want, strings.Join(pt.vt.All(), "\n"))
			return
		}
		cs.Obs("summaries judged", 1)
	}
	ran := startOf(res.Events, "after") != nil
	if ran != (!anyFailed && !cancelled) {
		cs.Fail("%s: item after the block run: %v, an item failed: %v", what, ran, anyFailed)
		return
	}
	if d := said(pt.vt.All(), cancelled, anyFailed); d != "" {
		cs.Fail("%s: %s\n%s", what, d, strings.Join(pt.vt.All(), "\n"))
		return
	}
	if !cancelled && res.Code != b2i(anyFailed) {
		cs.Fail("%s: exit status %d, an item failed: %v", what, res.Code, anyFailed)
	}
}

// hasRunPre is hasRun with lines of which only the start is known, up to \x00.
func hasRunPre(screen, want []string) bool {
	for i := 0; i+len(want) <= len(screen); i++ {
		ok := true
		for j, w := range want {
			if p, isPre := strings.CutSuffix(w, "\x00"); isPre {
				ok = ok && strings.HasPrefix(screen[i+j], strings.TrimRight(p, " "))
			} else {
				ok = ok && screen[i+j] == w
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// said checks what bab reports after a block.
func said(screen []string, cancelled, failed bool) string {
	log, err := false, false
	for _, l := range screen {
		log = log || strings.HasSuffix(strings.TrimRight(l, " "), "INFO afterwards.")
		err = err || strings.Contains(l, "parallel item")
	}
	switch {
	case log && (failed || cancelled):
		return "the log item after the block was run"
	case !log && !failed && !cancelled:
		return "the log item after the block does not show"
	case failed && !cancelled && !err:
		return "the failure of the block is not reported"
	}
	return ""
}
