package main

// C13 C14: the output of parallel blocks.

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"
	"unicode/utf8"
)

type chunk struct {
	Fd int    `json:"fd"`
	B  []byte `json:"b"`
	S  int    `json:"s"`
}

// script cuts two streams into writes.
func script(r *rand.Rand, out, err []byte, style int) []chunk {
	var cs []chunk
	sizes := func(n int) int {
		switch style {
		case 0: // whole
			return n
		case 1: // tiny
			return 1 + r.Intn(3)
		case 2:
			return 1 + r.Intn(40)
		default:
			return 1 + r.Intn(5000)
		}
	}
	for len(out)+len(err) > 0 {
		fd, p := 1, &out
		if len(out) == 0 || (len(err) > 0 && r.Intn(2) == 0) {
			fd, p = 2, &err
		}
		n := min(sizes(len(*p)), len(*p))
		c := chunk{Fd: fd, B: (*p)[:n]}
		if r.Intn(12) == 0 {
			c.S = r.Intn(800)
		}
		cs = append(cs, c)
		*p = (*p)[n:]
	}
	return cs
}

func (cs *Case) writeScript(name string, c []chunk) string {
	b, _ := json.Marshal(c)
	p := filepath.Join(cs.Dir, name)
	_ = os.WriteFile(p, b, 0o644)
	return p
}

// oItem is an item of a generated block and the lines it has to print.
type oItem struct {
	label string
	out   []string // expected lines on stdout
	err   []string // expected lines on stderr
	kids  []*oItem // nested block: kids' lines appear below this label
	mixed bool     // lines of kids interleave
}

var lineBits = []string{"x", "abc", " ", "  ", "\t", "é", "日本", "😀", "]", "[", "%s", "\\n", "$", ":", "\xff", "\xc3", "\xe2\x82", "e\u0301", "[a] ", "\u00a0", "\u200b"}

// oLine makes one line that starts with its mark.
func oLine(r *rand.Rand, mark string, big, lead bool) string {
	var b strings.Builder
	if lead && r.Intn(10) == 0 {
		b.WriteString(pick(r, "\ufeff", "  ", "\t", "\xff", "é", "[", "] ", "\u200b", "$ ", "#"))
	}
	b.WriteString(mark)
	n := r.Intn(12)
	if big {
		n = 500 + r.Intn(20000)
		if r.Intn(5) == 0 {
			n = 40000 + r.Intn(150000)
		}
	}
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, lineBits...))
	}
	return b.String()
}

type oGen struct {
	cs    *Case
	n     int
	tasks []*Task
	empty bool
	bulk  int
	color bool
	lead  bool // lines may start with something else than their mark
}

// stream makes a stream's bytes and the lines it shows.
func (g *oGen) stream(id, tag string, lastNL bool) ([]byte, []string) {
	r := g.cs.R
	var raw strings.Builder
	var want []string
	n := r.Intn(14)
	if g.bulk > 0 {
		n = g.bulk
	}
	nl := pick(r, "\n", "\n", "\n", "\r\n", "\r\r\n")
	for i := 0; i < n; i++ {
		l := oLine(r, fmt.Sprintf("%s%s%d.", tag, id, i), r.Intn(60) == 0, g.lead)
		if g.empty && r.Intn(8) == 0 {
			l = ""
		}
		want = append(want, l)
		if l != "" && r.Intn(12) == 0 { // a progress line, which overwrites itself
			for k := 1 + r.Intn(3); k > 0; k-- {
				raw.WriteString(l[:r.Intn(len(fmt.Sprintf("%s%s%d.", tag, id, i)))] + "\r")
			}
			g.cs.Obs("lines overwritten", 1)
		}
		raw.WriteString(l)
		if i < n-1 || lastNL || l == "" || r.Intn(2) == 0 {
			raw.WriteString(nl)
		} else if nl != "\n" && r.Intn(2) == 0 {
			raw.WriteString(nl[:1+r.Intn(len(nl)-1)]) // cut off inside the line end
		}
	}
	return []byte(raw.String()), want
}

func (g *oGen) cmd(lastNL bool) (*Item, *oItem) {
	g.n++
	id := fmt.Sprintf("c%d", g.n)
	r := g.cs.R
	out, wo := g.stream(id, "o", lastNL)
	err, we := g.stream(id, "e", lastNL)
	style := r.Intn(4)
	if style == 1 && len(out)+len(err) > 6000 {
		style = 2
	}
	if style == 2 && len(out)+len(err) > 150000 {
		style = 3
	}
	f := g.cs.writeScript(id+".json", script(r, out, err, style))
	it := &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + " p=" + f}
	if r.Intn(8) == 0 {
		it.Cmd += " x=1"
		it.Exit = 1
	}
	oi := &oItem{out: wo, err: we}
	if r.Intn(2) == 0 {
		it.Silent = bp(true)
	} else {
		oi.err = append([]string{"$ " + it.Cmd}, we...)
	}
	return it, oi
}

var oLabels = []string{"one", "two", "build", "a b", "x]y", "[z", "日本", "é", "long label that is longer", "A", "b.c", "🚀 go", "tab", "%d", "$1", "a:b", "0"}

func (g *oGen) block(depth, n int) (*Item, []*oItem) {
	r := g.cs.R
	it := &Item{Kind: kParallel, Mode: pick(r, "", "", "interleaved", "grouped", "tabs")}
	if r.Intn(4) == 0 {
		it.Limit = 1 + r.Intn(n)
	}
	if r.Intn(6) == 0 {
		it.Color = bp(r.Intn(2) == 0)
	}
	var kids []*oItem
	perm := r.Perm(len(oLabels))
	for i := 0; i < n; i++ {
		label := oLabels[perm[i%len(perm)]]
		if i >= len(perm) {
			label += fmt.Sprint(i)
		}
		var sub *Item
		var oi *oItem
		switch x := r.Intn(10); {
		case x == 0 && !g.big():
			g.n++
			txt := fmt.Sprintf("el%d. a note", g.n)
			sub = &Item{Kind: kLog, Log: txt}
			oi = &oItem{err: nil, out: []string{"LOG " + txt}}
		case x <= 2:
			sub, oi = g.task(depth, label)
		default:
			sub, oi = g.cmd(false)
		}
		sub.Label = label
		if sub.Kind == kCmd && r.Intn(5) == 0 && g.n > 0 {
			sub.Label = ""
			label = string([]rune(sub.Cmd)[:min(20, len(sub.Cmd))])
			for _, k := range kids {
				if k.label == label { // the default label is cut and may repeat
					sub.Label = fmt.Sprintf("i%d", i)
					label = sub.Label
				}
			}
		}
		oi.label = label
		kids = append(kids, oi)
		it.Items = append(it.Items, sub)
	}
	return it, kids
}

// excluded puts items that do not run here between those of a block.
func (cs *Case) excluded(blk *Item) {
	for k := 1 + cs.R.Intn(3); k > 0; k-- {
		x := &Item{Kind: kCmd, ID: "none", Cmd: "echo leaked", Label: pick(cs.R, "", "", fmt.Sprint("off", k))}
		if cs.R.Intn(2) == 0 {
			x.When = "false"
		} else {
			x.Platforms = []string{"windows", "darwin"}[cs.R.Intn(2):][:1]
		}
		if cs.R.Intn(4) == 0 {
			x.Kind, x.Log = kLog, "leaked"
		}
		i := cs.R.Intn(len(blk.Items) + 1)
		blk.Items = append(blk.Items[:i:i], append([]*Item{x}, blk.Items[i:]...)...)
	}
	cs.Obs("blocks with excluded items", 1)
}

func (g *oGen) big() bool { return g.bulk > 0 }

// task makes a reference to a task with several commands, or a nested block.
func (g *oGen) task(depth int, label string) (*Item, *oItem) {
	r := g.cs.R
	g.n++
	t := &Task{Name: fmt.Sprintf("t%d", g.n), Silent: bp(true)}
	g.tasks = append(g.tasks, t)
	oi := &oItem{}
	if depth < 2 && r.Intn(2) == 0 {
		blk, kids := g.block(depth+1, 1+r.Intn(3))
		t.Run = append(t.Run, blk)
		oi.kids = kids
		// the block's commands decide their echo themselves
		silenceBlock(blk, kids)
		return &Item{Kind: kTask, Task: t.Name}, oi
	}
	k := 1 + r.Intn(3)
	for i := 0; i < k; i++ {
		c, co := g.cmd(i < k-1)
		c.Silent = bp(true)
		if len(co.err) > 0 && strings.HasPrefix(co.err[0], "$ $R") {
			co.err = co.err[1:]
		}
		if i < k-1 && c.Exit != 0 {
			c.Cmd = strings.TrimSuffix(c.Cmd, " x=1")
			c.Exit = 0
		}
		t.Run = append(t.Run, c)
		oi.out = append(oi.out, co.out...)
		oi.err = append(oi.err, co.err...)
	}
	return &Item{Kind: kTask, Task: t.Name}, oi
}

func silenceBlock(blk *Item, kids []*oItem) {
	for i, it := range blk.Items {
		if it.Kind == kCmd && it.Silent == nil {
			it.Silent = bp(true)
			kids[i].err = kids[i].err[1:]
		}
	}
}

// peel removes a label from the front of a line.
func peel(line string, kids []*oItem) (*oItem, string, bool) {
	var best *oItem
	rest := ""
	for _, k := range kids {
		p := "[" + k.label
		if !strings.HasPrefix(line, p) {
			continue
		}
		t := strings.TrimLeft(line[len(p):], " ")
		if !strings.HasPrefix(t, "] ") {
			continue
		}
		if best == nil || len(k.label) > len(best.label) {
			best, rest = k, t[2:]
		}
	}
	return best, rest, best != nil
}

type oSeen struct {
	lines map[*oItem][]string
	stray []string
}

func (s *oSeen) take(line string, kids []*oItem) {
	k, rest, ok := peel(line, kids)
	if !ok {
		s.stray = append(s.stray, line)
		return
	}
	if len(k.kids) > 0 {
		s.take(rest, k.kids)
		return
	}
	s.lines[k] = append(s.lines[k], rest)
}

func walkItems(kids []*oItem, f func(*oItem)) {
	for _, k := range kids {
		if len(k.kids) > 0 {
			walkItems(k.kids, f)
		} else {
			f(k)
		}
	}
}

func firstDiff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "(nothing)", "(nothing)"
		if i < len(want) {
			w = fmt.Sprintf("%.200q", want[i])
		}
		if i < len(got) {
			g = fmt.Sprintf("%.200q", got[i])
		}
		if w != g || (i < len(want) && i < len(got) && want[i] != got[i]) {
			return fmt.Sprintf("line %d of %d (got %d):\n  expected %s\n  got      %s", i, len(want), len(got), w, g)
		}
	}
	return ""
}

func (cs *Case) outputCase(n, bulk int, merge bool) {
	g := &oGen{cs: cs, empty: !merge, lead: !merge, bulk: bulk}
	blk, kids := g.block(0, n)
	main := &Task{Name: "main", Silent: bp(true), Run: []*Item{blk}}
	// commands of the outer block inherit silent from the task
	for i, it := range blk.Items {
		if it.Kind == kCmd && it.Silent == nil {
			if cs.R.Intn(2) == 0 {
				it.Silent = bp(false)
			} else {
				kids[i].err = kids[i].err[1:]
			}
		}
	}
	for _, t := range append([]*Task{main}, g.tasks...) {
		for _, it := range t.Run {
			if it.Kind == kParallel && cs.R.Intn(3) == 0 {
				cs.excluded(it)
			}
		}
	}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: append([]*Task{main}, g.tasks...)}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	r := cs.Bab(Run{Dir: pl.Root, Args: []string{name}, Merge: merge, Timeout: 60 * time.Second})
	cs.Case(fmt.Sprint(proj.Dump()))
	if !cs.healthy(r, "output") {
		return
	}
	want := 0
	total := 0
	walkItems(kids, func(k *oItem) { total += len(k.out) + len(k.err) })
	for _, it := range blk.Items {
		want |= exitOf(it, g.tasks)
	}
	cs.Obs("lines expected", total)
	cs.Obs("writers", len(kids))
	if total > 100 {
		cs.Sample(map[string]any{"case": cs.Name, "items": len(kids), "lines": total, "merged streams": merge})
	}
	if r.Code != want {
		cs.Fail("exit status %d, expected %d\n%s", r.Code, want, clip(r.Err, 1500))
		return
	}
	so := &oSeen{lines: map[*oItem][]string{}}
	for _, l := range lines(r.Out) {
		so.take(stripSGR(l), kids)
	}
	se := &oSeen{lines: map[*oItem][]string{}}
	for _, l := range lines(r.Err) {
		se.take(stripSGR(l), kids)
	}
	if merge {
		split(so, se)
	}
	for _, s := range so.stray {
		cs.Fail("a line on standard output carries no item's label: %.300q", s)
		return
	}
	for _, s := range se.stray {
		if strings.TrimSpace(s) == "" || strings.HasPrefix(s, "ERRO ") || strings.HasPrefix(s, "● Running") {
			continue
		}
		cs.Fail("a line on standard error carries no item's label: %.300q", s)
		return
	}
	walkItems(kids, func(k *oItem) {
		if cs.bad {
			return
		}
		if len(k.out) == 1 && strings.HasPrefix(k.out[0], "LOG ") {
			txt := strings.TrimPrefix(k.out[0], "LOG ")
			c := 0
			for _, l := range append(append([]string{}, so.lines[k]...), se.lines[k]...) {
				if strings.Contains(l, txt) {
					c++
				}
			}
			if c != 1 {
				cs.Fail("log %q of item %q appears %d times", txt, k.label, c)
			}
			return
		}
		if d := firstDiff(k.out, so.lines[k]); d != "" {
			cs.Fail("standard output of item %q, %s", k.label, d)
			return
		}
		if d := firstDiff(k.err, trimEcho(se.lines[k])); d != "" {
			cs.Fail("standard error of item %q, %s", k.label, d)
		}
	})
}

// split assigns the lines of merged streams to the stream their mark names.
func split(so, se *oSeen) {
	all := so.lines
	so.lines = map[*oItem][]string{}
	for k, ls := range all {
		for _, l := range ls {
			if strings.HasPrefix(l, "o") {
				so.lines[k] = append(so.lines[k], l)
			} else {
				se.lines[k] = append(se.lines[k], l)
			}
		}
	}
	var a []string
	for _, s := range so.stray {
		if strings.HasPrefix(s, "ERRO ") || strings.TrimSpace(s) == "" || strings.HasPrefix(s, "● Running") {
			se.stray = append(se.stray, s)
		} else {
			a = append(a, s)
		}
	}
	so.stray = a
}

func trimEcho(l []string) []string {
	if len(l) > 0 && strings.HasPrefix(l[0], "$ $R") {
		l = append([]string{strings.TrimRight(l[0], " ")}, l[1:]...)
	}
	return l
}

func exitOf(it *Item, tasks []*Task) int {
	switch it.Kind {
	case kCmd:
		if it.Exit != 0 {
			return 1
		}
	case kTask:
		for _, t := range tasks {
			if t.Name == it.Task {
				for _, x := range t.Run {
					if exitOf(x, tasks) != 0 {
						return 1
					}
				}
			}
		}
	case kParallel:
		for _, x := range it.Items {
			if exitOf(x, tasks) != 0 {
				return 1
			}
		}
	}
	return 0
}

func init() {
	register("C13", "parallel blocks of commands, task references, logs and nested blocks that write marked lines (empty, long, CRLF, multi-byte, invalid UTF-8, no final newline) to both streams in random chunks at the same time; the lines bab prints under each label and stream must be exactly the lines written, in order, and every line must carry a label; non-trivial always",
		func(c *Ctx) {
			c.Bab()
			c.Each("small", c.N(260, 5000), func(cs *Case) { cs.outputCase(1+cs.R.Intn(6), 0, false) })
			c.Each("merged", c.N(120, 2500), func(cs *Case) { cs.outputCase(1+cs.R.Intn(6), 0, true) })
			c.EachP("wide", c.N(20, 200), 4, func(cs *Case) { cs.wideCase() })
			c.EachP("bulk", c.N(14, 200), 4, func(cs *Case) { cs.outputCase(6+cs.R.Intn(14), 400+cs.R.Intn(c.N(600, 3000)), cs.R.Intn(2) == 0) })
		}, "inside a line only the text after the last carriage return is expected, as bab redraws such lines; the generator writes none")
}

// wideCase: lines longer than what a pipe takes at once, written by many items
// to both streams, which end in the same pipe.
func (cs *Case) wideCase() {
	r := cs.R
	n := 2 + r.Intn(6)
	blk := &Item{Kind: kParallel}
	want := map[string][]string{}
	bits := "abcdefghijklmnopqrstuvwxyz"
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("c%d", i)
		var out, err strings.Builder
		for j := 3 + r.Intn(5); j > 0; j-- {
			for _, tag := range []string{"o", "e"} {
				l := fmt.Sprintf("%s%s.%d.", tag, id, j) + strings.Repeat(string(bits[(i*7+j)%26]), 50000+r.Intn(100000)) + "."
				want[tag+id] = append(want[tag+id], l)
				if tag == "o" {
					out.WriteString(l + "\n")
				} else {
					err.WriteString(l + "\n")
				}
			}
		}
		f := cs.writeScript(id+".json", script(r, []byte(out.String()), []byte(err.String()), pick(r, 0, 3)))
		blk.Items = append(blk.Items, &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + " p=" + f, Label: id, Silent: bp(true)})
	}
	main := &Task{Name: "main", Silent: bp(true), Run: []*Item{blk}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	pr, pw, perr := os.Pipe()
	if perr != nil {
		cs.Inconclusive("no pipe")
		return
	}
	text := make(chan string)
	go func() {
		b, _ := io.ReadAll(pr)
		text <- string(b)
	}()
	res := cs.bab1(Run{Dir: pl.Root, Args: []string{name}, OutF: pw, Merge: true, Timeout: 60 * time.Second})
	pw.Close()
	out := <-text
	pr.Close()
	cs.Case(fmt.Sprint(cs.Name, n))
	if !cs.healthy(res, "output") {
		return
	}
	got := map[string][]string{}
	for _, l := range lines(stripSGR(out)) {
		if len(l) < 8 || l[0] != '[' {
			cs.Fail("line without label: %.200q (%d bytes)", l, len(l))
			return
		}
		lab, rest, _ := strings.Cut(l[1:], "] ")
		key := ""
		if rest != "" {
			key = rest[:1] + lab
		}
		got[key] = append(got[key], rest)
	}
	total := 0
	for k, w := range want {
		total += len(w)
		if !same(got[k], w) {
			for i := range w {
				if i >= len(got[k]) || got[k][i] != w[i] {
					g := "nothing"
					if i < len(got[k]) {
						g = fmt.Sprintf("%.60q... (%d bytes)", got[k][i], len(got[k][i]))
					}
					cs.Fail("stream %s, long line %d of %d: expected %.60q... (%d bytes), got %s", k, i+1, len(w), w[i], len(w[i]), g)
					return
				}
			}
		}
		delete(got, k)
	}
	for k, l := range got {
		cs.Fail("lines nobody wrote: %q %.200q", k, l)
		return
	}
	cs.Obs("lines expected", total)
}

// ---- C14 ----

var sgrTok = []string{"\x1b[0m", "\x1b[m", "\x1b[1;31m", "\x1b[38;5;120m", "\x1b[48;2;1;2;3m", "\x1b[38:2::10:20:30m", "\x1b[4:3m", "\x1b[7m", "\x1b[39;49m", "\x1b[1;2;3;4;5;6;7m"}

// dropTok are complete sequences that must vanish. Zq marks payloads.
var dropTok = []string{
	"\x1b[2J", "\x1b[H", "\x1b[10;5H", "\x1b[1A", "\x1b[5D", "\x1b[K", "\x1b[2K", "\x1b[?25l", "\x1b[?1049h", "\x1b[s", "\x1b[u", "\x1b[6n", "\x1b[c", "\x1b[>c", "\x1b[1;5r", "\x1b[3g",
	"\x1b[?2004h", "\x1b[!p", "\x1b[ q", "\x1b[2 q", "\x1b[8;10;10t", "\x1b[21t", "\x1b[4h", "\x1b[20l", "\x1b[5i", "\x1b[>4;2m", "\x1b[>4m", "\x1b[?4m", "\x1b[>0u", "\x1b[<u", "\x1b[1;1;1;1;1;1*y", "\x1b[1$}", "\x1b[2\"q", "\x1b[38;5;1%m",
	"\x1b]0;ZqTITLE\x07", "\x1b]2;ZqTITLE\x1b\\", "\x1b]52;c;ZqQQ==\x07", "\x1b]8;;http://Zq\x1b\\", "\x1b]8;;\x1b\\", "\x1b]10;?\x07", "\x1b]4;1;?\x1b\\", "\x1b]1337;ZqFile=:\x07", "\x1b]9;Zqnote\x07", "\x1b]777;Zqn\x07", "\x1b]\x07", "\x1b]112\x07",
	"\x1bP+qZq\x1b\\", "\x1bPZq\x1b\\", "\x1b_ZqG\x1b\\", "\x1b^Zqp\x1b\\", "\x1bXZqs\x1b\\",
	"\x1bc", "\x1bM", "\x1bD", "\x1bE", "\x1b7", "\x1b8", "\x1b=", "\x1b>", "\x1b(0", "\x1b)B", "\x1b#8", "\x1b%G", "\x1bH", "\x1bN", "\x1bZ", "\x1b6", "\x1b n", "\x1bn", "\x1b~",
	"\x07", "\x08", "\x0b", "\x0c", "\x0e", "\x0f", "\x00", "\x05", "\x11", "\x18", "\x1a", "\x1c", "\x1f", "\x7f",
	"\u0085", "\u0084", "\u008d", "\u008e", "\u0088", "\u0096",
	"\u009b2J", "\u009b?25h", "\u009d0;ZqT\x07", "\u009d2;Zq\u009c", "\u0090Zq\u009c", "\x1b]0;ZqT\u009c", "\x1bPZq\u009c", "\u009d8;;Zq\x1b\\",
}

// badTok are malformed, truncated or nested sequences; what text survives
// around them is not judged.
var badTok = []string{
	"\x1b", "\x1b[", "\x1b[2", "\x1b[?", "\x1b[1;", "\x1b]0;Zqx", "\x1b]", "\x1bP", "\x1bPZq", "\x1b_", "\x1b^", "\x1bX", "\x1b\x1b", "\x1b\x1b[2J", "\x1b[\x1b[2J", "\x1b[2\x1b[mJ", "\x1b[\x072J", "\x1b[3\x08m", "\x1b[2\x18J", "\x1b[2\x1aJ",
	"\x1b]0;Zq\x1b[2J", "\x1b]0;Zq\x18", "\x1b\x07[2J", "\x1b\x00]0;x\x07", "\x1b\x1b]0;Zqt\x07[2J", "\x9b2J", "\x9d0;Zqt\x07", "\x90Zq\x9c", "\xc2\x9b2J", "\u009b31m", "\u009d0;zt\x07", "\u0090z\u009c", "\u009f", "\u009e", "\u0098", "\u009c", "\x1b[1\xffm", "\x1b[é2J", "\x1b[31\u009bm",
	"\x1b[m\x1b[2", "\x1b[0m\x1b[", "\x1b[1m\x1b[999", "\x1b[31m\x1b]", "\x1b[;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;;H", "\x1b[99999999999999999999m", "\x1b[31m\x1b[?25", "\x1b%", "\x1b(", "\x1b#", "\x1b ", "\x1b\\", "\x1b[ ", "\x1b[>", "\x1b[>4", "\x1b[m\x1b[>4",
	"\x1b[" + strings.Repeat("1;", 40) + "1m", "\x1b[" + strings.Repeat(";", 33) + "7H", "\x1b[" + strings.Repeat("1:", 31) + "1m", "\xc2\x07\x9b2J", "\xc2\x1b[K\x9d0;t",
}

var printTok = []string{"a", "bc", " ", "  ", "\t", "é", "日本語", "😀", "[31m", "0;title", "]8;;", "J", "2J", "m", "H", "(", "~", "e\u0301", "x\u200dy", "\u00a0", "ÿ", "Ā", "\u2028"}

type ctlLine struct {
	raw   string
	clean bool   // made of well-formed tokens only
	full  string // expected with colour kept
	bare  string // expected without
}

func randSGR(r *rand.Rand) string {
	var ps []string
	for i := r.Intn(5); i > 0; i-- {
		ps = append(ps, pick(r, "", "0", "1", "4:3", "22", "38;5;200", "48;2;255;255;255", "38:2::1:2:3", "97", "107", "58:5:1"))
	}
	return "\x1b[" + strings.Join(ps, ";") + "m"
}

// randDrop makes a complete sequence that must vanish.
func randDrop(r *rand.Rand) string {
	if r.Intn(2) == 0 {
		s := "\x1b[" + pick(r, "", "", "?", ">", "<", "=")
		for i := r.Intn(5); i > 0; i-- {
			s += pick(r, "0", "1", "2", "25", "1049", ";", ":")
		}
		in := pick(r, "", "", " ", "$", "\"", "!", "'")
		fin := string(rune(0x40 + r.Intn(0x3f)))
		if fin == "m" && in == "" && !strings.ContainsAny(s, "?><=") {
			fin = "n"
		}
		return s + in + fin
	}
	s := pick(r, "\x1b]0;", "\x1b]2;", "\x1b]52;c;", "\x1b]8;id=1;", "\x1bP", "\x1bP1$r", "\x1b_G", "\x1b^", "\x1bX", "\x1b]")
	end := "\x1b\\"
	if s[1] == ']' && r.Intn(2) == 0 {
		end = "\x07"
	}
	n := r.Intn(30)
	switch r.Intn(8) {
	case 0:
		n = 200 + r.Intn(2000)
	case 1:
		n = 4000 + r.Intn(9000)
	}
	return s + "Zq" + strings.Repeat(pick(r, "Zq", "x", "A=", "日本", "[2J", "\t", " "), n) + end
}

func ctl(r *rand.Rand, mark string, bad float64) ctlLine {
	l := ctlLine{clean: true, raw: mark, full: mark, bare: mark}
	n := 1 + r.Intn(8)
	for i := 0; i < n; i++ {
		switch x := r.Float64(); {
		case x < bad:
			l.clean = false
			l.raw += pick(r, badTok...)
		case x < bad+0.25:
			t := pick(r, sgrTok...)
			if r.Intn(3) == 0 {
				t = randSGR(r)
			}
			l.raw += t
			l.full += t
		case x < bad+0.55:
			if r.Intn(3) == 0 {
				l.raw += randDrop(r)
			} else {
				l.raw += pick(r, dropTok...)
			}
		case bad > 0 && x < bad+0.62: // arbitrary bytes
			l.clean = false
			k := 1 + r.Intn(8)
			b := make([]byte, k)
			for j := range b {
				b[j] = byte(r.Intn(256))
				if r.Intn(3) == 0 {
					b[j] = pick(r, byte(0x1b), '[', ']', 'm', ';', '1', 0x9b, 0xc2, 0x9d, 'P', '?', '>')
				}
				if b[j] == '\n' || b[j] == '\r' {
					b[j] = 'n'
				}
			}
			l.raw += string(b)
		default:
			t := pick(r, printTok...)
			l.raw += t
			l.full += t
			l.bare += t
		}
	}
	// a character after an escape introducer would become part of a sequence
	return l
}

var sgrAt = regexp.MustCompile(`^\x1b\[[0-9;:]*m`)

// unsafe returns what a line contains that a terminal would act upon.
func unsafeAt(s string, colour bool) string {
	for i := 0; i < len(s); {
		if s[i] == 0x1b {
			if m := sgrAt.FindString(s[i:]); m != "" {
				if !colour {
					return fmt.Sprintf("colour sequence %q although colour is off", m)
				}
				i += len(m)
				continue
			}
			return fmt.Sprintf("escape sequence %q", clip(s[i:], 12))
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		if r < 0x20 && r != '\t' || r == 0x7f || (r >= 0x80 && r <= 0x9f) {
			return fmt.Sprintf("control character %U", r)
		}
		i += n
	}
	return ""
}

// stripLabel removes the coloured label bab puts before a line.
var labelRe = regexp.MustCompile(`^(?:\x1b\[[0-9;]*m)*\[[A-Za-z0-9]+ *\](?:\x1b\[[0-9;]*m)* `)

func (cs *Case) controlCase(bad float64, nested bool) {
	r := cs.R
	nItems := 1 + r.Intn(4)
	blk := &Item{Kind: kParallel, Mode: pick(r, "", "grouped", "tabs", "interleaved")}
	colour := true
	switch r.Intn(3) {
	case 0:
		blk.Color = bp(false)
		colour = false
	case 1:
		blk.Color = bp(true)
	}
	type exp struct {
		colour bool
		ls     map[string]ctlLine
		label  string
	}
	var exps []*exp
	main := &Task{Name: "main", Run: []*Item{blk}}
	tasks := []*Task{main}
	var idc map[string]bool = map[string]bool{}
	for i := 0; i < nItems; i++ {
		e := &exp{colour: colour, ls: map[string]ctlLine{}, label: fmt.Sprintf("L%d", i)}
		exps = append(exps, e)
		var out, err strings.Builder
		n := 30 + r.Intn(60)
		for j := 0; j < n; j++ {
			mark := fmt.Sprintf("@%d.%d.", i, j)
			l := ctl(r, mark, bad)
			if j == n-1 && r.Intn(2) == 0 {
				l.raw += pick(r, "", "\x1b[", "\x1b[2", "\x1b]0;Zq", "\x1b")
				l.clean = false
			}
			e.ls[mark] = l
			b := &out
			if r.Intn(2) == 0 {
				b = &err
			}
			b.WriteString(l.raw)
			if j < n-1 || r.Intn(2) == 0 {
				b.WriteString("\n")
			}
		}
		id := fmt.Sprintf("c%d", i)
		idc[id] = colour
		style := r.Intn(4)
		if style == 1 && out.Len()+err.Len() > 6000 {
			style = 2
		}
		f := cs.writeScript(id+".json", script(r, []byte(out.String()), []byte(err.String()), style))
		it := &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + " p=" + f, Silent: bp(true)}
		if nested && r.Intn(2) == 0 {
			// through a task with a block of its own
			sub := &Item{Kind: kParallel, Items: []*Item{it}}
			if r.Intn(3) == 0 {
				sub.Color = bp(r.Intn(2) == 0)
				e.colour = colour && *sub.Color
				idc[id] = e.colour
			}
			it.Label = "N"
			t := &Task{Name: fmt.Sprintf("t%d", i), Silent: bp(true), Run: []*Item{sub}}
			tasks = append(tasks, t)
			it = &Item{Kind: kTask, Task: t.Name}
		}
		it.Label = e.label
		blk.Items = append(blk.Items, it)
	}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Silent: bp(true), Tasks: tasks}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	res := cs.Bab(Run{Dir: pl.Root, Args: []string{name}})
	cs.Case(fmt.Sprint(cs.Name, cs.Seed, exps[0].ls))
	if !cs.healthy(res, "control sequences") {
		return
	}
	for _, e := range res.Events {
		if e.Ev != "start" {
			continue
		}
		_, nc := e.Env["NO_COLOR"]
		_, fc := e.Env["FORCE_COLOR"]
		if idc[e.ID] == nc || (!idc[e.ID] && (e.Env["TERM"] != "dumb" || fc)) {
			cs.Fail("command %s, colour %v: NO_COLOR set %v, TERM %q, FORCE_COLOR set %v", e.ID, idc[e.ID], nc, e.Env["TERM"], fc)
			return
		}
	}
	seen := 0
	for _, l := range append(lines(res.Out), lines(res.Err)...) {
		m := labelRe.FindString(l)
		if m == "" {
			if strings.TrimSpace(l) != "" {
				cs.Fail("line without label: %.300q", l)
				return
			}
			continue
		}
		rest := l[len(m):]
		for k := 0; k < 3; k++ { // labels of nested blocks
			if m2 := labelRe.FindString(rest); m2 != "" && strings.HasPrefix(stripSGR(rest), "[N") {
				rest = rest[len(m2):]
			}
		}
		lab := stripSGR(m)
		var e *exp
		for _, x := range exps {
			if strings.HasPrefix(lab, "["+x.label+"]") || strings.HasPrefix(lab, "["+x.label+" ") {
				e = x
			}
		}
		if e == nil {
			cs.Fail("unknown label in %.300q", l)
			return
		}
		if bad := unsafeAt(rest, e.colour); bad != "" {
			raw := ""
			for mark, x := range e.ls {
				if strings.Contains(rest, mark) {
					raw = x.raw
				}
			}
			cs.Fail("%s in the output line %.300q\nthe command wrote %q", bad, rest, raw)
			return
		}
		if strings.Contains(rest, "Zq") {
			ok := false
			for mark, x := range e.ls {
				ok = ok || strings.Contains(rest, mark) && !x.clean
			}
			if !ok {
				cs.Fail("payload of a control string in the output: %.300q", rest)
				return
			}
		}
		plain := stripSGR(rest)
		for mark, x := range e.ls {
			if strings.HasPrefix(plain, mark) {
				seen++
				want := x.full
				if !e.colour {
					want = x.bare
				}
				if x.clean && rest != want {
					cs.Fail("printed text changed (colour %v)\n  written  %q\n  expected %q\n  got      %q", e.colour, x.raw, want, rest)
					return
				}
				break
			}
		}
	}
	total := 0
	for _, e := range exps {
		total += len(e.ls)
	}
	cs.Obs("lines judged", seen)
	if seen < total {
		cs.Fail("only %d of %d lines appeared", seen, total)
	}
}

func init() {
	register("C14", "items of parallel blocks write lines mixed from printable text, colour sequences, every class of control sequence, truncated, nested and random byte sequences, cut into random chunks, with colour on and off; every output line may contain nothing a terminal acts upon except SGR sequences, text and colours of well-formed lines must be unchanged, and commands must be told about colour; non-trivial always",
		func(c *Ctx) {
			c.Bab()
			c.Each("wellformed", c.N(200, 4000), func(cs *Case) { cs.controlCase(0, cs.I%3 == 0) })
			c.Each("malformed", c.N(260, 6000), func(cs *Case) { cs.controlCase(0.25, cs.I%3 == 0) })
			c.EachP("terminal", c.N(40, 500), 8, func(cs *Case) { cs.controlTTY() })
		}, "a byte that is not valid UTF-8 is not taken for a control character")
}

// controlTTY runs a grouped or tabs block on a terminal: no payload of a
// stripped sequence may reach it.
func (cs *Case) controlTTY() {
	r := cs.R
	blk := &Item{Kind: kParallel, Mode: pick(r, "grouped", "tabs", "interleaved")}
	if r.Intn(3) == 0 {
		blk.Color = bp(false)
	}
	for i := 0; i < 2; i++ {
		var b strings.Builder
		for j := 0; j < 40; j++ {
			b.WriteString(pick(r, "text ", "more ", "é"))
			b.WriteString(pick(r, dropTok...))
			if r.Intn(6) == 0 {
				b.WriteString(pick(r, "\x1b["+strings.Repeat("1;", 40)+"1m", "\x1b["+strings.Repeat(";", 33)+"7H", "\x1b["+strings.Repeat("1:", 31)+"1m", "\x1b["+strings.Repeat("4;", 100)+"m"))
			}
			if r.Intn(4) == 0 {
				b.WriteString("\n")
			}
		}
		b.WriteString("\n")
		id := fmt.Sprintf("c%d", i)
		f := cs.writeScript(id+".json", script(r, []byte(b.String()), nil, r.Intn(4)))
		blk.Items = append(blk.Items, &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + " p=" + f, Silent: bp(true), Label: id})
	}
	main := &Task{Name: "main", Run: []*Item{blk}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	name := cs.included(proj, "main")
	pl := cs.Place(proj, nil, cs.modelEnv())
	p, err := cs.PtyStart(Run{Dir: pl.Root, Args: []string{name}}, 30, 100)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	res := p.Wait(30 * time.Second)
	cs.Case(cs.Name + fmt.Sprint(cs.Seed))
	if !cs.healthy(res, "control sequences on a terminal") {
		return
	}
	if i := strings.Index(res.Out, "Zq"); i >= 0 {
		cs.Fail("mode %q: payload of a control string reached the terminal: %.200q", blk.Mode, res.Out[max(0, i-60):])
		return
	}
	for _, s := range []string{"\x1b]52", "\x1b]0;", "\x1b]8;", "\x1bc", "\x1b_", "\x1b^", "\x1bX", "\x1b[?1049h\x1b[2J\x1bc", "\x1b#8", "\x1b[5i"} {
		if i := strings.Index(res.Out, s); i >= 0 {
			cs.Fail("mode %q: control sequence %q of a command reached the terminal: %.200q", blk.Mode, s, res.Out[max(0, i-60):])
			return
		}
	}
}
