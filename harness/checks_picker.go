package main

// C24: the picker runs exactly the highlighted task.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

func init() {
	register("C24", "random task sets (1 to 60 tasks, included files, aliases, descriptions, similar, long and wide names) in the picker on a pseudo-terminal of random size, random histories of typing, editing, pasting, moving, clearing and resizing ended by Enter, Escape or Ctrl+C; after every step the emulated screen must show the typed text, the number of matching tasks, matching tasks only and exactly one highlighted task, an exact alias first, and movement must follow one order of the list; the command that runs must be the highlighted task's; lists with control characters, combining and other odd text in names, searched with parts of them, must neither crash nor run anything when left; non-trivial when the picker was answered",
		func(c *Ctx) {
			c.Bab()
			c.EachP("pick", c.N(400, 6000), 12, func(cs *Case) { cs.pickCase() })
			c.EachP("odd", c.N(80, 1500), 12, func(cs *Case) { cs.oddNames() })
		}, "terminals of at least 6 lines and 30 columns", "text on the screen that is garbled only until the next full redraw is put down to the terminal library", "tasks match when the name or an alias contains the typed characters in their order, whatever their case")
}

// folds reports whether s contains the runes of q in their order.
func folds(q, s string) bool {
	qs := []rune(q)
	i := 0
	for _, r := range s {
		if i < len(qs) && strings.EqualFold(string(qs[i]), string(r)) {
			i++
		}
	}
	return i == len(qs)
}

type pickTask struct {
	name    string
	aliases []string
	desc    string
	id      string
	code    int
}

type picking struct {
	*Case
	p          *Pty
	rows, cols int
	tasks      []*pickTask
	ed         *editor
	order      map[string][]*pickTask // what is known of the order of the list of a query
	pos        int
	trace      []string
	text       string
}

func (k *picking) matching() []*pickTask {
	q := string(k.ed.v)
	var out []*pickTask
	for _, t := range k.tasks {
		ok := folds(q, t.name)
		for _, a := range t.aliases {
			ok = ok || folds(q, a)
		}
		if ok || q == "" {
			out = append(out, t)
		}
	}
	return out
}

var countRe = regexp.MustCompile(` (\d+)/(\d+) `)

// rowTask recognises the task of a row.
func (k *picking) rowTask(row string) *pickTask {
	var best *pickTask
	for _, t := range k.tasks {
		name := strings.TrimRight(cut(t.name, k.cols-2), " ")
		rest, ok := strings.CutPrefix(row, name)
		if !ok {
			continue
		}
		if rest == "" || strings.HasPrefix(rest, " (") || strings.HasPrefix(rest, "  ") || runesWidth(name) >= k.cols-3 {
			if best == nil || len(t.name) > len(best.name) {
				best = t
			}
		}
	}
	return best
}

// look says what is wrong with the screen, and which task is highlighted.
func (k *picking) look(s []string) (string, *pickTask) {
	m := k.matching()
	if len(s) < 3 {
		return "no screen", nil
	}
	q := string(k.ed.v)
	if runesWidth(q) < k.cols-8 && strings.TrimRight(s[1], " ") != strings.TrimRight("> "+q, " ") {
		return fmt.Sprintf("the input line is %q instead of %q", s[1], "> "+q), nil
	}
	c := countRe.FindStringSubmatch(s[2])
	if c == nil {
		return "the number of tasks is not shown", nil
	}
	if c[1] != strconv.Itoa(len(m)) || c[2] != strconv.Itoa(len(k.tasks)) {
		return fmt.Sprintf("%s of %s tasks are said to match instead of %d of %d", c[1], c[2], len(m), len(k.tasks)), nil
	}
	var hl *pickTask
	seen := map[*pickTask]bool{}
	known := k.order[q]
	n := 0
	for _, l := range s[3:] {
		if strings.TrimSpace(l) == "" {
			continue
		}
		if len(m) == 0 {
			continue
		}
		row, marked := strings.CutPrefix(l, "│ ")
		if !marked {
			var ok bool
			if row, ok = strings.CutPrefix(l, "  "); !ok {
				return fmt.Sprintf("a row that is no task: %q", l), nil
			}
		}
		t := k.rowTask(row)
		if t == nil {
			return fmt.Sprintf("a row that is no task: %q", l), nil
		}
		if seen[t] {
			return fmt.Sprintf("task %q is shown twice", t.name), nil
		}
		seen[t] = true
		ok := false
		for _, x := range m {
			ok = ok || x == t
		}
		if !ok {
			return fmt.Sprintf("task %q is shown and does not match", t.name), nil
		}
		if marked {
			if hl != nil {
				return "two tasks are highlighted", nil
			}
			hl = t
		}
		n++
	}
	if len(m) == 0 {
		return "", nil
	}
	if hl == nil {
		return "no task is highlighted", nil
	}
	want := min(len(m), max(1, k.rows-4))
	if n < want {
		return fmt.Sprintf("%d of %d matching tasks are shown on %d lines", n, len(m), k.rows), nil
	}
	if known != nil && known[k.pos] != nil && known[k.pos] != hl {
		return fmt.Sprintf("%q is highlighted instead of %q", hl.name, known[k.pos].name), nil
	}
	if known != nil {
		for i, t := range known {
			if t == hl && i != k.pos {
				return fmt.Sprintf("%q, number %d of the list, is highlighted as number %d", hl.name, i+1, k.pos+1), nil
			}
		}
	}
	if k.pos == 0 {
		for _, t := range k.tasks {
			if q != "" && contains(t.aliases, q) && hl != t {
				return fmt.Sprintf("%q is first although %q is an alias of %q", hl.name, q, t.name), nil
			}
		}
	}
	return "", hl
}

// check waits for the screen to agree with the model.
func (k *picking) check(when string) (*pickTask, bool) {
	var why string
	var hl *pickTask
	if !k.p.WaitFor(10*time.Second, func(s []string) bool { why, hl = k.look(s); return why == "" }) {
		if !k.p.Alive() {
			why = "the picker has ended"
		}
		// The terminal library redraws changed cells only and sometimes forgets
		// some after a resize or next to wide characters. Garbled text that a full
		// redraw repairs is not bab's.
		if strings.Contains(why, "a row that is no task") || strings.Contains(why, "the input line is") {
			first := why
			for _, d := range []int{1, 0} {
				before := len(k.p.Output())
				k.p.Resize(k.rows, k.cols+d)
				for t := time.Now(); len(k.p.Output()) == before && time.Since(t) < 2*time.Second; {
					time.Sleep(2 * time.Millisecond)
				}
				time.Sleep(100 * time.Millisecond)
			}
			if k.p.WaitFor(3*time.Second, func(s []string) bool { why, hl = k.look(s); return why == "" }) {
				k.Obs("screens garbled by the terminal library", 1)
				return hl, true
			}
			why = first
		}
		out := k.p.Output()
		k.Fail("%s: %s\nkeys: %q\nscreen %dx%d:\n%s\n%s\nlast output: %q", when, why, k.trace, k.rows, k.cols, strings.Join(k.p.Screen(), "\n"), k.text, out[max(0, len(out)-12000):])
		return nil, false
	}
	m := k.matching()
	if len(m) > 0 {
		q := string(k.ed.v)
		if k.order[q] == nil {
			k.order[q] = make([]*pickTask, len(m))
		}
		k.order[q][k.pos] = hl
	}
	k.Obs("screens that agree", 1)
	return hl, true
}

func (k *picking) send(s string) {
	k.trace = append(k.trace, s)
	k.p.Send(s)
	k.Obs("keys sent", 1)
}

func (k *picking) move(d int) {
	k.pos = max(0, min(k.pos+d, len(k.matching())-1))
}

// edit applies a key to the model of the input line.
func (k *picking) edit(key string) {
	before := string(k.ed.v)
	if key == "\x15" {
		k.ed.v, k.ed.pos = nil, 0
		k.pos = 0
		return
	}
	k.ed.key(key)
	if string(k.ed.v) != before {
		k.pos = 0
	}
}

func (cs *Case) pickTasks() []*pickTask {
	r := cs.R
	words := []string{"build", "test", "deploy", "release", "Build", "lint", "db", "migrate", "web", "api", "docs", "é", "Привет", "日本", "x", "clean", "production", "TEST"}
	n := []int{1, 2, 5, 12, 30, 60}[r.Intn(6)]
	used := map[string]bool{}
	fresh := func(f func() string) string {
		for i := 0; ; i++ {
			s := f()
			if i > 20 {
				s += strconv.Itoa(i)
			}
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	var out []*pickTask
	for i := 0; i < n; i++ {
		t := &pickTask{id: fmt.Sprintf("c%d", i)}
		t.name = fresh(func() string {
			s := pick(r, words...)
			for r.Intn(2) == 0 {
				s += pick(r, "-", "_", ":", "", ".", " ") + pick(r, words...)
			}
			if r.Intn(25) == 0 {
				s += strings.Repeat("-long", 20) + pick(r, "", "zq", "ж3", "kW")
			}
			return s
		})
		t.desc = pick(r, "", "", "Builds it", "Runs the tests (all)", "a  b", "Beschreibung é ñ", "first line\nsecond line", strings.Repeat("very long ", 20))
		if r.Intn(5) == 0 {
			t.code = 3
		}
		out = append(out, t)
	}
	for _, t := range out {
		for k := pick(r, 0, 0, 1, 1, 2, 3); k > 0; k-- {
			t.aliases = append(t.aliases, fresh(func() string {
				switch r.Intn(4) {
				case 0: // a part of another name
					o := []rune(out[r.Intn(len(out))].name)
					return string(o[:min(len(o), pick(r, 1, 2, 3, 5, 7, 8, 10, 15, 40))])
				case 1:
					return pick(r, words...)
				case 2:
					return string([]rune(t.name)[:1])
				}
				return pick(r, "a", "b", "t", "T", "dp", "rel", "bw") + strconv.Itoa(r.Intn(9))
			}))
		}
	}
	return out
}

func (cs *Case) pickCase() {
	r := cs.R
	k := &picking{Case: cs, tasks: cs.pickTasks(), ed: newEditor(""), order: map[string][]*pickTask{}}
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	// the tasks are spread over the main file and an included one
	docs := []*Y{ymap().role("tasks"), ymap().role("tasks")}
	for _, t := range k.tasks {
		cmd := "$R " + t.id
		if t.code != 0 {
			cmd += fmt.Sprintf(" x=%d", t.code)
		}
		y := ymap("run", yseq(ymap("cmd", ys(cmd))))
		if t.desc != "" {
			y.put("desc", ys(t.desc))
		}
		al := t.aliases
		if len(al) > 0 && r.Intn(2) == 0 {
			y.put("alias", ys(al[0]))
			al = al[1:]
		}
		if len(al) > 0 {
			y.put("aliases", listTree(al, "aliases"))
		}
		i := 0
		if r.Intn(4) == 0 {
			i = 1
		}
		docs[i].put(t.name, y)
		if i == 1 {
			t.name = "inc:" + t.name
			for j, a := range t.aliases {
				t.aliases[j] = "inc:" + a
			}
		}
	}
	main := ymap("tasks", docs[0])
	files := map[string]*Y{"Babfile": main}
	if len(docs[1].Keys) > 0 {
		main.put("includes", ymap("inc", ymap("babfile", ys("inc/Babfile.yml"))))
		files["inc/Babfile.yml"] = ymap("tasks", docs[1])
	}
	text := map[string]string{}
	for n, y := range files {
		text[n] = y.Emit(nil)
		_ = os.MkdirAll(filepath.Dir(filepath.Join(root, n)), 0o755)
		_ = os.WriteFile(filepath.Join(root, n), []byte(text[n]), 0o644)
	}
	k.text = clip(showFiles(text), 4000)
	// names of the main file must not meet the included ones
	seen := map[string]bool{}
	for _, t := range k.tasks {
		for _, n := range append([]string{t.name}, t.aliases...) {
			if seen[n] {
				cs.Obs("no place", 1)
				return
			}
			seen[n] = true
		}
	}
	size := func() (int, int) {
		return pick(r, 6, 7, 10, 24, 24, 40, 70), pick(r, 30, 60, 80, 80, 120, 200)
	}
	k.rows, k.cols = size()
	// rows must tell the tasks apart
	distinct := func() bool {
		s := map[string]bool{}
		for _, t := range k.tasks {
			c := cut(t.name, k.cols-2)
			if s[c] {
				return false
			}
			s[c] = true
		}
		return true
	}
	for !distinct() {
		k.rows, k.cols = size()
		if k.cols < 120 {
			k.cols = 200
		}
	}
	p, err := cs.PtyStart(Run{Dir: root}, k.rows, k.cols)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	k.p = p
	ended := false
	defer func() {
		if !ended {
			p.Wait(0)
		}
	}()
	cs.Case(k.text + fmt.Sprint(cs.I))
	hl, ok := k.check("at the start")
	if !ok {
		return
	}
	qs := []string{"b", "t", "e", "d", "i", "x", ":", "-", "é", "ж", "B", "l", "a", "3", " "}
	for step := r.Intn(14); step > 0; step-- {
		switch r.Intn(12) {
		case 0, 1, 2: // type
			c := pick(r, qs...)
			if t := k.tasks[r.Intn(len(k.tasks))]; r.Intn(2) == 0 {
				rs := []rune(pick(r, append([]string{t.name}, t.aliases...)...))
				c = string(rs[r.Intn(len(rs))])
			}
			k.send(c)
			k.edit(c)
		case 3: // a whole word, key by key at once
			t := k.tasks[r.Intn(len(k.tasks))]
			w := pick(r, append([]string{t.name}, append(t.aliases, t.aliases...)...)...)
			if utf8.RuneCountInString(w) > 40 || len(k.ed.v) > 40 {
				continue
			}
			if r.Intn(2) == 0 {
				k.send("\x15")
				k.edit("\x15")
			}
			k.send(w)
			for _, c := range w {
				k.edit(string(c))
			}
		case 4: // paste
			w := pick(r, "build", "te", "éж", "xyz", "t")
			if len(k.ed.v) > 60 {
				continue
			}
			k.send("\x1b[200~" + w + "\x1b[201~")
			k.edit(w)
		case 5: // edit
			key := pick(r, "\x7f", "\x7f", kLeft, kRight, kHome, kEnd, kDel, "\x0b")
			k.send(key)
			k.edit(key)
		case 6:
			k.send("\x15")
			k.edit("\x15")
		case 7, 8, 9: // move
			n := pick(r, 1, 1, 2, 5, 80)
			d := pick(r, 1, 1, -1)
			key := pick(r, kDown, "\x0e")
			if d < 0 {
				key = pick(r, kUp, "\x10")
			}
			k.trace = append(k.trace, fmt.Sprintf("%d*%q", n, key))
			for i := 0; i < n; i++ {
				p.Send(key)
				k.move(d)
				// what stands at a new place is learned step by step
				if o := k.order[string(k.ed.v)]; len(o) > 0 && o[k.pos] == nil || r.Intn(4) == 0 && n < 10 {
					if hl, ok = k.check("after a move"); !ok {
						return
					}
				}
			}
			cs.Obs("keys sent", n)
		case 10: // resize
			rows, cols := size()
			old := k.cols
			k.cols = cols
			if !distinct() {
				k.cols = old
				continue
			}
			k.rows = rows
			k.trace = append(k.trace, fmt.Sprintf("resize %dx%d", rows, cols))
			before := len(p.Output())
			p.Resize(rows, cols)
			cs.Obs("resizes", 1)
			// bab must notice this size before the next one: two changes in one go
			// that end at the old size look to it like none
			for t := time.Now(); len(p.Output()) == before && time.Since(t) < 2*time.Second; {
				time.Sleep(2 * time.Millisecond)
			}
		default: // walk through the list
			m := k.matching()
			for i := 0; i < len(m)+1; i++ {
				k.send(kDown)
				k.move(1)
				if hl, ok = k.check("walking down"); !ok {
					return
				}
			}
			if len(m) > 0 {
				walked := map[*pickTask]bool{}
				for _, t := range k.order[string(k.ed.v)] {
					if t != nil {
						walked[t] = true
					}
				}
				from := len(m) // how many the walk has seen for sure
				if len(walked) > from {
					cs.Fail("walking through %d matches shows %d tasks\nkeys: %q\n%s", from, len(walked), k.trace, k.text)
					return
				}
				cs.Obs("walks", 1)
			}
		}
		if hl, ok = k.check("after a step"); !ok {
			return
		}
	}
	q := string(k.ed.v)
	how := pick(r, "\r", "\r", "\r", "\r", "\x1b", "\x03")
	fast := r.Intn(4) == 0
	if fast && how == "\r" { // keys and Enter in one go
		k.pos = min(k.pos, max(0, len(k.matching())-1))
		if known := k.order[q]; known != nil {
			d := pick(r, 1, -1)
			to := max(0, min(k.pos+d, len(known)-1))
			if known[to] != nil {
				k.trace = append(k.trace, "move and enter at once")
				p.Send(map[int]string{1: kDown, -1: kUp}[d] + "\r")
				hl = known[to]
			} else {
				k.send(how)
			}
		} else {
			k.send(how)
		}
	} else {
		k.send(how)
	}
	res := p.Wait(20 * time.Second)
	ended = true
	if !cs.healthy(res, "picker") {
		return
	}
	ran := started(res.Events)
	fail := func(why string) {
		cs.Fail("%s\nkeys: %q\nquery %q, ran %v, exit %d\nscreen:\n%s\n%s", why, k.trace, q, ran, res.Code, strings.Join(p.Screen(), "\n"), k.text)
	}
	if !p.TermiosKept() {
		fail("the picker leaves changed terminal settings")
		return
	}
	if left := p.terminalLeft(); left != "" {
		fail("the picker leaves the terminal " + left)
		return
	}
	if how != "\r" || hl == nil {
		cs.Obs("left without a task", 1)
		if len(ran) != 0 {
			fail("leaving the picker runs a task")
		} else if res.Code != 0 {
			fail("leaving the picker without a task is an error")
		}
		return
	}
	cs.Obs("tasks run", 1)
	if len(ran) != 1 || ran[0] != hl.id {
		fail(fmt.Sprintf("Enter on %q (command %s) runs something else", hl.name, hl.id))
		return
	}
	want := 0
	if hl.code != 0 {
		want = 1
	}
	if res.Code != want {
		fail(fmt.Sprintf("exit status %d instead of %d", res.Code, want))
	}
}

// oddNames: a list with names, aliases and descriptions that hold control
// characters can be searched and left.
func (cs *Case) oddNames() {
	r := cs.R
	bits := []string{"a", "b", "A", "\x00", "\n", "\t", "\r", "\x1b[2J", "\x07", "é", "ж", "e\u0301", "\u202e", "\u200b", "👩‍👩‍👧", " ", "\x7f", "\u2028", "I", "İ", "ß", "_", "-"}
	odd := func() string {
		s := ""
		for i := 1 + r.Intn(6); i > 0; i-- {
			s += pick(r, bits...)
		}
		return s
	}
	tasks := ymap().role("tasks")
	used := map[string]bool{}
	var names []string
	fresh := func() string {
		for {
			if s := odd(); !used[s] {
				used[s] = true
				names = append(names, s)
				return s
			}
		}
	}
	for i := 1 + r.Intn(12); i > 0; i-- {
		t := ymap("run", yseq(ymap("cmd", ys("$R c"))))
		if r.Intn(2) == 0 {
			t.put("desc", ys(odd()))
		}
		if r.Intn(2) == 0 {
			t.put("alias", ys(fresh()))
		}
		tasks.put(fresh(), t)
	}
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	text := ymap("tasks", tasks).Emit(nil)
	_ = os.WriteFile(filepath.Join(root, "Babfile"), []byte(text), 0o644)
	if v := cs.Bab(Run{Dir: root, Args: []string{"--validate"}}); v.Code != 0 {
		cs.Obs("odd files that are not valid", 1)
		return
	}
	p, err := cs.PtyStart(Run{Dir: root}, pick(r, 6, 10, 24), pick(r, 40, 80))
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	if !p.WaitFor(10*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, ""), "bab.sh") || !p.Alive() }) {
		cs.Inconclusive("the picker did not start in time")
	}
	var trace []string
	for i := 2 + r.Intn(12); i > 0; i-- {
		var key string
		switch r.Intn(6) {
		case 0:
			key = pick(r, kDown, kUp, "\x7f", "\x15")
		case 1:
			key = pick(r, "a", "b", "é", "ж", "i", "\u0130")
		default:
			rs := []rune(pick(r, names...))
			for _, c := range rs[:1+r.Intn(len(rs))] {
				if c >= ' ' && c != 0x7f {
					key += string(c)
				}
			}
		}
		trace = append(trace, key)
		p.Send(key)
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
	}
	cs.Case(fmt.Sprintf("odd %d", cs.I))
	cs.Obs("keys sent to odd lists", len(trace))
	time.Sleep(30 * time.Millisecond)
	p.Send("\x03")
	res := p.Wait(20 * time.Second)
	if !cs.healthy(res, "picker") {
		return
	}
	if n := len(started(res.Events)); n != 0 || res.Code != 0 {
		cs.Fail("leaving the picker runs %d commands, exit %d\nkeys: %q\n%s", n, res.Code, trace, text)
	}
}
