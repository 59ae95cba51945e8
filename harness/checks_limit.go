package main

// C04: how many items of a parallel block execute at once. Every command waits
// at a gate until the scheduler below releases it, so the number of commands
// executing between two releases is known exactly.

import (
	"bufio"
	"fmt"
	"net"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type arrival struct {
	id   string
	pid  int
	conn net.Conn
}

type Gates struct {
	ln   net.Listener
	Path string
	ch   chan arrival
	mu   sync.Mutex
	open []net.Conn
}

func (cs *Case) gates() (*Gates, error) {
	p := filepath.Join(cs.Dir, "g.sock")
	ln, err := net.Listen("unix", p)
	if err != nil {
		return nil, err
	}
	g := &Gates{ln: ln, Path: p, ch: make(chan arrival, 4096)}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			g.mu.Lock()
			g.open = append(g.open, c)
			g.mu.Unlock()
			go func() {
				line, err := bufio.NewReader(c).ReadString('\n')
				if err != nil {
					c.Close()
					return
				}
				f := strings.Fields(line)
				if len(f) != 2 {
					c.Close()
					return
				}
				pid, _ := strconv.Atoi(f[1])
				g.ch <- arrival{f[0], pid, c}
			}()
		}
	}()
	return g, nil
}

func (g *Gates) Close() {
	g.ln.Close()
	g.mu.Lock()
	for _, c := range g.open {
		c.Close()
	}
	g.mu.Unlock()
}

func (a arrival) release(code int) {
	if code == 0 {
		fmt.Fprintln(a.conn)
	} else {
		fmt.Fprintln(a.conn, code)
	}
	a.conn.Close()
}

const (
	gCmd = iota
	gLog
	gSeq
	gBlock
)

type gNode struct {
	kind    int
	id      string
	limit   int
	kids    []*gNode
	at      int // current child of a sequence
	started bool
	done    bool
	failed  bool
	parent  *gNode
	idx     int
}

type gTree struct {
	root  *gNode
	byID  map[string]*gNode
	n     int
	tasks []*Task
}

func (t *gTree) build(cs *Case, depth int, prof gProf) *gNode {
	r := cs.R
	seq := &gNode{kind: gSeq}
	task := &Task{Name: fmt.Sprintf("t%d", len(t.tasks))}
	t.tasks = append(t.tasks, task)
	n := 1 + r.Intn(2)
	if depth == 0 {
		n = 1 + r.Intn(2)
	}
	hasBlock := false
	for i := 0; i < n; i++ {
		if ((depth == 0 || prof.refs && r.Intn(6) > 0) && !hasBlock && i == n-1) || (depth < prof.depth && r.Intn(3) == 0) {
			hasBlock = true
			seq.add(t.block(cs, depth, prof, task))
			continue
		}
		seq.add(t.cmd(cs, task, nil))
	}
	return seq
}

type gProf struct {
	depth, items int
	inner        int  // items of nested blocks, at most (0: 3)
	refs         bool // mostly references to tasks with blocks
	free         bool // no limit, all the items
}

func (n *gNode) add(c *gNode) {
	c.parent, c.idx = n, len(n.kids)
	n.kids = append(n.kids, c)
}

func (t *gTree) cmd(cs *Case, task *Task, blk *Item) *gNode {
	t.n++
	id := fmt.Sprintf("g%d", t.n)
	it := &Item{Kind: kCmd, ID: id, Cmd: "$R " + id + " g"}
	if blk != nil {
		blk.Items = append(blk.Items, it)
	} else {
		task.Run = append(task.Run, it)
	}
	nd := &gNode{kind: gCmd, id: id}
	t.byID[id] = nd
	return nd
}

func (t *gTree) block(cs *Case, depth int, prof gProf, task *Task) *gNode {
	r := cs.R
	it := &Item{Kind: kParallel, Mode: pick(r, "", "", "interleaved", "grouped", "tabs")}
	if prof.refs && r.Intn(5) > 0 {
		it.Mode = pick(r, "grouped", "tabs")
	}
	b := &gNode{kind: gBlock}
	n := 1 + r.Intn(prof.items)
	if depth > 0 {
		n = 1 + r.Intn(max(3, prof.inner))
	}
	if prof.free {
		n = prof.items*2/3 + r.Intn(prof.items/3)
	}
	switch r.Intn(5) {
	case 0:
	case 1:
		it.Limit = 1
	default:
		it.Limit = 1 + r.Intn(n+2)
		if prof.refs {
			it.Limit = 1 + r.Intn(max(n-1, 1))
		}
	}
	if prof.free {
		it.Limit = pick(r, 0, 0, n-r.Intn(n/8), n)
	}
	b.limit = it.Limit
	task.Run = append(task.Run, it)
	for i := 0; i < n; i++ {
		x := r.Intn(10)
		switch {
		case x == 0 && i > 0:
			t.n++
			it.Items = append(it.Items, &Item{Kind: kLog, Log: fmt.Sprintf("note %d.", t.n), ID: "l"})
			b.add(&gNode{kind: gLog})
		case x == 1 && i > 0:
			it.Items = append(it.Items, &Item{Kind: kCmd, Cmd: "$R never", ID: "never", When: "false"})
		case x == 2 && i > 0:
			it.Items = append(it.Items, &Item{Kind: kCmd, Cmd: "$R never", ID: "never", Platforms: []string{"windows"}})
		case (x <= 4 || prof.refs && x < 8) && depth < prof.depth:
			ti := &Item{Kind: kTask}
			it.Items = append(it.Items, ti)
			name := fmt.Sprintf("t%d", len(t.tasks))
			ti.Task = name
			b.add(t.build(cs, depth+1, prof))
		default:
			b.add(t.cmd(cs, task, it))
		}
	}
	return b
}

func (n *gNode) instant() bool { return n.kind == gLog }

// finish marks a node done and moves its parent on.
func (n *gNode) finish(failed bool) {
	n.done, n.failed = true, failed
	p := n.parent
	if p == nil {
		return
	}
	switch p.kind {
	case gSeq:
		if failed {
			p.finish(true)
			return
		}
		p.at = n.idx + 1
		if p.at == len(p.kids) {
			p.finish(false)
		}
	case gBlock:
		bad := false
		for _, k := range p.kids {
			if !k.done && !k.instant() {
				return
			}
			bad = bad || k.failed
		}
		p.finish(bad)
	}
}

// arrive marks a command as executing. It returns a description of the rule
// that forbids it, or "".
func (n *gNode) arrive() string {
	if n.started {
		return "command " + n.id + " started twice"
	}
	for c := n; c != nil; c = c.parent {
		c.started = true
		p := c.parent
		if p == nil {
			break
		}
		if p.done {
			return "command " + n.id + " started after its task or block had ended"
		}
		if p.kind == gSeq && p.at != c.idx {
			return "command " + n.id + " started before the items preceding it had ended"
		}
		if p.kind == gBlock && p.limit > 0 {
			if x := p.executing(); x > p.limit {
				return fmt.Sprintf("command %s started: %d items of a block with limit %d execute", n.id, x, p.limit)
			}
		}
	}
	return ""
}

func (n *gNode) executing() int {
	x := 0
	for _, k := range n.kids {
		if k.started && !k.done {
			x++
		}
	}
	return x
}

// missing describes what should be executing but is not, or "".
func (n *gNode) missing() string {
	if n.done {
		return ""
	}
	switch n.kind {
	case gCmd:
		if !n.started {
			return "command " + n.id + " has not started"
		}
	case gSeq:
		return n.kids[n.at].missing()
	case gBlock:
		want := 0
		for _, k := range n.kids {
			if !k.done && !k.instant() {
				want++
			}
		}
		if n.limit > 0 && want > n.limit {
			want = n.limit
		}
		if got := n.executing(); got < want {
			return fmt.Sprintf("only %d items of a block (limit %d) execute although %d could", got, n.limit, want)
		}
		for _, k := range n.kids {
			if k.started && !k.done {
				if m := k.missing(); m != "" {
					return m
				}
			}
		}
	}
	return ""
}

func init() {
	register("C04", "random parallel blocks, nested through task references, whose commands all wait at gates; a scheduler releases them one at a time in random order, as success or failure, and between two releases the number of executing items of every block must become exactly min(limit, items left) and never exceed the limit; non-trivial when a block has several items",
		func(c *Ctx) {
			c.Bab()
			c.EachP("gate", c.N(230, 3000), 16, func(cs *Case) { cs.gateCase(gProf{depth: 2, items: 7}, false) })
			c.EachP("wide", c.N(24, 300), 8, func(cs *Case) { cs.gateCase(gProf{items: 40}, false) })
			c.EachP("terminal", c.N(40, 600), 12, func(cs *Case) { cs.gateCase(gProf{depth: 1, items: 6}, true) })
			c.EachP("terminal nested", c.N(30, 500), 10, func(cs *Case) {
				cs.gateCase(gProf{depth: 1 + cs.R.Intn(2), items: 3, inner: 5, refs: true}, true)
			})
			c.EachP("broad", c.N(4, 40), 2, func(cs *Case) {
				cs.gateCase(gProf{items: c.N(110, 400), free: true}, cs.I%2 == 1)
			})
		}, "every command of the workload announces itself at a gate, so an item counts as executing from its first announcement to its release")
}

func (cs *Case) gateCase(prof gProf, tty bool) {
	t := &gTree{byID: map[string]*gNode{}}
	t.root = t.build(cs, 0, prof)
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: t.tasks}}}
	name := cs.included(proj, "t0")
	pl := cs.Place(proj, nil, cs.modelEnv())
	if cs.R.Intn(2) == 0 { // the order of the tasks in the file means nothing
		cs.R.Shuffle(len(t.tasks), func(i, j int) { t.tasks[i], t.tasks[j] = t.tasks[j], t.tasks[i] })
		_ = proj.Write(pl.Root, cs.R)
	}
	g, err := cs.gates()
	if err != nil {
		cs.Inconclusive("no socket")
		return
	}
	defer g.Close()
	failP := pick(cs.R, 0, 0, 10, 40)
	run := Run{Dir: pl.Root, Args: []string{name}, Env: []string{"VSOCK=" + g.Path}}
	var over string
	var order []string
	releases, maxExec := 0, 0
	ended := make(chan struct{})
	drive := func() {
		var held []arrival
		accept := func(a arrival) bool {
			n := t.byID[a.id]
			held = append(held, a)
			if n == nil {
				over = "unexpected command " + a.id
				return false
			}
			if over = n.arrive(); over != "" {
				return false
			}
			maxExec = max(maxExec, len(held))
			return true
		}
		bail := func() {
			for _, a := range held {
				a.release(1)
			}
			for {
				select {
				case a := <-g.ch:
					a.release(1)
				case <-ended:
					return
				}
			}
		}
		for first := true; !t.root.done; first = false {
			deadline := time.After(20 * time.Second)
			for t.root.missing() != "" {
				select {
				case a := <-g.ch:
					if !accept(a) {
						bail()
						return
					}
				case <-deadline:
					over = t.root.missing() + " (waited 20 s)"
					bail()
					return
				case <-ended:
					over = "bab ended although " + t.root.missing()
					return
				}
			}
			grace := 12 * time.Millisecond
			if first {
				grace = 50 * time.Millisecond
			}
			tm := time.After(grace)
		wait:
			for {
				select {
				case a := <-g.ch:
					if !accept(a) {
						bail()
						return
					}
				case <-tm:
					break wait
				}
			}
			i := cs.R.Intn(len(held))
			a := held[i]
			held = append(held[:i], held[i+1:]...)
			code := 0
			if cs.R.Intn(100) < failP {
				code = pick(cs.R, 1, 2, 130)
			}
			t.byID[a.id].finish(code != 0)
			order = append(order, fmt.Sprintf("%s:%d", a.id, code))
			releases++
			a.release(code)
		}
		// nothing may start after the end
		select {
		case a := <-g.ch:
			over = "command " + a.id + " started after everything had ended"
			a.release(1)
		case <-ended:
		}
	}
	var r *Res
	if tty {
		p, err := cs.PtyStart(run, 24, 80)
		if err != nil {
			cs.Inconclusive("no terminal")
			return
		}
		fin := make(chan struct{})
		go func() { drive(); close(fin) }()
		r = p.Wait(120 * time.Second)
		close(ended)
		<-fin
	} else {
		fin := make(chan struct{})
		run.Timeout = 120 * time.Second
		run.During = func(*Proc) { drive(); close(fin) }
		r = cs.Bab(run)
		close(ended)
		<-fin
	}
	key := ""
	if maxExec > 1 || t.n > 2 {
		key = fmt.Sprint(proj.Dump(), order)
	}
	cs.Case(key)
	cs.Obs("releases", releases)
	cs.Obs("most commands executing at once, summed", maxExec)
	if maxExec > 3 {
		cs.Sample(map[string]any{"case": cs.Name, "commands": len(t.byID), "most at once": maxExec, "releases": order})
	}
	if over != "" {
		cs.Fail("%s\nreleased before: %v\nexit status %d\n%s", over, order, r.Code, clip(stripSGR(r.Err), 2000))
		return
	}
	if !cs.healthy(r, "gated run") {
		return
	}
	want := 0
	if t.root.failed {
		want = 1
	}
	if r.Code != want {
		cs.Fail("exit status %d, expected %d\nreleased: %v\n%s", r.Code, want, order, clip(stripSGR(r.Err), 2000))
	}
}
