package main

// C15: cancellation.

import (
	"fmt"
	"os"
	"strings"
	"syscall"
	"time"
)

func monotonic() int64 {
	var ts syscall.Timespec
	_, _, _ = syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptrOf(&ts), 0)
	return ts.Nano()
}

// foreverCmd is a command that would run for minutes, in many shapes.
// Commands named in bg run as background children.
func (cs *Case) foreverCmd(id string, piped bool) string {
	r := cs.R
	s := fmt.Sprintf("s=%d", 90000+r.Intn(9000))
	shapes := []string{
		fmt.Sprintf("$R %s %s", id, s),
		fmt.Sprintf("exec $R %s %s", id, s),
		fmt.Sprintf("$R %s ign %s", id, s),
		fmt.Sprintf("trap '' INT TERM HUP; $R %s ign %s; $R %s.never", id, s, id),
		fmt.Sprintf("$R %s.bg %s & $R %s %s", id, s, id, s),
		fmt.Sprintf("$R %s.bg ign %s >/dev/null 2>&1 & $R %s %s", id, s, id, s),
		fmt.Sprintf("($R %s.bg %s >/dev/null 2>&1 &); $R %s ign %s", id, s, id, s),
		fmt.Sprintf("sh -c '$R %s.sub %s; true' & sh -c '$R %s %s; true'", id, s, id, s),
		fmt.Sprintf("$R %s %s | cat", id, s),
		fmt.Sprintf("while :; do $R %s %s; done", id, s),
		fmt.Sprintf("nohup $R %s %s", id, s),
		fmt.Sprintf("($R %s.a %s & $R %s.b %s & $R %s %s & wait)", id, s, id, s, id, s),
	}
	if piped { // the shell ends while its background child keeps the output open
		shapes = append(shapes, fmt.Sprintf("$R %s %s &", id, s), fmt.Sprintf("($R %s ign %s &) ; true", id, s), fmt.Sprintf("$R %s %s & exit 3", id, s))
	}
	return pick(r, shapes...)
}

type cancelCase struct {
	cs      *Case
	n       int
	never   map[string]bool // must not start
	forever []string        // run until cancelled
	want    int             // number of long commands that start
	tasks   []*Task
	short   int
}

func (k *cancelCase) id() string { k.n++; return fmt.Sprintf("c%d", k.n) }

func (k *cancelCase) shortCmd() *Item {
	id := k.id()
	k.short++
	return &Item{Kind: kCmd, ID: id, Cmd: fmt.Sprintf("$R %s s=%d", id, k.cs.R.Intn(10))}
}

func (k *cancelCase) longCmd(piped bool) *Item {
	id := k.id()
	it := &Item{Kind: kCmd, ID: id}
	if k.cs.R.Intn(map[bool]int{false: 3, true: 5}[piped]) == 0 {
		it.Output = bp(false)
		piped = true
	}
	it.Cmd = k.cs.foreverCmd(id, piped)
	k.forever = append(k.forever, id)
	return it
}

func (k *cancelCase) neverCmd() *Item {
	id := k.id()
	k.never[id] = true
	return &Item{Kind: kCmd, ID: id, Cmd: "$R " + id}
}

// task makes a task that runs until cancelled.
func (k *cancelCase) task(depth int, tui bool) *Task {
	r := k.cs.R
	t := &Task{Name: fmt.Sprintf("t%d", len(k.tasks))}
	k.tasks = append(k.tasks, t)
	for i := r.Intn(3); i > 0; i-- {
		t.Run = append(t.Run, k.shortCmd())
	}
	switch x := r.Intn(6); {
	case x == 0 && depth < 2: // stuck in a dependency (those of block items run before the block)
		t.Deps = append(t.Deps, k.task(depth+1, tui).Name)
		t.Run = nil
	case x == 1 && depth < 3:
		t.Run = append(t.Run, &Item{Kind: kTask, Task: k.task(depth+1, tui).Name})
	case x <= 4 || tui && depth == 0:
		t.Run = append(t.Run, k.block(depth, tui))
	default:
		t.Run = append(t.Run, k.longCmd(false))
		k.want++
	}
	for i := 1 + r.Intn(2); i > 0; i-- {
		if r.Intn(3) == 0 {
			t.Run = append(t.Run, &Item{Kind: kLog, Log: "NEVERLOG"})
		}
		t.Run = append(t.Run, k.neverCmd())
	}
	return t
}

func (k *cancelCase) block(depth int, tui bool) *Item {
	r := k.cs.R
	b := &Item{Kind: kParallel, Mode: pick(r, "", "", "interleaved", "grouped", "tabs")}
	if tui && depth == 0 {
		b.Mode = pick(r, "grouped", "tabs")
	}
	n := 1 + r.Intn(4)
	if r.Intn(2) == 0 {
		b.Limit = 1 + r.Intn(n)
	}
	for i := 0; i < n; i++ {
		if b.Limit == 0 && depth < 2 && r.Intn(4) == 0 {
			b.Items = append(b.Items, &Item{Kind: kTask, Task: k.task(depth+2, tui).Name})
			continue
		}
		b.Items = append(b.Items, k.longCmd(true))
	}
	if b.Limit > 0 {
		k.want += b.Limit
	} else {
		for _, it := range b.Items {
			if it.Kind == kCmd {
				k.want++
			}
		}
	}
	if b.Limit == 0 && r.Intn(2) == 0 {
		b.Items = append(b.Items, k.shortCmd())
	}
	return b
}

// counts started forever commands
func (k *cancelCase) longStarted(evs []Event) int {
	m := map[string]bool{}
	for _, e := range evs {
		if e.Ev == "start" {
			for _, f := range k.forever {
				if e.ID == f {
					m[f] = true
				}
			}
		}
	}
	return len(m)
}

func waitLog(path string, max time.Duration, f func([]Event) bool) bool {
	end := time.Now().Add(max)
	for time.Now().Before(end) {
		if f(readEvents(path)) {
			return true
		}
		time.Sleep(3 * time.Millisecond)
	}
	return false
}

// leftovers waits for a session to become empty and lists what is left.
func leftovers(sid int) []procStat {
	end := time.Now().Add(3 * time.Second)
	for {
		ps := session(sid)
		if len(ps) == 0 || time.Now().After(end) {
			return ps
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func describe(ps []procStat) string {
	var out []string
	for _, p := range ps {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/cmdline", p.pid))
		out = append(out, fmt.Sprintf("pid %d group %d %s", p.pid, p.pgrp, strings.ReplaceAll(clip(string(b), 120), "\x00", " ")))
	}
	return strings.Join(out, "\n")
}

const exitLimit = 12 * time.Second

// judge checks what is left after a cancelled run.
func (k *cancelCase) judge(r *Res, tsig int64, sent time.Time, how string) {
	cs := k.cs
	left := leftovers(r.Pid)
	desc := ""
	if len(left) > 0 {
		desc = describe(left)
		killSession(r.Pid)
	}
	if r.Hung {
		cs.Fail("%s: bab did not end within %v\nstill running:\n%s\nstderr:\n%s", how, exitLimit, desc, clip(stripSGR(r.Err), 3000))
		return
	}
	if p := panicked(r); p != "" {
		cs.Fail("%s: bab crashed (%s)\n%s", how, p, clip(r.Err, 4000))
		return
	}
	if r.Code < 0 {
		if len(r.Events) > 0 {
			cs.Fail("%s: bab was ended by signal %v instead of ending itself", how, r.Sig)
		} else {
			cs.Obs("signal before bab had started", 1)
		}
	}
	if len(left) > 0 {
		cs.Fail("%s: processes outlive bab:\n%s\nexit status %d, stderr:\n%s", how, desc, r.Code, clip(stripSGR(r.Err), 2000))
		return
	}
	for _, e := range r.Events {
		if e.Ev == "start" && (k.never[e.ID] || strings.HasSuffix(e.ID, ".never")) {
			cs.Fail("%s: command %s, which could only start after a cancelled one, was run\n%s", how, e.ID, clip(stripSGR(r.Err), 2000))
			return
		}
	}
	if strings.Contains(r.Err, "NEVERLOG") || strings.Contains(r.Out, "NEVERLOG") {
		cs.Fail("%s: a log item after the cancelled command was run\n%s", how, clip(stripSGR(r.Err), 2000))
		return
	}
	if n := k.longStarted(r.Events); n > k.want {
		cs.Fail("%s: %d commands were started although only %d had a slot before the cancellation", how, n, k.want)
		return
	}
	cs.Obs("processes started by cancelled runs", len(started(r.Events)))
}

func (cs *Case) cancelRun(tty bool, atStart bool) {
	k := &cancelCase{cs: cs, never: map[string]bool{}}
	k.task(0, tty)
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: k.tasks}}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	sig := pick(cs.R, syscall.SIGINT, syscall.SIGTERM)
	delay := time.Duration(cs.R.Intn(30)) * time.Millisecond
	if atStart {
		delay = time.Duration(cs.R.Intn(90000)) * time.Microsecond
	}
	how := fmt.Sprintf("signal %v", sig)
	run := Run{Dir: pl.Root, Args: []string{"t0"}, Timeout: 60 * time.Second}
	var tsig int64
	var sent time.Time
	send := func(p int, log string, key func()) {
		if !atStart {
			if !waitLog(log, 25*time.Second, func(e []Event) bool { return k.longStarted(e) >= k.want }) {
				cs.Inconclusive("the long commands did not all start")
			}
		}
		time.Sleep(delay)
		tsig, sent = monotonic(), time.Now()
		if key != nil {
			key()
		} else {
			_ = syscall.Kill(p, sig)
		}
	}
	var r *Res
	if tty {
		p, err := cs.PtyStart(run, 24, 90)
		if err != nil {
			cs.Inconclusive("no terminal")
			return
		}
		var key func()
		if cs.R.Intn(2) == 0 {
			key = func() { p.Send("\x03") }
			how = "Ctrl+C"
		}
		send(p.Cmd.Process.Pid, p.Log, key)
		r = p.Wait(exitLimit)
		if !r.Hung && !p.TermiosKept() {
			cs.Fail("%s: the terminal settings were not restored", how)
		}
	} else {
		fin := make(chan struct{})
		run.Timeout = 25*time.Second + exitLimit
		run.During = func(p *Proc) {
			defer close(fin)
			send(p.Cmd.Process.Pid, p.Log, nil)
			select {
			case <-p.done:
			case <-time.After(exitLimit):
			}
		}
		r = cs.bab1(run)
		<-fin
	}
	if !r.Hung && !sent.IsZero() && time.Since(sent) > exitLimit+3*time.Second {
		r.Hung = true
	}
	key := ""
	if len(r.Events) > 0 {
		key = fmt.Sprint(proj.Dump(), how, delay/time.Millisecond)
	}
	cs.Case(key)
	if len(r.Events) > 4 {
		cs.Sample(map[string]any{"case": cs.Name, "how": how, "after": delay.String(), "started": started(r.Events), "exit": r.Code})
	}
	if !r.Hung && !sent.IsZero() {
		cs.Obs("milliseconds to the exit, summed", int(r.Start.Add(r.Dur).Sub(sent).Milliseconds()))
	}
	k.judge(r, tsig, sent, how)
}

// shortRun cancels a run of many short commands at a random moment: at most as
// many commands as run at once may still appear after the signal.
func (cs *Case) shortRun() {
	r := cs.R
	k := &cancelCase{cs: cs, never: map[string]bool{}}
	n := 40 + r.Intn(30)
	width := 1
	main := &Task{Name: "t0"}
	other := &Task{Name: "t1"}
	tasks := []*Task{main, other}
	var parCmds []string
	for i := 0; i < n; i++ {
		it := k.shortCmd()
		if r.Intn(2) == 0 {
			it.Cmd = fmt.Sprintf("$R %s", it.ID)
		}
		if r.Intn(8) == 0 {
			b := &Item{Kind: kParallel, Limit: r.Intn(3), Mode: pick(r, "", "grouped", "tabs")}
			m := 1 + r.Intn(6)
			b.Items = append(b.Items, it)
			for j := 0; j < m; j++ {
				b.Items = append(b.Items, k.shortCmd())
			}
			w := m + 1
			if b.Limit > 0 {
				w = min(w, b.Limit)
			}
			width = max(width, w)
			it = b
		}
		if i < n/2 {
			other.Run = append(other.Run, it)
		} else {
			main.Run = append(main.Run, it)
		}
	}
	_ = parCmds
	if r.Intn(2) == 0 {
		main.Deps = []string{"t1"}
	} else {
		main.Run = append([]*Item{{Kind: kTask, Task: "t1"}}, main.Run...)
	}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: tasks}}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	sig := pick(r, syscall.SIGINT, syscall.SIGTERM)
	after := r.Intn(n)
	var tsig int64
	fin := make(chan struct{})
	res := cs.bab1(Run{Dir: pl.Root, Args: []string{"t0"}, Timeout: 30*time.Second + exitLimit, During: func(p *Proc) {
		defer close(fin)
		waitLog(p.Log, 20*time.Second, func(e []Event) bool {
			return len(started(e)) >= after
		})
		time.Sleep(time.Duration(r.Intn(4000)) * time.Microsecond)
		tsig = monotonic()
		_ = syscall.Kill(p.Cmd.Process.Pid, sig)
	}})
	<-fin
	late := 0
	for _, e := range res.Events {
		if e.Ev == "start" && e.T > tsig {
			late++
		}
	}
	cs.Case(fmt.Sprint(proj.Dump(), after))
	cs.Obs("commands in flight at the signal", late)
	k.want = 1 << 30
	how := fmt.Sprintf("signal %v after command %d of %d", sig, after, n)
	if late > width {
		cs.Fail("%s: %d commands started after the signal although at most %d run at once", how, late, width)
		return
	}
	k.judge(res, tsig, time.Time{}, how)
}

// waitingRun cancels bab while it waits for the user.
func (cs *Case) waitingRun() {
	r := cs.R
	k := &cancelCase{cs: cs, never: map[string]bool{}, want: 1 << 30}
	main := &Task{Name: "t0", Run: []*Item{k.shortCmd()}}
	typ := pick(r, "confirm", "input", "select", "multiselect", "number", "password")
	p := &Item{Kind: kPrompt, Prompt: "x", PType: typ, Message: "Tell me"}
	if typ == "select" || typ == "multiselect" {
		p.Options = []string{"red", "green", "blue"}
	}
	main.Run = append(main.Run, p, k.neverCmd())
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	args := []string{"t0"}
	show := "Tell me"
	if r.Intn(3) == 0 {
		args, show = nil, "t0"
	}
	pt, err := cs.PtyStart(Run{Dir: pl.Root, Args: args}, 24, 80)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	if !pt.WaitFor(15*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, "\n"), show) }) {
		cs.Inconclusive("no prompt appeared")
	}
	time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
	sig := pick(r, syscall.SIGINT, syscall.SIGTERM)
	_ = syscall.Kill(pt.Cmd.Process.Pid, sig)
	res := pt.Wait(exitLimit)
	cs.Case(fmt.Sprint(typ, args, sig, cs.I))
	k.judge(res, 0, time.Time{}, fmt.Sprintf("signal %v while waiting for the user (%s)", sig, show))
	if !cs.bad && !pt.TermiosKept() {
		cs.Fail("the terminal settings were not restored after signal %v while waiting for the user", sig)
	}
}

// daemonRun cancels a command that left behind a process outside its group
// which holds the output open.
func (cs *Case) daemonRun() {
	k := &cancelCase{cs: cs, never: map[string]bool{}, want: 1 << 30}
	it := &Item{Kind: kCmd, ID: "m1", Cmd: pick(cs.R, "setsid $R d1 s=60000 & $R m1 s=60000", "setsid $R d1 ign s=60000 & $R m1 ign s=60000", "(setsid $R d1 s=60000 &); $R m1 s=60000 | cat")}
	blk := &Item{Kind: kParallel, Mode: pick(cs.R, "", "grouped"), Items: []*Item{it}}
	if cs.R.Intn(2) == 0 {
		it.Output = bp(false)
		blk = it
	}
	main := &Task{Name: "t0", Run: []*Item{blk, k.neverCmd()}}
	proj := &Project{Main: "Babfile", Files: map[string]*File{"Babfile": {Path: "Babfile", Tasks: []*Task{main}}}}
	pl := cs.Place(proj, nil, cs.modelEnv())
	sig := pick(cs.R, syscall.SIGINT, syscall.SIGTERM)
	var sent time.Time
	fin := make(chan struct{})
	res := cs.bab1(Run{Dir: pl.Root, Args: []string{"t0"}, Timeout: 15*time.Second + exitLimit, During: func(p *Proc) {
		defer close(fin)
		waitLog(p.Log, 15*time.Second, func(e []Event) bool { return len(started(e)) >= 2 })
		sent = time.Now()
		_ = syscall.Kill(p.Cmd.Process.Pid, sig)
	}})
	<-fin
	for _, e := range res.Events {
		if e.Ev == "start" && e.ID == "d1" {
			_ = syscall.Kill(e.Pid, syscall.SIGKILL)
		}
	}
	cs.Case(fmt.Sprint(proj.Dump(), sig))
	k.judge(res, 0, sent, fmt.Sprintf("signal %v with a detached process holding the output", sig))
}

func init() {
	register("C15", "runs that would last for minutes (sequences, dependencies, blocks with limits and modes, commands that ignore signals, trap, pipe, leave background children) are cancelled by SIGINT, SIGTERM or Ctrl+C on a terminal, when all their commands run or at a random moment, also while prompting; afterwards bab must have ended itself, its session must hold no process and no command may have started that had to wait for a cancelled one; non-trivial when commands had started",
		func(c *Ctx) {
			c.Bab()
			c.EachP("long", c.N(150, 2500), 12, func(cs *Case) { cs.cancelRun(false, false) })
			c.EachP("early", c.N(150, 2500), 12, func(cs *Case) { cs.cancelRun(false, true) })
			c.EachP("terminal", c.N(60, 800), 12, func(cs *Case) { cs.cancelRun(true, false) })
			c.EachP("short", c.N(60, 1200), 8, func(cs *Case) { cs.shortRun() })
			c.EachP("waiting", c.N(30, 300), 8, func(cs *Case) { cs.waitingRun() })
			c.EachP("detached", c.N(12, 60), 12, func(cs *Case) { cs.daemonRun() })
		}, "processes that leave the process group of their command (setsid) are not required to end", "bab is given 12 s to end before a run counts as hung")
}
