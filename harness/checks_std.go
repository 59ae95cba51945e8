package main

// C31: commands outside parallel blocks own bab's standard streams.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

func init() {
	register("C31", "sequences of commands (in tasks, dependencies and references, with silent and output set, between log items and parallel blocks, ending in a failure or not) that read given amounts of bab's standard input and write binary chunks to both outputs, with input and output being files (appending and not), pipes with a slow reader, sockets, one file for both, or a terminal: the recorded inputs, the rest left in the input, the exact standard output, the place of every command's bytes between bab's echoes and the terminal-ness of the streams are compared with the expected ones; non-trivial when a command reads or writes",
		func(c *Ctx) {
			c.Bab()
			c.Each("std", c.N(500, 8000), func(cs *Case) { cs.stdCase() })
			c.EachP("ttyread", 2, 2, func(cs *Case) { cs.ttyRead() })
		}, "commands do not read a terminal in the generated runs: that is the known finding tty-stdin-in-background-group, watched by its own cases")
}

type stdCmd struct {
	id             string
	read           int // bytes read: -1 none, -2 all
	out, err, both []byte
	silent, output bool
	exit           int
}

type stdChunk struct {
	Fd int    `json:"fd"`
	B  []byte `json:"b"`
	S  int    `json:"s"`
}

func (cs *Case) stdBytes(r *randT, mark string) []byte {
	var b []byte
	switch r.Intn(9) {
	case 0:
		b = []byte(mark) // no newline
	case 1:
		b = append([]byte(mark), bytes.Repeat([]byte("0123456789abcde\n"), 1+r.Intn(12000))...)
	case 2:
		b = make([]byte, 1+r.Intn(300))
		r.Read(b)
		b = append([]byte(mark), b...)
	case 3:
		b = []byte("\x00\x1b[31m" + mark + "\x1b[0m\r\n\x1b]0;t\x07")
	case 4:
		b = []byte("\r" + mark + "\r50%\r100%\r\n\n\n")
	case 5:
		b = []byte("\xff\xfe" + mark + "\xc3")
	case 6:
		b = []byte("$ " + mark + "\n● Running x\n")
	default:
		b = []byte(mark + " line\n" + pick(r, "", "more\n", "rest"))
	}
	return b
}

func (cs *Case) stdCase() {
	r := cs.R
	tty := r.Intn(5) == 0
	p := &Project{Main: "Babfile", Files: map[string]*File{}}
	f := &File{Path: "Babfile"}
	p.Files["Babfile"] = f
	root := filepath.Join(cs.Dir, "proj")
	if r.Intn(6) == 0 {
		f.Silent = bp(true)
	}
	noRead := tty
	var cmds []*stdCmd
	left := 0
	input := make([]byte, pick(r, 0, 10, 300, 5000, 200000))
	r.Read(input)
	if r.Intn(2) == 0 { // lines
		for i := range input {
			input[i] = "abcdefgh\n"[int(input[i])%9]
		}
	}
	left = len(input)
	failed := false
	mkCmd := func(t *Task) *Item {
		id := fmt.Sprintf("k%d", len(cmds)+1)
		c := &stdCmd{id: id, read: -1, output: true}
		c.silent = t.Silent != nil && *t.Silent || t.Silent == nil && f.Silent != nil && *f.Silent
		it := &Item{Kind: kCmd, ID: id}
		if r.Intn(3) == 0 { // variables, few or many
			for n := pick(r, 1, 2, 5, 9, 30); n > 0; n-- {
				it.Env = append(it.Env, KV{fmt.Sprintf("E_%d", n), pick(r, "", "x", "a b", "$E_2")})
			}
		}
		if r.Intn(6) == 0 {
			it.Silent = bp(r.Intn(2) == 0)
			c.silent = *it.Silent
		}
		if t.Output != nil {
			c.output = *t.Output
		}
		if r.Intn(6) == 0 {
			it.Output = bp(r.Intn(2) == 0)
			c.output = *it.Output
		}
		line := "$R " + id + " tty"
		if !noRead && c.output && r.Intn(2) == 0 {
			if r.Intn(6) == 0 {
				c.read = -2
				line += " in"
			} else {
				n := r.Intn(min(left+5, 70000) + 1)
				c.read = n
				line += fmt.Sprintf(" inn=%d", n)
			}
		}
		if r.Intn(4) > 0 {
			var ch []stdChunk
			for k := 1 + r.Intn(4); k > 0; k-- {
				x := stdChunk{Fd: 1 + r.Intn(2), B: cs.stdBytes(r, fmt.Sprintf("<%s.%d>", id, k)), S: pick(r, 0, 0, 0, 300)}
				ch = append(ch, x)
				if x.Fd == 1 {
					c.out = append(c.out, x.B...)
				} else {
					c.err = append(c.err, x.B...)
				}
				c.both = append(c.both, x.B...)
			}
			b, _ := json.Marshal(ch)
			pf := filepath.Join(cs.Dir, id+".play")
			_ = os.WriteFile(pf, b, 0o644)
			line += " p=" + pf
		}
		if !failed && r.Intn(25) == 0 {
			failed = true
			c.exit = 3
			line += " x=3"
		}
		it.Cmd = line
		if r.Intn(6) == 0 {
			it.Cmd = "( " + line + " )"
		}
		cmds = append(cmds, c)
		return it
	}
	var mkTask func(name string, depth int) *Task
	mkTask = func(name string, depth int) *Task {
		t := &Task{Name: name}
		f.Tasks = append(f.Tasks, t)
		if r.Intn(8) == 0 {
			t.Silent = bp(r.Intn(2) == 0)
		}
		if r.Intn(10) == 0 {
			t.Output = bp(r.Intn(2) == 0)
		}
		if depth < 2 {
			for k := r.Intn(2); k > 0; k-- {
				d := fmt.Sprintf("t%d", len(f.Tasks))
				t.Deps = append(t.Deps, d)
				mkTask(d, depth+1)
			}
		}
		for k := 1 + r.Intn(4); k > 0; k-- {
			x := r.Intn(8)
			switch {
			case x == 0 && depth < 2:
				d := fmt.Sprintf("t%d", len(f.Tasks))
				t.Run = append(t.Run, &Item{Kind: kTask, Task: d})
				mkTask(d, depth+1)
			case x == 1:
				t.Run = append(t.Run, &Item{Kind: kLog, Log: "a log line", Level: pick(r, "", "info", "warn", "error")})
			case x == 2 && !failed:
				b := &Item{Kind: kParallel}
				if !tty {
					b.Mode = pick(r, "", "", "grouped", "tabs")
				}
				for n := 1 + r.Intn(3); n > 0; n-- {
					b.Items = append(b.Items, &Item{Kind: kCmd, Cmd: pick(r, ":", "cat >/dev/null", "true")})
				}
				t.Run = append(t.Run, b)
			default:
				t.Run = append(t.Run, mkCmd(t))
			}
		}
		if len(t.Run) == 0 {
			t.Run = append(t.Run, mkCmd(t))
		}
		return t
	}
	mkTask("t0", 0)
	if err := p.Write(root, r); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	for i, c := range cmds {
		if c.exit != 0 {
			cmds = cmds[:i+1]
		}
	}
	nontrivial := false
	for _, c := range cmds {
		nontrivial = nontrivial || c.read != -1 || len(c.both) > 0
	}

	// streams
	run := Run{Dir: root, Args: []string{"t0"}}
	var inKind, outKind string
	var inRest func() []byte
	var closers []io.Closer
	defer func() {
		for _, c := range closers {
			c.Close()
		}
	}()
	if !tty {
		inKind = pick(r, "file", "pipe", "socket", "null")
		switch inKind {
		case "null":
			input = nil
		case "file":
			pth := filepath.Join(cs.Dir, "input")
			_ = os.WriteFile(pth, input, 0o644)
			fh, err := os.Open(pth)
			if err != nil {
				cs.Inconclusive("cannot open input")
				return
			}
			closers = append(closers, fh)
			run.StdinF = fh
			inRest = func() []byte { b, _ := io.ReadAll(fh); return b }
		case "pipe", "socket":
			var rd, wr *os.File
			if inKind == "pipe" {
				var err error
				if rd, wr, err = os.Pipe(); err != nil {
					cs.Inconclusive("no pipe")
					return
				}
			} else {
				fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
				if err != nil {
					cs.Inconclusive("no socket pair")
					return
				}
				syscall.CloseOnExec(fds[0])
				syscall.CloseOnExec(fds[1])
				rd, wr = os.NewFile(uintptr(fds[0]), "in"), os.NewFile(uintptr(fds[1]), "out")
			}
			closers = append(closers, rd)
			data, seed := input, r.Int63()
			go func() {
				rr := newRand(seed)
				for len(data) > 0 {
					n := min(len(data), 1+rr.Intn(60000))
					if rr.Intn(3) == 0 {
						n = min(n, 1+rr.Intn(20))
					}
					if _, err := wr.Write(data[:n]); err != nil {
						break
					}
					data = data[n:]
				}
				wr.Close()
			}()
			run.StdinF = rd
			inRest = func() []byte { b, _ := io.ReadAll(rd); return b }
		}
		outKind = pick(r, "append", "append merged", "file", "pipe", "slow pipe", "pipe merged")
	} else {
		inKind, outKind = "terminal", "terminal"
	}
	if nontrivial {
		cs.Case(fmt.Sprint(showFiles(readAll(root, p)), inKind, outKind, cs.I))
	} else {
		cs.Case("")
	}
	cs.Obs("input "+inKind, 1)
	cs.Obs("output "+outKind, 1)

	var res *Res
	merged := strings.Contains(outKind, "merged") || tty
	if tty {
		run.PtyRaw = true
		pt, err := cs.PtyStart(run, 24, 80)
		if err != nil {
			cs.Inconclusive("no terminal")
			return
		}
		res = pt.Wait(25 * time.Second)
	} else {
		run.Merge = merged
		var wg sync.WaitGroup
		var got bytes.Buffer
		switch {
		case outKind == "file":
			fh, err := os.Create(filepath.Join(cs.Dir, "out"))
			if err != nil {
				cs.Inconclusive("cannot create output")
				return
			}
			_, _ = fh.WriteString("HEAD")
			closers = append(closers, fh)
			run.OutF = fh
		case strings.Contains(outKind, "pipe"):
			rd, wr, err := os.Pipe()
			if err != nil {
				cs.Inconclusive("no pipe")
				return
			}
			closers = append(closers, rd)
			run.OutF = wr
			slow := strings.Contains(outKind, "slow")
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := make([]byte, 8192)
				for {
					n, err := rd.Read(b)
					got.Write(b[:n])
					if err != nil {
						return
					}
					if slow {
						time.Sleep(200 * time.Microsecond)
					}
				}
			}()
		}
		run.During = func(*Proc) {} // no second try: the streams are used up
		res = cs.Bab(run)
		if strings.Contains(outKind, "pipe") {
			run.OutF.Close()
			wg.Wait()
			res.Out = got.String()
		}
		if outKind == "file" {
			b, _ := os.ReadFile(filepath.Join(cs.Dir, "out"))
			res.Out = string(b)
		}
	}
	if merged && !tty {
		res.Err = res.Out
	}
	if !cs.healthy(res, "bab t0") {
		return
	}
	fail := func(f string, a ...any) {
		cs.Fail("%s\ninput %s (%d bytes), output %s, exit %d\nstdout: %q\nstderr: %q\n%s", fmt.Sprintf(f, a...), inKind, len(input), outKind, res.Code, clip(res.Out, 1500), clip(res.Err, 1500), showFiles(readAll(root, p)))
	}
	wantCode := 0
	if len(cmds) > 0 && cmds[len(cmds)-1].exit != 0 {
		wantCode = 1
	}
	var order []string
	for _, c := range cmds {
		order = append(order, c.id)
	}
	if strings.Join(started(res.Events), " ") != strings.Join(order, " ") || res.Code != wantCode {
		fail("ran %v, expected %v and exit %d", started(res.Events), order, wantCode)
		return
	}
	// input
	pos := 0
	for _, c := range cmds {
		if c.read == -1 {
			continue
		}
		n := len(input) - pos
		if c.read >= 0 && c.read < n {
			n = c.read
		}
		want := string(input[pos : pos+n])
		pos += n
		got, ok := stdinOf(res.Events, c.id)
		if !ok || got != want {
			fail("command %s read %d bytes of input, expected %d from offset %d; first difference at %d", c.id, len(got), len(want), pos-n, byteDiff(got, want))
			return
		}
		cs.Obs("input bytes compared", len(want))
	}
	if inRest != nil {
		got := string(inRest())
		if got != string(input[pos:]) {
			fail("after the run %d bytes of input are left, expected %d", len(got), len(input)-pos)
			return
		}
	}
	// terminals
	for _, e := range res.Events {
		if e.Ev != "tty" {
			continue
		}
		want := ""
		if tty {
			want = "012"
		}
		for _, c := range cmds {
			if c.id == e.ID && !c.output {
				want = e.In // a command without output is not given the streams
			}
		}
		if e.In != want {
			fail("command %s sees terminals at %q, expected %q", e.ID, e.In, want)
			return
		}
	}
	// output
	rest := res.Err
	if !merged {
		var want []byte
		if outKind == "file" {
			want = []byte("HEAD")
		}
		for _, c := range cmds {
			if c.output {
				want = append(want, c.out...)
			}
		}
		if res.Out != string(want) {
			fail("standard output has %d bytes, expected exactly the %d bytes of the commands; first difference at %d", len(res.Out), len(want), byteDiff(res.Out, string(want)))
			return
		}
		cs.Obs("standard output bytes compared", len(want))
	}
	for _, c := range cmds {
		blob := string(c.err)
		if merged {
			blob = string(c.both)
		}
		if !c.output {
			blob = ""
		}
		own := rest
		if blob != "" {
			i := strings.Index(rest, blob)
			if i < 0 {
				fail("the bytes of command %s do not appear unmodified and in order", c.id)
				return
			}
			own, rest = rest[:i], rest[i+len(blob):]
			cs.Obs("error or merged output bytes compared", len(blob))
		}
		if j := strings.Index(own, "<k"); j >= 0 && blob != "" {
			// echoes do not hold this mark: commands name files, not marks
			fail("output of a command appears before that of command %s: %q", c.id, clip(own[j:], 80))
			return
		}
		// another command's output must not stand between this command's echo and its bytes
		if !c.silent && blob != "" {
			if !strings.Contains(own, "$R "+c.id+" ") {
				fail("the echo of command %s does not stand before its output", c.id)
				return
			}
		}
		if c.silent && strings.Contains(res.Err, "$R "+c.id+" ") && wantCode == 0 {
			fail("the silent command %s is echoed", c.id)
			return
		}
	}
	if i := strings.Index(rest, "<k"); i >= 0 {
		fail("more output than the commands wrote: %q", clip(rest[i:], 100))
	}
}

func byteDiff(a, b string) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// ttyRead watches the known finding: a command that reads the terminal.
func (cs *Case) ttyRead() {
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	_ = os.WriteFile(filepath.Join(root, "Babfile"), []byte("tasks:\n  t0:\n    run:\n      - cmd: $R c1 inn=6\n"), 0o644)
	cs.Case(fmt.Sprint("tty read ", cs.I))
	p, err := cs.PtyStart(Run{Dir: root, Args: []string{"t0"}}, 24, 80)
	if err != nil {
		cs.Inconclusive("no terminal")
		return
	}
	end := time.Now().Add(5 * time.Second)
	for time.Now().Before(end) && startOf(readEvents(p.Log), "c1") == nil {
		time.Sleep(10 * time.Millisecond)
	}
	p.Send("hello\n")
	for end := time.Now().Add(5 * time.Second); time.Now().Before(end) && p.Alive(); {
		time.Sleep(20 * time.Millisecond)
	}
	if p.Alive() {
		killSession(p.Cmd.Process.Pid)
		_ = p.Cmd.Process.Kill()
		p.Wait(5 * time.Second)
		cs.FailKey("tty-stdin-in-background-group", "a command that reads the terminal is stopped (its process group is in the background) and bab waits for ever")
		return
	}
	res := p.Wait(5 * time.Second)
	if got, _ := stdinOf(res.Events, "c1"); got != "hello\n" || res.Code != 0 {
		cs.Fail("a command that reads the terminal got %q, exit %d", got, res.Code)
	}
}
