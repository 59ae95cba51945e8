package main

// Running bab and reading what the recorder saw.

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type Event struct {
	Ev    string            `json:"ev"`
	ID    string            `json:"id"`
	Pid   int               `json:"pid"`
	Pgid  int               `json:"pgid"`
	T     int64             `json:"t"`
	Cwd   string            `json:"cwd"`
	Env   map[string]string `json:"env"`
	Args  []string          `json:"args"`
	In    string            `json:"in"`
	AtPos int               `json:"-"`
}

func unb64(s string) string {
	b, _ := base64.StdEncoding.DecodeString(s)
	return string(b)
}

func (e *Event) decode() {
	for k, v := range e.Env {
		e.Env[k] = unb64(v)
	}
	for i := range e.Args {
		e.Args[i] = unb64(e.Args[i])
	}
	e.In = unb64(e.In)
}

type Run struct {
	Bin     string
	Dir     string   // working directory
	Args    []string // bab's arguments
	Env     []string // added to the environment
	Drop    []string // variables left out of the environment
	Stdin   []byte   // nil: /dev/null
	StdinF  *os.File // overrides Stdin
	OutF    *os.File // standard output instead of a file of the case
	PtyRaw  bool     // the terminal passes output through unchanged
	Merge   bool     // stdout and stderr into one file
	Timeout time.Duration
	NoLog   bool
	During  func(p *Proc) // called after start
}

type Proc struct {
	Cmd  *exec.Cmd
	Log  string
	done chan struct{}
}

type Res struct {
	Code   int // -1 when killed by a signal
	Sig    syscall.Signal
	Out    string
	Err    string
	Events []Event
	Hung   bool
	Start  time.Time
	Dur    time.Duration
	Pid    int
}

// env is the controlled environment of a bab process.
func (cs *Case) env(extra, drop []string, logf string) []string {
	home := filepath.Join(cs.Dir, "home")
	_ = os.MkdirAll(home, 0o755)
	base := []string{
		"PATH=" + os.Getenv("PATH"),
		"HOME=" + home,
		"XDG_CACHE_HOME=" + filepath.Join(home, ".cache"),
		"LANG=C.UTF-8",
		"TERM=xterm-256color",
		"BAB_NO_UPDATE_CHECK=1",
		"R=" + cs.Rec,
		"VLOG=" + logf,
	}
	if cs.race {
		base = append(base, "GORACE=log_path="+filepath.Join(cs.Dir, "race")+" atexit_sleep_ms=10")
	}
	m := map[string]int{}
	var out []string
	for _, kv := range append(base, extra...) {
		k, _, _ := strings.Cut(kv, "=")
		if i, ok := m[k]; ok {
			out[i] = kv
			continue
		}
		m[k] = len(out)
		out = append(out, kv)
	}
	var res []string
	for _, kv := range out {
		k, _, _ := strings.Cut(kv, "=")
		keep := true
		for _, d := range drop {
			keep = keep && d != k
		}
		if keep {
			res = append(res, kv)
		}
	}
	return res
}

// Bab runs bab once. A run that exceeds its time is repeated once with a longer
// limit, so that a busy machine does not look like a hang.
func (cs *Case) Bab(r Run) *Res {
	if r.Timeout == 0 {
		r.Timeout = 25 * time.Second
	}
	res := cs.bab1(r)
	if res.Hung && r.During == nil && r.StdinF == nil {
		first := res
		r.Timeout *= 2
		if res = cs.bab1(r); !res.Hung {
			cs.Inconclusive("a run took longer than its limit once")
			_ = first
		}
	}
	return res
}

func (cs *Case) bab1(r Run) *Res {
	cs.runs++
	n := cs.runs
	if r.Bin == "" {
		r.Bin = cs.Ctx.Bab()
	}
	logf := filepath.Join(cs.Dir, fmt.Sprintf("events.%d", n))
	outf := filepath.Join(cs.Dir, fmt.Sprintf("stdout.%d", n))
	errf := filepath.Join(cs.Dir, fmt.Sprintf("stderr.%d", n))
	cmd := exec.Command(r.Bin, r.Args...)
	cmd.Dir = r.Dir
	cmd.Env = cs.env(r.Env, r.Drop, logf)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	fo, err := os.OpenFile(outf, os.O_CREATE|os.O_RDWR|os.O_APPEND|os.O_TRUNC, 0o644)
	if err != nil {
		return &Res{Code: -2}
	}
	defer fo.Close()
	fe := fo
	if !r.Merge {
		fe, err = os.OpenFile(errf, os.O_CREATE|os.O_RDWR|os.O_APPEND|os.O_TRUNC, 0o644)
		if err != nil {
			return &Res{Code: -2}
		}
		defer fe.Close()
	}
	cmd.Stdout, cmd.Stderr = fo, fe
	if r.OutF != nil {
		cmd.Stdout = r.OutF
		if r.Merge {
			cmd.Stderr = r.OutF
		}
	}
	switch {
	case r.StdinF != nil:
		cmd.Stdin = r.StdinF
	case r.Stdin != nil:
		cmd.Stdin = bytes.NewReader(r.Stdin)
	}
	res := &Res{Start: time.Now()}
	if err := cmd.Start(); err != nil {
		return &Res{Code: -2, Err: err.Error()}
	}
	res.Pid = cmd.Process.Pid
	p := &Proc{Cmd: cmd, Log: logf, done: make(chan struct{})}
	var werr error
	go func() {
		werr = cmd.Wait()
		close(p.done)
	}()
	if r.During != nil {
		go r.During(p)
	}
	t := time.NewTimer(r.Timeout)
	select {
	case <-p.done:
	case <-t.C:
		res.Hung = true
		cs.Obs("hung runs", 1)
		// ask for the goroutine stacks: they go into the replay
		_ = cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-p.done:
		case <-time.After(3 * time.Second):
			_ = cmd.Process.Kill()
			killSession(res.Pid)
			<-p.done
		}
	}
	t.Stop()
	if res.Hung {
		killSession(res.Pid)
	}
	_ = werr
	res.Dur = time.Since(res.Start)
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			res.Code, res.Sig = -1, ws.Signal()
		} else {
			res.Code = ws.ExitStatus()
		}
	}
	b, _ := os.ReadFile(outf)
	res.Out = string(b)
	if !r.Merge {
		b, _ = os.ReadFile(errf)
		res.Err = string(b)
	}
	if !r.NoLog {
		res.Events = readEvents(logf)
		cs.Obs("events", len(res.Events))
	}
	cs.Obs("bab runs", 1)
	if cs.onRes != nil {
		cs.onRes(cs, res)
	}
	return res
}

func readEvents(path string) []Event {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []Event
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var e Event
		if json.Unmarshal(sc.Bytes(), &e) == nil {
			e.decode()
			e.AtPos = len(out)
			out = append(out, e)
		}
	}
	return out
}

func started(evs []Event) []string {
	var out []string
	for _, e := range evs {
		if e.Ev == "start" {
			out = append(out, e.ID)
		}
	}
	return out
}

func spans(evs []Event) (m map[string]span, dup string) {
	m = map[string]span{}
	for i, e := range evs {
		switch e.Ev {
		case "start":
			if _, ok := m[e.ID]; ok {
				dup = e.ID
			}
			m[e.ID] = span{i, -1}
		case "end":
			s := m[e.ID]
			s.e = i
			m[e.ID] = s
		}
	}
	return m, dup
}

func startOf(evs []Event, id string) *Event {
	for i := range evs {
		if evs[i].Ev == "start" && evs[i].ID == id {
			return &evs[i]
		}
	}
	return nil
}

func stdinOf(evs []Event, id string) (string, bool) {
	for i := range evs {
		if evs[i].Ev == "stdin" && evs[i].ID == id {
			return evs[i].In, true
		}
	}
	return "", false
}

// ---- processes ----

type procStat struct {
	pid, ppid, pgrp, sid int
	state                byte
	comm                 string
}

func readStat(pid int) (procStat, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return procStat{}, false
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	j := strings.IndexByte(s, '(')
	if i < 0 || j < 0 {
		return procStat{}, false
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 4 {
		return procStat{}, false
	}
	at := func(k int) int { v, _ := strconv.Atoi(f[k]); return v }
	return procStat{pid: pid, comm: s[j+1 : i], state: f[0][0], ppid: at(1), pgrp: at(2), sid: at(3)}, true
}

// session lists the live (not zombie) processes of a session.
func session(sid int) []procStat {
	ents, _ := os.ReadDir("/proc")
	var out []procStat
	for _, e := range ents {
		pid, err := strconv.Atoi(e.Name())
		if err != nil {
			continue
		}
		if st, ok := readStat(pid); ok && st.sid == sid && st.state != 'Z' && st.state != 'X' {
			out = append(out, st)
		}
	}
	return out
}

func killSession(sid int) {
	for k := 0; k < 5; k++ {
		ps := session(sid)
		if len(ps) == 0 {
			return
		}
		for _, p := range ps {
			_ = syscall.Kill(p.pid, syscall.SIGKILL)
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// ---- reading bab's own output ----

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;:]*m")

func stripSGR(s string) string { return ansiRe.ReplaceAllString(s, "") }

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// runtimeForkCrash recognises a crash of the Go runtime itself: the first process
// started makes os.checkPidfd clone a child that shares the parent's signal
// handlers, and a signal for the terminal's process group that reaches this child
// ends in a SIGSEGV (seen with the race detector). No code of bab is involved.
func runtimeForkCrash(r *Res) bool {
	if !strings.Contains(r.Err, "SIGSEGV: segmentation violation\nPC=") && !strings.Contains(r.Err, "SIGSEGV: segmentation violation\r\nPC=") {
		return false
	}
	inner, _, ok := strings.Cut(r.Err, "os.checkPidfd()")
	if !ok {
		return false
	}
	i := strings.LastIndex(inner, "[running]:")
	return i >= 0 && !strings.Contains(inner[i:], "github.com/") && !strings.Contains(inner[i:], "main.")
}

// panicked reports a Go crash in the output.
func panicked(r *Res) string {
	if runtimeForkCrash(r) {
		return ""
	}
	for _, pat := range []string{"panic:", "fatal error:", "goroutine 1 [", "runtime error:", "SIGSEGV"} {
		if strings.Contains(r.Err, pat) && strings.Contains(r.Err, "goroutine ") {
			return pat
		}
	}
	return ""
}
