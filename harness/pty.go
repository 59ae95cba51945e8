package main

// Running bab on a pseudo terminal.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type winsize struct{ Row, Col, X, Y uint16 }

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

func openPTY() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n, zero int32
	if err = ioctl(master.Fd(), 0x80045430, unsafe.Pointer(&n)); err == nil { // TIOCGPTN
		err = ioctl(master.Fd(), 0x40045431, unsafe.Pointer(&zero)) // TIOCSPTLCK
	}
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

func setSize(f *os.File, rows, cols int) {
	w := winsize{uint16(rows), uint16(cols), 0, 0}
	_ = ioctl(f.Fd(), 0x5414, unsafe.Pointer(&w)) // TIOCSWINSZ
}

func getTermios(f *os.File) syscall.Termios {
	var t syscall.Termios
	_ = ioctl(f.Fd(), 0x5401, unsafe.Pointer(&t)) // TCGETS
	return t
}

// Pty is a bab process on a pseudo terminal.
type Pty struct {
	cs            *Case
	Cmd           *exec.Cmd
	Log           string
	master, slave *os.File
	mu            sync.Mutex
	out           bytes.Buffer
	vt            *VT
	last, sent    time.Time
	done          chan struct{}
	rdone         chan struct{}
	before, after syscall.Termios
	start         time.Time
	mark          int
}

// PtyStart starts bab on a new terminal. Standard input, output and error are
// the terminal unless r names files for them.
func (cs *Case) PtyStart(r Run, rows, cols int) (*Pty, error) {
	cs.runs++
	if r.Bin == "" {
		r.Bin = cs.Ctx.Bab()
	}
	m, s, err := openPTY()
	if err != nil {
		return nil, err
	}
	setSize(m, rows, cols)
	p := &Pty{cs: cs, master: m, slave: s, done: make(chan struct{}), rdone: make(chan struct{}), start: time.Now(), vt: newVT(rows, cols), last: time.Now()}
	if r.PtyRaw {
		t := getTermios(s)
		t.Oflag &^= 1                                 // OPOST
		t.Lflag &^= 0x8 | 0x2 | 0x1                   // ECHO ICANON ISIG
		t.Iflag &^= 0x100 | 0x40                      // ICRNL INLCR
		_ = ioctl(s.Fd(), 0x5402, unsafe.Pointer(&t)) // TCSETS
	}
	p.before = getTermios(s)
	p.Log = filepath.Join(cs.Dir, fmt.Sprintf("events.%d", cs.runs))
	cmd := exec.Command(r.Bin, r.Args...)
	cmd.Dir = r.Dir
	cmd.Env = cs.env(r.Env, r.Drop, p.Log)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = s, s, s
	if r.StdinF != nil {
		cmd.Stdin = r.StdinF
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
	if r.StdinF == nil {
		cmd.SysProcAttr.Setctty = true
		cmd.SysProcAttr.Ctty = 0
	}
	if err := cmd.Start(); err != nil {
		m.Close()
		s.Close()
		return nil, err
	}
	p.Cmd = cmd
	go p.reader()
	go func() {
		_ = cmd.Wait()
		p.after = getTermios(s)
		close(p.done)
	}()
	cs.Obs("bab runs on a terminal", 1)
	return p, nil
}

func (p *Pty) reader() {
	defer close(p.rdone)
	buf := make([]byte, 65536)
	seen := 0
	for {
		n, err := p.master.Read(buf)
		if n > 0 {
			p.mu.Lock()
			p.out.Write(buf[:n])
			p.vt.Write(buf[:n])
			p.last = time.Now()
			// answer the questions a real terminal answers
			b := p.out.Bytes()
			q := bytes.Count(b[seen:], []byte("\x1b[6n"))
			if i := bytes.LastIndex(b[seen:], []byte("\x1b[6n")); i >= 0 {
				seen += i + 4
			}
			p.mu.Unlock()
			for ; q > 0; q-- {
				_, _ = p.master.Write([]byte("\x1b[1;1R"))
			}
		}
		if err != nil {
			return
		}
	}
}

func (p *Pty) Send(s string) {
	p.mu.Lock()
	p.sent = time.Now()
	p.mu.Unlock()
	_, _ = p.master.Write([]byte(s))
}

// Reacted waits until something was written after the last keys, at most d.
func (p *Pty) Reacted(d time.Duration) bool {
	for end := time.Now().Add(d); time.Now().Before(end) && p.Alive(); time.Sleep(2 * time.Millisecond) {
		p.mu.Lock()
		ok := p.last.After(p.sent)
		p.mu.Unlock()
		if ok {
			return true
		}
	}
	return false
}

func (p *Pty) Resize(rows, cols int) {
	p.mu.Lock()
	p.vt.Resize(rows, cols)
	p.mu.Unlock()
	setSize(p.master, rows, cols)
}

func (p *Pty) Output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

// Screen returns the lines the terminal shows.
func (p *Pty) Screen() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.vt.Lines()
}

// Since returns the output after the last call.
func (p *Pty) Since() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.out.String()[p.mark:]
	p.mark = p.out.Len()
	return s
}

// Quiet waits until nothing has been written or typed for d.
func (p *Pty) Quiet(d, max time.Duration) {
	end := time.Now().Add(max)
	for time.Now().Before(end) {
		p.mu.Lock()
		idle := min(time.Since(p.last), time.Since(p.sent))
		p.mu.Unlock()
		if idle >= d || !p.Alive() {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// WaitFor polls until the condition holds on the screen.
func (p *Pty) WaitFor(d time.Duration, f func(screen []string) bool) bool {
	end := time.Now().Add(d)
	for {
		if f(p.Screen()) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		if !p.Alive() {
			p.drain()
			return f(p.Screen())
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func (p *Pty) Alive() bool {
	select {
	case <-p.done:
		return false
	default:
		return true
	}
}

func (p *Pty) drain() {
	// everything written before the exit is in the terminal's buffer
	for i := 0; i < 200; i++ {
		p.mu.Lock()
		idle := time.Since(p.last)
		p.mu.Unlock()
		if idle > 15*time.Millisecond {
			return
		}
		time.Sleep(3 * time.Millisecond)
	}
}

// Wait waits for the end of bab and closes the terminal.
func (p *Pty) Wait(d time.Duration) *Res {
	res := &Res{Start: p.start, Pid: p.Cmd.Process.Pid}
	select {
	case <-p.done:
	case <-time.After(d):
		res.Hung = true
		_ = p.Cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-p.done:
		case <-time.After(3 * time.Second):
			killSession(res.Pid)
			_ = p.Cmd.Process.Kill()
			<-p.done
		}
		killSession(res.Pid)
	}
	res.Dur = time.Since(p.start)
	// with the last writer gone, the reader gets the rest and then an error
	p.slave.Close()
	select {
	case <-p.rdone:
	case <-time.After(3 * time.Second):
	}
	p.master.Close()
	select {
	case <-p.rdone:
	case <-time.After(time.Second):
	}
	if ws, ok := p.Cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			res.Code, res.Sig = -1, ws.Signal()
		} else {
			res.Code = ws.ExitStatus()
		}
	}
	res.Out = p.Output()
	res.Err = res.Out
	res.Events = readEvents(p.Log)
	p.cs.Obs("events", len(res.Events))
	if p.cs.onRes != nil {
		p.cs.onRes(p.cs, res)
	}
	return res
}

// TermiosKept tells whether the terminal settings are as before the run.
func (p *Pty) TermiosKept() bool { return p.before == p.after }
