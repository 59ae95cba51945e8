package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// supervise runs a command with a seccomp filter that reports every system call
// that opens, changes, renames or removes files to this process before it happens.
// Calls on files below SUP_DIR are numbered and logged (SUP_LOG, one JSON line
// each); SUP_ACT says what happens at which number:
//
//	kill:N          the process is killed instead of call N
//	err:N:ERRNO     call N fails
//	errfrom:N:ERRNO every write from call N on fails (a full disk)
//	short:N:K       call N (a write) writes K bytes only; the next write fails with ENOSPC
//	shortkill:N:K   call N writes K bytes, then the process is killed
//	delay:SEED      every call is delayed by a random time up to SUP_DELAY
type supEvent struct {
	N    int
	Call string
	Path string
	To   string `json:",omitempty"`
	Flag int    `json:",omitempty"`
	Done string `json:",omitempty"` // what was done to it
}

const (
	seccompSetModeFilter = 1
	filterNewListener    = 1 << 3
	notifRecv            = 0xc0502100
	notifSend            = 0xc0182101
	retUserNotif         = 0x7fc00000
	retAllow             = 0x7fff0000
	notifContinue        = 1
)

// x86-64 system calls that are watched
var supCalls = map[uint32]string{
	1: "write", 2: "open", 18: "pwrite64", 20: "writev", 74: "fsync", 75: "fdatasync", 76: "truncate", 77: "ftruncate",
	82: "rename", 83: "mkdir", 85: "creat", 86: "link", 87: "unlink", 257: "openat", 258: "mkdirat", 263: "unlinkat",
	264: "renameat", 265: "linkat", 285: "fallocate", 316: "renameat2", 3: "close", 217: "getdents64", 262: "newfstatat",
	0: "read", 437: "openat2", 90: "chmod", 91: "fchmod", 268: "fchmodat", 332: "statx",
}

type sockFilter struct {
	code   uint16
	jt, jf uint8
	k      uint32
}
type sockFprog struct {
	len    uint16
	filter *sockFilter
}
type seccompData struct {
	nr   int32
	arch uint32
	ip   uint64
	args [6]uint64
}
type seccompNotif struct {
	id    uint64
	pid   uint32
	flags uint32
	data  seccompData
}
type seccompResp struct {
	id    uint64
	val   int64
	err   int32
	flags uint32
}

func supervise(args []string) int {
	runtime.LockOSThread()
	// a collection could stop the loop while this thread is inside a fork whose
	// child waits for the loop
	debug.SetGCPercent(-1)
	var prog []sockFilter
	// the loader offset of nr is 0
	prog = append(prog, sockFilter{0x20, 0, 0, 0})
	var nrs []uint32
	for nr := range supCalls {
		nrs = append(nrs, nr)
	}
	for i, nr := range nrs {
		prog = append(prog, sockFilter{0x15, uint8(len(nrs) - i), 0, nr})
	}
	prog = append(prog, sockFilter{0x06, 0, 0, retAllow}, sockFilter{0x06, 0, 0, retUserNotif})
	fp := sockFprog{uint16(len(prog)), &prog[0]}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRCTL, 38, 1, 0, 0, 0, 0); e != 0 {
		fmt.Fprintln(os.Stderr, "supervise: no_new_privs:", e)
		return 97
	}
	dir, _ := filepath.EvalSymlinks(os.Getenv("SUP_DIR"))
	logf, err := os.OpenFile(os.Getenv("SUP_LOG"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, "supervise:", err)
		return 97
	}
	fdc := make(chan int)
	go supLoop(fdc, dir, logf, os.Getenv("SUP_ACT"))
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	for _, kv := range os.Environ() {
		if !strings.HasPrefix(kv, "SUP_") {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	// this thread's own watched calls are let through by the loop, which runs on
	// threads that have no filter
	fd, _, e := syscall.RawSyscall(317, seccompSetModeFilter, filterNewListener, uintptr(unsafe.Pointer(&fp)))
	if e != 0 {
		fmt.Fprintln(os.Stderr, "supervise: seccomp:", e)
		return 97
	}
	fdc <- int(fd)
	syscall.CloseOnExec(int(fd))
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "supervise:", err)
		return 97
	}
	fdc <- cmd.Process.Pid
	_ = cmd.Wait()
	ws := cmd.ProcessState.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		return 128 + int(ws.Signal())
	}
	return ws.ExitStatus()
}

func supLoop(fdc chan int, dir string, logf *os.File, act string) {
	fd := <-fdc
	own := os.Getpid()
	child := 0
	go func() { child = <-fdc }()
	var kind, extra string
	at := -1
	f := strings.SplitN(act, ":", 3)
	kind = f[0]
	if len(f) > 1 {
		at, _ = strconv.Atoi(f[1])
	}
	if len(f) > 2 {
		extra = f[2]
	}
	rng := rand.New(rand.NewSource(int64(at)))
	maxDelay, _ := strconv.Atoi(os.Getenv("SUP_DELAY"))
	n := 0
	failNext := false
	errno := map[string]syscall.Errno{"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT, "EMFILE": syscall.EMFILE, "EROFS": syscall.EROFS, "EINTR": syscall.EINTR, "EPERM": syscall.EPERM}
	under := func(p string) bool { return dir != "" && (p == dir || strings.HasPrefix(p, dir+"/")) }
	for {
		var q seccompNotif
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), notifRecv, uintptr(unsafe.Pointer(&q))); e != 0 {
			if e == syscall.EINTR || e == syscall.ENOENT {
				continue
			}
			return
		}
		r := seccompResp{id: q.id, flags: notifContinue}
		if int(q.pid) != own && !sameGroup(int(q.pid), own) {
			ev := supDescribe(&q)
			if under(ev.Path) || under(ev.To) {
				n++
				ev.N = n
				isWrite := ev.Call == "write" || ev.Call == "pwrite64" || ev.Call == "writev"
				switch {
				case kind == "kill" && n == at:
					ev.Done = "killed"
				case kind == "err" && n == at:
					ev.Done = extra
					r = seccompResp{id: q.id, err: -int32(errno[extra])}
				case kind == "errfrom" && n >= at && (isWrite || ev.Call == "ftruncate" || ev.Call == "fallocate"):
					ev.Done = extra
					r = seccompResp{id: q.id, err: -int32(errno[extra])}
				case failNext && isWrite:
					ev.Done = "ENOSPC"
					r = seccompResp{id: q.id, err: -int32(syscall.ENOSPC)}
				case (kind == "short" || kind == "shortkill") && n == at && ev.Call == "write":
					k, _ := strconv.Atoi(extra)
					if w := supShort(&q, k); w >= 0 {
						ev.Done = fmt.Sprintf("wrote %d of %d", w, q.data.args[2])
						r = seccompResp{id: q.id, val: int64(w)}
						failNext = true
					}
				case kind == "delay" && maxDelay > 0:
					if rng.Intn(3) > 0 {
						time.Sleep(time.Duration(rng.Intn(maxDelay)) * time.Microsecond)
					}
				}
				b, _ := json.Marshal(ev)
				_, _ = logf.Write(append(b, '\n'))
				if ev.Done == "killed" || kind == "shortkill" && n == at {
					for child == 0 {
						time.Sleep(time.Millisecond)
					}
					_ = syscall.Kill(child, syscall.SIGKILL)
					continue // never answered: the call does not happen
				}
			}
		}
		_, _, _ = syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), notifSend, uintptr(unsafe.Pointer(&r)))
	}
}

func sameGroup(tid, pid int) bool {
	_, err := os.Stat(fmt.Sprintf("/proc/%d/task/%d", pid, tid))
	return err == nil
}

func supMem(pid uint32, addr uint64, n int) []byte {
	f, err := os.Open(fmt.Sprintf("/proc/%d/mem", pid))
	if err != nil {
		return nil
	}
	defer f.Close()
	b := make([]byte, n)
	k, _ := f.ReadAt(b, int64(addr))
	return b[:k]
}

func supString(pid uint32, addr uint64) string {
	b := supMem(pid, addr, 4096)
	for i, c := range b {
		if c == 0 {
			return string(b[:i])
		}
	}
	return ""
}

func supFd(pid uint32, fd uint64) string {
	p, _ := os.Readlink(fmt.Sprintf("/proc/%d/fd/%d", pid, int32(fd)))
	return strings.TrimSuffix(p, " (deleted)")
}

func supDescribe(q *seccompNotif) supEvent {
	a := q.data.args
	ev := supEvent{Call: supCalls[uint32(q.data.nr)]}
	rel := func(dirfd uint64, p string) string {
		if filepath.IsAbs(p) {
			return filepath.Clean(p)
		}
		base := ""
		if int32(dirfd) == -100 {
			base, _ = os.Readlink(fmt.Sprintf("/proc/%d/cwd", q.pid))
		} else {
			base = supFd(q.pid, dirfd)
		}
		return filepath.Join(base, p)
	}
	at := uint64(0xffffffffffffff9c)
	switch ev.Call {
	case "write", "pwrite64", "writev", "fsync", "fdatasync", "ftruncate", "fallocate", "close", "getdents64", "read", "fchmod":
		ev.Path = supFd(q.pid, a[0])
	case "open", "creat", "truncate", "mkdir", "unlink", "chmod":
		ev.Path = rel(at, supString(q.pid, a[0]))
		if ev.Call == "open" {
			ev.Flag = int(a[1])
		}
	case "openat", "mkdirat", "unlinkat", "newfstatat", "openat2", "fchmodat", "statx":
		ev.Path = rel(a[0], supString(q.pid, a[1]))
		if ev.Call == "openat" {
			ev.Flag = int(a[2])
		}
	case "rename", "link":
		ev.Path, ev.To = rel(at, supString(q.pid, a[0])), rel(at, supString(q.pid, a[1]))
	case "renameat", "renameat2", "linkat":
		ev.Path, ev.To = rel(a[0], supString(q.pid, a[1])), rel(a[2], supString(q.pid, a[3]))
	}
	return ev
}

// supShort does the first k bytes of a write in the process's place.
func supShort(q *seccompNotif, k int) int {
	a := q.data.args
	if k > int(a[2]) {
		k = int(a[2])
	}
	b := supMem(q.pid, a[1], k)
	f, err := os.OpenFile(fmt.Sprintf("/proc/%d/fd/%d", q.pid, int32(a[0])), os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		return -1
	}
	defer f.Close()
	n, err := f.Write(b)
	if err != nil {
		return -1
	}
	return n
}
