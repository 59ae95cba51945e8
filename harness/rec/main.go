// rec is the recorder that generated Babfiles run as their commands. It appends
// one JSON line per event to the file $VLOG and behaves as its arguments say:
//
//	rec ID [x=CODE] [sig=N] [s=MILLIS] [g] [p=FILE] [in] [a=ARG]...
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/signal"
	"strconv"
	"strings"
	"syscall"
	"time"
)

type event struct {
	Ev   string            `json:"ev"`
	ID   string            `json:"id"`
	Pid  int               `json:"pid"`
	Pgid int               `json:"pgid"`
	T    int64             `json:"t"`
	Cwd  string            `json:"cwd,omitempty"`
	Env  map[string]string `json:"env,omitempty"`
	Args []string          `json:"args,omitempty"`
	In   string            `json:"in,omitempty"`
}

func emit(e event) {
	path := os.Getenv("VLOG")
	if path == "" {
		return
	}
	e.Pid = os.Getpid()
	e.Pgid, _ = syscall.Getpgid(0)
	var ts syscall.Timespec
	_, _, _ = syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptrOf(&ts), 0)
	e.T = ts.Nano()
	b, _ := json.Marshal(e)
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0o644)
	if err != nil {
		return
	}
	_, _ = f.Write(append(b, '\n'))
	_ = f.Close()
}

func main() {
	if strings.HasSuffix(os.Args[0], "/sh") || os.Args[0] == "sh" {
		os.Exit(0) // stands in for the shell: runs nothing
	}
	if t, ok := playsDownloader(); ok {
		os.Exit(download(t))
	}
	if len(os.Args) < 2 {
		os.Exit(97)
	}
	id := os.Args[1]
	env := map[string]string{}
	for _, kv := range os.Environ() {
		k, v, _ := strings.Cut(kv, "=")
		if os.Getenv("VENVALL") != "" && k != "VLOG" && k != "VENVALL" || strings.HasPrefix(k, "E_") || k == "FORCE_COLOR" || k == "NO_COLOR" || k == "TERM" || k == "PWD" {
			env[k] = base64.StdEncoding.EncodeToString([]byte(v))
		}
	}
	cwd, _ := os.Getwd()
	exit := 0
	sig := 0
	var args []string
	var acts []string
	for _, a := range os.Args[2:] {
		k, v, has := strings.Cut(a, "=")
		switch {
		case k == "x" && has:
			exit, _ = strconv.Atoi(v)
		case k == "sig" && has:
			sig, _ = strconv.Atoi(v)
		case k == "a" && has:
			args = append(args, base64.StdEncoding.EncodeToString([]byte(v)))
		case k == "ign":
			signal.Ignore(syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP)
		default:
			acts = append(acts, a)
		}
	}
	start := event{Ev: "start", ID: id, Cwd: cwd, Env: env, Args: args}
	emit(start)
	for _, a := range acts {
		k, v, _ := strings.Cut(a, "=")
		switch k {
		case "s":
			ms, _ := strconv.Atoi(v)
			time.Sleep(time.Duration(ms) * time.Millisecond)
		case "w": // wait for a file
			for t := time.Now(); time.Since(t) < 30*time.Second; time.Sleep(3 * time.Millisecond) {
				if _, err := os.Stat(v); err == nil {
					break
				}
			}
		case "g":
			if code, ok := gate(id); ok {
				exit = code
			}
		case "in": // read all of stdin
			b, _ := io.ReadAll(os.Stdin)
			emit(event{Ev: "stdin", ID: id, In: base64.StdEncoding.EncodeToString(b)})
		case "inn": // read exactly n bytes
			n, _ := strconv.Atoi(v)
			b := make([]byte, n)
			n, _ = io.ReadFull(os.Stdin, b)
			emit(event{Ev: "stdin", ID: id, In: base64.StdEncoding.EncodeToString(b[:n])})
		case "tty": // which standard streams are terminals
			v := ""
			for fd := 0; fd < 3; fd++ {
				var t [64]byte
				_, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(fd), 0x5401, uintptrOfBytes(&t))
				if e == 0 {
					v += strconv.Itoa(fd)
				}
			}
			emit(event{Ev: "tty", ID: id, In: base64.StdEncoding.EncodeToString([]byte(v))})
		case "p": // play an output script: see play
			play(v)
		case "o": // one line to stdout
			fmt.Fprintln(os.Stdout, v)
		case "e": // one line to stderr
			fmt.Fprintln(os.Stderr, v)
		case "on": // text without a line end
			fmt.Fprint(os.Stdout, v)
		case "en":
			fmt.Fprint(os.Stderr, v)
		}
	}
	emit(event{Ev: "end", ID: id})
	if sig != 0 {
		_ = syscall.Kill(os.Getpid(), syscall.Signal(sig))
		time.Sleep(5 * time.Second)
	}
	os.Exit(exit)
}

// gate announces the process to the scheduler and waits to be released.
func gate(id string) (int, bool) {
	c, err := net.Dial("unix", os.Getenv("VSOCK"))
	if err != nil {
		return 96, true
	}
	defer c.Close()
	fmt.Fprintf(c, "%s %d\n", id, os.Getpid())
	line, err := bufio.NewReader(c).ReadString('\n')
	if err != nil {
		return 95, true
	}
	line = strings.TrimSpace(line)
	if line == "" {
		return 0, false
	}
	code, err := strconv.Atoi(line)
	return code, err == nil
}

// play writes the chunks of a script file: a JSON list of {"fd":1|2,"b":base64,"s":micros}.
func play(path string) {
	data, err := os.ReadFile(path)
	if err != nil {
		os.Exit(94)
	}
	var chunks []struct {
		Fd int    `json:"fd"`
		B  []byte `json:"b"`
		S  int    `json:"s"`
	}
	if json.Unmarshal(data, &chunks) != nil {
		os.Exit(93)
	}
	for _, c := range chunks {
		f := os.Stdout
		if c.Fd == 2 {
			f = os.Stderr
		}
		_, _ = f.Write(c.B)
		if c.S > 0 {
			time.Sleep(time.Duration(c.S) * time.Microsecond)
		}
	}
}
