package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// The recorder plays curl and wget for the installer: VDL names a file with the
// replies, by kind of request.
type dlReply struct {
	Name string // the expected end of the URL
	Body []byte
	Code int  // HTTP status
	Exit int  // exit status of the tool when the transfer breaks
	Cut  int  // bytes written before that
	Kill bool // the installer is killed meanwhile
}

func download(tool string) int {
	var plan map[string]dlReply
	b, _ := os.ReadFile(os.Getenv("VDL"))
	if json.Unmarshal(b, &plan) != nil {
		return 97
	}
	out, url, fail, w := "", "", false, ""
	args := os.Args[1:]
	for i := 0; i < len(args); i++ {
		a := args[i]
		next := func() string {
			if i+1 < len(args) {
				i++
				return args[i]
			}
			return ""
		}
		switch {
		case strings.Contains(a, "://"):
			url = a
		case a == "--output" || a == "--output-document":
			out = next()
		case a == "--header" || a == "--user-agent" || a == "--max-time" || a == "--retry" || a == "--tries" || a == "--timeout" || a == "--connect-timeout" || a == "--proto":
			next()
		case a == "--write-out":
			w = next()
		case a == "--fail":
			fail = true
		case strings.HasPrefix(a, "--"):
		case strings.HasPrefix(a, "-"):
			for j := 1; j < len(a); j++ {
				c := a[j]
				arg := false
				switch {
				case tool == "curl" && c == 'o' || tool == "wget" && c == 'O':
					out, arg = a[j+1:], true
					if out == "" {
						out = next()
					}
				case tool == "curl" && c == 'w':
					w, arg = a[j+1:], true
					if w == "" {
						w = next()
					}
				case tool == "curl" && (c == 'H' || c == 'A' || c == 'm') || tool == "wget" && (c == 't' || c == 'T' || c == 'U'):
					arg = true
					if a[j+1:] == "" {
						next()
					}
				case tool == "curl" && c == 'f':
					fail = true
				}
				if arg {
					break
				}
			}
		}
	}
	kind := "json"
	if strings.Contains(url, "/download/") {
		kind = "archive"
		if strings.HasSuffix(url, "/checksums.txt") {
			kind = "sums"
		}
	}
	emit(event{Ev: "get", ID: kind, Args: []string{base64.StdEncoding.EncodeToString([]byte(url))}})
	r := plan[kind]
	if r.Name != "" && !strings.HasSuffix(url, r.Name) {
		// another release
		r = plan["other "+kind]
		if r.Name == "" || !strings.HasSuffix(url, r.Name) {
			r = dlReply{Code: 404, Body: []byte("Not Found")}
		}
	}
	if r.Kill {
		_ = syscall.Kill(os.Getppid(), syscall.SIGTERM)
	}
	write := func(b []byte) {
		if out == "" || out == "-" {
			_, _ = os.Stdout.Write(b)
			return
		}
		_ = os.WriteFile(out, b, 0o644)
	}
	code := fmt.Sprintf("%03d", r.Code)
	if r.Exit != 0 {
		if r.Cut >= 0 {
			write(r.Body[:min(r.Cut, len(r.Body))])
		}
		if w != "" {
			fmt.Print(strings.ReplaceAll(w, "%{http_code}", code))
		}
		if tool == "wget" {
			return 4
		}
		return r.Exit
	}
	switch {
	case r.Code < 400:
		write(r.Body)
	case tool == "wget":
		write(nil)
		return 8
	case fail:
		fmt.Print(strings.ReplaceAll(w, "%{http_code}", code))
		return 22
	default:
		write(r.Body)
	}
	if w != "" {
		fmt.Print(strings.ReplaceAll(w, "%{http_code}", code))
	}
	return 0
}

func playsDownloader() (string, bool) {
	t := filepath.Base(os.Args[0])
	return t, t == "curl" || t == "wget"
}
