package main

// C27, C28: the update cache and the update check, with a local release server.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	register("C27", "release builds of bab refreshing the update cache against a local release server, with a supervisor that sees every system call on the cache directory before it happens (seccomp notification): the process killed at each call, each call failing with several errors, writes cut short, a full disk, an exit at a random moment, and several processes refreshing at once with random delays and kills while a watcher reads the cache all the time; every content seen must be no file or one complete version, a version that a failed write or sync left out must not appear, data must be synchronised before it is renamed into place, temporary files must go away; and generated cache contents (truncations at every length, mutations, wrong types, foreign files, future dates, directories): the task's status and output, the announcement and the later refresh are judged by an independent reading; non-trivial when a refresh reached the cache directory or a content was judged",
		func(c *Ctx) {
			c.relBab("1.2.3")
			c.EachP("crash", c.N(6, 24), 6, func(cs *Case) { cs.cacheCrashes() })
			c.EachP("race", c.N(24, 300), 3, func(cs *Case) { cs.cacheRace() })
			c.Each("content", c.N(250, 4000), func(cs *Case) { cs.cacheContent() })
			c.Each("exit", c.N(60, 800), func(cs *Case) { cs.cacheExit() })
		}, "a power failure is judged by the order of the calls (everything written is synchronised before the rename), not by cutting power", "temporary files younger than an hour may stay: they can belong to a running bab")
	register("C28", "release builds with several versions and caches of every age and version, under all opt-outs, in every mode, against a local release server that answers well or badly (status codes, redirects, other hosts, garbage, wrong types, over-long, endless, cut, dripping and stalled replies, refused and untrusted connections): announcements, requests and their headers, the cache afterwards, the tasks' status and output and bab's time are compared with the expected ones; non-trivial when bab ran against the server",
		func(c *Ctx) {
			for _, v := range relVersions {
				c.relBab(v)
			}
			c.Each("check", c.N(700, 8000), func(cs *Case) { cs.updateCase() })
			c.EachP("bad", c.N(120, 1500), 12, func(cs *Case) { cs.badServer() })
			c.EachP("delay", len(stalls)*c.N(2, 12), 6, func(cs *Case) { cs.updateDelay() })
			c.EachP("endless", len(endless)*c.N(1, 4), 12, func(cs *Case) { cs.updateEndless() })
		}, "the server is reached through HTTPS_PROXY and trusted through SSL_CERT_FILE", "versions are of the form major.minor.patch with an optional pre-release name and number", "2.5 s more than without a server count as a delay, in the best of three runs")
}

var relVersions = []string{"1.2.3", "v1.2.3", "2.0.0-rc.1", "0.9.0", "10.0.0", "dev", ""}

func (c *Ctx) relBab(version string) string {
	flags := []string{"-ldflags", "-X main.version=" + version}
	if c.race {
		flags = append(flags, "-race")
	}
	return c.Build("rel-"+version, flags...)
}

type relCache struct {
	CheckedAt     time.Time `json:"checked_at"`
	LatestVersion string    `json:"latest_version"`
	ETag          string    `json:"etag"`
}

func (rc relCache) bytes() []byte {
	b, _ := json.Marshal(rc)
	return b
}

// semver of the generated versions
var semRe = regexp.MustCompile(`^v?(\d+)(?:\.(\d+))?(?:\.(\d+))?(?:-(alpha|beta|rc)\.(\d+))?$`)

func semParse(s string) ([5]int, bool) {
	m := semRe.FindStringSubmatch(s)
	if m == nil {
		return [5]int{}, false
	}
	var v [5]int
	for i := 0; i < 3; i++ {
		if len(m[i+1]) > 15 {
			return v, false // of no size a release has
		}
		v[i], _ = strconv.Atoi(m[i+1])
	}
	v[3] = map[string]int{"": 9, "alpha": 1, "beta": 2, "rc": 3}[m[4]]
	v[4], _ = strconv.Atoi(m[5])
	return v, true
}

func semNewer(a, b string) bool {
	x, ok1 := semParse(a)
	y, ok2 := semParse(b)
	if !ok1 || !ok2 {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return x[i] > y[i]
		}
	}
	return false
}

// readable is the independent reading of a cache file.
func readable(b []byte, now time.Time) *relCache {
	var rc relCache
	if json.Unmarshal(b, &rc) != nil || rc.LatestVersion == "" || rc.CheckedAt.After(now) {
		return nil
	}
	return &rc
}

// announced is the version that bab announces.
var annRe = regexp.MustCompile(`(?i)new version of bab.*`)
var annVer = regexp.MustCompile(`latest="?([^" ]*)"?`)

func announced(stderr string) (string, bool) {
	l := annRe.FindString(stripSGR(stderr))
	if l == "" {
		return "", false
	}
	if m := annVer.FindStringSubmatch(l); m != nil {
		return m[1], true
	}
	return l, true
}

type updSetup struct {
	*Case
	root, home, cacheDir, cacheFile, goFile string
	proxy                                   *Proxy
	env                                     []string
}

func (cs *Case) updSetup() *updSetup {
	u := &updSetup{Case: cs}
	u.root = filepath.Join(cs.Dir, "proj")
	u.home = filepath.Join(cs.Dir, "xdg")
	u.cacheDir = filepath.Join(u.home, "bab")
	u.cacheFile = filepath.Join(u.cacheDir, "update-check.json")
	u.goFile = filepath.Join(cs.Dir, "go")
	_ = os.MkdirAll(u.root, 0o755)
	_ = os.WriteFile(filepath.Join(u.root, "Babfile.yml"), []byte(`tasks:
  ok:
    desc: fine
    run:
      - cmd: $R ok o=hello
  bad:
    run:
      - cmd: $R bad o=hello x=3
  wait:
    run:
      - cmd: $R wait w=$GO o=hello
  waitbad:
    run:
      - cmd: $R waitbad w=$GO o=hello x=3
`), 0o644)
	p, err := newProxy()
	if err != nil {
		cs.Inconclusive("no server: " + err.Error())
		return nil
	}
	u.proxy = p
	u.env = append(p.Env(cs.Dir), "BAB_NO_UPDATE_CHECK=", "CI=", "XDG_CACHE_HOME="+u.home, "GO="+u.goFile)
	return u
}

func (u *updSetup) put(b []byte) {
	_ = os.MkdirAll(u.cacheDir, 0o700)
	_ = os.WriteFile(u.cacheFile, b, 0o644)
	var rc relCache
	if json.Unmarshal(b, &rc) == nil && rc.CheckedAt.Year() > 2000 { // as old as it says
		_ = os.Chtimes(u.cacheFile, rc.CheckedAt, rc.CheckedAt)
	}
}

func (u *updSetup) release() { _ = os.WriteFile(u.goFile, nil, 0o644) }

// waitFor releases the task once f holds or the time is over, and says which.
func (u *updSetup) waitFor(max time.Duration, ok *atomic.Bool, f func() bool) func(p *Proc) {
	return func(p *Proc) {
		for t := time.Now(); time.Since(t) < max; time.Sleep(4 * time.Millisecond) {
			select {
			case <-p.done:
				return
			default:
			}
			if f() {
				ok.Store(true)
				break
			}
		}
		u.release()
	}
}

// leftovers lists the cache directory without the cache file.
func (u *updSetup) leftovers() []string {
	ents, _ := os.ReadDir(u.cacheDir)
	var out []string
	for _, e := range ents {
		if e.Name() != filepath.Base(u.cacheFile) {
			out = append(out, e.Name())
		}
	}
	return out
}

func tagBody(tag string) string {
	return fmt.Sprintf(`{"url":"https://api.github.com/x","id":1,"tag_name":%q,"name":"r","draft":false,"assets":[{"name":"a","size":3}]}`, tag)
}

func (u *updSetup) serve(tag, etag string) {
	u.proxy.Answer = func(conn net.Conn, req *http.Request) { reply(conn, 200, etag, tagBody(tag)) }
}

// isNew reports whether the cache holds exactly the served release.
func (u *updSetup) isNew(b []byte, tag, etag string, since time.Time) bool {
	rc := readable(b, time.Now().Add(time.Second))
	return rc != nil && rc.LatestVersion == tag && rc.ETag == etag && rc.CheckedAt.After(since.Add(-2*time.Second))
}

func supEvents(path string) []supEvent {
	b, _ := os.ReadFile(path)
	var out []supEvent
	for _, l := range bytes.Split(b, []byte("\n")) {
		var e supEvent
		if json.Unmarshal(l, &e) == nil && e.Call != "" {
			out = append(out, e)
		}
	}
	return out
}

func showEvents(evs []supEvent) string {
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "%2d %s %s", e.N, e.Call, filepath.Base(e.Path))
		if e.To != "" {
			fmt.Fprintf(&b, " -> %s", filepath.Base(e.To))
		}
		if e.Flag != 0 {
			fmt.Fprintf(&b, " flags %#x", e.Flag)
		}
		if e.Done != "" {
			fmt.Fprintf(&b, " [%s]", e.Done)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// durable checks that whatever is renamed to the cache file was synchronised
// after its last write, and that the cache file itself is never written in place.
func (u *updSetup) durable(evs []supEvent) string {
	dirty := map[string]bool{}
	for _, e := range evs {
		if e.Done != "" {
			continue
		}
		switch e.Call {
		case "write", "pwrite64", "writev", "ftruncate", "fallocate":
			if e.Path == u.cacheFile {
				return "the cache file is written in place"
			}
			dirty[e.Path] = true
		case "openat", "open", "creat", "truncate":
			if e.Path == u.cacheFile && (e.Call == "creat" || e.Call == "truncate" || e.Flag&(syscall.O_TRUNC) != 0) {
				return "the cache file is truncated in place"
			}
			if e.Flag&(syscall.O_SYNC|syscall.O_DSYNC) != 0 {
				return ""
			}
		case "fsync", "fdatasync":
			dirty[e.Path] = false
		case "rename", "renameat", "renameat2", "link", "linkat":
			if e.To == u.cacheFile && dirty[e.Path] {
				return "the new cache is renamed into place before its data is synchronised"
			}
			dirty[e.To] = dirty[e.Path]
		}
	}
	return ""
}

type supRun struct {
	res  *Res
	evs  []supEvent
	done bool // the refresh ended (renamed, or its temporary file removed)
}

// supervised runs "bab wait" under the supervisor.
func (u *updSetup) supervised(bin, act, tag, etag string, delay int) supRun {
	_ = os.Remove(u.goFile)
	log := filepath.Join(u.Dir, fmt.Sprintf("sup.%d", u.runs))
	self, _ := os.Executable()
	env := append(append([]string{}, u.env...), "SUP_DIR="+u.home, "SUP_LOG="+log, "SUP_ACT="+act, "SUP_DELAY="+strconv.Itoa(delay))
	t0 := time.Now()
	_, reqs0 := u.proxy.Count()
	var ended atomic.Bool
	quiet := func() bool {
		b, _ := os.ReadFile(u.cacheFile)
		evs := supEvents(log)
		var last supEvent
		closed := map[string]bool{}
		for _, e := range evs {
			last = e
			if strings.HasPrefix(e.Call, "unlink") && strings.HasSuffix(e.Path, ".tmp") && e.Done == "" {
				closed[e.Path] = true
			}
		}
		if u.isNew(b, tag, etag, t0) || len(closed) > 0 {
			time.Sleep(30 * time.Millisecond)
			return true
		}
		_ = last
		st, err := os.Stat(log)
		_, reqs := u.proxy.Count()
		return err == nil && reqs > reqs0 && time.Since(st.ModTime()) > 1500*time.Millisecond
	}
	res := u.Bab(Run{Bin: self, Args: []string{"supervise", bin, "wait"}, Dir: u.root, Env: env, Timeout: 60 * time.Second,
		During: u.waitFor(20*time.Second, &ended, quiet)})
	killSession(res.Pid)
	return supRun{res, supEvents(log), ended.Load()}
}

func (u *updSetup) reset(before []byte) {
	ents, _ := os.ReadDir(u.cacheDir)
	for _, e := range ents {
		_ = os.Remove(filepath.Join(u.cacheDir, e.Name()))
	}
	_ = os.Remove(u.cacheDir)
	if before != nil {
		u.put(before)
	}
}

func old(v string, age time.Duration) relCache {
	return relCache{time.Now().Add(-age).UTC(), v, `"old"`}
}

// cacheCrashes walks through every call of one refresh: killed there, failing
// there.
func (cs *Case) cacheCrashes() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	var before []byte
	switch cs.I % 3 {
	case 0:
		before = old("v1.0.0", 48*time.Hour).bytes()
	case 1:
		before = nil
	case 2:
		before = []byte("{not json")
	}
	tag, etag := fmt.Sprintf("v7.%d.0", cs.I), fmt.Sprintf(`"e%d"`, cs.I)
	if cs.R.Intn(2) == 0 {
		etag = `W/"` + strings.Repeat("e", 60+cs.R.Intn(4000)) + `"`
	}
	u.serve(tag, etag)
	bin := cs.relBab("1.2.3")
	judge := func(what string, sr supRun, killed bool) bool {
		fail := func(format string, a ...any) bool {
			cs.Fail("%s: %s\ncache before: %q\ncalls:\n%s\nexit %d stdout %q stderr %q", what, fmt.Sprintf(format, a...), before, showEvents(sr.evs), sr.res.Code, sr.res.Out, clip(sr.res.Err, 2000))
			return false
		}
		if sr.res.Code == 97 {
			cs.Inconclusive("the supervisor cannot run here: " + clip(sr.res.Err, 200))
			return false
		}
		if sr.res.Hung {
			return fail("bab does not end")
		}
		if !killed {
			if sr.res.Code != 0 || !strings.Contains(sr.res.Out, "hello") {
				return fail("the task suffers from the cache")
			}
		}
		if p := panicked(sr.res); p != "" {
			return fail("crash %s", p)
		}
		b, err := os.ReadFile(u.cacheFile)
		switch {
		case err != nil && before != nil:
			return fail("the cache has disappeared")
		case err == nil && !bytes.Equal(b, before) && !u.isNew(b, tag, etag, sr.res.Start):
			return fail("the cache holds neither the old nor the new version: %q", b)
		}
		if why := u.durable(sr.evs); why != "" {
			return fail("%s", why)
		}
		return true
	}
	u.reset(before)
	base := u.supervised(bin, "", tag, etag, 0)
	if !judge("without faults", base, false) {
		return
	}
	b, _ := os.ReadFile(u.cacheFile)
	if !u.isNew(b, tag, etag, base.res.Start) {
		cs.Fail("a good reply does not reach the cache: %q\n%s", b, showEvents(base.evs))
		return
	}
	if l := u.leftovers(); len(l) > 0 {
		cs.Fail("a refresh leaves %q behind\n%s", l, showEvents(base.evs))
		return
	}
	cs.Sample(map[string]any{"calls": strings.Split(strings.TrimSpace(showEvents(base.evs)), "\n")})
	n := len(base.evs)
	for i := 1; i <= n && !cs.Stopped(); i++ {
		ev := base.evs[i-1]
		// killed there
		u.reset(before)
		sr := u.supervised(bin, fmt.Sprintf("kill:%d", i), tag, etag, 0)
		if !judge(fmt.Sprintf("killed at call %d (%s)", i, ev.Call), sr, true) {
			return
		}
		cs.Case(fmt.Sprintf("kill %d %s before %d", i, ev.Call, cs.I%3))
		cs.Obs("kills at a call", 1)
		if ev.Call == "write" {
			for _, k := range []int{1, 20, 60} {
				u.reset(before)
				sr := u.supervised(bin, fmt.Sprintf("shortkill:%d:%d", i, k), tag, etag, 0)
				if !judge(fmt.Sprintf("killed after %d bytes of call %d", k, i), sr, true) {
					return
				}
				cs.Obs("kills inside a write", 1)
			}
		}
		// what is left goes away later
		if l := u.leftovers(); len(l) > 0 {
			cs.Obs("killed runs that left a temporary file", 1)
			// (they may belong to a refresh that is still running)
			young := time.Now().Add(-time.Duration(cs.R.Intn(30)) * time.Minute)
			for _, e := range l {
				_ = os.Chtimes(filepath.Join(u.cacheDir, e), young, young)
			}
			u.put(old("v1.0.0", 48*time.Hour).bytes())
			at := u.supervised(bin, "", tag, etag, 0)
			if !judge("right after a killed refresh", at, false) {
				return
			}
			if b, _ := os.ReadFile(u.cacheFile); !u.isNew(b, tag, etag, at.res.Start) {
				cs.Fail("%q, left by a refresh killed at call %d (%s), keeps the next refresh from saving its version: %q\n%s", l, i, ev.Call, b, showEvents(at.evs))
				return
			}
			left0 := u.leftovers()
			for _, e := range l {
				if !slices.Contains(left0, e) {
					cs.Fail("%q, which another refresh began to write at %s, is removed by a refresh at %s\n%s", e, young.Format(time.TimeOnly), at.res.Start.Format(time.TimeOnly), showEvents(at.evs))
					return
				}
			}
			l = left0
			for _, e := range l {
				t := time.Now().Add(-2 * time.Hour)
				_ = os.Chtimes(filepath.Join(u.cacheDir, e), t, t)
			}
			other := pick(cs.R, "other.txt", "update-check-notes.txt", "update-check.json.bak", "mine.tmp", "old-update-check.json")
			foreign := filepath.Join(u.cacheDir, other)
			_ = os.WriteFile(foreign, []byte("x"), 0o644)
			_ = os.Chtimes(foreign, time.Unix(1e9, 0), time.Unix(1e9, 0))
			u.put(old("v1.0.0", 48*time.Hour).bytes())
			sr := u.supervised(bin, "", tag, etag, 0)
			if sr.res.Code != 0 {
				cs.Fail("a run after a killed one fails: exit %d %s", sr.res.Code, sr.res.Err)
				return
			}
			left := u.leftovers()
			if len(left) != 1 || left[0] != other {
				cs.Fail("after a killed refresh and a good one two hours later %q are left instead of the foreign file only\n%s", left, showEvents(sr.evs))
				return
			}
			_ = os.Remove(foreign)
		}
		// failing there
		errs := []string{"EIO", "ENOSPC", "EACCES", "EDQUOT", "EMFILE", "EROFS"}
		for k := 0; k < cs.N(2, 6); k++ {
			e := errs[(cs.R.Intn(6)+k)%6]
			acts := []string{fmt.Sprintf("err:%d:%s", i, e)}
			if ev.Call == "write" {
				acts = append(acts, fmt.Sprintf("errfrom:%d:ENOSPC", i), fmt.Sprintf("short:%d:%d", i, cs.R.Intn(70)))
			}
			for _, act := range acts {
				u.reset(before)
				sr := u.supervised(bin, act, tag, etag, 0)
				if !judge(fmt.Sprintf("%s (%s)", act, ev.Call), sr, false) {
					return
				}
				cs.Case(fmt.Sprintf("%s %s before %d", act, ev.Call, cs.I%3))
				cs.Obs("failing calls", 1)
				b, _ := os.ReadFile(u.cacheFile)
				onTmp := false
				for _, x := range sr.evs {
					if x.Done != "" && x.Path != u.cacheFile {
						switch x.Call {
						case "write", "pwrite64", "writev", "fsync", "fdatasync":
							onTmp = true
						}
					}
				}
				if onTmp && !bytes.Equal(b, before) && !(len(b) == 0 && before == nil) {
					cs.Fail("%s (%s): the new version is put into place although writing it failed\ncalls:\n%s", act, ev.Call, showEvents(sr.evs))
					return
				}
				if !strings.HasPrefix(ev.Call, "unlink") && sr.done {
					if l := u.leftovers(); len(l) > 0 {
						cs.Fail("%s (%s): %q is left behind\ncalls:\n%s", act, ev.Call, l, showEvents(sr.evs))
						return
					}
				}
			}
		}
	}
}

// cacheRace lets several processes refresh at once.
func (cs *Case) cacheRace() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	var n atomic.Int64
	served := sync.Map{}
	u.proxy.Answer = func(conn net.Conn, req *http.Request) {
		k := n.Add(1)
		tag := fmt.Sprintf("v7.%d.0", k)
		etag := fmt.Sprintf(`"%d-%s"`, k, strings.Repeat("x", int(k%7)*150))
		served.Store(tag, etag)
		time.Sleep(time.Duration(k%3) * time.Millisecond)
		reply(conn, 200, etag, tagBody(tag))
	}
	var before []byte
	if r.Intn(3) > 0 {
		before = old("v1.0.0", 48*time.Hour).bytes()
		u.put(before)
	}
	start := time.Now()
	stop := make(chan bool)
	var wrong atomic.Value
	states := map[string]bool{}
	reads := 0
	var wg sync.WaitGroup
	wg.Add(1)
	look := func(b []byte) string {
		if bytes.Equal(b, before) && before != nil {
			return ""
		}
		rc := readable(b, time.Now().Add(time.Second))
		if rc == nil {
			return fmt.Sprintf("the cache is incomplete: %q", b)
		}
		if e, ok := served.Load(rc.LatestVersion); !ok || e != rc.ETag || rc.CheckedAt.Before(start.Add(-time.Second)) {
			return fmt.Sprintf("the cache mixes versions: %q", b)
		}
		return ""
	}
	go func() {
		defer wg.Done()
		had := before != nil
		for {
			select {
			case <-stop:
				return
			default:
			}
			b, err := os.ReadFile(u.cacheFile)
			reads++
			if err != nil {
				if had {
					wrong.CompareAndSwap(nil, "the cache disappears for a moment")
				}
				continue
			}
			had = true
			states[string(b)] = true
			if why := look(b); why != "" {
				wrong.CompareAndSwap(nil, why)
			}
		}
	}()
	K := 3 + r.Intn(6)
	self, _ := os.Executable()
	bin := cs.relBab("1.2.3")
	type out struct {
		res  *Res
		kill bool
		evs  []supEvent
	}
	outs := make([]out, K)
	var pw sync.WaitGroup
	logs := make([]string, K)
	for i := 0; i < K; i++ {
		logs[i] = filepath.Join(u.Dir, fmt.Sprintf("sup-race.%d", i))
	}
	maxDelay := pick(r, 0, 500, 3000, 12000)
	var ended atomic.Int64
	var runMu sync.Mutex
	for i := 0; i < K; i++ {
		kill := r.Intn(4) == 0
		after := time.Duration(r.Intn(60)) * time.Millisecond
		pw.Add(1)
		go func(i int) {
			defer pw.Done()
			env := append(append([]string{}, u.env...), "SUP_DIR="+u.home, "SUP_LOG="+logs[i], fmt.Sprintf("SUP_ACT=delay:%d", i*1000+cs.I), "SUP_DELAY="+strconv.Itoa(maxDelay))
			sub := *cs
			sub.Dir = filepath.Join(cs.Dir, fmt.Sprintf("p%d", i))
			_ = os.MkdirAll(sub.Dir, 0o755)
			run := Run{Bin: self, Args: []string{"supervise", bin, "wait"}, Dir: u.root, Env: env, Timeout: 60 * time.Second}
			run.During = func(p *Proc) {
				if kill {
					time.Sleep(after)
					killSession(p.Cmd.Process.Pid)
				}
			}
			res := sub.bab1(run)
			killSession(res.Pid)
			runMu.Lock()
			outs[i] = out{res, kill, supEvents(logs[i])}
			runMu.Unlock()
			ended.Add(1)
		}(i)
	}
	// until every process has renamed or removed its file
	for t := time.Now(); time.Since(t) < 15*time.Second; time.Sleep(5 * time.Millisecond) {
		done := int(ended.Load())
		for i := 0; i < K; i++ {
			for _, e := range supEvents(logs[i]) {
				if strings.HasPrefix(e.Call, "rename") || strings.HasPrefix(e.Call, "unlink") {
					done++
					break
				}
			}
		}
		if done >= K {
			break
		}
	}
	time.Sleep(20 * time.Millisecond)
	u.release()
	pw.Wait()
	close(stop)
	wg.Wait()
	cs.Case(fmt.Sprintf("race %d", cs.I))
	cs.Obs("processes racing", K)
	cs.Obs("reads of the cache during races", reads)
	cs.Obs("distinct contents seen during races", len(states))
	all := func() string {
		s := ""
		for i, o := range outs {
			s += fmt.Sprintf("process %d (killed %v) exit %d:\n%s", i, o.kill, o.res.Code, showEvents(o.evs))
		}
		return s
	}
	for _, o := range outs {
		if o.res.Code == 97 {
			cs.Inconclusive("the supervisor cannot run here: " + clip(o.res.Err, 200))
			return
		}
		if !o.kill && (o.res.Code != 0 || !strings.Contains(o.res.Out, "hello") || o.res.Hung) {
			cs.Fail("a task suffers from concurrent refreshes: exit %d stderr %q\n%s", o.res.Code, o.res.Err, all())
			return
		}
		if why := u.durable(o.evs); why != "" {
			cs.Fail("%s\n%s", why, all())
			return
		}
	}
	if w := wrong.Load(); w != nil {
		cs.Fail("%v\n%s", w, all())
		return
	}
	if b, err := os.ReadFile(u.cacheFile); err == nil {
		if why := look(b); why != "" {
			cs.Fail("in the end %s\n%s", why, all())
			return
		}
	} else if before != nil {
		cs.Fail("in the end the cache is missing\n%s", all())
		return
	}
	any := false
	for _, o := range outs {
		any = any || o.kill
	}
	if l := u.leftovers(); len(l) > 0 && !any {
		cs.Fail("%q left behind by concurrent refreshes\n%s", l, all())
	}
}

// cacheExit lets bab end while a refresh is on its way.
func (cs *Case) cacheExit() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	tag, etag := "v7.0.0", `"`+strings.Repeat("e", r.Intn(3000))+`"`
	var got atomic.Bool
	u.proxy.Answer = func(conn net.Conn, req *http.Request) {
		got.Store(true)
		reply(conn, 200, etag, tagBody(tag))
	}
	var before []byte
	if r.Intn(3) > 0 {
		before = old("v1.0.0", 48*time.Hour).bytes()
		u.put(before)
	}
	var ok atomic.Bool
	wait := time.Duration(r.Intn(1200)) * time.Microsecond
	how := pick(r, "exit", "exit", "kill", "term", "int")
	res := cs.Bab(Run{Bin: cs.relBab("1.2.3"), Args: []string{"wait"}, Dir: u.root, Env: u.env, During: func(p *Proc) {
		for t := time.Now(); time.Since(t) < 10*time.Second && !got.Load(); {
			time.Sleep(200 * time.Microsecond)
		}
		ok.Store(got.Load())
		time.Sleep(wait)
		switch how {
		case "exit":
			u.release()
		case "kill":
			_ = p.Cmd.Process.Kill()
		case "term":
			_ = p.Cmd.Process.Signal(syscall.SIGTERM)
		case "int":
			_ = p.Cmd.Process.Signal(syscall.SIGINT)
		}
	}})
	killSession(res.Pid)
	if !ok.Load() {
		cs.Inconclusive("no request within 10 s")
		return
	}
	cs.Case(fmt.Sprintf("exit %d", cs.I))
	b, err := os.ReadFile(u.cacheFile)
	switch {
	case err != nil && before != nil:
		cs.Fail("%s while refreshing: the cache has disappeared", how)
	case err == nil && bytes.Equal(b, before):
		cs.Obs("ended before the new version", 1)
	case err == nil && u.isNew(b, tag, etag, res.Start):
		cs.Obs("ended after the new version", 1)
	case err == nil:
		cs.Fail("%s while refreshing: the cache holds neither the old nor the new version: %q", how, b)
	}
	if how == "exit" && (res.Code != 0 || !strings.Contains(res.Out, "hello")) {
		cs.Fail("exit %d stdout %q stderr %q", res.Code, res.Out, res.Err)
	}
}

func (cs *Case) oddCache(now time.Time) (what string, b []byte) {
	r := cs.R
	good := relCache{now.Add(-time.Duration(r.Intn(80)) * time.Hour).UTC(), pick(r, "v9.0.0", "1.0.0", "v1.2.3", "1.2.4-beta.1", "10.1"), pick(r, "", `"e"`, `W/"x"`)}
	g := good.bytes()
	switch r.Intn(12) {
	case 0:
		return "good", g
	case 1, 2, 3:
		return "cut", g[:r.Intn(len(g))]
	case 4:
		m := append([]byte{}, g...)
		for k := 1 + r.Intn(3); k > 0; k-- {
			m[r.Intn(len(m))] ^= 1 << r.Intn(8)
		}
		return "bits", m
	case 5:
		good.CheckedAt = now.Add(pick(r, time.Duration(1+r.Intn(1000))*time.Hour, time.Duration(5+r.Intn(50))*time.Minute))
		return "future", good.bytes()
	case 6:
		v := func() string {
			return pick(r, `null`, `1`, `-1`, `true`, `[]`, `{}`, `""`, `"x"`, `"v9.0.0"`, `"2020-01-02T03:04:05Z"`, `"9999-12-31T23:59:59Z"`, `"0000-00-00"`, `1e999`, `"`+now.Add(-time.Hour).UTC().Format(time.RFC3339)+`"`)
		}
		return "types", []byte(`{"checked_at":` + v() + `,"latest_version":` + v() + `,"etag":` + v() + `}`)
	case 7:
		return "foreign", []byte(pick(r, "", "\x00", "null", "[]", "{}", "<html></html>", "true", "\"v9.0.0\"", "v9.0.0", "\xef\xbb\xbf"+string(g), string(g)+string(g), string(g)+"\n", " \n"+string(g), strings.Repeat("[", 200000), strings.Repeat(" ", 1<<20)+string(g), `{"latest_version":"v9.0.0"}`, `{"checked_at":"`+now.Add(-time.Hour).UTC().Format(time.RFC3339)+`"}`))
	case 8:
		good.LatestVersion = pick(r, "", "v", "latest", "9", "9.9.9.9.9", "v9.0.0\x00", "\x1b[31mv9", strings.Repeat("9", 5000), "1.2.3-", "-1.0", "vv9.0.0", "９.0")
		return "version", good.bytes()
	case 9:
		good.CheckedAt = time.Time{}.Add(time.Duration(r.Intn(1000)) * time.Hour)
		return "ancient", good.bytes()
	case 10:
		return "extra", []byte(strings.Replace(string(g), "{", `{"more":[1,{"a":null}],`, 1))
	}
	m := append([]byte{}, g...)
	i, j := r.Intn(len(m)), r.Intn(len(m))
	m = append(m[:i], append(append([]byte{}, g[j:]...), m[i:]...)...)
	return "spliced", m
}

// cacheContent: whatever is in the cache, bab works and tells nothing from rubbish.
func (cs *Case) cacheContent() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	now := time.Now()
	what, b := cs.oddCache(now)
	u.put(b)
	odd := ""
	switch r.Intn(14) {
	case 0: // a directory where the file should be
		odd = "directory"
		_ = os.Remove(u.cacheFile)
		_ = os.MkdirAll(filepath.Join(u.cacheFile, "x"), 0o755)
	case 1:
		odd = "file instead of the directory"
		_ = os.RemoveAll(u.cacheDir)
		_ = os.WriteFile(u.cacheDir, []byte("x"), 0o644)
	case 2:
		odd = "dangling link"
		_ = os.Remove(u.cacheFile)
		_ = os.Symlink("nowhere/at/all", u.cacheFile)
	case 3:
		odd = "link loop"
		_ = os.Remove(u.cacheFile)
		_ = os.Symlink("update-check.json", u.cacheFile)
	case 4:
		odd = "no place"
		_ = os.RemoveAll(u.home)
		_ = os.WriteFile(u.home, []byte("x"), 0o644)
	}
	if odd != "" {
		what, b = odd, nil
	}
	good := r.Intn(2) == 0 // the server answers
	tag, etag := "v8.1.0", `"n"`
	if good {
		u.serve(tag, etag)
	} else {
		u.proxy.Connect = func(conn net.Conn, host string) bool { return false }
	}
	rc := readable(b, now)
	fresh := rc != nil && now.Sub(rc.CheckedAt) < 24*time.Hour
	if rc != nil {
		d := now.Sub(rc.CheckedAt) - 24*time.Hour
		if d > -time.Minute && d < time.Minute {
			cs.Obs("too close to a day", 1)
			return
		}
	}
	task := pick(r, "wait", "waitbad")
	var done atomic.Bool
	t0 := time.Now()
	run := Run{Bin: cs.relBab("1.2.3"), Args: []string{task}, Dir: u.root, Env: u.env}
	expect := good && !fresh && (odd == "" || odd == "dangling link" || odd == "link loop")
	switch {
	case expect:
		run.During = u.waitFor(15*time.Second, &done, func() bool {
			c, _ := os.ReadFile(u.cacheFile)
			return u.isNew(c, tag, etag, t0)
		})
	case fresh:
		run.During = u.waitFor(0, &done, func() bool { return true })
	default:
		run.During = u.waitFor(3*time.Second, &done, func() bool {
			u.proxy.mu.Lock()
			defer u.proxy.mu.Unlock()
			return len(u.proxy.Done) > 0
		})
	}
	res := cs.Bab(run)
	if !cs.healthy(res, what) {
		return
	}
	fail := func(format string, a ...any) {
		cs.Fail("%s: %s\ncache %q\nserver answers %v, exit %d stdout %q stderr %q", what, fmt.Sprintf(format, a...), clip(string(b), 1000), good, res.Code, res.Out, clip(res.Err, 1500))
	}
	cs.Case(fmt.Sprintf("content %s %d", what, cs.I))
	cs.Obs("contents: "+what, 1)
	want := 0
	if task == "waitbad" {
		want = 1
	}
	if res.Code != want || !strings.Contains(res.Out, "hello") {
		fail("the task suffers")
		return
	}
	if expect && !done.Load() {
		fail("a new version does not replace this cache within 15 s")
		return
	}
	v, ann := announced(res.Err)
	wantV := ""
	if rc != nil && semNewer(rc.LatestVersion, "1.2.3") {
		wantV = rc.LatestVersion
	}
	if expect {
		wantV = tag
	}
	if rc != nil && !expect {
		if _, ok := semParse(rc.LatestVersion); !ok {
			cs.Obs("versions of another form", 1)
			// only what is readable may be announced
			if ann && v != rc.LatestVersion && !strings.ContainsAny(rc.LatestVersion, " \x00\x1b\"\\") {
				fail("%q is announced", v)
			}
			return
		}
	}
	if ann != (wantV != "") || ann && v != wantV {
		fail("announced %v %q instead of %q", ann, v, wantV)
		return
	}
	// (a refresh that cannot succeed may be cut off by the end of bab)
	if l := u.leftovers(); len(l) > 0 && (expect || fresh) {
		fail("%q left behind", l)
	}
}

// ---- C28 ----

func (cs *Case) someVersion(own string) string {
	r := cs.R
	own = strings.TrimPrefix(own, "v")
	if own == "" || own == "dev" {
		own = "1.2.3"
	}
	v, _ := semParse(own)
	switch r.Intn(6) {
	case 0:
	case 1:
		v[r.Intn(3)] += 1 + r.Intn(12)
	case 2:
		i := r.Intn(3)
		v[i] = max(0, v[i]-1-r.Intn(2))
	case 3:
		v[3], v[4] = 1+r.Intn(3), r.Intn(12)
	case 4:
		v = [5]int{r.Intn(3), r.Intn(12), r.Intn(12), pick(r, 9, 9, 1, 2, 3), r.Intn(11)}
	case 5:
		v[3] = 9
	}
	s := fmt.Sprintf("%d.%d.%d", v[0], v[1], v[2])
	if v[2] == 0 && r.Intn(4) == 0 {
		s = fmt.Sprintf("%d.%d", v[0], v[1])
	}
	if v[3] != 9 {
		s += "-" + []string{"", "alpha", "beta", "rc"}[v[3]] + "." + strconv.Itoa(v[4])
	}
	return pick(r, "", "v", "v") + s
}

// updateCase: one run in some configuration against a well-behaved server.
func (cs *Case) updateCase() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	own := pick(r, relVersions...)
	if r.Intn(3) > 0 {
		own = pick(r, relVersions[:5]...)
	}
	if cs.race {
		own = "1.2.3"
	}
	now := time.Now()
	var before *relCache
	if r.Intn(5) > 0 {
		age := pick(r, time.Minute, time.Hour, 23*time.Hour, 23*time.Hour+58*time.Minute, 24*time.Hour+2*time.Minute, 25*time.Hour, 1000*time.Hour)
		before = &relCache{now.Add(-age).UTC(), cs.someVersion(own), pick(r, "", `"abc"`, `W/"weak-1"`)}
		if r.Intn(3) == 0 {
			before.CheckedAt = before.CheckedAt.In(time.FixedZone("x", pick(r, -11, 5, 14)*3600))
		}
	}
	var beforeB []byte
	if before != nil {
		beforeB = before.bytes()
		u.put(beforeB)
	}
	served, etag := cs.someVersion(own), pick(r, `"new"`, "", `W/"n2"`)
	notMod := before != nil && r.Intn(3) == 0
	mark := "" // a server need not repeat it
	if notMod && r.Intn(3) > 0 {
		mark = before.ETag
	}
	u.proxy.Answer = func(conn net.Conn, req *http.Request) {
		if notMod {
			reply(conn, 304, mark, "")
			return
		}
		reply(conn, 200, etag, tagBody(served))
	}
	var extra []string
	out := false
	switch r.Intn(8) {
	case 0:
		extra, out = []string{"CI=" + pick(r, "true", "1")}, true
	case 1:
		extra, out = []string{"BAB_NO_UPDATE_CHECK=1"}, true
	case 2:
		extra = []string{"CI=" + pick(r, "false", "0", "")}
	case 3:
		extra = []string{"BAB_NO_UPDATE_CHECK=" + pick(r, "0", "")}
	}
	isRel := own != "dev" && own != ""
	stale := before == nil || now.Sub(before.CheckedAt) >= 24*time.Hour
	contact := isRel && !out && stale
	type mode struct {
		args []string
		code int
	}
	md := pick(r, mode{[]string{"wait"}, 0}, mode{[]string{"wait"}, 0}, mode{[]string{"waitbad"}, 1}, mode{[]string{"ok"}, 0}, mode{[]string{"bad"}, 1}, mode{[]string{"--list"}, 0},
		mode{[]string{"--validate"}, 0}, mode{[]string{"nosuch"}, 1}, mode{[]string{"-n", "ok"}, 0}, mode{[]string{"--nosuch"}, 1}, mode{[]string{"-c", "bash"}, 0}, mode{[]string{"__complete", "o"}, 0})
	if contact && r.Intn(2) == 0 {
		md = pick(r, mode{[]string{"wait"}, 0}, mode{[]string{"waitbad"}, 1})
	}
	long := strings.HasPrefix(md.args[0], "wait")
	var done atomic.Bool
	run := Run{Bin: cs.relBab(own), Args: md.args, Dir: u.root, Env: append(append([]string{}, u.env...), extra...)}
	t0 := time.Now()
	if long {
		run.During = func(p *Proc) { u.release() }
		if contact {
			run.During = u.waitFor(15*time.Second, &done, func() bool {
				b, _ := os.ReadFile(u.cacheFile)
				rc := readable(b, time.Now().Add(time.Second))
				return rc != nil && !bytes.Equal(b, beforeB)
			})
		} else {
			run.During = u.waitFor(time.Duration(pick(r, 0, 30, 80))*time.Millisecond, &done, func() bool { return false })
		}
	}
	res := cs.Bab(run)
	if !cs.healthy(res, "update check") {
		return
	}
	after, _ := os.ReadFile(u.cacheFile)
	conns, reqs := u.proxy.Count()
	fail := func(format string, a ...any) {
		cs.Fail("%s\nbab %q %v, cache %s (%v old), opt-out %q, server: %s %s not modified %v\nexit %d stdout %q stderr %q\ncache after: %s\nconnections %v requests %v", fmt.Sprintf(format, a...), own, md.args, beforeB, now.Sub(cacheTime(before)), extra, served, etag, notMod, res.Code, res.Out, clip(res.Err, 1500), after, u.proxy.Conns, u.proxy.Reqs)
	}
	cs.Case(fmt.Sprintf("%s %v %v %v %v %v", own, md.args, stale, out, notMod, before != nil))
	if res.Code != md.code {
		fail("exit status %d instead of %d", res.Code, md.code)
		return
	}
	if (long || md.args[0] == "ok" || md.args[0] == "bad") && !strings.Contains(res.Out, "hello\n") {
		fail("the task's output is missing")
		return
	}
	if !contact && conns > 0 {
		fail("bab contacts the network")
		return
	}
	if contact && long {
		if !done.Load() {
			fail("no refresh within 15 s")
			return
		}
		cs.Obs("refreshes", 1)
	}
	for _, c := range u.proxy.Conns {
		if c != "CONNECT api.github.com:443" {
			fail("bab connects to %q", c)
			return
		}
	}
	if reqs > 1 {
		fail("bab asks %d times", reqs)
		return
	}
	for _, q := range u.proxy.Reqs {
		want := ""
		if before != nil {
			want = before.ETag
		}
		if q.Method != "GET" || q.URL != "/repos/bab-sh/bab/releases/latest" {
			fail("bab asks for %s %s", q.Method, q.URL)
			return
		}
		if got := q.Header.Get("If-None-Match"); got != want {
			fail("the request names the version %q instead of %q", got, want)
			return
		}
	}
	// the cache afterwards
	cur := before
	if !bytes.Equal(after, beforeB) {
		rc := readable(after, time.Now().Add(time.Second))
		wantV, wantE := served, etag
		if notMod {
			wantV, wantE = before.LatestVersion, before.ETag
		}
		if !contact {
			fail("the cache changes without a reason")
			return
		}
		if rc == nil || rc.LatestVersion != wantV || rc.ETag != wantE || rc.CheckedAt.Before(t0.Add(-2*time.Second)) {
			fail("the cache does not hold version %q, mark %q of now", wantV, wantE)
			return
		}
		if notMod {
			cs.Obs("unchanged replies", 1)
		}
		cur = rc
	}
	ann, wantAnn := "", ""
	if v, ok := announced(res.Err); ok {
		ann = v
	}
	if isRel && !out && cur != nil && semNewer(cur.LatestVersion, own) {
		wantAnn = cur.LatestVersion
	}
	if wantAnn != "" {
		cs.Obs("announcements", 1)
	}
	if ann != wantAnn {
		alt := ""
		if isRel && !out && before != nil && semNewer(before.LatestVersion, own) {
			alt = before.LatestVersion
		}
		if !long && contact && ann == alt { // the refresh ended after the announcement
			return
		}
		fail("announced %q instead of %q", ann, wantAnn)
	}
}

func cacheTime(c *relCache) time.Time {
	if c == nil {
		return time.Time{}
	}
	return c.CheckedAt
}

// badServer: a reply that is not a release never changes the cache.
func (cs *Case) badServer() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	var before *relCache
	if r.Intn(4) > 0 {
		before = &relCache{time.Now().Add(-30 * time.Hour).UTC(), pick(r, "v9.0.0", "v1.0.0"), pick(r, "", `"abc"`)}
	}
	var beforeB []byte
	if before != nil {
		beforeB = before.bytes()
		u.put(beforeB)
	}
	body := tagBody("v99.0.0")
	type bad struct {
		name string
		f    func(conn net.Conn, req *http.Request)
	}
	code := func(c int, hdr ...string) bad {
		return bad{fmt.Sprint("status ", c), func(conn net.Conn, req *http.Request) { reply(conn, c, `"bad"`, body, hdr...) }}
	}
	ok := func(name, b string) bad {
		return bad{name, func(conn net.Conn, req *http.Request) { reply(conn, 200, `"bad"`, b) }}
	}
	raw := func(name, b string) bad {
		return bad{name, func(conn net.Conn, req *http.Request) { _, _ = io.WriteString(conn, b) }}
	}
	hd := "HTTP/1.1 200 OK\r\nETag: \"bad\"\r\nContent-Type: application/json\r\n"
	list := []bad{
		code(400), code(401), code(403, "X-RateLimit-Remaining: 0"), code(404), code(410), code(429, "Retry-After: 1"), code(500), code(502), code(503), code(504),
		code(301, "Location: https://evil.example/repos"), code(302, "Location: https://api.github.com/elsewhere"), code(307, "Location: http://evil.example/"), code(308, "Location: /loop"),
		ok("html", "<html><body>v99.0.0</body></html>"), ok("empty", ""), ok("space", "  \n "), ok("null", "null"), ok("array", "["+body+"]"), ok("string", `"v99.0.0"`), ok("number", "99"),
		ok("no tag", `{"name":"v99.0.0"}`), ok("empty tag", `{"tag_name":""}`), ok("null tag", `{"tag_name":null}`), ok("number tag", `{"tag_name":99}`), ok("list tag", `{"tag_name":["v99.0.0"]}`), ok("object tag", `{"tag_name":{"a":1}}`),
		ok("cut", body[:10+r.Intn(len(body)-12)]), ok("garbage", "\x00\x01\x02{"), ok("nested", strings.Repeat("[", 100000)), ok("message", `{"message":"API rate limit exceeded","documentation_url":"x"}`),
		raw("no http", "hello\r\n\r\n"), raw("nothing", ""), raw("half header", "HTTP/1.1 200 OK\r\nContent-Le"), raw("bad length", "HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n"+body), raw("bad chunk", hd+"Transfer-Encoding: chunked\r\n\r\nzz\r\n"+body),
		raw("short body", hd+"Content-Length: 100000\r\n\r\n"+body[:20+r.Intn(len(body)-21)]), raw("bad status", "HTTP/1.1 abc\r\n\r\n"), raw("gzip lie", hd+"Content-Encoding: gzip\r\nContent-Length: "+strconv.Itoa(len(body))+"\r\n\r\n"+body),
		raw("over-long", hd+"\r\n{\"x\":\""+strings.Repeat("x", 3<<20)+"\",\"tag_name\":\"v99.0.0\"}"),
	}
	if before == nil {
		list = append(list, bad{"304 without a cache", func(conn net.Conn, req *http.Request) { reply(conn, 304, `"bad"`, "") }})
	}
	k := cs.I % (len(list) + 6)
	what := ""
	switch k - len(list) {
	case 0:
		what = "refused"
		u.proxy.Connect = func(conn net.Conn, host string) bool { return false }
	case 1:
		what = "proxy says no"
		u.proxy.Connect = func(conn net.Conn, host string) bool {
			_, _ = io.WriteString(conn, "HTTP/1.1 403 no\r\nContent-Length: 0\r\n\r\n")
			return false
		}
	case 2:
		what = "no TLS"
		u.proxy.Connect = func(conn net.Conn, host string) bool {
			_, _ = io.WriteString(conn, "HTTP/1.1 200 ok\r\n\r\nHTTP/1.1 200 OK\r\n\r\n"+body)
			return false
		}
	case 3, 4:
		what = "untrusted certificate"
		u.proxy.leafCA = true
		u.proxy.Answer = func(conn net.Conn, req *http.Request) { reply(conn, 200, `"bad"`, body) }
	case 5: // control: a long good reply is accepted
		what = "long good reply"
		u.proxy.Answer = func(conn net.Conn, req *http.Request) {
			reply(conn, 200, `"good"`, `{"assets":["`+strings.Repeat("a", 300000)+`"],"tag_name":"v99.0.0"}`)
		}
	default:
		what = list[k].name
		u.proxy.Answer = list[k].f
	}
	good := what == "long good reply"
	task := pick(r, "wait", "waitbad")
	var done atomic.Bool
	res := cs.Bab(Run{Bin: cs.relBab("1.2.3"), Args: []string{task}, Dir: u.root, Env: u.env, During: u.waitFor(15*time.Second, &done, func() bool {
		if good {
			b, _ := os.ReadFile(u.cacheFile)
			return strings.Contains(string(b), "99.0.0")
		}
		u.proxy.mu.Lock()
		n := len(u.proxy.Done)
		u.proxy.mu.Unlock()
		if n > 0 {
			time.Sleep(60 * time.Millisecond) // what bab does with it
			return true
		}
		return false
	})})
	if !cs.healthy(res, what) {
		return
	}
	after, err := os.ReadFile(u.cacheFile)
	fail := func(format string, a ...any) {
		cs.Fail("server: %s: %s\ncache before: %s\nexit %d stdout %q stderr %q\ncache after: %s\nconnections %v", what, fmt.Sprintf(format, a...), beforeB, res.Code, res.Out, clip(res.Err, 1500), after, u.proxy.Conns)
	}
	cs.Case("bad " + what)
	cs.Obs("bad replies", 1)
	if !done.Load() {
		fail("no end of the exchange within 15 s")
		return
	}
	want := map[string]int{"wait": 0, "waitbad": 1}[task]
	if res.Code != want || res.Out != "hello\n" {
		fail("the task suffers")
		return
	}
	for _, c := range u.proxy.Conns {
		if c != "CONNECT api.github.com:443" {
			fail("bab follows to %q", c)
			return
		}
	}
	if _, reqs := u.proxy.Count(); reqs > 1 {
		fail("bab asks %d times", reqs)
		return
	}
	wantAnn := ""
	if before != nil && before.LatestVersion == "v9.0.0" {
		wantAnn = "v9.0.0"
	}
	if good {
		wantAnn = "v99.0.0"
	} else if (err == nil) != (before != nil) || !bytes.Equal(after, beforeB) {
		fail("the cache changes")
		return
	}
	if v, _ := announced(res.Err); v != wantAnn {
		fail("announced %q instead of %q", v, wantAnn)
		return
	}
	if l := u.leftovers(); len(l) > 0 && !good {
		fail("%q left behind", l)
	}
}

type stall struct {
	name    string
	connect func(conn net.Conn)
	answer  func(conn net.Conn)
}

func hang(conn net.Conn) { time.Sleep(20 * time.Second) }

var stalls = []stall{
	{"the connection is accepted only", hang, nil},
	{"the TLS handshake stalls", func(conn net.Conn) { _, _ = io.WriteString(conn, "HTTP/1.1 200 ok\r\n\r\n"); hang(conn) }, nil},
	{"no reply", nil, hang},
	{"header stalls", nil, func(conn net.Conn) { _, _ = io.WriteString(conn, "HTTP/1.1 200 OK\r\nETag: "); hang(conn) }},
	{"body stalls", nil, func(conn net.Conn) {
		_, _ = io.WriteString(conn, "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n{\"tag_")
		hang(conn)
	}},
	{"body drips", nil, func(conn net.Conn) {
		_, _ = io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\n{\"x\":\"")
		for i := 0; i < 300; i++ {
			if _, err := io.WriteString(conn, "x"); err != nil {
				return
			}
			time.Sleep(50 * time.Millisecond)
		}
	}},
}

// updateDelay: a server that does not answer does not hold bab up.
func (cs *Case) updateDelay() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	r := cs.R
	st := stalls[cs.I%len(stalls)]
	if st.connect != nil {
		u.proxy.Connect = func(conn net.Conn, host string) bool { st.connect(conn); return false }
	}
	u.proxy.Answer = func(conn net.Conn, req *http.Request) {
		if st.answer != nil {
			st.answer(conn)
		}
	}
	if r.Intn(2) == 0 {
		u.put(old("v9.0.0", 48*time.Hour).bytes())
	}
	args := pick(r, []string{"ok"}, []string{"bad"}, []string{"--list"}, []string{"--validate"}, []string{"nosuch"}, []string{"-n", "ok"}, []string{"__complete", "o"}, []string{"wait"})
	sig := args[0] == "wait"
	best := time.Hour
	for try := 0; try < 3 && best > 2500*time.Millisecond; try++ {
		run := Run{Bin: cs.relBab("1.2.3"), Args: args, Dir: u.root, Env: u.env, Timeout: 60 * time.Second}
		var at time.Time
		if sig { // interrupted while the server stalls
			_ = os.Remove(u.goFile)
			run.During = func(p *Proc) {
				for t := time.Now(); time.Since(t) < 10*time.Second; time.Sleep(5 * time.Millisecond) {
					if startOf(readEvents(p.Log), "wait") != nil {
						break
					}
				}
				at = time.Now()
				_ = p.Cmd.Process.Signal(pick(rand.New(rand.NewSource(int64(try))), syscall.SIGINT, syscall.SIGTERM))
			}
		}
		res := cs.Bab(run)
		if !cs.healthy(res, st.name) {
			return
		}
		d := res.Dur
		if sig {
			d = time.Since(at)
		}
		best = min(best, d)
	}
	cs.Case(fmt.Sprintf("delay %s %v", st.name, args))
	if best > 2500*time.Millisecond {
		cs.Fail("bab %v takes %v when %s", args, best, st.name)
	}
}

var endless = []stall{
	{"endless string", nil, func(conn net.Conn) {
		flood(conn, "HTTP/1.1 200 OK\r\n\r\n{\"tag_name\":\"", "vvvvvvvv")
	}},
	{"endless space", nil, func(conn net.Conn) { flood(conn, "HTTP/1.1 200 OK\r\n\r\n", "        ") }},
	{"endless fields", nil, func(conn net.Conn) { flood(conn, "HTTP/1.1 200 OK\r\n\r\n{\"a\":1", ",\"b\":[1,2]") }},
	{"endless header", nil, func(conn net.Conn) {
		flood(conn, "HTTP/1.1 200 OK\r\n", "X-A: aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa\r\n")
	}},
	{"endless chunks", nil, func(conn net.Conn) {
		flood(conn, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n", "8\r\n[[[[[[[[\r\n")
	}},
	{"no reply", nil, hang},
	{"body stalls", nil, stalls[4].answer},
	{"body drips", nil, stalls[5].answer},
	{"the TLS handshake stalls", stalls[1].connect, nil},
}

func flood(conn net.Conn, head, piece string) {
	_, _ = io.WriteString(conn, head)
	b := []byte(strings.Repeat(piece, 4096))
	for n := 0; n < 200<<20; n += len(b) {
		if _, err := conn.Write(b); err != nil {
			return
		}
	}
	hang(conn)
}

// updateEndless: bab gives an endless reply up, while the task goes on.
func (cs *Case) updateEndless() {
	u := cs.updSetup()
	if u == nil {
		return
	}
	defer u.proxy.Close()
	st := endless[cs.I%len(endless)]
	if st.connect != nil {
		u.proxy.Connect = func(conn net.Conn, host string) bool { st.connect(conn); return false }
	}
	var took, wrote atomic.Int64
	u.proxy.Answer = func(conn net.Conn, req *http.Request) {
		if st.answer != nil {
			st.answer(conn)
		}
	}
	before := old("v9.0.0", 48*time.Hour).bytes()
	u.put(before)
	var done atomic.Bool
	t0 := time.Now()
	res := cs.Bab(Run{Bin: cs.relBab("1.2.3"), Args: []string{"wait"}, Dir: u.root, Env: u.env, Timeout: 60 * time.Second, During: func(p *Proc) {
		pid := p.Cmd.Process.Pid
		for time.Since(t0) < 13*time.Second {
			n := sockets(pid)
			if n > 0 {
				took.Store(int64(time.Since(t0)))
			}
			if c, _ := u.proxy.Count(); c > 0 && n == 0 && time.Since(t0) > time.Duration(took.Load())+500*time.Millisecond {
				done.Store(true)
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		u.release()
	}})
	if !cs.healthy(res, st.name) {
		return
	}
	time.Sleep(100 * time.Millisecond)
	u.proxy.mu.Lock()
	for _, d := range u.proxy.Done {
		wrote.Add(d.Bytes)
	}
	u.proxy.mu.Unlock()
	cs.Case("endless " + st.name)
	cs.Obs("bytes bab took at most", int(wrote.Load()))
	after, _ := os.ReadFile(u.cacheFile)
	switch {
	case !done.Load():
		cs.Fail("%s: bab still talks to the server after %v", st.name, time.Since(t0))
	case wrote.Load() > 32<<20:
		cs.Fail("%s: bab reads %d bytes of the reply", st.name, wrote.Load())
	case res.Code != 0 || res.Out != "hello\n":
		cs.Fail("%s: exit %d stdout %q stderr %q", st.name, res.Code, res.Out, res.Err)
	case !bytes.Equal(after, before):
		cs.Fail("%s: the cache changes to %q", st.name, after)
	}
}

// sockets counts the TCP connections of a process.
func sockets(pid int) int {
	dir := fmt.Sprintf("/proc/%d/fd", pid)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return 0
	}
	n := 0
	for _, e := range ents {
		if l, err := os.Readlink(filepath.Join(dir, e.Name())); err == nil && strings.HasPrefix(l, "socket:") {
			n++
		}
	}
	return n
}
