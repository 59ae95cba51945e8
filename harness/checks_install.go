package main

// C30: the installer.

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

func init() {
	register("C30", "install.sh run by dash and bash as an unprivileged user in a scratch home, with a path that holds only the needed tools, played systems (uname), played curl or wget, and each hash tool (sha256sum, gsha256sum, shasum, openssl): good releases, and releases with one fault in the release information, the archive, the checksum list or a tool (status codes, broken and cut transfers, tampered, foreign and exchanged archives, lists that are empty, cut, of other archives, with similar names, duplicated or wrong hashes, failing, silent or lying tools, kills); the exit status and the target directory before and after are compared, and the installed file with the one of the archive; non-trivial when the installer asked for a release",
		func(c *Ctx) {
			c.Each("install", c.N(1600, 20000), func(cs *Case) { cs.installCase() })
		}, "the downloads are played by a stand-in for curl and wget", "the target directory is owned by the unprivileged user that runs the installer", "install.ps1 cannot run here")
}

type instFile struct {
	mode os.FileMode
	data string
}

func instSnapshot(dir string) map[string]instFile {
	out := map[string]instFile{}
	_ = filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(dir, p)
		f := instFile{mode: info.Mode()}
		if info.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			f.data = string(b)
		}
		out[rel] = f
		return nil
	})
	return out
}

func showSnap(m map[string]instFile) string {
	var ks []string
	for k, f := range m {
		ks = append(ks, fmt.Sprintf("%s %v %q", k, f.mode, clip(f.data, 60)))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func sameSnap(a, b map[string]instFile) bool {
	if len(a) != len(b) {
		return false
	}
	for k, f := range a {
		if b[k] != f {
			return false
		}
	}
	return true
}

func sum(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func makeArchive(format, binary, content string, with bool, mode int64) []byte {
	var b bytes.Buffer
	files := [][2]string{{"README.md", "read me"}, {"LICENSE", "MIT"}, {"completions/bab.bash", "# c"}}
	if with {
		files = append([][2]string{{binary, content}}, files...)
	}
	if format == "zip" {
		w := zip.NewWriter(&b)
		for _, f := range files {
			h := &zip.FileHeader{Name: f[0], Method: zip.Deflate}
			h.SetMode(os.FileMode(mode))
			fw, _ := w.CreateHeader(h)
			_, _ = fw.Write([]byte(f[1]))
		}
		_ = w.Close()
		return b.Bytes()
	}
	gz := gzip.NewWriter(&b)
	w := tar.NewWriter(gz)
	for _, f := range files {
		_ = w.WriteHeader(&tar.Header{Name: f[0], Mode: mode, Size: int64(len(f[1])), Typeflag: tar.TypeReg})
		_, _ = w.Write([]byte(f[1]))
	}
	_ = w.Close()
	_ = gz.Close()
	return b.Bytes()
}

func (cs *Case) installCase() {
	r := cs.R
	const nobody = 65534
	top := cs.Dir
	home := filepath.Join(top, pick(r, "home", "home", "ho me"))
	bin := filepath.Join(top, "bin")
	tmp := filepath.Join(top, "tmp")
	for _, d := range []string{home, bin, tmp} {
		_ = os.MkdirAll(d, 0o755)
	}
	_ = os.Chmod(top, 0o755)
	for _, t := range []string{"tr", "sed", "grep", "head", "cut", "cat", "mktemp", "rm", "tar", "gzip", "unzip", "install", "awk", "mkdir", "mv", "cp", "chmod", "test", "echo", "basename", "dirname", "sort", "wc", "tail", "id", "ls", "env", "printf", "expr", "true", "false", "touch", "od", "sleep", "uniq"} {
		if p, err := exec.LookPath(t); err == nil {
			_ = os.Symlink(p, filepath.Join(bin, t))
		}
	}
	script := func(name, body string) {
		_ = os.Remove(filepath.Join(bin, name))
		_ = os.WriteFile(filepath.Join(bin, name), []byte("#!/bin/sh\n"+body+"\n"), 0o755)
	}
	type system struct{ s, m, os, arch, format, exe string }
	sys := pick(r,
		system{"Linux", "x86_64", "Linux", "x86_64", "tar.gz", "bab"}, system{"Linux", "x86_64", "Linux", "x86_64", "tar.gz", "bab"}, system{"Linux", "aarch64", "Linux", "arm64", "tar.gz", "bab"}, system{"Linux", "armv7l", "Linux", "armv7", "tar.gz", "bab"},
		system{"Linux", "i686", "Linux", "i386", "tar.gz", "bab"}, system{"Darwin", "arm64", "macOS", "arm64", "tar.gz", "bab"}, system{"Darwin", "x86_64", "macOS", "x86_64", "tar.gz", "bab"},
		system{"FreeBSD", "amd64", "Freebsd", "x86_64", "tar.gz", "bab"}, system{"MINGW64_NT-10.0-19045", "x86_64", "Windows", "x86_64", "zip", "bab.exe"})
	script("uname", `case "$1" in -s) echo "`+sys.s+`";; -m) echo "`+sys.m+`";; *) echo "`+sys.s+`";; esac`)
	dl := pick(r, "curl", "curl", "wget")
	_ = os.Symlink(cs.Rec, filepath.Join(bin, dl))
	real := func(t string) string { p, _ := exec.LookPath(t); return p }
	hash := pick(r, "sha256sum", "sha256sum", "gsha256sum", "shasum", "openssl")
	switch hash {
	case "gsha256sum":
		_ = os.Symlink(real("sha256sum"), filepath.Join(bin, hash))
	case "shasum":
		if real(hash) == "" {
			script(hash, `[ "$1" = -a ] && shift 2; exec `+real("sha256sum")+` "$@"`)
		} else {
			_ = os.Symlink(real(hash), filepath.Join(bin, hash))
			if p := real("perl"); p != "" {
				_ = os.Symlink(p, filepath.Join(bin, "perl"))
			}
		}
	case "openssl":
		if real(hash) == "" {
			cs.Inconclusive("no openssl")
			hash = "sha256sum"
		}
		fallthrough
	default:
		_ = os.Symlink(real(hash), filepath.Join(bin, hash))
	}
	// the release
	tag := pick(r, "v1.4.2", "v0.1.0", "v10.20.30-rc.1", "1.0.0")
	version := strings.TrimPrefix(tag, "v")
	name := fmt.Sprintf("bab_%s_%s_%s.%s", version, sys.os, sys.arch, sys.format)
	content := fmt.Sprintf("#!/bin/sh\necho new bab %s %d\n%s", tag, cs.I, strings.Repeat("x", r.Intn(3000)))
	archive := makeArchive(sys.format, sys.exe, content, true, pick[int64](r, 0o755, 0o755, 0o644, 0o600))
	evil := makeArchive(sys.format, sys.exe, "#!/bin/sh\necho evil\n", true, 0o755)
	others := map[string][]byte{"LICENSE": []byte("MIT"), "README.md": []byte("r")}
	for _, n := range []string{"bab_" + version + "_Windows_i386.zip", "bab_" + version + "_Linux_arm64.tar.gz", "bab_" + version + "_macOS_universal.tar.gz", "bab_" + version + "_Linux_x86_64.tar.gz"} {
		if n != name {
			others[n] = makeArchive("tar.gz", sys.exe, "other "+n, true, 0o755)
		}
	}
	type line struct{ hash, name string }
	var list []line
	for n, b := range others {
		list = append(list, line{sum(b), n})
	}
	sort.Slice(list, func(i, j int) bool { return list[i].name < list[j].name })
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	sep := pick(r, "  ", "  ", " *", "\t")
	mk := func(ls []line) string {
		s := ""
		for _, l := range ls {
			s += l.hash + sep + l.name + "\n"
		}
		return s
	}
	own := line{sum(archive), name}
	sums := mk(append(append([]line{}, list...), own))
	if r.Intn(2) == 0 {
		sums = mk(append([]line{own}, list...))
	}
	plan := map[string]*dlReplyT{
		"json":    {Body: []byte(fmt.Sprintf(`{"id":1,"tag_name":"%s","update_url":"/bab-sh/bab/releases/tag/%s"}`, tag, tag)), Code: 200},
		"archive": {Name: "/bab-sh/bab/releases/download/" + tag + "/" + name, Body: archive, Code: 200},
		"sums":    {Name: "/bab-sh/bab/releases/download/" + tag + "/checksums.txt", Body: []byte(sums), Code: 200},
	}
	// one fault, or none
	fault := "none"
	set := func(f string, do func()) func() {
		return func() { fault = f; do() }
	}
	allButOwn := mk(list)
	flip := func() []byte {
		b := append([]byte{}, archive...)
		b[r.Intn(len(b))] ^= 1 << r.Intn(8)
		return b
	}
	flipHex := func(h string) string {
		i := r.Intn(len(h))
		return h[:i] + string("0123456789abcdef"[(strings.IndexByte("0123456789abcdef", h[i])+1+r.Intn(15))%16]) + h[i+1:]
	}
	which := pick(r, "json", "json", "archive", "archive", "sums", "sums")
	p := plan[which]
	lying := func(out string, code int) { script(hash, out+"\nexit "+fmt.Sprint(code)) }
	faults := []func(){
		set(which+" status", func() {
			p.Code = pick(r, 404, 403, 500, 503, 302, 204)
			if dl == "wget" && p.Code < 400 {
				p.Code = 502 // wget follows redirects by itself and has no other way to tell
			}
		}),
		set(which+" status with nothing", func() { p.Code, p.Body = pick(r, 404, 500), nil }),
		set(which+" transfer breaks", func() {
			p.Exit, p.Cut = pick(r, 18, 56, 28, 23), r.Intn(len(p.Body)+1)
		}),
		set(which+" unreachable", func() { p.Exit, p.Cut, p.Code = pick(r, 6, 7, 35, 60), -1, 0 }),
		set(which+" killed meanwhile", func() { p.Kill = true }),
		set("archive cut", func() { plan["archive"].Body = archive[:r.Intn(len(archive))] }),
		set("archive longer", func() {
			plan["archive"].Body = append(append([]byte{}, archive...), pick(r, "\n", "\x00", "x", strings.Repeat("\x00", 512))...)
		}),
		set("archive changed", func() { plan["archive"].Body = flip() }),
		set("archive exchanged", func() { plan["archive"].Body = evil }),
		set("archive exchanged", func() { plan["archive"].Body = evil }),
		set("archive of another system", func() { plan["archive"].Body = others["bab_"+version+"_Windows_i386.zip"] }),
		set("archive is a page", func() { plan["archive"].Body = []byte("<html>Not Found</html>") }),
		set("archive and its neighbour in the list exchanged", func() {
			plan["archive"].Body = evil
			plan["sums"].Body = []byte(allButOwn + sum(evil) + sep + "evil.tar.gz\n" + mk([]line{own}))
		}),
		set("not listed", func() { plan["sums"].Body = []byte(allButOwn) }),
		set("list empty", func() { plan["sums"].Body = nil }),
		set("list is a page", func() { plan["sums"].Body = []byte("<html>Not Found</html>") }),
		set("list cut", func() {
			i := strings.Index(sums, own.hash)
			plan["sums"].Body = []byte(sums[:i+r.Intn(len(own.hash)+2+len(name)-1)])
		}),
		set("hash wrong", func() { plan["sums"].Body = []byte(allButOwn + flipHex(own.hash) + sep + name + "\n") }),
		set("hash cut", func() { plan["sums"].Body = []byte(allButOwn + own.hash[:r.Intn(64)] + sep + name + "\n") }),
		set("hash longer", func() { plan["sums"].Body = []byte(allButOwn + own.hash + "0" + sep + name + "\n") }),
		set("hash of the name only", func() { plan["sums"].Body = []byte(allButOwn + name + "\n") }),
		set("similar name listed", func() {
			n := pick(r, "x"+name, name+".sig", name+".sbom.json", strings.Replace(name, ".", "x", 1), "old/"+name, strings.ToUpper(name))
			plan["archive"].Body = pick(r, evil, archive)
			plan["sums"].Body = []byte(allButOwn + sum(plan["archive"].Body) + sep + n + "\n")
		}),
		set("similar name listed before with the hash", func() {
			plan["archive"].Body = evil
			n := pick(r, "x"+name, name+".sig", strings.Replace(name, ".", "x", 1))
			plan["sums"].Body = []byte(sum(evil) + sep + n + "\n" + sums)
		}),
		set("hash of nothing", func() {
			plan["archive"].Body = evil
			plan["sums"].Body = []byte(allButOwn + sum(nil) + sep + name + "\n")
		}),
		set("hash tool fails", func() { lying("", 1) }),
		set("hash tool is silent", func() { lying("", 0); plan["archive"].Body = evil }),
		set("hash tool fails with output", func() { lying("echo '"+own.hash+"  x'", 1); plan["archive"].Body = evil }),
		set("hash tool says rubbish", func() { lying("echo rubbish", 0) }),
		set("no hash tool", func() { _ = os.Remove(filepath.Join(bin, hash)) }),
		set("no download tool", func() { _ = os.Remove(filepath.Join(bin, dl)) }),
		set("unpacking fails", func() {
			script("tar", "exit 2")
			script("unzip", "exit 9")
		}),
		set("unpacking fails half way", func() {
			script("tar", "echo half >"+sys.exe+"; exit 2")
			script("unzip", "echo half >"+sys.exe+"; exit 9")
		}),
		set("archive without the program", func() {
			a := makeArchive(sys.format, sys.exe, "", false, 0o755)
			plan["archive"].Body = a
			plan["sums"].Body = []byte(allButOwn + sum(a) + sep + name + "\n")
		}),
		set("no tag", func() {
			plan["json"].Body = []byte(pick(r, "", "{}", `{"error":"Not Found"}`, "<html>\n</html>", `{"tag_name":""}`))
		}),
		set("unknown system", func() { script("uname", "echo "+pick(r, "Plan10", "")) }),
	}
	if r.Intn(4) > 0 {
		faults[r.Intn(len(faults))]()
	} else {
		// more similar names, which do not matter
		extra := ""
		for _, n := range []string{name + ".sig", name + ".sbom.json", "x" + name, strings.Replace(name, ".", "x", 1)} {
			if r.Intn(3) == 0 {
				extra += sum([]byte(n)) + sep + n + "\n"
			}
		}
		if extra != "" && r.Intn(2) == 0 {
			fault = "none, similar names listed"
			plan["sums"].Body = []byte(extra + sums)
		}
	}
	// the target directory
	target := filepath.Join(home, pick(r, ".local/bin", "my bin", "a/b/c"))
	var args []string
	env := []string{"HOME=" + home, "PATH=" + bin, "TMPDIR=" + tmp, "LC_ALL=C"}
	switch {
	case strings.HasSuffix(target, ".local/bin") && r.Intn(2) == 0:
		// the default
	case r.Intn(3) == 0:
		env = append(env, "BINDIR="+target)
	default:
		args = append(args, "-b", target)
	}
	state := pick(r, "missing", "empty", "old", "old", "others")
	if len(args) == 0 && len(env) == 4 && state == "missing" {
		state = "empty" // the default would be another place
	}
	if state != "missing" {
		_ = os.MkdirAll(target, 0o755)
	}
	if state == "old" {
		_ = os.WriteFile(filepath.Join(target, sys.exe), []byte("#!/bin/sh\necho 'bab version 0.0.9'\n"), pick[os.FileMode](r, 0o755, 0o755, 0o555))
	}
	if state == "old" || state == "others" {
		_ = os.WriteFile(filepath.Join(target, "other"), []byte("other"), 0o644)
	}
	if r.Intn(3) == 0 {
		args = append(args, "-d")
	}
	// the release asked for; another one exists as well
	otherTag := "v9.9.9"
	otherName := strings.Replace(name, version, "9.9.9", 1)
	otherArchive := makeArchive(sys.format, sys.exe, "#!/bin/sh\necho another release\n", true, 0o755)
	plan["json"].Name = "/latest"
	plan["other json"] = &dlReplyT{Name: "/" + otherTag, Code: 200, Body: []byte(fmt.Sprintf(`{"id":2,"tag_name":"%s","update_url":"/x"}`, otherTag))}
	if r.Intn(2) == 0 {
		args = append(args, tag)
		plan["json"].Name, plan["other json"].Name = "/"+tag, "/latest"
	}
	plan["other archive"] = &dlReplyT{Name: "/bab-sh/bab/releases/download/" + otherTag + "/" + otherName, Body: otherArchive, Code: 200}
	plan["other sums"] = &dlReplyT{Name: "/bab-sh/bab/releases/download/" + otherTag + "/checksums.txt", Body: []byte(sum(otherArchive) + sep + otherName + "\n"), Code: 200}
	upToDate := false
	if r.Intn(6) == 0 { // an installed bab on the path
		v := pick(r, "0.0.9", version)
		script("bab", "echo 'bab version "+v+"'")
		upToDate = v == version && !strings.Contains(version, "rc")
	}
	planFile := filepath.Join(top, "plan.json")
	pb, _ := json.Marshal(plan)
	_ = os.WriteFile(planFile, pb, 0o644)
	logf := filepath.Join(top, "log")
	_ = os.WriteFile(logf, nil, 0o666)
	_ = os.Chmod(logf, 0o666)
	env = append(env, "VDL="+planFile, "VLOG="+logf)
	_ = filepath.Walk(home, func(p string, _ os.FileInfo, _ error) error { return os.Lchown(p, nobody, nobody) })
	_ = os.Lchown(tmp, nobody, nobody)
	src, err := os.ReadFile(filepath.Join(cs.Repo, "install.sh"))
	if err != nil {
		cs.Fail("no installer: %v", err)
		return
	}
	inst := filepath.Join(top, "install.sh")
	_ = os.WriteFile(inst, src, 0o644)
	sh := pick(r, "/bin/sh", "/bin/sh", real("bash"))
	piped := r.Intn(3) == 0
	var cmd *exec.Cmd
	if piped {
		cmd = exec.Command(sh, append([]string{"-s", "--"}, args...)...)
		cmd.Stdin = bytes.NewReader(src)
	} else {
		cmd = exec.Command(sh, append([]string{inst}, args...)...)
	}
	cmd.Dir = home
	cmd.Env = env
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: false}}
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	before := instSnapshot(target)
	if err := cmd.Start(); err != nil {
		cs.Inconclusive("cannot run as an unprivileged user: " + err.Error())
		return
	}
	t := time.AfterFunc(60*time.Second, func() { killSession(cmd.Process.Pid) })
	_ = cmd.Wait()
	t.Stop()
	killSession(cmd.Process.Pid)
	code := cmd.ProcessState.ExitCode()
	after := instSnapshot(target)
	evs := readEvents(logf)
	asked := ""
	for _, e := range evs {
		if e.Ev == "get" {
			asked += fmt.Sprintf("%s %v\n", e.ID, e.Args)
		}
	}
	fail := func(format string, a ...any) {
		cs.Fail("%s\nfault: %s\nsystem %s %s, %s, %s, %s, arguments %q, piped %v, target %s (%s)\nchecksum list:\n%s\nexit %d output:\n%s\nasked for:\n%s\ntarget before:\n%s\ntarget after:\n%s", fmt.Sprintf(format, a...), fault, sys.s, sys.m, dl, hash, sh, args, piped, target, state, clip(string(plan["sums"].Body), 1500), code, clip(out.String(), 3000), asked, showSnap(before), showSnap(after))
	}
	cs.Case(fmt.Sprintf("%s|%s|%s|%s|%s", fault, dl, hash, state, sys.s))
	cs.Obs("fault: "+fault, 1)
	cs.Obs("installer runs", 1)
	good := strings.HasPrefix(fault, "none")
	if upToDate && (good || fault != "unknown system" && !strings.HasPrefix(fault, "json") && fault != "no tag" && fault != "no download tool") {
		// nothing is downloaded, so nothing else can go wrong
		if code != 0 || !sameSnap(before, after) {
			fail("the version is installed already, but the installer ends with %d or changes the target", code)
		}
		return
	}
	if good {
		got := after[sys.exe]
		switch {
		case code != 0:
			fail("a good release is not installed")
		case got.data != content:
			fail("the installed program is not the one of the archive")
		case got.mode&0o111 == 0:
			fail("the installed program cannot be run (%v)", got.mode)
		default:
			delete(after, sys.exe)
			delete(before, sys.exe)
			if state == "missing" {
				delete(after, ".")
				delete(before, ".")
			}
			if !sameSnap(before, after) {
				fail("other files of the target change")
			}
		}
		if got := evs; len(got) == 0 {
			fail("nothing was asked for")
		}
		return
	}
	if code == 0 {
		fail("the installer succeeds")
		return
	}
	if fault == "archive without the program" && state == "missing" {
		delete(after, ".")
	}
	if !sameSnap(before, after) {
		fail("the target changes")
	}
}

type dlReplyT struct {
	Name string
	Body []byte
	Code int
	Exit int
	Cut  int
	Kill bool
}
