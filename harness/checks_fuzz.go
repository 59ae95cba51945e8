package main

// C19: no input makes bab crash or hang.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf16"
)

func init() {
	register("C19", "random bytes, mutated generated projects (bit flips, cuts, splices, repeated and nested fragments), soups of the format's words and YAML's syntax, hostile scalars in every string position, odd encodings, deep nesting, exponential aliases, odd variable names and arguments: every mode of bab, with a stand-in for the shell that runs nothing, must end in time with status 0 or 1, without a panic, and with a message when the status is 1; non-trivial when the input is not a plain generated project",
		func(c *Ctx) {
			c.Bab()
			sh := filepath.Join(c.Work, "fakebin")
			_ = os.MkdirAll(sh, 0o755)
			b, err := os.ReadFile(c.Rec)
			if err != nil || os.WriteFile(filepath.Join(sh, "sh"), b, 0o755) != nil {
				c.Inconclusive("no stand-in for the shell")
				return
			}
			c.Each("fuzz", c.N(2500, 60000), func(cs *Case) { cs.fuzzCase(sh) })
			c.Each("args", c.N(400, 8000), func(cs *Case) { cs.argCase(sh) })
			c.Each("big", c.N(36, 180), func(cs *Case) { cs.bigCase(sh) })
		}, "special files (devices, FIFOs) as Babfiles are left out", "a run may take 25 seconds; the machine is repeated once before a hang counts")
}

var hostile = []string{
	"", " ", "${{", "${{ }}", "${{ v }}", "$${{ v }}", "$${{", "${{ v", "${{ env. }}", "${{ env.HOME }}", "${{ env.NOPE }}", "${{ ${{ v }} }}", "${{\n}}", "${{ v.v.v }}", "}}", "${{ é }}",
	"'", "''", "\"", "==", "'a' == 'a'", "${{ v }} == ", " == ''", "a == b == c", "!= !=", "true", "false", "~", "null", "!!binary aGk=", "0x7fffffffffffffff", "99999999999999999999", "-1", "1e400", ".nan", ".inf", "2024-01-01", "0o17", "1_000",
	"\x00", "\x7f", "\u202e", "\ufeff", "\U0001F600", "\x1b[31m", "\xff", "a\nb", "\t", "\r", strings.Repeat("x", 5000), strings.Repeat("${{ v }}", 300), strings.Repeat("é", 700), "%s%n%d", "../../..", "/", ".", "a:b:c:", ":", "-", "--", "-n", "[", "(?P<", "(a+)+$", "\\", "[[:foo:]]", "x{1001}",
}

var soup = []string{"tasks", "tasks:", "run:", "run", "cmd:", "task:", "log:", "prompt:", "parallel:", "deps:", "env:", "vars:", "includes:", "babfile:", "Babfile", "dir:", "when:", "platforms:", "silent:", "output:", "options:", "defaults:", "default:", "min:", "max:", "type:", "message:", "mode:", "limit:", "label:", "alias:", "aliases:", "desc:",
	"- ", "- - ", "? ", ": ", "{", "}", "[", "]", ",", "&a ", "*a", "&b ", "*b", "<<: ", "!!str ", "!!map ", "!!int ", "!x ", "|\n", ">\n", "|+2\n", "'", "\"", "#", "---\n", "...\n", "%YAML 1.1\n", "\n", "\n  ", "\n    ", "\n      ", "\n        ", "\t", " ", "t0", "t1", "true", "null", "~", "1", "-1", "linux", "confirm", "select", "x: y", "${{ v }}", "\\", "\x00", "\u0085", "\u2028", "\ufeff", "@", "`", "=", "<<"}

func mutateBytes(r *randT, b []byte, other []byte) []byte {
	b = append([]byte{}, b...)
	for k := 1 + r.Intn(6); k > 0; k-- {
		if len(b) == 0 {
			b = []byte("x")
		}
		i := r.Intn(len(b))
		j := i + r.Intn(min(len(b)-i, 40)+1)
		ins := func(s []byte) { b = append(b[:i:i], append(append([]byte{}, s...), b[i:]...)...) }
		switch r.Intn(12) {
		case 0:
			b[i] ^= 1 << r.Intn(8)
		case 1:
			b[i] = byte(r.Intn(256))
		case 2:
			b = append(b[:i:i], b[j:]...)
		case 3:
			b = b[:i]
		case 4:
			ins(b[i:j])
		case 5:
			ins([]byte(soup[r.Intn(len(soup))]))
		case 6:
			ins([]byte(hostile[r.Intn(len(hostile))]))
		case 7:
			if len(other) > 0 {
				p := r.Intn(len(other))
				ins(other[p : p+r.Intn(min(len(other)-p, 300)+1)])
			}
		case 8: // move a line
			l := strings.SplitAfter(string(b), "\n")
			x, y := r.Intn(len(l)), r.Intn(len(l))
			l[x], l[y] = l[y], l[x]
			b = []byte(strings.Join(l, ""))
		case 9: // change an indentation
			l := strings.SplitAfter(string(b), "\n")
			x := r.Intn(len(l))
			if r.Intn(2) == 0 {
				l[x] = " " + l[x]
			} else {
				l[x] = strings.TrimPrefix(l[x], "  ")
			}
			b = []byte(strings.Join(l, ""))
		case 10: // repeat a line
			l := strings.SplitAfter(string(b), "\n")
			x := r.Intn(len(l))
			l[x] = strings.Repeat(l[x], 1+r.Intn(30))
			b = []byte(strings.Join(l, ""))
		case 11:
			b = []byte(strings.Replace(string(b), pick(r, ":", "-", "  ", "\"", "'", "\n"), pick(r, "", ":", "-", "\t", "{", "\r\n", " : "), 1+r.Intn(4)))
		}
	}
	return b
}

func (cs *Case) fuzzModes(root, sh, what string, tasks []string) bool {
	r := cs.R
	show := func() string {
		var b strings.Builder
		_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if err == nil && i.Mode().IsRegular() {
				x, _ := os.ReadFile(p)
				fmt.Fprintf(&b, "--- %s\n%q\n", strings.TrimPrefix(p, root+"/"), clip(string(x), 3000))
			}
			return nil
		})
		return b.String()
	}
	task := "t0"
	if len(tasks) > 0 {
		task = tasks[r.Intn(len(tasks))]
	}
	modes := [][]string{{"--validate"}, {"--list"}, {"-n", task}, {task}, {"-v", task}, {"__complete", ""}, {}, {"-v", "-n", task}}
	r.Shuffle(len(modes), func(i, j int) { modes[i], modes[j] = modes[j], modes[i] })
	for _, a := range modes[:3] {
		res := cs.Bab(Run{Dir: root, Args: a, Env: []string{"PATH=" + sh}, Stdin: []byte("y\n")})
		if !cs.fuzzJudge(res, fmt.Sprintf("%s: bab %q", what, a), show) {
			return false
		}
	}
	return true
}

func (cs *Case) fuzzJudge(res *Res, what string, show func() string) bool {
	if res.Hung || panicked(res) != "" || res.Code < 0 || res.Code > 1 {
		cs.Fail("%s: hung=%v panic=%q status %d signal %v\nstderr:\n%s\n%s", what, res.Hung, panicked(res), res.Code, res.Sig, clip(res.Err, 3000), show())
		return false
	}
	if res.Code == 1 && strings.TrimSpace(stripSGR(res.Err)) == "" {
		cs.Fail("%s: status 1 without a message\nstdout:\n%s\n%s", what, clip(res.Out, 500), show())
		return false
	}
	cs.Obs(fmt.Sprintf("runs ending with status %d", res.Code), 1)
	return true
}

func (cs *Case) fuzzCase(sh string) {
	r := cs.R
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	prof := parseProf()
	prof.Undef = 0.02
	g := newGen(r, prof)
	proj := g.Generate()
	t := proj.Trees()
	kind := ""
	write := func(name string, b []byte) { _ = os.WriteFile(filepath.Join(root, name), b, 0o644) }
	tasks := NewModel(proj, root, cs.modelEnv()).TaskNames()
	switch r.Intn(10) {
	case 0:
		kind = "random bytes"
		b := make([]byte, r.Intn(200))
		r.Read(b)
		if r.Intn(2) == 0 {
			b = append([]byte("tasks:\n  t0:\n    run:\n      - cmd: "), b...)
		}
		write("Babfile", b)
	case 1, 2:
		kind = "soup"
		var b strings.Builder
		if r.Intn(2) == 0 {
			b.WriteString("tasks:\n  t0:\n    ")
		}
		for k := r.Intn(60); k >= 0; k-- {
			b.WriteString(soup[r.Intn(len(soup))])
		}
		write("Babfile", []byte(b.String()))
		if r.Intn(3) == 0 {
			write("b.yml", []byte(b.String()))
			write("Babfile", []byte("includes: {n: {babfile: b.yml}}\n"+b.String()))
		}
	case 3, 4, 5:
		kind = "hostile scalars"
		for _, f := range sortedKeys(t) {
			t[f].link()
			var l []*Y
			t[f].walk(func(n *Y) {
				if n.K == yStr || n.K == yRaw {
					l = append(l, n)
				}
				for _, k := range n.Keys {
					if n.Role == "vars" || n.Role == "env" || n.Role == "tasks" || n.Role == "includes" {
						l = append(l, k)
					}
				}
			})
			for k := 1 + r.Intn(4); k > 0 && len(l) > 0; k-- {
				n := l[r.Intn(len(l))]
				h := hostile[r.Intn(len(hostile))]
				if n.Role == "incpath" {
					h = pick(r, "", ".", "..", "nowhere.yml", "Babfile", "./Babfile", "/dev/null", "proj", "a\x00b", strings.Repeat("x/", 3000), "${{ v }}")
				}
				if r.Intn(4) == 0 {
					n.K = yRaw
					h = strings.Map(func(c rune) rune {
						if c < ' ' {
							return ' '
						}
						return c
					}, h)
				}
				n.S = h
			}
		}
		if _, err := t.Write(root, r); err != nil {
			cs.Inconclusive("cannot write project")
			return
		}
	case 6:
		kind = "several structural errors"
		for k := 1 + r.Intn(6); k > 0; k-- {
			cs.breakTree(t)
			for _, f := range sortedKeys(t) {
				t[f].link()
			}
		}
		if _, err := t.Write(root, r); err != nil {
			cs.Inconclusive("cannot write project")
			return
		}
	default:
		kind = "mutated project"
		text, err := t.Write(root, r)
		if err != nil {
			cs.Inconclusive("cannot write project")
			return
		}
		files := sortedKeys(text)
		f := files[r.Intn(len(files))]
		write(f, mutateBytes(r, []byte(text[f]), []byte(text[files[r.Intn(len(files))]])))
		if r.Intn(8) == 0 {
			kind = "other encoding"
			var b []byte
			for _, u := range utf16.Encode([]rune("\ufeff" + text[f])) {
				b = append(b, byte(u), byte(u>>8))
			}
			if r.Intn(3) == 0 {
				b = append([]byte("\xef\xbb\xbf"), []byte(text[f])...)
			}
			if r.Intn(3) == 0 {
				b = []byte(strings.ReplaceAll(text[f], "\n", pick(r, "\r\n", "\r", "\u0085")))
			}
			write(f, b)
		}
	}
	b, _ := os.ReadFile(filepath.Join(root, "Babfile"))
	cs.Case(kind + string(b) + fmt.Sprint(cs.I))
	cs.Obs("inputs: "+kind, 1)
	cs.fuzzModes(root, sh, kind, tasks)
}

func (cs *Case) argCase(sh string) {
	r := cs.R
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(filepath.Join(root, "sub"), 0o755)
	_ = os.WriteFile(filepath.Join(root, "Babfile"), []byte("vars: {v: x}\ntasks:\n  t0:\n    alias: a\n    run:\n      - cmd: echo ${{ v }} ${{ env.E_X }}\n  help:\n    run: [{cmd: y}]\n"), 0o644)
	_ = os.WriteFile(filepath.Join(root, "bad.yml"), []byte("tasks: ["), 0o644)
	words := []string{"t0", "a", "help", "", " ", "-", "--", "-n", "-v", "-l", "--list", "--validate", "--dry-run", "--verbose", "-b", "--babfile", "--babfile=", "--babfile=Babfile", "-bBabfile", "bad.yml", "Babfile", "sub", "nowhere", "-c", "--completion", "bash", "zsh", "fish", "powershell", "tcsh", "--completion=bash", "--version", "-h", "--help", "--nope", "-x", "-nv", "-vn", "-nlv", "--list=false", "--list=maybe", "--dry-run=true", "__complete", "__completeNoDesc", "completion", "\xff\xfe", "é", "t0\n", strings.Repeat("x", 3000), "--=", "---", "-=", "--no-dry-run", "%s", "${{ v }}"}
	var args []string
	for k := r.Intn(5); k >= 0; k-- {
		args = append(args, words[r.Intn(len(words))])
	}
	cs.Case(fmt.Sprintf("%q", args))
	run := Run{Dir: root, Args: args, Env: []string{"PATH=" + sh}, Stdin: []byte("y\n")}
	switch r.Intn(8) {
	case 0:
		run.Env = append(run.Env, "E_X="+hostile[1+r.Intn(len(hostile)-1)])
		run.Env[1] = strings.ReplaceAll(run.Env[1], "\x00", "0")
	case 1:
		run.Drop = []string{"HOME", "XDG_CACHE_HOME"}
	case 2:
		run.Drop = []string{"PATH", "HOME", "TERM", "LANG", "XDG_CACHE_HOME", "R"}
	case 3:
		run.Env = append(run.Env, "TERM="+pick(r, "", "dumb", "nope", "xterm-kitty"), "NO_COLOR=1", "COLUMNS=-1", "LINES=x")
	case 4:
		run.Env = append(run.Env, "XDG_CACHE_HOME="+pick(r, "relative", "/dev/null", "/nowhere", ""), "HOME="+pick(r, "", "/dev/null/x"))
	case 5:
		run.Dir = filepath.Join(root, "sub")
	}
	res := cs.Bab(run)
	cs.fuzzJudge(res, fmt.Sprintf("bab %q env %q without %q", args, run.Env, run.Drop), func() string { return "" })
}

// bigCase: inputs of unusual size or depth.
func (cs *Case) bigCase(sh string) {
	r := cs.R
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	var b strings.Builder
	kinds := []string{"deep lists", "deep mappings", "deep indentation", "exponential aliases", "exponential alias mappings", "many tasks", "long line", "many variables", "long variable chain", "many aliases", "wide block", "many includes", "long literal", "many errors", "repeated keys", "nested references", "exponential includes", "exponential variables"}
	kind := kinds[cs.I%len(kinds)]
	n := 500 << r.Intn(4)
	switch kind {
	case "deep lists":
		b.WriteString("tasks:\n  t0:\n    run: " + strings.Repeat("[", n*4))
		if r.Intn(2) == 0 {
			b.WriteString(strings.Repeat("]", n*4))
		}
	case "deep mappings":
		b.WriteString("tasks:\n  t0:\n    run: " + strings.Repeat("{a: ", n*4) + "x" + strings.Repeat("}", n*4))
	case "deep indentation":
		for i := 0; i < n; i++ {
			b.WriteString(strings.Repeat(" ", i) + pick(r, "a:\n", "a:\n", "- a:\n"))
		}
	case "exponential aliases", "exponential alias mappings":
		depth := 10 + r.Intn(20)
		fmt.Fprintf(&b, "x0: &x0 {cmd: a}\n")
		for i := 1; i < depth; i++ {
			p := fmt.Sprintf("*x%d", i-1)
			if kind == "exponential aliases" {
				fmt.Fprintf(&b, "x%d: &x%d [%s]\n", i, i, strings.TrimSuffix(strings.Repeat(p+", ", 9), ", "))
			} else {
				fmt.Fprintf(&b, "x%d: &x%d {parallel: [%s, %s], a: %s, b: %s}\n", i, i, p, p, p, p)
			}
		}
		top := fmt.Sprintf("*x%d", depth-1)
		fmt.Fprintf(&b, "tasks:\n  t0:\n    run: %s\n    deps: %s\n    vars: %s\n  t1:\n    run: [%s]\n", top, top, top, top)
		switch r.Intn(3) {
		case 0:
			fmt.Fprintf(&b, "  t2:\n    run:\n      - parallel: %s\n", top)
		case 1:
			fmt.Fprintf(&b, "  t2:\n    run:\n      - prompt: p\n        options: %s\n", top)
		}
	case "many tasks":
		b.WriteString("tasks:\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  t%d: {alias: a%d, desc: d, run: [{cmd: x}]}\n", i, i)
		}
	case "long line":
		b.WriteString("tasks:\n  t0:\n    run:\n      - cmd: " + strings.Repeat(pick(r, "x", "${{ v", "${{ v }}", "$${{", "'"), n*100) + "\nvars: {v: x}\n")
	case "many variables":
		b.WriteString("vars:\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  v%d: x${{ v%d }}\n", i, r.Intn(i+1)-(1-min(i, 1)))
		}
		b.WriteString("tasks:\n  t0:\n    run:\n      - cmd: ${{ v1 }}\n")
	case "long variable chain":
		b.WriteString("vars:\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "  v%d: a${{ v%d }}\n", i, i+1)
		}
		fmt.Fprintf(&b, "  v%d: %s\ntasks:\n  t0:\n    run:\n      - cmd: ${{ v0 }}\n", n, pick(r, "x", "${{ v0 }}", "${{ nope }}"))
	case "many aliases":
		b.WriteString("tasks:\n  t0:\n    aliases: [x")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ", a%d", i)
		}
		b.WriteString("]\n    run: [{cmd: x}]\n")
	case "wide block":
		b.WriteString("tasks:\n  t0:\n    run:\n      - parallel:\n")
		for i := 0; i < n/4; i++ {
			b.WriteString("          - cmd: x\n")
		}
		fmt.Fprintf(&b, "        limit: %d\n", r.Intn(20))
	case "many includes":
		b.WriteString("includes:\n")
		for i := 0; i < n/2; i++ {
			fmt.Fprintf(&b, "  n%d: {babfile: %s}\n", i, pick(r, "b.yml", "b.yml", "./b.yml"))
		}
		_ = os.WriteFile(filepath.Join(root, "b.yml"), []byte("tasks: {a: {run: [{cmd: x}]}}\n"), 0o644)
	case "long literal":
		b.WriteString("tasks:\n  t0:\n    run:\n      - cmd: |\n")
		for i := 0; i < n; i++ {
			b.WriteString("          echo x ${{ v }}\n")
		}
		b.WriteString("vars: {v: y}\n")
	case "many errors":
		b.WriteString("tasks:\n")
		for i := 0; i < n/4; i++ {
			fmt.Fprintf(&b, "  t%d: {deps: [nope%d], run: [{task: zip}, {cmd: 1, log: 2}]}\n", i, i)
		}
	case "repeated keys":
		for i := 0; i < n/10; i++ {
			b.WriteString("tasks: {t0: {run: [{cmd: x, cmd: y}], run: []}}\n")
		}
	case "exponential includes":
		depth, width := 8+r.Intn(16), 2+r.Intn(3)
		for i := 0; i <= depth; i++ {
			var f strings.Builder
			if i < depth {
				f.WriteString("includes:\n")
				for j := 0; j < width; j++ {
					fmt.Fprintf(&f, "  n%d: {babfile: f%d.yml}\n", j, i+1)
				}
			}
			if i == depth || r.Intn(3) == 0 {
				f.WriteString("tasks: {t0: {run: [{cmd: x}]}}\n")
			}
			if i == 0 {
				b.WriteString(f.String())
			}
			_ = os.WriteFile(filepath.Join(root, fmt.Sprintf("f%d.yml", i)), []byte(f.String()), 0o644)
		}
	case "exponential variables":
		depth, width := 6+r.Intn(10), 5+r.Intn(20)
		where := r.Intn(3) // root, task or both
		vars := func(ind string, from, to int) {
			b.WriteString(ind + "vars:\n")
			for i := from; i < to; i++ {
				fmt.Fprintf(&b, "%s  v%d: \"%s\"\n", ind, i, strings.Repeat(fmt.Sprintf("${{ v%d }}", i-1), width))
			}
		}
		split := []int{depth, 1, depth / 2}[where]
		vars("", 1, split)
		b.WriteString("  v0: 0123456789\ntasks:\n  t0:\n")
		vars("    ", split, depth)
		text := strings.Repeat(fmt.Sprintf("${{ v%d }}", depth-1), width)
		fmt.Fprintf(&b, "    run:\n      - %s: \"%s\"\n", pick(r, "log", "cmd"), text)
	case "nested references":
		b.WriteString("vars: {v: x}\ntasks:\n  t0:\n    run:\n      - cmd: \"" + strings.Repeat("${{ ", n) + "v" + strings.Repeat(" }}", n) + "\"\n")
	}
	_ = os.WriteFile(filepath.Join(root, "Babfile"), []byte(b.String()), 0o644)
	cs.Case(kind + fmt.Sprint(b.Len(), cs.I))
	cs.Obs("large inputs: "+kind, 1)
	for _, a := range [][]string{{"--validate"}, {"t0"}, {"-n", "t0"}, {"--list"}} {
		// memory is limited, so that an input that multiplies ends bab and nothing else
		res := cs.Bab(Run{Bin: "/bin/sh", Dir: root, Args: append([]string{"-c", "ulimit -v 6000000; exec \"$0\" \"$@\"", cs.Ctx.Bab()}, a...), Env: []string{"PATH=" + sh}})
		if !cs.fuzzJudge(res, fmt.Sprintf("%s (%d bytes): bab %q", kind, b.Len(), a), func() string { return clip(b.String(), 600) }) {
			return
		}
	}
}
