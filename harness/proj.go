package main

// Project model: a set of Babfiles as data, and its emission as YAML.

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

type KV struct{ K, V string }

type Project struct {
	Files map[string]*File // slash-separated path relative to the project root
	Main  string
}

type Inc struct{ NS, Path string }

type File struct {
	Path           string
	Vars, Env      []KV
	Silent, Output *bool
	Dir            string
	Includes       []Inc
	Tasks          []*Task
	abs            map[string]string // includes written with an absolute path
}

type Task struct {
	Name, Desc, Alias string
	Aliases           []string
	Vars, Env         []KV
	Silent, Output    *bool
	Dir, When         string
	Deps              []string
	Run               []*Item
	NoRun             bool // omit run entirely

	Line, DepsLine int
}

const (
	kCmd      = "cmd"
	kTask     = "task"
	kLog      = "log"
	kPrompt   = "prompt"
	kParallel = "parallel"
)

type Item struct {
	Kind string
	ID   string // identity of the leaf in the event log (cmd) or unique text (log)

	Cmd, Task, Log, Level string

	Prompt, PType, Message, Default, Placeholder, Validate string
	Options, Defaults                                      []string
	Min, Max                                               *int
	Confirm                                                *bool

	Dir            string
	Env            []KV
	Silent, Output *bool
	Platforms      []string
	When           string

	Items []*Item
	Mode  string
	Limit int
	Color *bool
	Label string

	Line int

	// behaviour of the leaf, for the reference semantics
	Exit int
}

func bp(b bool) *bool { return &b }
func ip(i int) *int   { return &i }

// ---- emission ----

type emitter struct {
	b    strings.Builder
	line int
	r    *rand.Rand // nil: always double quoted
}

func (e *emitter) ln(indent int, format string, a ...any) int {
	s := fmt.Sprintf(format, a...)
	e.b.WriteString(strings.Repeat("  ", indent))
	e.b.WriteString(s)
	e.b.WriteByte('\n')
	at := e.line
	e.line += 1 + strings.Count(s, "\n")
	return at
}

func dq(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '\r':
			b.WriteString(`\r`)
		case r < 0x20 || (r >= 0x7f && r <= 0xff):
			fmt.Fprintf(&b, `\x%02x`, r)
		case r > 0xffff:
			fmt.Fprintf(&b, `\U%08x`, r)
		case r > 0x7e:
			fmt.Fprintf(&b, `\u%04x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

var plainSafe = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_./-]*$`)
var sqSafe = regexp.MustCompile(`^[\x20-\x7e]+$`)

func isYAMLWord(s string) bool {
	switch strings.ToLower(s) {
	case "true", "false", "null", "yes", "no", "on", "off", "y", "n":
		return true
	}
	return false
}

// scalar renders a string in one of YAML's spellings.
func (e *emitter) scalar(s string) string {
	if e.r == nil {
		return dq(s)
	}
	switch e.r.Intn(4) {
	case 0:
		if plainSafe.MatchString(s) && !isYAMLWord(s) {
			return s
		}
	case 1:
		if sqSafe.MatchString(s) {
			return "'" + strings.ReplaceAll(s, "'", "''") + "'"
		}
	}
	return dq(s)
}

func (e *emitter) kv(indent int, key, val string) {
	e.ln(indent, "%s: %s", key, e.scalar(val))
}

func (e *emitter) kvmap(indent int, key string, m []KV) {
	if len(m) == 0 {
		return
	}
	e.ln(indent, "%s:", key)
	for _, x := range m {
		e.ln(indent+1, "%s: %s", e.key(x.K), e.scalar(x.V))
	}
}

func (e *emitter) key(k string) string {
	if plainSafe.MatchString(k) && !isYAMLWord(k) && (e.r == nil || e.r.Intn(4) > 0) {
		return k
	}
	return dq(k)
}

func (e *emitter) list(indent int, key string, l []string) int {
	if e.r != nil && e.r.Intn(2) == 0 {
		at := e.ln(indent, "%s:", key)
		for _, x := range l {
			e.ln(indent+1, "- %s", e.scalar(x))
		}
		return at
	}
	q := make([]string, len(l))
	for i, x := range l {
		q[i] = dq(x)
	}
	return e.ln(indent, "%s: [%s]", key, strings.Join(q, ", "))
}

func (e *emitter) boolp(indent int, key string, b *bool) {
	if b != nil {
		e.ln(indent, "%s: %v", key, *b)
	}
}

// EmitYAML renders the file and records the line of every construct in it.
func (f *File) EmitYAML(r *rand.Rand) string {
	e := &emitter{line: 1, r: r}
	if r != nil && r.Intn(3) == 0 {
		e.ln(0, "# generated")
	}
	e.boolp(0, "silent", f.Silent)
	e.boolp(0, "output", f.Output)
	if f.Dir != "" {
		e.kv(0, "dir", f.Dir)
	}
	e.kvmap(0, "vars", f.Vars)
	e.kvmap(0, "env", f.Env)
	if len(f.Includes) > 0 {
		e.ln(0, "includes:")
		for _, inc := range f.Includes {
			e.ln(1, "%s:", e.key(inc.NS))
			if a := f.abs[inc.NS]; a != "" {
				e.kv(2, "babfile", a)
				continue
			}
			e.kv(2, "babfile", inc.Path)
		}
	}
	if len(f.Tasks) > 0 {
		e.ln(0, "tasks:")
	} else {
		e.ln(0, "tasks: {}")
	}
	for _, t := range f.Tasks {
		if r != nil && r.Intn(5) == 0 {
			e.ln(0, "")
		}
		if t.NoRun && t.Desc == "" && t.Alias == "" && len(t.Aliases) == 0 && len(t.Deps) == 0 {
			t.Line = e.ln(1, "%s: {}", e.key(t.Name))
			continue
		}
		t.Line = e.ln(1, "%s:", e.key(t.Name))
		if t.Desc != "" {
			e.kv(2, "desc", t.Desc)
		}
		if t.Alias != "" {
			e.kv(2, "alias", t.Alias)
		}
		if len(t.Aliases) > 0 {
			e.list(2, "aliases", t.Aliases)
		}
		e.kvmap(2, "vars", t.Vars)
		e.kvmap(2, "env", t.Env)
		e.boolp(2, "silent", t.Silent)
		e.boolp(2, "output", t.Output)
		if t.Dir != "" {
			e.kv(2, "dir", t.Dir)
		}
		if t.When != "" {
			e.kv(2, "when", t.When)
		}
		if len(t.Deps) > 0 {
			t.DepsLine = e.list(2, "deps", t.Deps)
		}
		if !t.NoRun {
			if len(t.Run) == 0 {
				e.ln(2, "run: []")
			} else {
				e.ln(2, "run:")
				e.items(3, t.Run)
			}
		}
	}
	return e.b.String()
}

func (e *emitter) items(indent int, items []*Item) {
	for _, it := range items {
		e.item(indent, it)
	}
}

func (e *emitter) item(indent int, it *Item) {
	start := e.b.Len()
	it.Line = e.line
	in := indent + 1
	type part func()
	var parts []part
	add := func(p part) { parts = append(parts, p) }
	switch it.Kind {
	case kCmd:
		add(func() { e.kv(in, "cmd", it.Cmd) })
	case kTask:
		add(func() { e.kv(in, "task", it.Task) })
	case kLog:
		add(func() { e.kv(in, "log", it.Log) })
		if it.Level != "" {
			add(func() { e.kv(in, "level", it.Level) })
		}
	case kPrompt:
		add(func() { e.kv(in, "prompt", it.Prompt) })
		add(func() { e.kv(in, "type", it.PType) })
		add(func() { e.kv(in, "message", it.Message) })
		if it.Default != "" {
			add(func() { e.kv(in, "default", it.Default) })
		}
		if it.Placeholder != "" {
			add(func() { e.kv(in, "placeholder", it.Placeholder) })
		}
		if it.Validate != "" {
			add(func() { e.kv(in, "validate", it.Validate) })
		}
		if len(it.Options) > 0 {
			add(func() { e.list(in, "options", it.Options) })
		}
		if len(it.Defaults) > 0 {
			add(func() { e.list(in, "defaults", it.Defaults) })
		}
		if it.Min != nil {
			add(func() { e.ln(in, "min: %d", *it.Min) })
		}
		if it.Max != nil {
			add(func() { e.ln(in, "max: %d", *it.Max) })
		}
		if it.Confirm != nil {
			add(func() { e.boolp(in, "confirm", it.Confirm) })
		}
	case kParallel:
		add(func() {
			e.ln(in, "parallel:")
			e.items(in+1, it.Items)
		})
		if it.Mode != "" {
			add(func() { e.kv(in, "mode", it.Mode) })
		}
		if it.Limit != 0 {
			add(func() { e.ln(in, "limit: %d", it.Limit) })
		}
		if it.Color != nil {
			add(func() { e.boolp(in, "color", it.Color) })
		}
	}
	if it.Label != "" {
		add(func() { e.kv(in, "label", it.Label) })
	}
	if it.Dir != "" {
		add(func() { e.kv(in, "dir", it.Dir) })
	}
	if len(it.Env) > 0 {
		add(func() { e.kvmap(in, "env", it.Env) })
	}
	if it.Silent != nil {
		add(func() { e.boolp(in, "silent", it.Silent) })
	}
	if it.Output != nil {
		add(func() { e.boolp(in, "output", it.Output) })
	}
	if len(it.Platforms) > 0 {
		add(func() { e.list(in, "platforms", it.Platforms) })
	}
	if it.When != "" {
		add(func() { e.kv(in, "when", it.When) })
	}
	if e.r != nil && e.r.Intn(3) == 0 {
		e.r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	for _, p := range parts {
		p()
	}
	// turn the first line's indentation into "- "
	s := e.b.String()
	head, tail := s[:start], s[start:]
	pos := indent * 2
	tail = tail[:pos] + "- " + tail[pos+2:]
	e.b.Reset()
	e.b.WriteString(head)
	e.b.WriteString(tail)
}

// Write puts all files of the project below dir.
func (p *Project) Write(dir string, r *rand.Rand) error {
	var paths []string
	for path := range p.Files {
		paths = append(paths, path)
	}
	sort.Strings(paths)
	for _, path := range paths {
		f := p.Files[path]
		full := filepath.Join(dir, path)
		f.abs = map[string]string{}
		for _, inc := range f.Includes {
			if r != nil && filepath.IsAbs(dir) && r.Intn(10) == 0 {
				f.abs[inc.NS] = pick(r, dir+"/", dir+"/./", dir+"//") + filepath.Join(filepath.Dir(path), inc.Path)
			}
		}
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return err
		}
		if err := os.WriteFile(full, []byte(f.EmitYAML(r)), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// included moves the main file of a project, in one of three cases, to a file
// the main file includes; it returns the name of the task from there.
func (cs *Case) included(p *Project, task string) string {
	r := cs.R
	for depth := pick(r, 0, 0, 0, 0, 1, 2); depth > 0; depth-- {
		f := p.Files[p.Main]
		delete(p.Files, f.Path)
		ns := pick(r, "inc", "n", "a:b", "lib-1")
		path := fmt.Sprintf("inc%d.yml", depth)
		root := &File{Path: f.Path, Includes: []Inc{{ns, path}}}
		f.Path = path
		p.Files[root.Path], p.Files[f.Path] = root, f
		task = ns + ":" + task
		cs.Obs("included blocks", 1)
	}
	return task
}
