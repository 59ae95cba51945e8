package main

// Reference semantics: what a run of a valid project has to do, written from
// the documentation and independent of bab's own code.

import (
	"errors"
	"fmt"
	"path"
	"sort"
	"strings"
)

// ---- interpolation ----

type undefinedErr struct{ name string }

func (e undefinedErr) Error() string { return "undefined variable: " + e.name }

var errCycle = errors.New("circular variable reference")

func isIdentStart(c byte) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}
func isIdent(c byte) bool { return isIdentStart(c) || c >= '0' && c <= '9' || c == '.' }
func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' }

type tmplPart struct {
	lit string
	ref string // a reference when not empty
}

// splitTemplate cuts a text into literal pieces and references.
func splitTemplate(s string) []tmplPart {
	var parts []tmplPart
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			parts = append(parts, tmplPart{lit: lit.String()})
			lit.Reset()
		}
	}
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], "$${{") {
			lit.WriteString("${{")
			i += 4
			continue
		}
		if strings.HasPrefix(s[i:], "${{") {
			j := i + 3
			for j < len(s) && isSpace(s[j]) {
				j++
			}
			k := j
			if k < len(s) && isIdentStart(s[k]) {
				for k < len(s) && isIdent(s[k]) {
					k++
				}
				e := k
				for e < len(s) && isSpace(s[e]) {
					e++
				}
				if strings.HasPrefix(s[e:], "}}") {
					flush()
					parts = append(parts, tmplPart{ref: s[j:k]})
					i = e + 2
					continue
				}
			}
		}
		lit.WriteByte(s[i])
		i++
	}
	flush()
	return parts
}

type Scope struct {
	Vars  map[string]string
	OSEnv map[string]string
}

func (sc Scope) interp(s string) (string, error) {
	var b strings.Builder
	for _, p := range splitTemplate(s) {
		switch {
		case p.ref == "":
			b.WriteString(p.lit)
		case strings.HasPrefix(p.ref, "env."):
			b.WriteString(sc.OSEnv[strings.TrimPrefix(p.ref, "env.")])
		default:
			v, ok := sc.Vars[p.ref]
			if !ok {
				return "", undefinedErr{p.ref}
			}
			b.WriteString(v)
		}
	}
	return b.String(), nil
}

// resolve evaluates definitions on top of already resolved parent variables.
func resolve(defs, parent, osenv map[string]string) (map[string]string, error) {
	out := map[string]string{}
	for k, v := range parent {
		out[k] = v
	}
	state := map[string]int{}
	var one func(n string) error
	one = func(n string) error {
		switch state[n] {
		case 1:
			return errCycle
		case 2:
			return nil
		}
		state[n] = 1
		var b strings.Builder
		for _, p := range splitTemplate(defs[n]) {
			switch {
			case p.ref == "":
				b.WriteString(p.lit)
			case strings.HasPrefix(p.ref, "env."):
				b.WriteString(osenv[strings.TrimPrefix(p.ref, "env.")])
			default:
				if _, ok := defs[p.ref]; ok {
					if err := one(p.ref); err != nil {
						return err
					}
					b.WriteString(out[p.ref])
				} else if v, ok := parent[p.ref]; ok {
					b.WriteString(v)
				} else {
					return undefinedErr{p.ref}
				}
			}
		}
		out[n] = b.String()
		state[n] = 2
		return nil
	}
	names := make([]string, 0, len(defs))
	for n := range defs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if err := one(n); err != nil {
			return nil, err
		}
	}
	return out, nil
}

// evalWhen evaluates a condition: the operator and the quoted literal are taken
// from the text as written, the operands are interpolated.
func evalWhen(cond string, sc Scope) (bool, error) {
	if cond == "" {
		return true, nil
	}
	c := strings.TrimSpace(cond)
	if l, op, r, ok := splitCond(c); ok {
		lv, err := sc.interp(strings.Trim(strings.TrimSpace(l), `'"`))
		if err != nil {
			return false, err
		}
		rv, err := sc.interp(r)
		if err != nil {
			return false, err
		}
		return (lv == rv) == (op == "=="), nil
	}
	v, err := sc.interp(cond)
	if err != nil {
		return false, err
	}
	v = strings.TrimSpace(v)
	return v != "" && !strings.EqualFold(v, "false"), nil
}

func splitCond(c string) (l, op, r string, ok bool) {
	if len(c) < 2 {
		return
	}
	q := c[len(c)-1]
	if q != '\'' && q != '"' {
		return
	}
	body := c[:len(c)-1]
	o := strings.LastIndexByte(body, q)
	if o < 0 {
		return
	}
	r = body[o+1:]
	left := strings.TrimRight(body[:o], " \t")
	if !strings.HasSuffix(left, "==") && !strings.HasSuffix(left, "!=") {
		return
	}
	op = left[len(left)-2:]
	l = left[:len(left)-2]
	if l == "" {
		return
	}
	return l, op, r, true
}

// ---- flattening ----

type FTask struct {
	Name    string
	NS      string // prefix for references, "" or ending in ":"
	Src     *File
	Layers  []*File // included files from the outermost to Src; empty for the main file
	T       *Task
	Aliases []string
}

func (f *FTask) Deps() []string {
	out := make([]string, len(f.T.Deps))
	for i, d := range f.T.Deps {
		out[i] = f.NS + d
	}
	return out
}

type Model struct {
	P       *Project
	Root    *File
	Tasks   map[string]*FTask
	Aliases map[string]string
	OSEnv   map[string]string
	BaseDir string                     // absolute directory of the project
	DirOK   func(string) bool          // whether an absolute directory exists
	OS      string                     // platform
	Prompts func(*Item) (string, bool) // nil: non-interactive defaults
}

func NewModel(p *Project, baseDir string, osenv map[string]string) *Model {
	m := &Model{P: p, Root: p.Files[p.Main], Tasks: map[string]*FTask{}, Aliases: map[string]string{},
		OSEnv: osenv, BaseDir: baseDir, OS: "linux", DirOK: func(string) bool { return true }}
	var walk func(f *File, ns string, layers []*File)
	walk = func(f *File, ns string, layers []*File) {
		for _, t := range f.Tasks {
			ft := &FTask{Name: ns + t.Name, NS: ns, Src: f, Layers: layers, T: t}
			if t.Alias != "" {
				ft.Aliases = append(ft.Aliases, ns+t.Alias)
			}
			for _, a := range t.Aliases {
				ft.Aliases = append(ft.Aliases, ns+a)
			}
			m.Tasks[ft.Name] = ft
			for _, a := range ft.Aliases {
				m.Aliases[a] = ft.Name
			}
		}
		for _, inc := range f.Includes {
			q := path.Join(path.Dir(f.Path), inc.Path)
			nl := append(append([]*File{}, layers...), p.Files[q])
			walk(p.Files[q], ns+inc.NS+":", nl)
		}
	}
	walk(m.Root, "", nil)
	return m
}

func (m *Model) lookup(name string) *FTask {
	if t, ok := m.Tasks[name]; ok {
		return t
	}
	if a, ok := m.Aliases[name]; ok {
		return m.Tasks[a]
	}
	return nil
}

func overlay(dst map[string]string, kvs []KV) {
	for _, x := range kvs {
		dst[x.K] = x.V
	}
}

func (m *Model) rootVars() (map[string]string, error) {
	d := map[string]string{}
	overlay(d, m.Root.Vars)
	return resolve(d, nil, m.OSEnv)
}

func (m *Model) taskVars(ft *FTask) (map[string]string, error) {
	rv, err := m.rootVars()
	if err != nil {
		return nil, err
	}
	d := map[string]string{}
	for _, l := range ft.Layers {
		overlay(d, l.Vars)
	}
	overlay(d, ft.T.Vars)
	return resolve(d, rv, m.OSEnv)
}

func (m *Model) taskEnvTemplates(ft *FTask) map[string]string {
	d := map[string]string{}
	overlay(d, m.Root.Env)
	for _, l := range ft.Layers {
		overlay(d, l.Env)
	}
	overlay(d, ft.T.Env)
	return d
}

func firstBool(def bool, vals ...*bool) bool {
	for _, v := range vals {
		if v != nil {
			return *v
		}
	}
	return def
}

func firstPtr(vals ...*bool) *bool {
	for _, v := range vals {
		if v != nil {
			return v
		}
	}
	return nil
}

func (m *Model) cascadeSilent(ft *FTask) []*bool {
	out := []*bool{ft.T.Silent}
	for i := len(ft.Layers) - 1; i >= 0; i-- {
		out = append(out, ft.Layers[i].Silent)
	}
	return append(out, m.Root.Silent)
}

func (m *Model) cascadeOutput(ft *FTask) []*bool {
	out := []*bool{ft.T.Output}
	for i := len(ft.Layers) - 1; i >= 0; i-- {
		out = append(out, ft.Layers[i].Output)
	}
	return append(out, m.Root.Output)
}

func (m *Model) srcDir(ft *FTask) string { return path.Join(m.BaseDir, path.Dir(ft.Src.Path)) }

// cmdDir is the directory a command of the task runs in.
func (m *Model) cmdDir(ft *FTask, it *Item, sc Scope) (string, error) {
	base := m.srcDir(ft)
	dir := it.Dir
	if dir == "" {
		dir = ft.T.Dir
	}
	if dir == "" {
		dir = ft.Src.Dir
	}
	if dir == "" {
		return base, nil
	}
	d, err := sc.interp(dir)
	if err != nil {
		return "", err
	}
	if !path.IsAbs(d) {
		d = path.Join(base, d)
	}
	d = path.Clean(d)
	if !m.DirOK(d) {
		return "", fmt.Errorf("directory does not exist: %s", d)
	}
	return d, nil
}

// ---- plan ----

type Step struct {
	ID     string
	Item   *Item
	Task   *FTask
	Text   string // interpolated command or log text
	Env    map[string]string
	Dir    string
	Silent bool
	Output bool
	Par    bool // inside a parallel block
	Color  bool
	Label  string
}

type Node struct {
	Kind     string // task, ref, par, leaf
	Name     string
	Step     *Step
	Pre      []string // par: the tasks that come before its items
	Children []*Node
}

type Head struct {
	Name   string
	Main   bool
	Silent bool
	Par    bool
}

type Plan struct {
	M         *Model
	Main      string
	Steps     []*Step // commands, in an order a sequential machine would use
	Logs      []*Step
	All       []*Step // commands and logs
	Heads     []Head
	Nodes     map[string]*Node // per task that was entered
	Results   map[string]bool  // per task: succeeded
	Fail      bool
	FailWhy   string
	Ambiguous bool // a dependency failed while a block was being prepared
	HasPar    bool
	Prompted  []string
	Vars      map[string]map[string]string
	Fails     []string // ids of failing commands that ran
	Blocks    []BlockSum

	dry bool
}

// Execute computes the plan of running the task on the model.
func (m *Model) Execute(name string) *Plan {
	p := &Plan{M: m, Nodes: map[string]*Node{}, Results: map[string]bool{}, Vars: map[string]map[string]string{}}
	ft := m.lookup(name)
	if ft == nil {
		p.Fail, p.FailWhy = true, "unknown task"
		return p
	}
	if _, err := m.rootVars(); err != nil {
		p.Fail, p.FailWhy = true, err.Error()
		return p
	}
	p.Main = ft.Name
	if !p.run(ft.Name, true, nil, nil, parCtx{color: true}) {
		p.Fail = true
	}
	return p
}

type parCtx struct {
	par   bool
	color bool
	label string
}

func (p *Plan) why(s string) bool {
	if p.FailWhy == "" {
		p.FailWhy = s
	}
	return false
}

func (p *Plan) run(name string, main bool, ovS, ovO *bool, pc parCtx) bool {
	if res, ok := p.Results[name]; ok {
		return res
	}
	ok := p.run1(name, main, ovS, ovO, pc)
	p.Results[name] = ok
	return ok
}

func (p *Plan) skipTask(ft *FTask) (bool, error) {
	if ft.T.When == "" {
		return false, nil
	}
	vars, err := p.M.taskVars(ft)
	if err != nil {
		return false, err
	}
	ok, err := evalWhen(ft.T.When, Scope{vars, p.M.OSEnv})
	return !ok, err
}

func (p *Plan) run1(name string, main bool, ovS, ovO *bool, pc parCtx) bool {
	m := p.M
	ft := m.Tasks[name]
	skip, err := p.skipTask(ft)
	if err != nil {
		return p.why(err.Error())
	}
	if skip {
		return true
	}
	node := &Node{Kind: "task", Name: name}
	p.Nodes[name] = node
	p.Heads = append(p.Heads, Head{Name: name, Main: main, Par: pc.par, Silent: firstBool(false, append([]*bool{ovS}, m.cascadeSilent(ft)...)...)})
	for _, d := range ft.Deps() {
		node.Children = append(node.Children, &Node{Kind: "ref", Name: d})
		if !p.run(d, false, nil, nil, pc) {
			return false
		}
	}
	if len(ft.T.Run) == 0 {
		return true
	}
	vars, err := m.taskVars(ft)
	if err != nil {
		return p.why(err.Error())
	}
	sc := Scope{vars, m.OSEnv}
	p.Vars[name] = vars
	env := map[string]string{}
	for k, t := range m.taskEnvTemplates(ft) {
		v, err := sc.interp(t)
		if err != nil {
			return p.why(err.Error())
		}
		env[k] = v
	}
	executed, skipped := 0, 0
	for _, it := range ft.T.Run {
		if !m.onPlatform(it) {
			continue
		}
		ok, err := evalWhen(it.When, sc)
		if err != nil {
			return p.why(err.Error())
		}
		if !ok {
			skipped++
			continue
		}
		switch it.Kind {
		case kPrompt:
			p.Prompted = append(p.Prompted, it.Prompt)
			v, err := p.prompt(it, sc)
			if _, missing := err.(noDefaultErr); missing && p.dry {
				v, err = "${{ "+it.Prompt+" }}", nil
			}
			if err != nil {
				return p.why(err.Error())
			}
			vars[it.Prompt] = v
		case kParallel:
			if p.dry {
				break
			}
			n := &Node{Kind: "par"}
			node.Children = append(node.Children, n)
			if !p.par(ft, it, sc, env, ovS, ovO, pc, n) {
				return false
			}
		default:
			n, ok := p.item(ft, it, sc, env, ovS, ovO, pc)
			if n != nil {
				node.Children = append(node.Children, n)
			}
			if !ok {
				return false
			}
		}
		executed++
	}
	if executed == 0 && skipped == 0 {
		return p.why("no run items for platform")
	}
	return true
}

func (m *Model) onPlatform(it *Item) bool {
	if len(it.Platforms) == 0 {
		return true
	}
	for _, x := range it.Platforms {
		if x == m.OS {
			return true
		}
	}
	return false
}

func itemLabel(ft *FTask, it *Item) string {
	if it.Label != "" {
		return it.Label
	}
	s := ""
	switch it.Kind {
	case kTask:
		return ft.NS + it.Task
	case kCmd:
		s = it.Cmd
	case kLog:
		s = it.Log
	}
	s, _, _ = strings.Cut(strings.TrimSpace(s), "\n")
	if r := []rune(s); len(r) > 20 {
		s = string(r[:20])
	}
	return s
}

func (p *Plan) par(ft *FTask, blk *Item, sc Scope, env map[string]string, ovS, ovO *bool, pc parCtx, n *Node) bool {
	p.HasPar = true
	if blk.Silent != nil {
		ovS = blk.Silent
	}
	if blk.Output != nil {
		ovO = blk.Output
	}
	color := pc.color && (blk.Color == nil || *blk.Color)
	var sel []*Item
	for _, it := range blk.Items {
		if !p.M.onPlatform(it) {
			continue
		}
		ok, err := evalWhen(it.When, sc)
		if err != nil {
			return p.why(err.Error())
		}
		if ok {
			sel = append(sel, it)
		}
	}
	// dependencies of referenced tasks come first
	for _, it := range sel {
		if it.Kind != kTask {
			continue
		}
		c := p.M.Tasks[ft.NS+it.Task]
		skip, err := p.skipTask(c)
		if err != nil {
			return p.why(err.Error())
		}
		if skip {
			continue
		}
		for _, d := range c.Deps() {
			n.Pre = append(n.Pre, d)
			if !p.run(d, false, ovS, ovO, parCtx{par: pc.par, color: color, label: pc.label}) {
				p.Ambiguous = true
				return false
			}
		}
	}
	ok := true
	sum := BlockSum{Item: blk, Par: pc.par, Silent: firstBool(false, append([]*bool{ovS}, p.M.cascadeSilent(ft)...)...)}
	vars := map[string]string{}
	for k, v := range sc.Vars {
		vars[k] = v
	}
	at := len(p.Blocks)
	p.Blocks = append(p.Blocks, sum)
	for _, it := range sel {
		ch, good := p.item(ft, it, Scope{vars, sc.OSEnv}, env, ovS, ovO, parCtx{par: true, color: color, label: itemLabel(ft, it)})
		if ch != nil {
			n.Children = append(n.Children, ch)
		}
		sum.Labels, sum.OK = append(sum.Labels, itemLabel(ft, it)), append(sum.OK, good)
		ok = ok && good
	}
	p.Blocks[at] = sum
	return ok
}

// BlockSum is how the items of one parallel block ended.
type BlockSum struct {
	Item        *Item
	Par, Silent bool
	Labels      []string
	OK          []bool
}

func (p *Plan) item(ft *FTask, it *Item, sc Scope, env map[string]string, ovS, ovO *bool, pc parCtx) (*Node, bool) {
	m := p.M
	switch it.Kind {
	case kTask:
		if p.dry {
			return nil, true
		}
		name := ft.NS + it.Task
		n := &Node{Kind: "ref", Name: name}
		return n, p.run(name, false, firstPtr(it.Silent, ovS), firstPtr(it.Output, ovO), pc)
	case kLog:
		txt, err := sc.interp(it.Log)
		if err != nil {
			return nil, p.why(err.Error())
		}
		p.Logs = append(p.Logs, &Step{ID: it.ID, Item: it, Task: ft, Text: txt, Par: pc.par, Label: pc.label})
		p.All = append(p.All, p.Logs[len(p.Logs)-1])
		return nil, true
	}
	if strings.TrimSpace(it.Cmd) == "" {
		return nil, p.why("empty command")
	}
	txt, err := sc.interp(it.Cmd)
	if err != nil {
		return nil, p.why(err.Error())
	}
	e := map[string]string{}
	for k, v := range env {
		e[k] = v
	}
	for _, x := range it.Env {
		v, err := sc.interp(x.V)
		if err != nil {
			return nil, p.why(err.Error())
		}
		e[x.K] = v
	}
	dir, err := m.cmdDir(ft, it, sc)
	if err != nil {
		return nil, p.why(err.Error())
	}
	st := &Step{ID: it.ID, Item: it, Task: ft, Text: txt, Env: e, Dir: dir, Par: pc.par, Color: pc.color, Label: pc.label,
		Silent: firstBool(false, append([]*bool{it.Silent, ovS}, m.cascadeSilent(ft)...)...),
		Output: firstBool(true, append([]*bool{it.Output, ovO}, m.cascadeOutput(ft)...)...)}
	p.Steps = append(p.Steps, st)
	p.All = append(p.All, st)
	if it.Exit != 0 && !p.dry {
		p.Fails = append(p.Fails, it.ID)
		p.why(fmt.Sprintf("command %s fails", it.ID))
	}
	return &Node{Kind: "leaf", Step: st}, it.Exit == 0 || p.dry
}

type noDefaultErr struct{ name string }

func (e noDefaultErr) Error() string { return "prompt without default: " + e.name }

// prompt gives the non-interactive result.
func (p *Plan) prompt(it *Item, sc Scope) (string, error) {
	if _, err := sc.interp(it.Message); err != nil {
		return "", err
	}
	for _, s := range it.Options {
		if _, err := sc.interp(s); err != nil {
			return "", err
		}
	}
	if _, err := sc.interp(it.Placeholder); err != nil {
		return "", err
	}
	if p.M.Prompts != nil {
		v, ok := p.M.Prompts(it)
		if !ok {
			return "", errors.New("prompt aborted")
		}
		return v, nil
	}
	noDefault := noDefaultErr{it.Prompt}
	switch it.PType {
	case "password":
		return "", noDefault
	case "multiselect":
		if len(it.Defaults) == 0 {
			return "", noDefault
		}
		out := make([]string, len(it.Defaults))
		for i, d := range it.Defaults {
			v, err := sc.interp(d)
			if err != nil {
				return "", err
			}
			out[i] = v
		}
		return strings.Join(out, ","), nil
	}
	d, err := sc.interp(it.Default)
	if err != nil {
		return "", err
	}
	if d == "" {
		return "", noDefault
	}
	if it.PType == "confirm" {
		switch strings.ToLower(d) {
		case "true", "yes", "y", "1":
			return "true", nil
		}
		return "false", nil
	}
	return d, nil
}

// ---- order checks ----

type span struct{ s, e int } // positions of start and end in the event log; -1: absent

// closure collects the ids of all commands executed under a node.
func (p *Plan) closure(n *Node, seen map[string]bool, out map[string]bool) {
	switch n.Kind {
	case "leaf":
		out[n.Step.ID] = true
	case "ref":
		if seen[n.Name] {
			return
		}
		seen[n.Name] = true
		if t := p.Nodes[n.Name]; t != nil {
			p.closure(t, seen, out)
		}
	default:
		for _, d := range n.Pre {
			p.closure(&Node{Kind: "ref", Name: d}, seen, out)
		}
		for _, c := range n.Children {
			p.closure(c, seen, out)
		}
	}
}

func ownLeaves(n *Node) []string {
	switch n.Kind {
	case "leaf":
		return []string{n.Step.ID}
	case "par":
		var out []string
		for _, c := range n.Children {
			out = append(out, ownLeaves(c)...)
		}
		return out
	}
	return nil
}

func refsOf(n *Node) []string {
	switch n.Kind {
	case "ref":
		return []string{n.Name}
	case "par":
		var out []string
		for _, c := range n.Children {
			out = append(out, refsOf(c)...)
		}
		return out
	}
	return nil
}

// CheckOrder returns a description of the first violated ordering, or "".
func (p *Plan) CheckOrder(ev map[string]span) string {
	before := func(ids map[string]bool, at int) string {
		for id := range ids {
			s, ok := ev[id]
			if !ok {
				continue
			}
			if s.e < 0 || s.e > at {
				return id
			}
		}
		return ""
	}
	type site struct {
		task string
		pre  map[string]bool
	}
	sites := map[string][]site{}
	names := make([]string, 0, len(p.Nodes))
	for name := range p.Nodes {
		names = append(names, name)
	}
	sort.Strings(names)
	for _, name := range names {
		pre := map[string]bool{}
		for _, c := range p.Nodes[name].Children {
			for i, d := range c.Pre {
				dn := &Node{Kind: "ref", Name: d}
				if i == 0 || c.Pre[i-1] != d {
					cp := map[string]bool{}
					for k := range pre {
						cp[k] = true
					}
					sites[d] = append(sites[d], site{name, cp})
				}
				p.closure(dn, map[string]bool{}, pre)
			}
			for _, id := range ownLeaves(c) {
				if s, ok := ev[id]; ok {
					if bad := before(pre, s.s); bad != "" {
						return fmt.Sprintf("task %q: command %s started before %s, which precedes it, had finished", name, id, bad)
					}
				}
			}
			for _, r := range refsOf(c) {
				cp := map[string]bool{}
				for k := range pre {
					cp[k] = true
				}
				sites[r] = append(sites[r], site{name, cp})
			}
			p.closure(c, map[string]bool{}, pre)
		}
	}
	var enabled func(task string, at int) (bool, string)
	enabled = func(task string, at int) (bool, string) {
		if task == p.Main {
			return true, ""
		}
		why := "no reference"
		for _, s := range sites[task] {
			if bad := before(s.pre, at); bad != "" {
				why = fmt.Sprintf("%s, which precedes it in task %q, had not finished", bad, s.task)
				continue
			}
			if ok, w := enabled(s.task, at); ok {
				return true, ""
			} else {
				why = w
			}
		}
		return false, why
	}
	for _, name := range names {
		first := -1
		id := ""
		for _, c := range p.Nodes[name].Children {
			for _, l := range ownLeaves(c) {
				if s, ok := ev[l]; ok && (first < 0 || s.s < first) {
					first, id = s.s, l
				}
			}
		}
		if first < 0 {
			continue
		}
		if ok, why := enabled(name, first); !ok {
			return fmt.Sprintf("task %q started (command %s) although %s", name, id, why)
		}
	}
	return ""
}
