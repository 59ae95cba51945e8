package main

// Random projects.

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
)

type Prof struct {
	Files       int // included files, at most
	Tasks       int // tasks per file, at most
	Items       int // run items per task, at most
	Deps        float64
	TaskRef     float64
	Par         float64
	ParItems    int
	Log         float64
	Prompt      float64
	Fail        float64
	When        float64
	TaskWhen    float64
	Plat        float64
	Vars        float64
	Env         float64
	Dir         float64
	BadDir      float64
	OddDir      float64 // unusual directory names
	Silent      float64
	Output      float64
	Undef       float64
	Alias       float64
	NoRun       float64
	Sleep       int // milliseconds, at most
	Limit       float64
	Label       float64 // items of blocks
	Color       float64
	Modes       []string
	NoDepsInPar bool // tasks below a parallel block have no dependencies
	Values      func(r *rand.Rand) string
	CmdText     func(g *Gen, id string, f *File, t *Task) string // the rest of the command line
	Weird       bool                                             // odd task names
}

type Gen struct {
	R      *rand.Rand
	P      Prof
	Proj   *Project
	Dirs   []string
	n      int
	nested bool               // task names that extend one another
	rel    map[*File][]string // names of tasks reachable from a file, relative to it, in reference order
	parent map[*File]*File
	AmbE   map[string]string // ambient environment
}

func (g *Gen) p(x float64) bool { return g.R.Float64() < x }

func (g *Gen) id(prefix string) string {
	g.n++
	return fmt.Sprintf("%s%d", prefix, g.n)
}

func pick[T any](r *rand.Rand, l ...T) T { return l[r.Intn(len(l))] }

var allPlatforms = []string{"linux", "darwin", "windows"}

func plainValue(r *rand.Rand) string {
	return pick(r, "alpha", "beta", "x", "true", "false", "one two", "", "1")
}

func newGen(r *rand.Rand, p Prof) *Gen {
	if p.Tasks == 0 {
		p.Tasks = 6
	}
	if p.Items == 0 {
		p.Items = 4
	}
	if p.ParItems == 0 {
		p.ParItems = 4
	}
	if p.Values == nil {
		p.Values = plainValue
	}
	return &Gen{R: r, P: p, Proj: &Project{Files: map[string]*File{}}, rel: map[*File][]string{}, parent: map[*File]*File{}, AmbE: map[string]string{}}
}

var mainNames = []string{"Babfile", "Babfile.yaml", "Babfile.yml", "babfile.yaml", "babfile.yml"}

// Generate builds a project whose main file is at the root.
func (g *Gen) Generate() *Project {
	main := &File{Path: pick(g.R, mainNames...)}
	g.nested = g.P.Weird && g.p(0.3)
	g.Proj.Main = main.Path
	left := 0
	if g.P.Files > 0 {
		left = g.R.Intn(g.P.Files + 1)
	}
	g.file(main, &left, 0)
	return g.Proj
}

func (g *Gen) bool3(p float64) *bool {
	if !g.p(p) {
		return nil
	}
	return bp(g.R.Intn(2) == 0)
}

func (g *Gen) file(f *File, left *int, depth int) {
	g.Proj.Files[f.Path] = f
	f.Silent = g.bool3(g.P.Silent * 0.5)
	f.Output = g.bool3(g.P.Output * 0.5)
	g.fileVars(f)
	var reach []string
	for *left > 0 && depth < 3 && len(f.Includes) < 2 && g.p(0.8) {
		*left--
		i := len(g.Proj.Files)
		dir := path.Dir(f.Path)
		base := fmt.Sprintf("%s%d.yml", pick(g.R, "inc", "mod", "lib"), i)
		rel := pick(g.R, base, fmt.Sprintf("d%d/%s", i, base), fmt.Sprintf("d%d/e/%s", i, pick(g.R, "Babfile", base)))
		if dir != "." && g.p(0.3) {
			rel = fmt.Sprintf("../up%d/%s", i, base)
		}
		child := &File{Path: path.Join(dir, rel)}
		ns := fmt.Sprintf("%s%d", pick(g.R, "ns", "lib", "a-b", "x_y"), i)
		f.Includes = append(f.Includes, Inc{ns, rel})
		g.parent[child] = f
		g.file(child, left, depth+1)
		for _, n := range g.rel[child] {
			reach = append(reach, ns+":"+n)
		}
	}
	n := 1 + g.R.Intn(g.P.Tasks)
	if g.p(0.06) {
		n += 2 * g.P.Tasks
	}
	// tasks are generated back to front: a task may use only later ones
	for i := n - 1; i >= 0; i-- {
		t := &Task{Name: g.taskName(i)}
		g.task(f, t, reach)
		f.Tasks = append([]*Task{t}, f.Tasks...)
		reach = append(reach, t.Name)
	}
	g.rel[f] = reach
	// the order in the file means nothing
	if g.p(0.5) {
		g.R.Shuffle(len(f.Tasks), func(i, j int) { f.Tasks[i], f.Tasks[j] = f.Tasks[j], f.Tasks[i] })
	}
}

func (g *Gen) taskName(i int) string {
	if g.P.Weird && g.p(0.3) {
		return fmt.Sprintf("%s%d", pick(g.R, "build:x", "t-", "t_", "T", "a.b", "weird name ", "é"), i)
	}
	if g.nested && i > 0 { // names that extend one another
		return fmt.Sprintf("t%d%s", i/3, pick(g.R, ":", "", ":x:", "-", ".", ":t")+strings.Repeat("0", i%3)+fmt.Sprint(i))
	}
	return fmt.Sprintf("t%d", i)
}

func (g *Gen) dirName(f *File) string {
	name := pick(g.R, "sub", "sub/deep", "with space", "x.y", "./sub", "sub/../sub")
	if g.p(g.P.OddDir) {
		name = pick(g.R, "~", "~/sub", "~root", " lead", "trail ", "\tx", "$HOME", "${HOME}", "a*", "*", "-", "--", "a,b", "a:b", "a=b", "%s", "#x", "sub//deep/", "SUB", "x\\y", "'q'", "\"q\"", "{a,b}", "é", "日本", "a\nb", "...", "..x", "$${{ a }}")
	}
	abs := path.Join(path.Dir(f.Path), strings.ReplaceAll(name, "$${{", "${{"))
	g.Dirs = append(g.Dirs, abs)
	if g.p(0.1) {
		return "." // the file's own directory
	}
	return name
}

func (g *Gen) kvs(prefix string, n int) []KV {
	var out []KV
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		k := prefix + pick(g.R, "A", "B", "C", "D", "E", "F", "A", "B", "C", "a", "b", "A_", "A1")
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, KV{k, g.P.Values(g.R)})
	}
	return out
}

func (g *Gen) fileVars(f *File) {
	if g.p(g.P.Vars) {
		f.Vars = g.kvs("v", 1+g.R.Intn(4))
	}
	if g.p(g.P.Env) {
		f.Env = g.kvs("E_", 1+g.R.Intn(4))
	}
	if g.p(g.P.Dir * 0.5) {
		f.Dir = g.dirName(f)
	}
}

func (g *Gen) alias() string { return g.id("al") }

func (g *Gen) task(f *File, t *Task, reach []string) {
	t.Desc = pick(g.R, "", "", "does "+t.Name)
	if g.p(g.P.Alias) {
		t.Alias = g.alias()
	}
	if g.p(g.P.Alias * 0.5) {
		t.Aliases = append(t.Aliases, g.alias(), g.alias())
	}
	if g.p(g.P.Vars) {
		t.Vars = g.kvs("v", 1+g.R.Intn(3))
	}
	if g.p(g.P.Env) {
		t.Env = g.kvs("E_", 1+g.R.Intn(3))
	}
	t.Silent = g.bool3(g.P.Silent)
	t.Output = g.bool3(g.P.Output)
	if g.p(g.P.Dir) {
		t.Dir = g.dirName(f)
	}
	if g.p(g.P.TaskWhen) {
		t.When = g.when(f, t)
	}
	if len(reach) > 0 && g.p(g.P.Deps) {
		most, stop := 3, 0.4
		if g.p(0.15) {
			most, stop = 16, 0.03
		}
		for _, i := range g.R.Perm(len(reach)) {
			if len(t.Deps) >= most {
				break
			}
			t.Deps = append(t.Deps, reach[i])
			if g.p(stop) {
				break
			}
		}
	}
	if g.p(g.P.NoRun) && len(t.Deps) > 0 {
		t.NoRun = true
		return
	}
	n := 1 + g.R.Intn(g.P.Items)
	for i := 0; i < n; i++ {
		t.Run = append(t.Run, g.item(f, t, reach, false))
	}
}

func (g *Gen) item(f *File, t *Task, reach []string, inPar bool) *Item {
	it := &Item{}
	x := g.R.Float64()
	switch {
	case len(reach) > 0 && x < g.P.TaskRef:
		it.Kind = kTask
		it.Task = pick(g.R, reach...)
		it.Silent = g.bool3(g.P.Silent)
		it.Output = g.bool3(g.P.Output)
	case !inPar && x < g.P.TaskRef+g.P.Par:
		it.Kind = kParallel
		n := 1 + g.R.Intn(g.P.ParItems)
		for i := 0; i < n; i++ {
			it.Items = append(it.Items, g.item(f, t, reach, true))
			if g.P.Label > 0 && g.p(g.P.Label) {
				it.Items[i].Label = pick(g.R, "lab", "one more", "é", g.id("l"))
			}
		}
		if g.p(g.P.Limit) {
			it.Limit = 1 + g.R.Intn(n+1)
		}
		if len(g.P.Modes) > 0 {
			it.Mode = pick(g.R, g.P.Modes...)
		}
		it.Silent = g.bool3(g.P.Silent * 0.5)
		it.Output = g.bool3(g.P.Output * 0.5)
		it.Color = g.bool3(g.P.Color)
	case x < g.P.TaskRef+g.P.Par+g.P.Log:
		it.Kind = kLog
		it.ID = g.id("log")
		it.Log = it.ID + "."
		it.Level = pick(g.R, "", "info", "warn", "error")
	case !inPar && x < g.P.TaskRef+g.P.Par+g.P.Log+g.P.Prompt:
		g.prompt(it)
	default:
		it.Kind = kCmd
		it.ID = g.id("c")
		rest := ""
		if g.P.CmdText != nil {
			rest = g.P.CmdText(g, it.ID, f, t)
		}
		it.Cmd = "$R " + it.ID
		if g.P.Sleep > 0 && g.p(0.5) {
			it.Cmd += fmt.Sprintf(" s=%d", g.R.Intn(g.P.Sleep))
		}
		last := ""
		if g.p(g.P.Fail) {
			switch g.R.Intn(6) {
			case 0:
				it.Cmd += fmt.Sprintf(" sig=%d", pick(g.R, 9, 15, 6))
				it.Exit = 128
			case 1: // the shell itself is killed
				last = fmt.Sprintf("kill -%d $$", pick(g.R, 9, 15, 13, 1, 2, 6))
				it.Exit = 128
			case 2:
				it.Exit = pick(g.R, 2, 126, 127, 128, 130, 137, 141, 143, 254, 255, 1+g.R.Intn(255))
				it.Cmd += fmt.Sprintf(" x=%d", it.Exit)
			default:
				it.Exit = 1
				it.Cmd += " x=1"
			}
		}
		it.Cmd += rest
		if g.p(g.P.Env) {
			it.Env = g.kvs("E_", 1+g.R.Intn(3))
		}
		if g.p(g.P.BadDir) {
			it.Dir = pick(g.R, "nonexistent", "sub/none", "/nonexistent-dir-of-vmon")
		} else if g.p(g.P.Dir) {
			it.Dir = g.dirName(f)
		}
		it.Silent = g.bool3(g.P.Silent)
		it.Output = g.bool3(g.P.Output)
		if g.p(g.P.Undef) {
			switch g.R.Intn(3) {
			case 0:
				it.Cmd += " ${{ no_such_var }}"
			case 1:
				it.Env = append(it.Env, KV{"E_U", "${{ no_such_var }}"})
			default:
				it.Dir = "${{ no_such_var }}"
			}
		}
		switch {
		case last != "" && strings.Contains(rest, "\n"): // after the here-document
			it.Cmd += "\n" + last
		case last != "":
			it.Cmd += "; " + last
		}
	}
	if g.p(g.P.When) {
		it.When = g.when(f, t)
	}
	if g.p(g.P.Plat) {
		it.Platforms = g.platforms()
	}
	return it
}

func (g *Gen) platforms() []string {
	var out []string
	for _, i := range g.R.Perm(3) {
		out = append(out, allPlatforms[i])
		if g.p(0.6) {
			break
		}
	}
	return out
}

func (g *Gen) varsInScope(f *File, t *Task) []string {
	m := map[string]bool{}
	for l := f; l != nil; l = g.parent[l] {
		for _, x := range l.Vars {
			m[x.K] = true
		}
	}
	for _, x := range t.Vars {
		m[x.K] = true
	}
	for _, it := range t.Run {
		if it.Kind == kPrompt && it.When == "" && it.Platforms == nil {
			m[it.Prompt] = true
		}
	}
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g *Gen) when(f *File, t *Task) string {
	vs := g.varsInScope(f, t)
	ref := ""
	if len(vs) > 0 {
		ref = "${{ " + pick(g.R, vs...) + " }}"
	} else {
		ref = pick(g.R, "a", "b", "true")
	}
	lit := g.P.Values(g.R)
	lit = strings.Map(func(r rune) rune {
		if r == '\'' || r == '"' || r == '\n' || r == '$' {
			return -1
		}
		return r
	}, lit)
	q := pick(g.R, "'", `"`)
	op := pick(g.R, "==", "!=")
	sp := pick(g.R, " ", " ", "", "  ")
	switch g.R.Intn(5) {
	case 0:
		return ref
	case 1:
		return pick(g.R, "true", "false", "FALSE", "yes", "no", "0", "False", "x", "''", `""`, "null", "~", "off", "n", "00", "0.0", "'0'", `"false"`, "False ", "f", "nil", "-0", "[]", "{}", "!true")
	default:
		return ref + sp + op + sp + q + lit + q
	}
}

func (g *Gen) prompt(it *Item) {
	it.Kind = kPrompt
	it.Prompt = pick(g.R, "vA", "vB", "pA", "pB", "pC")
	it.Message = "Question " + g.id("q")
	it.PType = pick(g.R, "confirm", "input", "select", "multiselect", "number")
	has := !g.p(0.08)
	switch it.PType {
	case "confirm":
		if has {
			it.Default = pick(g.R, "true", "false")
		}
	case "input":
		if has {
			it.Default = pick(g.R, "dflt", "some text", "x")
		}
	case "number":
		if has {
			it.Default = pick(g.R, fmt.Sprint(g.R.Intn(20)), fmt.Sprint(-g.R.Intn(200)), "007", "-0", "9000000000")
		}
	case "select":
		it.Options = []string{"red", "green", "blue"}
		if g.p(0.1) {
			it.Options = []string{" red", "green", "blue ", "red"}
		}
		if g.p(0.15) {
			it.Options = []string{"red"}
		}
		if has {
			it.Default = pick(g.R, it.Options...)
		}
	case "multiselect":
		it.Options = []string{"red", "green", "blue"}
		if g.p(0.1) {
			it.Options = []string{" red", "green", "blue ", "red"}
		}
		if has {
			it.Defaults = pick(g.R, it.Options[:1], []string{"red"}, []string{"green", it.Options[2]}, []string{"red", "green", it.Options[2]})
		}
	}
}

// ---- placing a project on disk ----

type Placed struct {
	Proj *Project
	Root string
	M    *Model
}

// Place writes the project below the case directory and returns its model.
func (cs *Case) Place(p *Project, dirs []string, osenv map[string]string) *Placed {
	root := filepath.Join(cs.Dir, "proj")
	for _, d := range dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	if err := p.Write(root, cs.R); err != nil {
		cs.Inconclusive("cannot write project")
	}
	m := NewModel(p, root, osenv)
	m.DirOK = func(d string) bool {
		st, err := os.Stat(d)
		return err == nil && st.IsDir()
	}
	return &Placed{p, root, m}
}

// TaskNames lists all flattened task names in a stable order.
func (m *Model) TaskNames() []string {
	var out []string
	for n := range m.Tasks {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

func (p *Project) Dump() map[string]string {
	out := map[string]string{}
	for k, f := range p.Files {
		out[k] = f.EmitYAML(nil)
	}
	return out
}
