package main

// C32: errors point at the line that caused them.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

func init() {
	register("C32", "random projects of up to 4 files with one mistake of a known place: "+fmt.Sprint(len(mutators))+" kinds of structural mistake, dangling dependencies and task references (also in blocks), duplicate tasks and aliases and conflicting aliases, undefined variables and variable cycles in every field of items and tasks; spelling, flow style, blank lines and comments vary, bab runs in the root or a subdirectory; every location in the message must be one of the lines that caused the error and at least one must be there; non-trivial when bab reported the mistake",
		func(c *Ctx) {
			c.Bab()
			c.Each("struct", c.N(700, 12000), func(cs *Case) { cs.locStruct() })
			c.Each("refs", c.N(400, 8000), func(cs *Case) { cs.locRefs() })
			c.Each("undefined", c.N(500, 10000), func(cs *Case) { cs.locUndefined() })
		}, "YAML syntax errors are only required to name the file", "undefined variables of a whole file are left out")
}

// locations finds the places of the project's files a message names.
func locations(msg, root, cwd string, t Trees) map[string][]int {
	out := map[string][]int{}
	for _, k := range sortedKeys(t) {
		abs := filepath.Join(root, k)
		name := abs
		if rel, err := filepath.Rel(cwd, abs); err == nil && !strings.HasPrefix(rel, "..") {
			name = rel
		}
		for _, n := range []string{name, abs} {
			re := regexp.MustCompile(`(?m)(?:^|[\s(])` + regexp.QuoteMeta(n) + `:(\d+)`)
			for _, m := range re.FindAllStringSubmatch(msg, -1) {
				var l int
				fmt.Sscan(m[1], &l)
				out[k] = append(out[k], l)
			}
			if n == abs {
				break
			}
			if name == abs {
				break
			}
		}
	}
	return out
}

// lineSet collects lines.
type lineSet map[int]string

func (s lineSet) add(why string, lines ...int) {
	for _, l := range lines {
		if l > 0 && s[l] == "" {
			s[l] = why
		}
	}
}

// keyLine is the line of the key of a node, of the node itself in a list.
func keyLine(n *Y) int {
	if n.Up == nil {
		return n.Line
	}
	if n.Up.K == yMap {
		for i, v := range n.Up.Vals {
			if v == n {
				return n.Up.Keys[i].Line
			}
		}
	}
	return n.Line
}

// itemOf is the innermost run item around a node.
func itemOf(n *Y) *Y {
	for ; n != nil; n = n.Up {
		if n.Role == "item" || n.Role == "paritem" {
			return n
		}
	}
	return nil
}

func taskOf(n *Y) *Y {
	for ; n != nil; n = n.Up {
		if n.Role == "task" {
			return n
		}
	}
	return nil
}

func shape(n *Y) string {
	var k []string
	for _, x := range n.Keys {
		k = append(k, x.S)
	}
	return fmt.Sprint(n.K, n.S, len(n.Vals), k, n.To != nil)
}

// judgeLoc compares the locations of a message with the lines it may name.
func (cs *Case) judgeLoc(msg, root, cwd, file string, t Trees, allowed lineSet, need []int, what, text string) bool {
	got := locations(msg, root, cwd, t)
	fail := func(why string) bool {
		var l []string
		for _, n := range sortedKeysInt(allowed) {
			l = append(l, fmt.Sprintf("%d (%s)", n, allowed[n]))
		}
		cs.Fail("%s: %s\nmistake: %s in %s, lines that caused it: %s\nmessage:\n%s\nfile:\n%s", cs.Name, why, what, file, strings.Join(l, ", "), clip(msg, 2500), numbered(text))
		return false
	}
	if len(got) == 0 {
		return fail("the error names no line")
	}
	for _, k := range sortedKeys(got) {
		if k != file {
			return fail(fmt.Sprintf("the error names %s", k))
		}
		for _, l := range got[k] {
			if allowed[l] == "" {
				return fail(fmt.Sprintf("the error points at line %d", l))
			}
		}
	}
	for _, l := range need {
		if !strings.Contains(msg, fmt.Sprintf("line %d", l)) {
			seen := false
			for _, g := range got[file] {
				seen = seen || g == l
			}
			if !seen {
				return fail(fmt.Sprintf("the error does not name line %d", l))
			}
		}
	}
	cs.Obs("located: "+what, 1)
	return true
}

func sortedKeysInt(m lineSet) []int {
	var out []int
	for k := range m {
		out = append(out, k)
	}
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

func numbered(text string) string {
	var b strings.Builder
	for i, l := range strings.Split(text, "\n") {
		fmt.Fprintf(&b, "%4d  %s\n", i+1, l)
	}
	return b.String()
}

// locProject makes a project on disk and the directory bab runs in.
func (cs *Case) locProject(prof Prof) (t Trees, root, cwd string, proj *Project) {
	r := cs.R
	g := newGen(r, prof)
	proj = g.Generate()
	root = filepath.Join(cs.Dir, "proj")
	for _, d := range g.Dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	t = proj.Trees()
	cwd = root
	if r.Intn(3) == 0 {
		cwd = filepath.Join(root, "workdir", "deep")
	}
	_ = os.MkdirAll(cwd, 0o755)
	return
}

func (cs *Case) locStruct() {
	r := cs.R
	p := parseProf()
	p.Files = 4
	t, root, cwd, _ := cs.locProject(p)
	twist(r, t)
	m, file, n := cs.pickBreak(t)
	if m == nil || m.name == "value that contains itself" || n.Role == "root" {
		cs.Obs("no place", 1)
		return
	}
	before := map[*Y]string{}
	t[file].walk(func(x *Y) { before[x] = shape(x) })
	m.apply(r, n)
	t[file].link()
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	allowed := lineSet{}
	around := func(x *Y) {
		allowed.add("the node", x.Line)
		allowed.add("its key", keyLine(x))
		if x.Up != nil && x.Up.K == ySeq && x.Up.Role != "run" && x.Up.Role != "parallel" {
			allowed.add("its list", keyLine(x.Up))
		}
		if it := itemOf(x); it != nil {
			allowed.add("its run item", it.Line)
		}
		if x.Role == "incpath" {
			allowed.add("its include", keyLine(x.Up))
		}
	}
	around(n)
	n.walk(func(x *Y) {
		if before[x] != shape(x) {
			around(x)
			for _, k := range x.Keys {
				allowed.add("a key of it", k.Line)
			}
			x.walk(func(y *Y) {
				if before[y] == "" {
					allowed.add("below the node", y.Line, keyLine(y))
				}
			})
		}
	})
	var need []int
	if m.name == "duplicate task" {
		seen := map[string]int{}
		for i, k := range n.Keys {
			if first, ok := seen[k.S]; ok {
				allowed = lineSet{}
				allowed.add("the second definition", k.Line)
				need = []int{first, n.Keys[i].Line}
			}
			seen[k.S] = k.Line
		}
	}
	if m.name == "include of nothing" || m.name == "include without a path" {
		// the path is wrong, not the file: only the file is named
		cs.locInclude(root, cwd, file, t, text)
		return
	}
	cs.Case(m.name + showFiles(text))
	args := pick(r, []string{"--validate"}, []string{"--list"}, []string{"t0"}, []string{"-n", "t0"})
	res := cs.Bab(Run{Dir: cwd, Args: args})
	if !cs.healthy(res, "bab") || res.Code == 0 {
		return
	}
	cs.judgeLoc(stripSGR(res.Err), root, cwd, file, t, allowed, need, m.name, text[file])
}

func (cs *Case) locInclude(root, cwd, file string, t Trees, text map[string]string) {
	cs.Case(showFiles(text))
	res := cs.Bab(Run{Dir: cwd, Args: []string{"--validate"}})
	if !cs.healthy(res, "bab") || res.Code == 0 {
		return
	}
	abs := filepath.Join(root, file)
	rel, err := filepath.Rel(cwd, abs)
	msg := stripSGR(res.Err)
	if !strings.Contains(msg, abs) && (err != nil || !strings.Contains(msg, rel)) {
		cs.Fail("the error about an include of %s does not name that file:\n%s\n%s", file, msg, showFiles(text))
		return
	}
	cs.Obs("located: include", 1)
}

// locRefs breaks references and aliases.
func (cs *Case) locRefs() {
	r := cs.R
	p := parseProf()
	p.Files, p.Tasks, p.Deps, p.TaskRef = 4, 5, 0.5, 0.3
	t, root, cwd, _ := cs.locProject(p)
	if r.Intn(2) == 0 {
		twist(r, t)
	}
	file := pick(r, sortedKeys(t)...)
	tasks := t[file].get("tasks")
	if len(tasks.Vals) == 0 {
		cs.Obs("no place", 1)
		return
	}
	ti := r.Intn(len(tasks.Vals))
	task := tasks.Vals[ti]
	what := pick(r, "dangling dependency", "dangling reference", "dangling reference in a block", "duplicate alias", "conflicting alias", "task reference to an alias")
	var node, other *Y
	bad := pick(r, "nosuch", "no:such", "tt0", "nosuch:t0")
	addAlias := func(x *Y, name string) {
		if x.get("alias") == nil && r.Intn(2) == 0 {
			x.put("alias", ys(name))
			return
		}
		a := x.get("aliases")
		if a == nil {
			a = yseq()
			x.put("aliases", a)
		}
		at := r.Intn(len(a.Vals) + 1)
		a.Vals = append(a.Vals[:at:at], append([]*Y{ys(name)}, a.Vals[at:]...)...)
	}
	runOf := func() *Y {
		run := task.get("run")
		if run == nil {
			run = yseq().role("run")
			task.put("run", run)
		}
		return run
	}
	insert := func(l *Y, n *Y) {
		at := r.Intn(len(l.Vals) + 1)
		l.Vals = append(l.Vals[:at:at], append([]*Y{n}, l.Vals[at:]...)...)
	}
	switch what {
	case "dangling dependency":
		d := task.get("deps")
		if d == nil {
			d = yseq().role("deps")
			task.put("deps", d)
			r.Shuffle(len(task.Keys), func(i, j int) {
				task.Keys[i], task.Keys[j] = task.Keys[j], task.Keys[i]
				task.Vals[i], task.Vals[j] = task.Vals[j], task.Vals[i]
			})
		}
		node = ys(bad)
		insert(d, node)
	case "dangling reference", "task reference to an alias":
		name := bad
		if what == "task reference to an alias" {
			name = "someAlias"
			addAlias(tasks.Vals[0], name)
		}
		node = ymap("task", ys(name)).role("item")
		if r.Intn(2) == 0 {
			node.put("silent", yraw("true"))
		}
		insert(runOf(), node)
	case "dangling reference in a block":
		node = ymap("task", ys(bad)).role("paritem")
		var par *Y
		if run := task.get("run"); run != nil {
			for _, it := range run.Vals {
				if x := it.get("parallel"); x != nil {
					par = x
				}
			}
		}
		if par == nil {
			par = yseq(ymap("cmd", ys("$R inner")).role("paritem")).role("parallel")
			insert(runOf(), ymap("parallel", par).role("item"))
		}
		insert(par, node)
	case "duplicate alias":
		oi := r.Intn(len(tasks.Vals))
		if oi == ti {
			cs.Obs("no place", 1)
			return
		}
		node, other = task, tasks.Vals[oi]
		addAlias(node, "sharedAlias")
		addAlias(other, "sharedAlias")
	case "conflicting alias":
		node = task
		addAlias(node, tasks.Keys[r.Intn(len(tasks.Keys))].S)
	}
	t[file].link()
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	allowed := lineSet{}
	var need []int
	switch what {
	case "dangling dependency":
		allowed.add("the dependency", node.Line)
		allowed.add("the dependency list", keyLine(node.Up), node.Up.Line)
	case "duplicate alias":
		allowed.add("a task with the alias", keyLine(node), keyLine(other))
		need = []int{keyLine(node), keyLine(other)}
	case "conflicting alias":
		allowed.add("the task with the alias", keyLine(node))
	default:
		allowed.add("the run item", node.Line)
	}
	cs.Case(what + showFiles(text))
	args := pick(r, []string{"--validate"}, []string{"--list"}, []string{"t0"}, []string{"-n", "t0"})
	res := cs.Bab(Run{Dir: cwd, Args: args})
	if !cs.healthy(res, "bab") {
		return
	}
	if res.Code == 0 {
		cs.Obs("accepted: "+what, 1) // judged by C18
		return
	}
	cs.judgeLoc(stripSGR(res.Err), root, cwd, file, t, allowed, need, what, text[file])
}

// locUndefined makes a task or item of a task that is run use an undefined variable.
func (cs *Case) locUndefined() {
	r := cs.R
	p := parseProf()
	p.Files, p.Prompt, p.When, p.TaskWhen, p.Plat = 4, 0.1, 0, 0, 0
	t, root, cwd, proj := cs.locProject(p)
	file := pick(r, sortedKeys(t)...)
	tasks := t[file].get("tasks")
	if len(tasks.Vals) == 0 {
		cs.Obs("no place", 1)
		return
	}
	ti := r.Intn(len(tasks.Vals))
	task := tasks.Vals[ti]
	name := tasks.Keys[ti].S
	const ref = "${{ nope_zz }}"
	text1 := pick(r, ref, "a "+ref, ref+"${{ nope_zz }}", "x"+ref+"y")
	var items []*Y
	task.walk(func(n *Y) {
		if n.Role == "item" || n.Role == "paritem" {
			items = append(items, n)
		}
	})
	sub := func(n *Y, key string) *Y {
		m := n.get(key)
		if m == nil {
			m = ymap().role(key)
			n.put(key, m)
		}
		return m
	}
	what := ""
	taskLevel := len(items) == 0 || r.Intn(3) == 0
	var node *Y
	if taskLevel {
		node = task
		switch r.Intn(6) {
		case 0:
			what = "undefined in task vars"
			sub(task, "vars").put("zz_own", ys(text1))
		case 1:
			what = "undefined in task env"
			sub(task, "env").put("ZZ_OWN", ys(text1))
		case 2:
			what = "undefined in task when"
			task.set("when", ys(pick(r, ref, ref+" == 'x'", ref+" != ''", "'a' == "+ref)))
			task.get("when").role("when")
		case 3:
			what = "undefined in task dir"
			task.set("dir", ys(text1))
		case 4:
			what = "variable cycle"
			v := sub(task, "vars")
			v.put("zz_a", ys("${{ zz_b }}"), "zz_b", ys("x${{ zz_a }}"))
		default:
			what = "undefined through another variable"
			v := sub(task, "vars")
			v.put("zz_a", ys("${{ zz_b }}"), "zz_b", ys(text1))
		}
	} else {
		node = items[r.Intn(len(items))]
		it := node.Item
		if it == nil {
			cs.Obs("no place", 1)
			return
		}
		switch {
		case r.Intn(4) == 0:
			what = "undefined in when of an item"
			node.set("when", ys(pick(r, ref, ref+" == 'x'", ref+" != ''", "'a' == "+ref)))
		case it.Kind == kCmd:
			switch r.Intn(3) {
			case 0:
				what = "undefined in cmd"
				node.set("cmd", ys("$R inner "+text1))
			case 1:
				what = "undefined in env of an item"
				sub(node, "env").put("ZZ", ys(text1))
			default:
				what = "undefined in dir of an item"
				node.set("dir", ys(text1))
			}
		case it.Kind == kLog:
			what = "undefined in log"
			node.set("log", ys(text1))
		case it.Kind == kPrompt:
			what = "undefined in prompt"
			switch k := pick(r, "message", "default", "placeholder", "options"); {
			case k == "options" && node.get("options") != nil:
				node.get("options").Vals = append(node.get("options").Vals, ys(text1))
			case k == "default" && (it.PType == "input" || it.PType == "confirm"):
				node.set("default", ys(text1))
			case k == "placeholder":
				node.set("placeholder", ys(text1))
			default:
				node.set("message", ys(text1))
			}
		default:
			what = "undefined in when of an item"
			node.set("when", ys(ref))
		}
	}
	t[file].link()
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	allowed := lineSet{}
	if taskLevel {
		allowed.add("the task", keyLine(task))
		for _, it := range items {
			if what == "undefined in task dir" {
				allowed.add("a run item that uses it", it.Line)
			}
		}
	} else {
		allowed.add("the run item", node.Line)
	}
	// the task may be known under several names, as its file may be included more than once
	var names []string
	model := NewModel(proj, root, cs.modelEnv())
	for _, n := range model.TaskNames() {
		if ft := model.Tasks[n]; ft != nil && ft.T == task.Task {
			names = append(names, n)
		}
	}
	if len(names) == 0 {
		cs.Obs("no place", 1)
		return
	}
	_ = name
	args := []string{pick(r, names...)}
	if r.Intn(4) == 0 {
		args = append([]string{"-n"}, args...)
	}
	cs.Case(what + showFiles(text))
	res := cs.Bab(Run{Dir: cwd, Args: args})
	if !cs.healthy(res, "bab") {
		return
	}
	msg := stripSGR(res.Err)
	if res.Code == 0 || !strings.Contains(msg, "nope_zz") && !strings.Contains(msg, "zz_a") {
		cs.Obs("not reached", 1)
		return
	}
	cs.judgeLoc(msg, root, cwd, file, t, allowed, nil, what, text[file])
}
