package main

// C33: YAML anchors and aliases mean their content.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

func init() {
	register("C33", "random projects (every construct, some structurally broken) are written twice into the same place: plainly, and with values of every kind and depth (scalars, lists, mappings, run items, tasks, whole sections) replaced by aliases to equal anchored values earlier in the file, nested aliases included; --validate, --list, dry run and real run of a task must give the same verdict, events, environment, directories and output; files with an alias below its own anchor must be refused in every mode; non-trivial when at least one value was replaced",
		func(c *Ctx) {
			c.Bab()
			c.Each("alias", c.N(1000, 15000), func(cs *Case) { cs.aliasCase() })
			c.Each("self", c.N(120, 1500), func(cs *Case) { cs.selfAlias() })
		}, "runs whose output varies by themselves are compared by a repeated plain run")
}

func canon(y *Y) string {
	var b strings.Builder
	var f func(y *Y)
	f = func(y *Y) {
		fmt.Fprintf(&b, "%d|%q(", y.K, y.S)
		for i, v := range y.Vals {
			if y.K == yMap {
				fmt.Fprintf(&b, "%q:", y.Keys[i].S)
			}
			f(v)
			b.WriteByte(',')
		}
		b.WriteByte(')')
	}
	f(y)
	return b.String()
}

// duplicate copies values over others of the same role, so that equal values exist.
func duplicate(r *randT, root *Y) {
	by := map[string][]*Y{}
	root.walk(func(n *Y) {
		if n.Role != "" && n.Role != "root" && n.Role != "tasks" && n.Role != "task" && n.Role != "alias" && n.Role != "aliases" && n.Role != "incpath" && n.Role != "includes" {
			k := n.Role
			if n.Item != nil && (k == "item" || k == "paritem") {
				k += n.Item.Kind
			}
			by[k] = append(by[k], n)
		}
	})
	roles := sortedKeys(by)
	for k := 1 + r.Intn(4); k > 0 && len(roles) > 0; k-- {
		l := by[roles[r.Intn(len(roles))]]
		if len(l) < 2 {
			continue
		}
		a, b := l[r.Intn(len(l))], l[r.Intn(len(l))]
		inside := false
		for u := b; u != nil; u = u.Up {
			inside = inside || u == a
		}
		for u := a; u != nil; u = u.Up {
			inside = inside || u == b
		}
		if inside {
			continue
		}
		b.replace(a.clone())
	}
	root.link()
}

// toAliases replaces values of the file by aliases and returns how many.
func toAliases(r *randT, root *Y, share float64, obs func(string)) int {
	root.link()
	can := map[*Y]string{}
	root.walk(func(n *Y) { can[n] = canon(n) })
	seen := map[string]*Y{}
	n, ids := 0, 0
	defs := &Y{K: yMap}
	name := func(m *Y) {
		if m.Anchor == "" {
			ids++
			m.Anchor = pick(r, fmt.Sprintf("a%d", ids), fmt.Sprintf("anchor-%d", ids), fmt.Sprintf("A_%d", ids))
		}
	}
	useDefs := r.Intn(3) == 0
	keys := pick(r, 0, 0, 0.3, 1)
	var pass func(y *Y)
	pass = func(y *Y) {
		if y != root && (y.K == yStr || y.K == yRaw || y.K == yMap || y.K == ySeq) {
			m := seen[can[y]]
			switch {
			case m != nil && r.Float64() < share*1.5:
				name(m)
				obs("values replaced: " + y.Role)
				up := y.Up
				role, it, t := y.Role, y.Item, y.Task
				*y = Y{K: yAlias, To: m, Up: up, Role: role, Item: it, Task: t}
				n++
				return
			case m == nil && useDefs && r.Float64() < share/3:
				d := y.clone()
				d.walk(func(c *Y) { c.Anchor = "" })
				name(d)
				defs.put(fmt.Sprintf("d%d", ids), d)
				seen[can[y]] = d
				obs("values moved to a definition")
				*y = Y{K: yAlias, To: d, Up: y.Up, Role: y.Role, Item: y.Item, Task: y.Task}
				n++
				return
			}
		}
		for i, v := range y.Vals {
			if y.K == yMap {
				// a key may be an alias too, and anchored
				k := y.Keys[i]
				if m := seen[canon(k)]; k.K == yStr && m != nil && r.Float64() < share*keys {
					name(m)
					obs("keys replaced")
					y.Keys[i] = &Y{K: yAlias, To: m, S: k.S, Up: y}
					n++
				} else if k.K == yStr && m == nil && keys > 0 {
					seen[canon(k)] = k
				}
			}
			pass(v)
		}
		if y != root && seen[can[y]] == nil && y.K != yAlias {
			seen[can[y]] = y
		}
	}
	pass(root)
	if r.Intn(2) == 0 { // anchors nothing refers to
		part := pick(r, 0.1, 0.5)
		root.walk(func(m *Y) {
			if m != root && (m.K == yStr || m.K == yRaw || m.K == yMap || m.K == ySeq) && m.Anchor == "" && r.Float64() < part {
				name(m)
				obs("anchors without an alias")
			}
		})
	}
	if len(defs.Keys) > 0 {
		// definitions come first in the file
		root.Keys = append([]*Y{ys(pick(r, "x-defs", ".defs", "definitions"))}, root.Keys...)
		root.Vals = append([]*Y{defs}, root.Vals...)
	}
	return n
}

var reLineNo = regexp.MustCompile(`(:|line )\d+`)

func (cs *Case) observe(root, task string, args ...string) (string, *Res) {
	res := cs.Bab(Run{Dir: root, Args: args, Stdin: []byte("y\n1\nx\n")})
	var ev []string
	for _, e := range res.Events {
		ks := sortedKeys(e.Env)
		env := ""
		for _, k := range ks {
			env += k + "=" + e.Env[k] + ";"
		}
		ev = append(ev, fmt.Sprintf("%s %s %s %s %q", e.Ev, e.ID, e.Cwd, env, e.Args))
	}
	sort.Strings(ev)
	norm := func(s string) string {
		l := strings.Split(reLineNo.ReplaceAllString(s, "${1}N"), "\n")
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	errs := norm(res.Err)
	if res.Code != 0 {
		errs = "" // messages name lines, columns and node kinds of the spelling
	}
	return fmt.Sprintf("exit %d\nevents:\n%s\nstdout:\n%s\nstderr:\n%s", res.Code, strings.Join(ev, "\n"), norm(res.Out), errs), res
}

func (cs *Case) aliasCase() {
	r := cs.R
	prof := parseProf()
	prof.Weird = false
	g := newGen(r, prof)
	proj := g.Generate()
	root := filepath.Join(cs.Dir, "proj")
	for _, d := range g.Dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	t := proj.Trees()
	for _, k := range sortedKeys(t) {
		t[k].shuffleKeys(r, 0.2)
		if r.Intn(3) > 0 {
			duplicate(r, t[k])
		}
	}
	broken := ""
	if r.Intn(6) == 0 {
		broken, _, _ = cs.breakTree(t)
	}
	tasks := NewModel(proj, root, cs.modelEnv()).TaskNames()
	task := "t0"
	if len(tasks) > 0 {
		task = tasks[r.Intn(len(tasks))]
	}
	plain, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	modes := [][]string{{"--validate"}, {"--list"}, {"-n", task}, {task}}
	var want []string
	for _, a := range modes {
		w, res := cs.observe(root, task, a...)
		if !cs.healthy(res, "bab "+strings.Join(a, " ")) {
			return
		}
		want = append(want, w)
		if a[0] == "--validate" {
			if res.Code == 0 {
				cs.Obs("accepted projects", 1)
			} else {
				cs.Obs("refused projects", 1)
			}
		}
	}
	n := 0
	share := []float64{0.1, 0.4, 0.9}[r.Intn(3)]
	for _, k := range sortedKeys(t) {
		n += toAliases(r, t[k], share, func(s string) { cs.Obs(s, 1) })
	}
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	if n > 0 {
		cs.Case(showFiles(text))
	} else {
		cs.Case("")
	}
	if cs.I < 3 {
		cs.Sample(map[string]any{"task": task, "files": clip(showFiles(text), 1500)})
	}
	for i, a := range modes {
		got, res := cs.observe(root, task, a...)
		if !cs.healthy(res, "bab "+strings.Join(a, " ")) {
			return
		}
		if got == want[i] {
			cs.Obs("runs equal", 1)
			continue
		}
		// a run may vary by itself: which reference runs a shared task first
		// decides how it is shown
		put := func(files map[string]string) {
			for _, k := range sortedKeys(files) {
				_ = os.WriteFile(filepath.Join(root, k), []byte(files[k]), 0o644)
			}
		}
		ofPlain, ofAlias := map[string]bool{want[i]: true}, map[string]bool{got: true}
		common := false
		for try := 0; try < 12 && !common; try++ {
			put(plain)
			w, _ := cs.observe(root, task, a...)
			ofPlain[w] = true
			put(text)
			g, _ := cs.observe(root, task, a...)
			ofAlias[g] = true
			common = ofPlain[g] || ofAlias[w]
		}
		if common {
			cs.Obs("runs that vary by themselves", 1)
			continue
		}
		cs.Fail("bab %s differs between the plain project and the one with aliases (broken: %q)\n=== plain\n%s\n=== with aliases\n%s\n%s\n=== plain files\n%s\n=== files with aliases\n%s", strings.Join(a, " "), broken, clip(want[i], 1500), clip(got, 1500), clip(res.Err, 800), showFiles(plain), showFiles(text))
		return
	}
}

// selfAlias puts an alias below its own anchor.
func (cs *Case) selfAlias() {
	r := cs.R
	prof := parseProf()
	g := newGen(r, prof)
	proj := g.Generate()
	root := filepath.Join(cs.Dir, "proj")
	for _, d := range g.Dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	t := proj.Trees()
	file := pick(r, sortedKeys(t)...)
	var nodes []*Y
	t[file].link()
	t[file].walk(func(n *Y) {
		if n.Up != nil && n.Up.Up != nil {
			nodes = append(nodes, n)
		}
	})
	if len(nodes) == 0 {
		return
	}
	n := nodes[r.Intn(len(nodes))]
	var ups []*Y
	for u := n.Up; u != nil && u.Up != nil; u = u.Up {
		ups = append(ups, u)
	}
	a := ups[r.Intn(len(ups))]
	a.Anchor = "self"
	what := n.Role + " below " + a.Role
	*n = Y{K: yAlias, To: a, Up: n.Up, Role: n.Role}
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	cs.Case(showFiles(text))
	cs.Obs("self-referential aliases", 1)
	for _, args := range [][]string{{"--validate"}, {"--list"}, {"t0"}, {"-n", "t0"}} {
		res := cs.Bab(Run{Dir: root, Args: args})
		if !cs.healthy(res, "bab "+strings.Join(args, " ")) {
			return
		}
		if res.Code != 1 || len(res.Events) > 0 || strings.TrimSpace(res.Err) == "" {
			cs.Fail("bab %s: a self-referential alias (%s) must be an error\nexit %d\nstderr:\n%s\n%s", strings.Join(args, " "), what, res.Code, clip(res.Err, 800), showFiles(text))
			return
		}
	}
}
