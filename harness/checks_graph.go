package main

// C18: dangling references, alias clashes, include cycles and task cycles are found exactly.

import (
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

func init() {
	register("C18", "random projects of up to five files whose tasks refer to each other through deps, task items, blocks and platform-limited items, with dangling names, alias clashes, include cycles, colliding names and task cycles: --validate, --list and running must fail exactly when an independent computation (Tarjan components over the flattened graph) finds a fault, name a real offender, report only real cycles, and run nothing; accepted projects run every task reachable from a chosen one without errors; large chains, fans and layered graphs end in time; non-trivial when the project has at least one reference",
		func(c *Ctx) {
			c.Bab()
			c.Each("graph", c.N(6000, 60000), func(cs *Case) { cs.graphCase() })
			c.Each("large", c.N(12, 60), func(cs *Case) { cs.largeGraph() })
		}, "verdicts and messages are those of finished bab processes; a name used both as alias and reference target is only required not to fail at run time")
}

type edge struct {
	to   string
	live bool // followed when the task runs
}

// flatGraph is the harness's own expansion of a project.
type flatGraph struct {
	tasks     map[string][]edge
	alias     map[string][]string // alias -> tasks
	incCycle  bool
	collision bool
	tooBig    bool
	cmds      map[string][]string // task -> ids of its commands
}

// staticWhen evaluates the conditions of graphProject.
func staticWhen(w string) bool { return w != "false" && w != "'a' == 'b'" }

func expandGraph(p *Project) *flatGraph {
	g := &flatGraph{tasks: map[string][]edge{}, alias: map[string][]string{}, cmds: map[string][]string{}}
	var walk func(f *File, ns string, stack []string)
	walk = func(f *File, ns string, stack []string) {
		if contains(stack, f.Path) {
			g.incCycle = true
			return
		}
		stack = append(append([]string{}, stack...), f.Path)
		if len(g.tasks) > 400 {
			g.tooBig = true
			return
		}
		for _, t := range f.Tasks {
			n := ns + t.Name
			if _, dup := g.tasks[n]; dup {
				g.collision = true
			}
			g.tasks[n] = nil
			if t.Alias != "" {
				g.alias[ns+t.Alias] = append(g.alias[ns+t.Alias], n)
			}
			for _, a := range t.Aliases {
				g.alias[ns+a] = append(g.alias[ns+a], n)
			}
			runs := staticWhen(t.When)
			for _, d := range t.Deps {
				g.tasks[n] = append(g.tasks[n], edge{ns + d, runs})
			}
			var items func(l []*Item, live bool)
			items = func(l []*Item, live bool) {
				for _, it := range l {
					lv := live && (len(it.Platforms) == 0 || contains(it.Platforms, "linux")) && staticWhen(it.When)
					switch it.Kind {
					case kTask:
						g.tasks[n] = append(g.tasks[n], edge{ns + it.Task, lv})
					case kCmd:
						if lv {
							g.cmds[n] = append(g.cmds[n], it.ID)
						}
					case kParallel:
						items(it.Items, lv)
					}
				}
			}
			items(t.Run, runs)
		}
		for _, inc := range f.Includes {
			q := path.Join(path.Dir(f.Path), inc.Path)
			if strings.HasPrefix(inc.Path, "/") {
				q = strings.TrimPrefix(inc.Path, "/ROOT/")
			}
			walk(p.Files[q], ns+inc.NS+":", stack)
		}
	}
	walk(p.Files[p.Main], "", nil)
	return g
}

func (g *flatGraph) names() []string {
	var l []string
	for n := range g.tasks {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// cyclic returns the tasks lying on a cycle (Tarjan, iterative).
func (g *flatGraph) cyclic() map[string]bool {
	index := map[string]int{}
	low := map[string]int{}
	on := map[string]bool{}
	var stack []string
	out := map[string]bool{}
	type frame struct {
		n string
		i int
	}
	for _, root := range g.names() {
		if _, ok := index[root]; ok {
			continue
		}
		call := []frame{{root, 0}}
		index[root], low[root] = len(index), len(index)
		stack = append(stack, root)
		on[root] = true
		for len(call) > 0 {
			f := &call[len(call)-1]
			es := g.tasks[f.n]
			if f.i < len(es) {
				to := es[f.i].to
				f.i++
				if _, exists := g.tasks[to]; !exists {
					continue
				}
				if to == f.n {
					out[to] = true
				}
				if _, seen := index[to]; !seen {
					index[to], low[to] = len(index), len(index)
					stack = append(stack, to)
					on[to] = true
					call = append(call, frame{to, 0})
				} else if on[to] && index[to] < low[f.n] {
					low[f.n] = index[to]
				}
				continue
			}
			n := f.n
			call = call[:len(call)-1]
			if len(call) > 0 {
				p := call[len(call)-1].n
				if low[n] < low[p] {
					low[p] = low[n]
				}
			}
			if low[n] == index[n] {
				var comp []string
				for {
					m := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					on[m] = false
					comp = append(comp, m)
					if m == n {
						break
					}
				}
				if len(comp) > 1 {
					for _, m := range comp {
						out[m] = true
					}
				}
			}
		}
	}
	return out
}

func (g *flatGraph) has(from, to string) bool {
	for _, e := range g.tasks[from] {
		if e.to == to {
			return true
		}
	}
	return false
}

func (g *flatGraph) reach(from string) []string {
	seen := map[string]bool{from: true}
	todo := []string{from}
	for len(todo) > 0 {
		n := todo[0]
		todo = todo[1:]
		for _, e := range g.tasks[n] {
			if e.live && !seen[e.to] {
				seen[e.to] = true
				todo = append(todo, e.to)
			}
		}
	}
	var l []string
	for n := range seen {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

var (
	reDangling = regexp.MustCompile(`task "([^"]*)" not found`)
	reConflict = regexp.MustCompile(`alias "([^"]*)" for task "([^"]*)" conflicts with existing task name`)
	reDupAlias = regexp.MustCompile(`alias "([^"]*)" for task "([^"]*)" already defined by task "([^"]*)"`)
	reCycle    = regexp.MustCompile(`circular dependency: (.*)`)
	reIncCycle = regexp.MustCompile(`circular include: (.*)`)
	reCollide  = regexp.MustCompile(`task name collision: (\S+)`)
)

// graphProject generates the files. Faults are rates, not certainties.
func graphProject(r *randT) *Project {
	p := &Project{Files: map[string]*File{}, Main: "Babfile"}
	nf := pick(r, 1, 1, 2, 2, 3, 4, 5)
	paths := []string{"Babfile"}
	for i := 1; i < nf; i++ {
		paths = append(paths, pick(r, fmt.Sprintf("lib%d/Babfile", i), fmt.Sprintf("inc%d.yml", i), fmt.Sprintf("lib%d/deep/Babfile.yaml", i), fmt.Sprintf("lib/f%d.yml", i)))
	}
	cyc := pick(r, 0.0, 0.0, 0.0, 0.05, 0.15)      // back edges
	dang := pick(r, 0.0, 0.0, 0.0, 0.04, 0.1)      // dangling names
	clash := pick(r, 0.0, 0.0, 0.0, 0.0, 0.1, 0.3) // alias faults
	incCyc := pick(r, 0.0, 0.0, 0.0, 0.0, 0.0, 0.2)
	rel := func(from, to string) string {
		s, _ := filepath.Rel(path.Dir(from), to)
		switch r.Intn(6) {
		case 0:
			s = "./" + s
		case 1:
			s = "x/../" + s
		}
		return s
	}
	uid := 0
	id := func() string { uid++; return fmt.Sprintf("c%d", uid) }
	for i, fp := range paths {
		f := &File{Path: fp}
		nt := 1 + r.Intn(6)
		if i == 0 && r.Intn(8) == 0 {
			nt = 0
		}
		used := map[string]bool{}
		for j := 0; j < nt; j++ {
			n := pick(r, fmt.Sprintf("t%d", j), fmt.Sprintf("t%d", j), fmt.Sprintf("build-%d", j), fmt.Sprintf("a%d:t%d", r.Intn(3), j), fmt.Sprintf("x:t%d", j), fmt.Sprintf("_%d", j))
			if used[n] {
				continue
			}
			used[n] = true
			f.Tasks = append(f.Tasks, &Task{Name: n})
		}
		p.Files[fp] = f
	}
	for i, fp := range paths {
		f := p.Files[fp]
		used := map[string]bool{}
		for j := i + 1; j < nf; j++ {
			if j == i+1 && r.Intn(10) > 0 || r.Intn(3) == 0 {
				ns := pick(r, fmt.Sprintf("n%d", j), fmt.Sprintf("a%d", r.Intn(3)), fmt.Sprintf("a%d:x", r.Intn(3)), fmt.Sprintf("n%d:x", j), "x")
				if !used[ns] {
					used[ns] = true
					f.Includes = append(f.Includes, Inc{ns, rel(fp, paths[j])})
				}
			}
		}
		if r.Float64() < incCyc {
			f.Includes = append(f.Includes, Inc{"back", rel(fp, paths[r.Intn(i+1)])})
		}
	}
	// names visible from a file, and an order that keeps the graph acyclic
	aliases := map[*File][]string{}
	for i := nf - 1; i >= 0; i-- {
		f := p.Files[paths[i]]
		own := []string{}
		for _, t := range f.Tasks {
			own = append(own, t.Name)
		}
		var below, belowAl []string
		for _, inc := range f.Includes {
			q := path.Join(path.Dir(f.Path), inc.Path)
			if inc.NS == "back" {
				continue
			}
			for _, t := range p.Files[q].Tasks {
				below = append(below, inc.NS+":"+t.Name)
			}
			for _, a := range aliases[p.Files[q]] {
				belowAl = append(belowAl, inc.NS+":"+a)
			}
			for _, inc2 := range p.Files[q].Includes {
				q2 := path.Join(path.Dir(q), inc2.Path)
				if inc2.NS == "back" {
					continue
				}
				for _, t := range p.Files[q2].Tasks {
					below = append(below, inc.NS+":"+inc2.NS+":"+t.Name)
				}
			}
		}
		for k, t := range f.Tasks {
			fwd := append(append([]string{}, own[k+1:]...), below...)
			ref := func() string {
				x := r.Float64()
				switch {
				case x < dang:
					n := t.Name
					if len(fwd) > 0 {
						n = fwd[r.Intn(len(fwd))]
					}
					return pick(r, "ghost", n+"x", "n1:"+n, ":"+n, n+":", strings.ToUpper(n), strings.TrimPrefix(n, "n1:")+"-", "t9", n+" ", "back:"+n)
				case x < dang+cyc:
					return pick(r, own[r.Intn(len(own))], t.Name, own[r.Intn(k+1)])
				}
				if len(fwd) == 0 {
					return ""
				}
				return fwd[r.Intn(len(fwd))]
			}
			for n := pick(r, 0, 0, 1, 1, 2, 3); n > 0; n-- {
				if d := ref(); d != "" && !contains(t.Deps, d) {
					t.Deps = append(t.Deps, d)
				}
			}
			if r.Intn(12) == 0 {
				t.When = pick(r, "false", "true", "'a' == 'b'", "'a' != 'b'")
			}
			if r.Intn(8) > 0 {
				c := id()
				t.Run = append(t.Run, &Item{Kind: kCmd, ID: c, Cmd: "$R " + c})
			}
			bare := t.Run == nil && r.Intn(2) == 0
			if bare && r.Intn(3) == 0 {
				t.When = pick(r, "false", "true", "'a' == 'b'", "'a' != 'b'")
				if d := ref(); d != "" && !contains(t.Deps, d) {
					t.Deps = append(t.Deps, d)
				}
			}
			item := func() *Item {
				if d := ref(); d != "" && r.Intn(4) > 0 {
					it := &Item{Kind: kTask, Task: d}
					switch r.Intn(6) {
					case 0:
						it.Platforms = []string{"windows"}
					case 1:
						it.Platforms = []string{"darwin", "linux"}
					case 2:
						it.When = pick(r, "false", "true")
					}
					return it
				}
				c := id()
				return &Item{Kind: kCmd, ID: c, Cmd: "$R " + c}
			}
			for n := r.Intn(3); n > 0 && !bare; n-- {
				if r.Intn(4) > 0 {
					t.Run = append(t.Run, item())
					continue
				}
				b := &Item{Kind: kParallel}
				if r.Intn(5) == 0 {
					b.Platforms = []string{"windows"}
				}
				b.Limit = pick(r, 0, 0, 1, 2, 3)
				b.Mode = pick(r, "", "", "grouped", "tabs")
				n := 1 + r.Intn(3)
				if r.Intn(4) == 0 {
					n += r.Intn(8)
				}
				for m := n; m > 0; m-- {
					b.Items = append(b.Items, item())
				}
				t.Run = append(t.Run, b)
			}
			applies := t.Run == nil
			for _, it := range t.Run {
				applies = applies || it.Platforms == nil || contains(it.Platforms, "linux")
			}
			if !applies { // a task none of whose items apply is an error
				c := id()
				t.Run = append(t.Run, &Item{Kind: kCmd, ID: c, Cmd: "$R " + c})
			}
			r.Shuffle(len(t.Run), func(a, b int) { t.Run[a], t.Run[b] = t.Run[b], t.Run[a] })
			if r.Intn(3) == 0 {
				a := fmt.Sprintf("al%d-%d", i, k)
				if r.Float64() < clash {
					a = pick(r, t.Name, own[r.Intn(len(own))], "n1:t0", "sharedalias", "a0:t1", "n1:sharedalias")
					if l := append(append([]string{}, below...), belowAl...); len(l) > 0 && r.Intn(2) == 0 {
						a = pick(r, l...)
					}
				}
				if r.Intn(2) == 0 {
					t.Alias = a
				} else {
					t.Aliases = []string{a, fmt.Sprintf("am%d-%d", i, k)}
				}
				aliases[f] = append(aliases[f], a)
			}
		}
		// sometimes the offender is not in file order
		if r.Intn(2) == 0 {
			r.Shuffle(len(f.Tasks), func(a, b int) { f.Tasks[a], f.Tasks[b] = f.Tasks[b], f.Tasks[a] })
		}
	}
	return p
}

func (cs *Case) graphCase() {
	r := cs.R
	p := graphProject(r)
	// the detour in "x/../Babfile" needs the directory to exist nowhere: bab cleans paths
	root := filepath.Join(cs.Dir, "proj")
	if err := p.Write(root, r); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	g := expandGraph(p)
	if g.tooBig && !g.incCycle {
		cs.Obs("too big, skipped", 1)
		return
	}
	refs := 0
	dangling, conflicts := map[string]bool{}, map[string]bool{}
	aliasRef := false
	if !g.incCycle && !g.collision {
		for _, n := range g.names() {
			for _, e := range g.tasks[n] {
				refs++
				if _, ok := g.tasks[e.to]; !ok {
					if len(g.alias[e.to]) > 0 {
						aliasRef = true
					}
					dangling[e.to] = true
				}
			}
		}
		for a, ts := range g.alias {
			_, isTask := g.tasks[a]
			if isTask || len(ts) > 1 {
				conflicts[a] = true
			}
		}
	}
	cyc := map[string]bool{}
	if !g.incCycle && !g.collision {
		cyc = g.cyclic()
	}
	bad := g.incCycle || g.collision || len(dangling) > 0 || len(conflicts) > 0 || len(cyc) > 0
	files := func() string { return showFiles(readAll(root, p)) }
	kind := "accepted"
	switch {
	case g.incCycle:
		kind = "include cycle"
	case g.collision:
		kind = "name collision"
	case len(dangling) > 0 && len(cyc) > 0:
		kind = "dangling and cycle"
	case len(dangling) > 0:
		kind = "dangling"
	case len(cyc) > 0:
		kind = "cycle"
	case len(conflicts) > 0:
		kind = "alias clash"
	}
	if refs > 0 || bad {
		cs.Case(files())
	} else {
		cs.Case("")
	}
	cs.Obs("projects: "+kind, 1)
	if cs.I < 3 {
		cs.Sample(map[string]any{"verdict expected": kind, "files": clip(files(), 1500)})
	}
	if aliasRef && len(dangling) > 0 {
		cs.Obs("alias used as reference", 1)
	}
	names := g.names()
	task := "t0"
	if len(names) > 0 && !g.incCycle {
		task = names[r.Intn(len(names))]
	}
	if bad {
		for _, args := range [][]string{{"--validate"}, pick(r, []string{"--list"}, []string{"-n", task}, []string{task})} {
			res := cs.Bab(Run{Dir: root, Args: args})
			what := "bab " + strings.Join(args, " ")
			if !cs.healthy(res, what) {
				return
			}
			fail := func(why string) {
				cs.Fail("%s: %s (expected: %s; dangling %v, aliases %v, on cycles %v)\nexit %d\nstderr:\n%s\nfiles:\n%s", what, why, kind, sortedKeys(dangling), sortedKeys(conflicts), sortedKeys(cyc), res.Code, clip(res.Err, 2500), files())
			}
			if len(res.Events) > 0 {
				fail(fmt.Sprintf("commands run: %v", started(res.Events)))
				return
			}
			if res.Code != 1 {
				fail("accepted")
				return
			}
			if why := g.judgeMessage(res.Err, dangling, conflicts, cyc, cs); why != "" {
				fail(why)
				return
			}
			cs.Obs("rejections checked", 1)
		}
		return
	}
	res := cs.Bab(Run{Dir: root, Args: []string{"--validate"}})
	if !cs.healthy(res, "bab --validate") {
		return
	}
	if res.Code != 0 {
		cs.Fail("a project without dangling references, alias clashes or cycles is rejected\nstderr:\n%s\nfiles:\n%s", clip(res.Err, 2500), files())
		return
	}
	if len(names) == 0 {
		return
	}
	arg := task
	for a, ts := range g.alias {
		if ts[0] == task && r.Intn(2) == 0 {
			arg = a
		}
	}
	res = cs.Bab(Run{Dir: root, Args: []string{arg}})
	if !cs.healthy(res, "bab "+arg) {
		return
	}
	var want []string
	for _, n := range g.reach(task) {
		want = append(want, g.cmds[n]...)
	}
	// the same file may be included twice: ids repeat per copy
	got := started(res.Events)
	sort.Strings(want)
	sort.Strings(got)
	if res.Code != 0 || strings.Join(got, " ") != strings.Join(want, " ") {
		cs.Fail("bab %s on an accepted project: exit %d, ran %v, reachable %v\nstderr:\n%s\nfiles:\n%s", arg, res.Code, got, want, clip(res.Err, 2500), files())
		return
	}
	cs.Obs("reachable tasks run", len(g.reach(task)))
}

func readAll(root string, p *Project) map[string]string {
	m := map[string]string{}
	for k := range p.Files {
		b, _ := os.ReadFile(filepath.Join(root, k))
		m[k] = string(b)
	}
	return m
}

// judgeMessage compares the message with the faults of the project.
func (g *flatGraph) judgeMessage(msg string, dangling, conflicts, cyc map[string]bool, cs *Case) string {
	named := 0
	msg = stripSGR(msg)
	if g.incCycle || g.collision {
		if g.incCycle && reIncCycle.MatchString(msg) {
			named++
		}
		if g.collision && reCollide.MatchString(msg) {
			named++
		}
		if named == 0 {
			return "the message does not name the fault"
		}
		return ""
	}
	for _, m := range reDangling.FindAllStringSubmatch(msg, -1) {
		if !dangling[m[1]] {
			return fmt.Sprintf("reports task %q as missing, which is not", m[1])
		}
		named++
	}
	for _, m := range reConflict.FindAllStringSubmatch(msg, -1) {
		if _, isTask := g.tasks[m[1]]; !isTask || !contains(g.alias[m[1]], m[2]) {
			return fmt.Sprintf("reports a conflict of alias %q of %q, which does not exist", m[1], m[2])
		}
		named++
	}
	for _, m := range reDupAlias.FindAllStringSubmatch(msg, -1) {
		if !contains(g.alias[m[1]], m[2]) || !contains(g.alias[m[1]], m[3]) || m[2] == m[3] {
			return fmt.Sprintf("reports alias %q of %q and %q as duplicate, which it is not", m[1], m[2], m[3])
		}
		named++
	}
	for _, m := range reCycle.FindAllStringSubmatch(msg, -1) {
		chain := strings.Split(strings.TrimSpace(m[1]), " → ")
		last := chain[len(chain)-1]
		closed := false
		for i := 0; i+1 < len(chain); i++ {
			if !g.has(chain[i], chain[i+1]) {
				return fmt.Sprintf("reports the cycle %v, but %q does not refer to %q", chain, chain[i], chain[i+1])
			}
			closed = closed || chain[i] == last
		}
		if !closed {
			return fmt.Sprintf("reports %v, which is no cycle", chain)
		}
		cs.Obs("reported cycles checked", 1)
		named++
	}
	if named == 0 {
		return "the message names no offender"
	}
	return ""
}

// largeGraph: sizes at which a naive search explodes or overflows.
func (cs *Case) largeGraph() {
	r := cs.R
	var b strings.Builder
	root := filepath.Join(cs.Dir, "proj")
	_ = os.MkdirAll(root, 0o755)
	b.WriteString("tasks:\n")
	want, okay := 0, true
	kind := []string{"layers", "chain", "fan", "cyclic layers", "long cycle", "includes"}[cs.I%6]
	task := func(n string, deps, refs []string) {
		fmt.Fprintf(&b, "  %s:\n", n)
		if len(deps) > 0 {
			fmt.Fprintf(&b, "    deps: [%s]\n", strings.Join(deps, ", "))
		}
		b.WriteString("    run:\n")
		for _, d := range refs {
			fmt.Fprintf(&b, "      - task: %s\n", d)
		}
		b.WriteString("      - cmd: ':'\n")
	}
	switch kind {
	case "layers", "cyclic layers":
		L, W := 20+r.Intn(20), 3+r.Intn(3)
		for i := 0; i < L; i++ {
			for j := 0; j < W; j++ {
				var next []string
				for k := 0; k < W && i+1 < L; k++ {
					next = append(next, fmt.Sprintf("l%d_%d", i+1, k))
				}
				if kind == "cyclic layers" && i == L-1 && j == W-1 {
					next = append(next, "l0_0")
					okay = false
				}
				if r.Intn(2) == 0 {
					task(fmt.Sprintf("l%d_%d", i, j), next, nil)
				} else {
					task(fmt.Sprintf("l%d_%d", i, j), nil, next)
				}
			}
		}
		want = L
		if kind == "layers" {
			task("start", []string{"l0_0"}, nil)
		}
	case "chain", "long cycle":
		n := 300 + r.Intn(900)
		for i := 0; i < n; i++ {
			next := []string{fmt.Sprintf("c%d", i+1)}
			if i == n-1 {
				next = nil
				if kind == "long cycle" {
					next = []string{fmt.Sprintf("c%d", r.Intn(n))}
					okay = false
				}
			}
			if r.Intn(2) == 0 {
				task(fmt.Sprintf("c%d", i), next, nil)
			} else {
				task(fmt.Sprintf("c%d", i), nil, next)
			}
		}
		task("start", []string{"c0"}, nil)
	case "fan":
		var all []string
		for i := 0; i < 400; i++ {
			all = append(all, fmt.Sprintf("f%d", i))
			task(all[i], nil, nil)
		}
		task("start", all, all)
	case "includes":
		n := 30 + r.Intn(30)
		for i := 1; i <= n; i++ {
			s := fmt.Sprintf("tasks:\n  t%d:\n    run:\n      - cmd: ':'\n", i)
			if i < n {
				s += fmt.Sprintf("    deps: [n:t%d]\nincludes:\n  n:\n    babfile: f%d.yml\n", i+1, i+1)
			} else if r.Intn(2) == 0 {
				s += fmt.Sprintf("includes:\n  n:\n    babfile: f%d.yml\n", 1+r.Intn(n))
				okay = false
			}
			if err := os.WriteFile(filepath.Join(root, fmt.Sprintf("f%d.yml", i)), []byte(s), 0o644); err != nil {
				cs.Inconclusive("cannot write project")
				return
			}
		}
		task("start", []string{"n:t1"}, nil)
		b.WriteString("includes:\n  n:\n    babfile: f1.yml\n")
	}
	_ = want
	if err := os.WriteFile(filepath.Join(root, "Babfile"), []byte(b.String()), 0o644); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	cs.Case(kind + b.String())
	cs.Obs("large: "+kind, 1)
	res := cs.Bab(Run{Dir: root, Args: []string{"--validate"}, Timeout: 60 * time.Second})
	if !cs.healthy(res, "bab --validate on a large project ("+kind+")") {
		return
	}
	if (res.Code == 0) != okay {
		cs.Fail("bab --validate on a large project (%s): exit %d, expected accepted=%v\nstderr:\n%s", kind, res.Code, okay, clip(res.Err, 1500))
		return
	}
	if !okay {
		return
	}
	res = cs.Bab(Run{Dir: root, Args: []string{"start"}, Timeout: 60 * time.Second})
	if !cs.healthy(res, "bab start on a large project ("+kind+")") {
		return
	}
	if res.Code != 0 {
		cs.Fail("bab start on a large accepted project (%s): exit %d\nstderr:\n%s", kind, res.Code, clip(res.Err, 1500))
	}
}
