package main

// C17: malformed Babfiles are rejected before anything runs, wellformed ones are not.

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// mutator breaks one structural rule of the format at a node.
type mutator struct {
	name  string
	on    func(n *Y) bool
	apply func(r *randT, n *Y)
	line  func(n *Y) []int // lines the error may name, besides the node's own
}

func roleIn(rs ...string) func(*Y) bool {
	return func(n *Y) bool {
		for _, r := range rs {
			if n.Role == r {
				return true
			}
		}
		return false
	}
}

func kindIs(k string) func(*Y) bool {
	return func(n *Y) bool { return n.Item != nil && n.Item.Kind == k && (n.Role == "item" || n.Role == "paritem") }
}

func promptOf(types ...string) func(*Y) bool {
	return func(n *Y) bool {
		return kindIs(kPrompt)(n) && (len(types) == 0 || contains(types, n.Item.PType))
	}
}

func aMap(r *randT) *Y {
	return pick(r, ymap("x", ys("y")), ymap("cmd", ys("$R inner")), ymap("a", yseq(ys("b"))))
}

func aSeq(r *randT) *Y {
	return pick(r, yseq(ys("x")), yseq(ys("true")), yseq(ys("$R inner"), ys("y")), yseq(), yseq(ymap("k", ys("v"))))
}

func notInt(r *randT) *Y {
	return pick(r, ys("two"), ys("1x"), yraw("1.5"), yraw("2.5"), yraw("0.25"), yraw("3e-1"), aSeq(r), aMap(r), yraw("true"))
}

var stringRoles = []string{"dir", "desc", "alias", "when", "cmd", "taskref", "log", "level", "prompt", "type", "message", "default", "placeholder", "validate", "mode", "label", "incpath"}

var mutators = []mutator{
	{name: "mapping for a list", on: roleIn("run", "parallel", "deps", "aliases", "options", "defaults", "platforms"), apply: func(r *randT, n *Y) { n.replace(aMap(r)) }},
	{name: "scalar for a list", on: roleIn("run", "parallel", "deps", "aliases", "options", "defaults", "platforms"), apply: func(r *randT, n *Y) {
		if len(n.Vals) > 0 && n.Vals[0].K == yStr && r.Intn(2) == 0 { // the only one
			n.replace(ys(n.Vals[0].S))
			return
		}
		n.replace(pick(r, ys("x"), ys("linux"), yraw("3"), yraw("true")))
	}},
	{name: "list for a mapping", on: roleIn("root", "tasks", "task", "vars", "env", "includes", "include", "item", "paritem"), apply: func(r *randT, n *Y) {
		if n.Role == "root" {
			n.replace(yseq(ys("x"), ymap("tasks", ymap())))
			return
		}
		n.replace(aSeq(r))
	}},
	{name: "scalar for a mapping", on: roleIn("root", "tasks", "task", "vars", "env", "includes", "include", "item", "paritem"), apply: func(r *randT, n *Y) { n.replace(pick(r, ys("x"), ys("$R inner"), yraw("3"), yraw("true"))) }},
	{name: "list or mapping for a string", on: roleIn(stringRoles...), apply: func(r *randT, n *Y) { n.replace(pick(r, aMap(r), aSeq(r))) }},
	{name: "list or mapping for a value", on: roleIn("varsvalue", "envvalue"), apply: func(r *randT, n *Y) { n.replace(pick(r, aMap(r), aSeq(r))) }},
	{name: "list or mapping as list element", on: roleIn("depselem", "aliaseselem", "optionselem", "defaultselem", "platformselem"), apply: func(r *randT, n *Y) { n.replace(pick(r, aMap(r), aSeq(r))) }},
	{name: "not a boolean", on: roleIn("bool"), apply: func(r *randT, n *Y) { n.replace(pick(r, ys("maybe"), yraw("1"), ys("truee"), aSeq(r), aMap(r))) }},
	{name: "not an integer", on: roleIn("limit", "min", "max"), apply: func(r *randT, n *Y) { n.replace(notInt(r)) }},
	{name: "negative limit", on: kindIs(kParallel), apply: func(r *randT, n *Y) { n.set("limit", yraw(pick(r, "-1", "-2", "-100"))) }},
	{name: "no action", on: func(n *Y) bool { return kindIs(kCmd)(n) || kindIs(kTask)(n) || kindIs(kLog)(n) || kindIs(kPrompt)(n) }, apply: func(r *randT, n *Y) {
		if r.Intn(3) == 0 {
			n.set(n.Item.Kind, ys(""))
		} else {
			n.del(n.Item.Kind)
		}
	}},
	{name: "two actions", on: func(n *Y) bool { return kindIs(kCmd)(n) || kindIs(kTask)(n) || kindIs(kLog)(n) || kindIs(kPrompt)(n) }, apply: func(r *randT, n *Y) {
		for {
			k := pick(r, kCmd, kTask, kLog, kPrompt, kParallel)
			if k == n.Item.Kind {
				continue
			}
			if k == kParallel {
				n.put(k, yseq(ymap("cmd", ys("$R inner"))))
			} else {
				n.put(k, ys("x"))
			}
			return
		}
	}},
	{name: "action beside parallel", on: kindIs(kParallel), apply: func(r *randT, n *Y) { n.put(pick(r, kCmd, kTask, kLog, kPrompt), ys("$R inner")) }},
	{name: "unknown key in a block", on: kindIs(kParallel), apply: func(r *randT, n *Y) { n.put(pick(r, "limits", "Mode", "env", "dir", "items", "label"), ys("x")) }},
	{name: "empty block", on: kindIs(kParallel), apply: func(r *randT, n *Y) { n.set("parallel", yseq()) }},
	{name: "empty run item", on: roleIn("item", "paritem"), apply: func(r *randT, n *Y) { n.replace(ymap()) }},
	{name: "prompt in a block", on: roleIn("parallel"), apply: func(r *randT, n *Y) {
		p := ymap("prompt", ys("p"), "type", ys("confirm"), "message", ys("Really?"), "default", ys("true"))
		i := r.Intn(len(n.Vals) + 1)
		n.Vals = append(n.Vals[:i:i], append([]*Y{p}, n.Vals[i:]...)...)
	}},
	{name: "block in a block", on: roleIn("parallel"), apply: func(r *randT, n *Y) {
		p := ymap("parallel", yseq(ymap("cmd", ys("$R inner"))))
		i := r.Intn(len(n.Vals) + 1)
		n.Vals = append(n.Vals[:i:i], append([]*Y{p}, n.Vals[i:]...)...)
	}},
	{name: "unknown platform", on: func(n *Y) bool { return n.Role == "item" || n.Role == "paritem" }, apply: func(r *randT, n *Y) {
		bad := ys(pick(r, "macos", "Linux", "linux ", "win", "unix", "", "freebsd"))
		p := n.get("platforms")
		if p == nil {
			n.put("platforms", yseq(bad))
		} else {
			p.Vals = append(p.Vals, bad)
			r.Shuffle(len(p.Vals), func(i, j int) { p.Vals[i], p.Vals[j] = p.Vals[j], p.Vals[i] })
		}
	}},
	{name: "unknown level", on: kindIs(kLog), apply: func(r *randT, n *Y) {
		n.set("level", ys(pick(r, "warning", "INFO", "trace", "err", "information", " info")))
	}},
	{name: "unknown mode", on: kindIs(kParallel), apply: func(r *randT, n *Y) { n.set("mode", ys(pick(r, "Tabs", "group", "parallel", "tab", "interleave"))) }},
	{name: "unknown prompt type", on: promptOf(), apply: func(r *randT, n *Y) { n.set("type", ys(pick(r, "text", "Confirm", "multi-select", "checkbox", "int"))) }},
	{name: "bad prompt name", on: promptOf(), apply: func(r *randT, n *Y) { n.set("prompt", ys(pick(r, "1a", "a-b", "a b", "é", "a.b", "${{ x }}", " a"))) }},
	{name: "prompt without a field", on: promptOf(), apply: func(r *randT, n *Y) {
		k := pick(r, "type", "message")
		if r.Intn(3) == 0 {
			n.set(k, ys(""))
		} else {
			n.del(k)
		}
	}},
	{name: "selection without options", on: promptOf("select", "multiselect"), apply: func(r *randT, n *Y) {
		if r.Intn(2) == 0 {
			n.del("options")
		} else {
			n.set("options", yseq())
		}
	}},
	{name: "options of no selection", on: promptOf("confirm", "input", "password", "number"), apply: func(r *randT, n *Y) { n.set("options", yseq(ys("x"), ys("y"))) }},
	{name: "defaults of no multiselect", on: promptOf("confirm", "input", "password", "number", "select"), apply: func(r *randT, n *Y) { n.set("defaults", yseq(ys("red"))) }},
	{name: "validate of no input", on: promptOf("confirm", "password", "number", "select", "multiselect"), apply: func(r *randT, n *Y) { n.set("validate", ys("^x$")) }},
	{name: "confirm of no password", on: promptOf("confirm", "input", "number", "select", "multiselect"), apply: func(r *randT, n *Y) { n.set("confirm", yraw(pick(r, "true", "false"))) }},
	{name: "default that is no option", on: promptOf("select"), apply: func(r *randT, n *Y) { n.set("default", ys(pick(r, "pink", "Red", "red ", "re"))) }},
	{name: "defaults that are no options", on: promptOf("multiselect"), apply: func(r *randT, n *Y) {
		n.set("defaults", yseq(ys("red"), ys(pick(r, "pink", "Red", "red,green"))))
	}},
	{name: "default that is not an integer", on: promptOf("number"), apply: func(r *randT, n *Y) { n.set("default", ys(pick(r, "x", "1.5", "1e3", "0x10", " 1", "--1"))) }},
	{name: "min above max", on: promptOf("number", "multiselect"), apply: func(r *randT, n *Y) { n.set("min", yraw("4")); n.set("max", yraw(pick(r, "3", "0"))) }},
	{name: "invalid pattern", on: promptOf("input"), apply: func(r *randT, n *Y) { n.set("validate", ys(pick(r, "(", "[a", "a**", "(?<", `\`, "x{2,1}"))) }},
	{name: "duplicate task", on: func(n *Y) bool { return n.Role == "tasks" && len(n.Keys) > 0 }, apply: func(r *randT, n *Y) {
		i := r.Intn(len(n.Keys))
		k := *n.Keys[i]
		v := pick(r, n.Vals[i].clone(), ymap("run", yseq(ymap("cmd", ys("$R inner")))))
		if r.Intn(3) == 0 {
			n.Vals[i] = ymap("desc", ys("nothing to run"))
		}
		at := r.Intn(len(n.Keys) + 1)
		n.Keys = append(n.Keys[:at:at], append([]*Y{&k}, n.Keys[at:]...)...)
		n.Vals = append(n.Vals[:at:at], append([]*Y{v}, n.Vals[at:]...)...)
	}},
	{name: "include of nothing", on: roleIn("incpath"), apply: func(r *randT, n *Y) { n.S = pick(r, "no/such/Babfile", ".", "missing.yml") }},
	{name: "include without a path", on: roleIn("include"), apply: func(r *randT, n *Y) { n.del("babfile") }},
	{name: "value that contains itself", on: func(n *Y) bool {
		return (n.K == yMap || n.K == ySeq) && len(n.Vals) > 0 && n.Role != "root"
	}, apply: func(r *randT, n *Y) {
		n.Anchor = "loop"
		inner := n
		for inner.Vals[0].K == yMap && len(inner.Vals[0].Vals) > 0 && r.Intn(2) == 0 {
			inner = inner.Vals[0]
		}
		if inner.K == yMap {
			inner.put("again", &Y{K: yAlias, To: n})
		} else {
			inner.Vals = append(inner.Vals, &Y{K: yAlias, To: n})
		}
	}},
}

// textMutators break the YAML itself.
var textMutators = []struct {
	name  string
	apply func(r *randT, s string) string
}{
	{"empty document", func(r *randT, s string) string { return pick(r, "", "\n", "# nothing\n", "---\n") }},
	{"unclosed quote", func(r *randT, s string) string { return s + "x: \"abc\n" }},
	{"unclosed bracket", func(r *randT, s string) string { return s + "x: [a, b\n" }},
	{"tab indentation", func(r *randT, s string) string { return s + "x:\n\ty: z\n" }},
	{"unknown anchor", func(r *randT, s string) string { return s + "x: *nothing\n" }},
	{"stray colon", func(r *randT, s string) string { return s + "x: a: b\n" }},
	{"scalar at root", func(r *randT, s string) string { return pick(r, "hello\n", "42\n", "- a\n- b\n") }},
}

// twist makes a harmless change that the format allows.
func twist(r *randT, t Trees) {
	for _, k := range sortedKeys(t) {
		root := t[k]
		root.shuffleKeys(r, 0.3)
		root.walk(func(n *Y) {
			if r.Intn(6) > 0 {
				return
			}
			add := func(key string, v *Y) {
				if n.get(key) == nil {
					v.Role = key
					switch key {
					case "color", "silent", "output", "confirm":
						v.Role = "bool"
					}
					n.put(key, v)
				}
			}
			switch {
			case n.Role == "task":
				switch r.Intn(5) {
				case 0:
					add("deps", yseq())
				case 1:
					add("aliases", yseq())
				case 2:
					add("desc", ys(pick(r, "text: with colon", "", "- x", "é")))
				case 3:
					add("env", ymap("PORT", yraw("8080"), "FLAG", yraw("true")))
				default:
					add("vars", ymap())
				}
			case kindIs(kParallel)(n):
				switch r.Intn(4) {
				case 0:
					add("limit", yraw(pick(r, "0", "1", "99")))
				case 1:
					add("mode", ys(pick(r, "interleaved", "grouped", "tabs")))
				case 2:
					add("color", yraw(pick(r, "true", "false")))
				default:
					add("platforms", yseq())
				}
			case n.Role == "paritem":
				add("label", ys(pick(r, "lab", "", "a b")))
			case n.Role == "item":
				if r.Intn(2) == 0 {
					add("platforms", yseq())
				} else {
					add("when", ys(pick(r, "", "true", "${{ env.HOME }} != ''")))
				}
			case n.Role == "root":
				switch r.Intn(4) {
				case 0:
					add("env", ymap())
				case 1:
					add("vars", ymap())
				case 2:
					add("includes", ymap())
				default:
					add("silent", yraw(pick(r, "true", "false")))
				}
			}
			if promptOf()(n) {
				switch {
				case n.Item.PType == "input" && r.Intn(2) == 0:
					add("validate", ys(pick(r, "^[a-z]+$", "(a|b)", `\d`, ".")))
					add("placeholder", ys("hint"))
				case n.Item.PType == "number":
					add("min", yraw("0"))
					add("max", yraw(pick(r, "0", "50")))
					if r.Intn(2) == 0 {
						n.set("default", yraw("0"))
					}
				case n.Item.PType == "multiselect":
					add("min", yraw("1"))
					add("max", yraw("1"))
				case n.Item.PType == "confirm" && r.Intn(2) == 0:
					n.set("default", yraw(pick(r, "true", "false")))
				}
			}
		})
		root.link()
	}
}

func parseProf() Prof {
	return Prof{Files: 3, Tasks: 4, Items: 4, Deps: 0.3, TaskRef: 0.15, Par: 0.25, ParItems: 3, Log: 0.2, Prompt: 0.25,
		When: 0.2, TaskWhen: 0.15, Plat: 0.2, Vars: 0.4, Env: 0.3, Dir: 0.3, Silent: 0.2, Output: 0.2, Alias: 0.3,
		Limit: 0.3, Label: 0.25, Modes: []string{"interleaved", "grouped", "tabs"}}
}

// breakTree applies one random mutator somewhere and returns its name and where.
func (cs *Case) breakTree(t Trees) (name, file string, node *Y) {
	m, file, n := cs.pickBreak(t)
	if m == nil {
		return "", "", nil
	}
	m.apply(cs.R, n)
	t[file].link()
	return m.name, file, n
}

// pickBreak chooses a mutator and a node it applies to.
func (cs *Case) pickBreak(t Trees) (m *mutator, file string, node *Y) {
	r := cs.R
	// where each mutator applies, by the kind of place
	type place struct {
		file string
		node *Y
	}
	byKind := make([]map[string][]place, len(mutators))
	all := 0
	for _, file := range sortedKeys(t) {
		t[file].walk(func(n *Y) {
			kind := n.Role
			if n.Up != nil {
				kind += " of " + n.Up.Role
			}
			if n.Item != nil {
				kind += " in " + n.Item.Kind + " " + n.Item.PType
			}
			for i := range mutators {
				if mutators[i].on(n) {
					if byKind[i] == nil {
						byKind[i] = map[string][]place{}
					}
					byKind[i][kind] = append(byKind[i][kind], place{file, n})
				}
			}
		})
	}
	for _, m := range byKind {
		all += len(m)
	}
	if all == 0 {
		return nil, "", nil
	}
	choose := func(i int, kind string) (*mutator, string, *Y) {
		p := byKind[i][kind][r.Intn(len(byKind[i][kind]))]
		return &mutators[i], p.file, p.node
	}
	if r.Intn(2) == 0 { // every rule alike
		for {
			if i := r.Intn(len(mutators)); byKind[i] != nil {
				return choose(i, pick(r, sortedKeys(byKind[i])...))
			}
		}
	}
	k := r.Intn(all) // every kind of place alike
	for i := range mutators {
		if k < len(byKind[i]) {
			return choose(i, sortedKeys(byKind[i])[k])
		}
		k -= len(byKind[i])
	}
	return nil, "", nil
}

func init() {
	register("C17", "random wellformed projects (all item kinds, prompts, blocks, includes, harmless variations of spelling, key order and optional keys) must pass --validate without running or prompting; the same project with one of "+fmt.Sprint(len(mutators)+len(textMutators))+" kinds of structural error at a random place of a random file must fail --validate, --list, running, dry-running and starting the picker with an error message, offer no completions and run nothing; non-trivial when a file was broken",
		func(c *Ctx) {
			c.Bab()
			c.Each("break", c.N(5000, 40000), func(cs *Case) { cs.structCase() })
		})
}

func (cs *Case) structCase() {
	r := cs.R
	g := newGen(r, parseProf())
	proj := g.Generate()
	root := filepath.Join(cs.Dir, "proj")
	for _, d := range g.Dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	t := proj.Trees()
	twist(r, t)
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	res := cs.Bab(Run{Dir: root, Args: []string{"--validate"}, Stdin: []byte("y\n1\n")})
	if !cs.healthy(res, "validate") {
		return
	}
	if res.Code != 0 {
		cs.Case("")
		cs.Fail("a wellformed Babfile is rejected\nstderr:\n%s\nfiles:\n%s", res.Err, showFiles(text))
		return
	}
	if len(res.Events) > 0 {
		cs.Fail("--validate runs commands: %v\nfiles:\n%s", started(res.Events), showFiles(text))
		return
	}
	cs.Obs("wellformed projects accepted", 1)

	var name, file string
	if r.Intn(10) == 0 {
		m := textMutators[r.Intn(len(textMutators))]
		name, file = m.name, pick(r, sortedKeys(t)...)
		text[file] = m.apply(r, text[file])
		if err := os.WriteFile(filepath.Join(root, file), []byte(text[file]), 0o644); err != nil {
			cs.Inconclusive("cannot write project")
			return
		}
	} else {
		var at *Y
		name, file, at = cs.breakTree(t)
		if name == "" {
			cs.Inconclusive("no place to break the project")
			return
		}
		if r.Intn(5) == 0 {
			// not around or inside the first, which it could mend
			if m, f2, n2 := cs.pickBreak(t); m != nil && (f2 != file || !n2.within(at) && !at.within(n2)) {
				m.apply(r, n2)
				t[f2].link()
				name += " and " + m.name // counted one by one
			}
		}
		if text, err = t.Write(root, r); err != nil {
			cs.Inconclusive("cannot write project")
			return
		}
	}
	cs.Case(name + "\n" + showFiles(text))
	for _, n := range strings.Split(name, " and ") {
		cs.Obs("broken: "+n, 1)
	}
	if cs.I < 4 {
		cs.Sample(map[string]any{"broken": name, "file": file, "text": clip(text[file], 1200)})
	}
	var tasks []string
	for _, n := range NewModel(proj, root, cs.modelEnv()).TaskNames() {
		tasks = append(tasks, n)
	}
	if len(tasks) == 0 {
		tasks = []string{"t0"}
	}
	task := pick(r, tasks...)
	for _, args := range [][]string{{"--validate"}, {"--list"}, {task}, {"-n", task}, {}, {"__complete", ""}} {
		res := cs.Bab(Run{Dir: root, Args: args, Stdin: []byte("y\n1\nx\n")})
		what := "bab " + strings.Join(args, " ")
		if !cs.healthy(res, what) {
			return
		}
		fail := func(why string) {
			cs.Fail("%s: %s: %s (in %s)\nexit %d\nstdout:\n%s\nstderr:\n%s\nfiles:\n%s", what, why, name, file, res.Code, clip(res.Out, 1500), clip(res.Err, 1500), showFiles(text))
		}
		if len(res.Events) > 0 {
			fail(fmt.Sprintf("commands run although the Babfile is broken: %v", started(res.Events)))
			return
		}
		if len(args) > 0 && args[0] == "__complete" {
			for _, l := range strings.Split(res.Out, "\n") {
				w, _, _ := strings.Cut(l, "\t")
				if contains(tasks, w) {
					fail("completion offers tasks of a broken Babfile")
					return
				}
			}
			continue
		}
		if res.Code != 1 {
			fail("succeeds although the Babfile is broken")
			return
		}
		if strings.TrimSpace(res.Err) == "" {
			fail("fails without a message")
			return
		}
		if strings.Contains(res.Err, "TTY") || strings.Contains(res.Err, "tty") && len(args) == 0 {
			fail("gets past the broken Babfile")
			return
		}
		cs.Obs("rejections checked", 1)
	}
}

func showFiles(text map[string]string) string {
	var b strings.Builder
	for _, k := range sortedKeys(text) {
		fmt.Fprintf(&b, "--- %s\n%s", k, clip(text[k], 2500))
	}
	return b.String()
}
