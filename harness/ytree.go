package main

// Babfiles as YAML trees, whose nodes can be changed one by one. The emitter
// records the line of every node and varies the spelling.

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

type yKind int

const (
	yMap yKind = iota
	ySeq
	yStr   // a string, in any spelling
	yRaw   // a plain scalar, written as it is: true, 3, null
	yAlias // an alias to an anchored node
)

type Y struct {
	K      yKind
	Keys   []*Y
	Vals   []*Y
	S      string
	Anchor string
	To     *Y
	Role   string
	Item   *Item // for nodes of run items
	Task   *Task // for nodes of tasks
	Up     *Y
	Line   int
	Col    int
	Flow   bool
}

func ys(s string) *Y          { return &Y{K: yStr, S: s} }
func yraw(s string) *Y        { return &Y{K: yRaw, S: s} }
func yseq(l ...*Y) *Y         { return &Y{K: ySeq, Vals: l} }
func ymap(kv ...any) *Y       { return (&Y{K: yMap}).put(kv...) }
func (y *Y) role(r string) *Y { y.Role = r; return y }

func (y *Y) put(kv ...any) *Y {
	for i := 0; i+1 < len(kv); i += 2 {
		k := kv[i]
		if s, ok := k.(string); ok {
			k = ys(s)
		}
		y.Keys = append(y.Keys, k.(*Y))
		y.Vals = append(y.Vals, kv[i+1].(*Y))
	}
	return y
}

func (y *Y) get(key string) *Y {
	for i, k := range y.Keys {
		if k.S == key {
			return y.Vals[i]
		}
	}
	return nil
}

func (y *Y) keyNode(key string) *Y {
	for i, k := range y.Keys {
		if k.S == key {
			return y.Keys[i]
		}
	}
	return nil
}

func (y *Y) set(key string, v *Y) {
	for i, k := range y.Keys {
		if k.S == key {
			y.Vals[i] = v
			return
		}
	}
	y.put(key, v)
}

func (y *Y) del(key string) {
	for i, k := range y.Keys {
		if k.S == key {
			y.Keys = append(y.Keys[:i:i], y.Keys[i+1:]...)
			y.Vals = append(y.Vals[:i:i], y.Vals[i+1:]...)
			return
		}
	}
}

// replace turns the node into another one in place.
func (y *Y) replace(n *Y) {
	role, item, task, up := y.Role, y.Item, y.Task, y.Up
	*y = *n
	y.Role, y.Item, y.Task, y.Up = role, item, task, up
}

func (y *Y) walk(f func(*Y)) {
	f(y)
	for _, v := range y.Vals {
		v.walk(f)
	}
}

// link sets the parents.
func (y *Y) link() {
	for _, v := range y.Vals {
		v.Up = y
		v.link()
	}
}

// within tells whether y is o or below it.
func (y *Y) within(o *Y) bool {
	for ; y != nil; y = y.Up {
		if y == o {
			return true
		}
	}
	return false
}

func (y *Y) clone() *Y {
	n := *y
	n.Keys, n.Vals = nil, nil
	for _, k := range y.Keys {
		c := *k
		n.Keys = append(n.Keys, &c)
	}
	for _, v := range y.Vals {
		n.Vals = append(n.Vals, v.clone())
	}
	return &n
}

// equal compares the content, not the spelling.
func (y *Y) equal(o *Y) bool {
	if y.K != o.K || y.S != o.S || len(y.Vals) != len(o.Vals) || y.To != o.To {
		return false
	}
	for i := range y.Vals {
		if !y.Vals[i].equal(o.Vals[i]) || (y.K == yMap && y.Keys[i].S != o.Keys[i].S) {
			return false
		}
	}
	return true
}

// ---- from the project model ----

func kvTree(m []KV, role string) *Y {
	y := (&Y{K: yMap}).role(role)
	for _, x := range m {
		y.put(x.K, ys(x.V).role(role+"value"))
	}
	return y
}

func listTree(l []string, role string) *Y {
	y := (&Y{K: ySeq}).role(role)
	for _, x := range l {
		y.Vals = append(y.Vals, ys(x).role(role+"elem"))
	}
	return y
}

func boolTree(b bool, role string) *Y { return yraw(fmt.Sprint(b)).role(role) }

func (f *File) Tree() *Y {
	root := (&Y{K: yMap}).role("root")
	if f.Silent != nil {
		root.put("silent", boolTree(*f.Silent, "bool"))
	}
	if f.Output != nil {
		root.put("output", boolTree(*f.Output, "bool"))
	}
	if f.Dir != "" {
		root.put("dir", ys(f.Dir).role("dir"))
	}
	if len(f.Vars) > 0 {
		root.put("vars", kvTree(f.Vars, "vars"))
	}
	if len(f.Env) > 0 {
		root.put("env", kvTree(f.Env, "env"))
	}
	if len(f.Includes) > 0 {
		incs := (&Y{K: yMap}).role("includes")
		for _, inc := range f.Includes {
			incs.put(inc.NS, ymap("babfile", ys(inc.Path).role("incpath")).role("include"))
		}
		root.put("includes", incs)
	}
	tasks := (&Y{K: yMap}).role("tasks")
	for _, t := range f.Tasks {
		y := (&Y{K: yMap, Task: t}).role("task")
		if t.Desc != "" {
			y.put("desc", ys(t.Desc).role("desc"))
		}
		if t.Alias != "" {
			y.put("alias", ys(t.Alias).role("alias"))
		}
		if len(t.Aliases) > 0 {
			y.put("aliases", listTree(t.Aliases, "aliases"))
		}
		if len(t.Vars) > 0 {
			y.put("vars", kvTree(t.Vars, "vars"))
		}
		if len(t.Env) > 0 {
			y.put("env", kvTree(t.Env, "env"))
		}
		if t.Silent != nil {
			y.put("silent", boolTree(*t.Silent, "bool"))
		}
		if t.Output != nil {
			y.put("output", boolTree(*t.Output, "bool"))
		}
		if t.Dir != "" {
			y.put("dir", ys(t.Dir).role("dir"))
		}
		if t.When != "" {
			y.put("when", ys(t.When).role("when"))
		}
		if len(t.Deps) > 0 {
			y.put("deps", listTree(t.Deps, "deps"))
		}
		if !t.NoRun {
			y.put("run", itemsTree(t.Run, "run"))
		}
		tasks.put(t.Name, y)
	}
	root.put("tasks", tasks)
	root.link()
	return root
}

func itemsTree(items []*Item, role string) *Y {
	y := (&Y{K: ySeq}).role(role)
	for _, it := range items {
		y.Vals = append(y.Vals, itemTree(it, role == "parallel"))
	}
	return y
}

func itemTree(it *Item, inPar bool) *Y {
	y := (&Y{K: yMap, Item: it}).role("item")
	if inPar {
		y.role("paritem")
	}
	str := func(key, val string) {
		if val != "" {
			y.put(key, ys(val).role(key))
		}
	}
	switch it.Kind {
	case kCmd:
		str("cmd", it.Cmd)
	case kTask:
		if it.Task != "" {
			y.put("task", ys(it.Task).role("taskref"))
		}
	case kLog:
		str("log", it.Log)
		str("level", it.Level)
	case kPrompt:
		str("prompt", it.Prompt)
		str("type", it.PType)
		str("message", it.Message)
		str("default", it.Default)
		str("placeholder", it.Placeholder)
		str("validate", it.Validate)
		if len(it.Options) > 0 {
			y.put("options", listTree(it.Options, "options"))
		}
		if len(it.Defaults) > 0 {
			y.put("defaults", listTree(it.Defaults, "defaults"))
		}
		if it.Min != nil {
			y.put("min", yraw(fmt.Sprint(*it.Min)).role("min"))
		}
		if it.Max != nil {
			y.put("max", yraw(fmt.Sprint(*it.Max)).role("max"))
		}
		if it.Confirm != nil {
			y.put("confirm", boolTree(*it.Confirm, "bool"))
		}
	case kParallel:
		y.put("parallel", itemsTree(it.Items, "parallel"))
		str("mode", it.Mode)
		if it.Limit != 0 {
			y.put("limit", yraw(fmt.Sprint(it.Limit)).role("limit"))
		}
		if it.Color != nil {
			y.put("color", boolTree(*it.Color, "bool"))
		}
	}
	str("label", it.Label)
	str("dir", it.Dir)
	if len(it.Env) > 0 {
		y.put("env", kvTree(it.Env, "env"))
	}
	if it.Silent != nil {
		y.put("silent", boolTree(*it.Silent, "bool"))
	}
	if it.Output != nil {
		y.put("output", boolTree(*it.Output, "bool"))
	}
	if len(it.Platforms) > 0 {
		y.put("platforms", listTree(it.Platforms, "platforms"))
	}
	str("when", it.When)
	return y
}

// shuffleKeys reorders the entries of mappings whose order means nothing.
func (y *Y) shuffleKeys(r *randT, p float64) {
	y.walk(func(n *Y) {
		if n.K == yMap && r.Float64() < p {
			r.Shuffle(len(n.Keys), func(i, j int) {
				n.Keys[i], n.Keys[j] = n.Keys[j], n.Keys[i]
				n.Vals[i], n.Vals[j] = n.Vals[j], n.Vals[i]
			})
		}
	})
}

// ---- emission ----

type yEmit struct {
	b    strings.Builder
	line int
	col  int
	r    *randT
	flow float64 // share of collections in flow style
	gaps float64 // share of lines preceded by a comment or a blank line
}

func (e *yEmit) w(s string) {
	e.b.WriteString(s)
	if n := strings.Count(s, "\n"); n > 0 {
		e.line += n
		e.col = len(s) - strings.LastIndexByte(s, '\n') - 1
	} else {
		e.col += len(s)
	}
}

func (e *yEmit) at(y *Y) { y.Line, y.Col = e.line, e.col+1 }

func (e *yEmit) p(x float64) bool { return e.r != nil && e.r.Float64() < x }

func (e *yEmit) gap(indent int) {
	if e.p(e.gaps) {
		if e.r.Intn(2) == 0 {
			e.w("\n")
		} else {
			e.w(strings.Repeat("  ", e.r.Intn(indent+1)) + "# " + pick(e.r, "note", "cmd: true", "- x", "tasks:", "'", "\"") + "\n")
		}
	}
}

var literalSafe = regexp.MustCompile(`^[\x21-\x7e][\x20-\x7e]*(\n[\x21-\x7e][\x20-\x7e]*)*$`)

func (e *yEmit) scalar(y *Y) string {
	if y.K == yRaw {
		return y.S
	}
	em := &emitter{r: e.r}
	return em.scalar(y.S)
}

func (e *yEmit) anchor(y *Y) string {
	if y.Anchor != "" {
		return "&" + y.Anchor + " "
	}
	return ""
}

// inline writes the node on the current line.
func (e *yEmit) inline(y *Y) {
	e.at(y)
	e.w(e.anchor(y))
	switch y.K {
	case yAlias:
		e.w("*" + y.To.Anchor)
	case yStr, yRaw:
		if y.K == yStr && e.r == nil {
			e.w(dq(y.S))
			return
		}
		s := e.scalar(y)
		if y.K == yStr && y.Flow {
			s = dq(y.S)
		}
		e.w(s)
	case yMap:
		e.w("{")
		for i := range y.Keys {
			if i > 0 {
				e.w(", ")
			}
			e.key(y.Keys[i])
			e.w(": ")
			e.inlineSafe(y.Vals[i])
		}
		e.w("}")
	case ySeq:
		e.w("[")
		for i := range y.Vals {
			if i > 0 {
				e.w(", ")
			}
			e.inlineSafe(y.Vals[i])
		}
		e.w("]")
	}
}

// inlineSafe writes strings in quotes, as flow collections need it.
func (e *yEmit) inlineSafe(y *Y) {
	if y.K == yStr {
		e.at(y)
		e.w(e.anchor(y) + dq(y.S))
		return
	}
	e.inline(y)
}

func (e *yEmit) key(k *Y) {
	e.at(k)
	e.w(e.anchor(k))
	switch {
	case k.K == yAlias:
		e.w("*" + k.To.Anchor + " ")
	case k.K == yRaw:
		e.w(k.S)
	case plainSafe.MatchString(k.S) && !isYAMLWord(k.S) && !e.p(0.15):
		e.w(k.S)
	case sqSafe.MatchString(k.S) && e.p(0.3):
		e.w("'" + strings.ReplaceAll(k.S, "'", "''") + "'")
	default:
		e.w(dq(k.S))
	}
}

func (e *yEmit) block(y *Y) bool {
	if y.K != yMap && y.K != ySeq || len(y.Vals) == 0 || y.Flow {
		return false
	}
	n := 0
	deep := false
	y.walk(func(c *Y) {
		n++
		if c.K == yStr && strings.Contains(c.S, "\n") {
			deep = true
		}
	})
	return deep || n > 12 || !e.p(e.flow)
}

// value writes a node after "key:" or "-", with its own lines indented.
func (e *yEmit) value(y *Y, indent int, afterDash bool) {
	if y.K == yStr && y.Anchor == "" && strings.Contains(y.S, "\n") && literalSafe.MatchString(y.S) && e.p(0.5) {
		e.w(" ")
		e.at(y)
		e.w("|-\n")
		for _, l := range strings.Split(y.S, "\n") {
			e.w(strings.Repeat("  ", indent) + l + "\n")
		}
		return
	}
	if !e.block(y) {
		e.w(" ")
		e.inline(y)
		e.w("\n")
		return
	}
	if y.Anchor != "" {
		e.w(" &" + y.Anchor)
	}
	first := false
	if afterDash && y.Anchor == "" {
		e.w(" ")
		first = true
	} else {
		e.w("\n")
	}
	e.entries(y, indent, first)
}

func (e *yEmit) entries(y *Y, indent int, onLine bool) {
	for i := range y.Vals {
		if !onLine {
			e.gap(indent)
			e.w(strings.Repeat("  ", indent))
		}
		onLine = false
		if i == 0 {
			e.at(y)
		}
		if y.K == yMap {
			e.key(y.Keys[i])
			e.w(":")
			e.value(y.Vals[i], indent+1, false)
		} else {
			e.w("-")
			e.value(y.Vals[i], indent+1, true)
		}
	}
}

// Emit renders the tree. Without a generator the spelling is always the same.
func (y *Y) Emit(r *randT) string {
	e := &yEmit{line: 1, r: r}
	if r != nil {
		e.flow = []float64{0, 0.2, 0.6}[r.Intn(3)]
		e.gaps = []float64{0, 0, 0.1}[r.Intn(3)]
		if r.Intn(6) == 0 {
			e.w("---\n")
		}
	}
	if y.K == yMap || y.K == ySeq {
		if len(y.Vals) > 0 {
			e.entries(y, 0, false)
			return e.b.String()
		}
	}
	e.inline(y)
	e.w("\n")
	return e.b.String()
}

// Trees is a project as trees.
type Trees map[string]*Y

func (p *Project) Trees() Trees {
	t := Trees{}
	for k, f := range p.Files {
		t[k] = f.Tree()
	}
	return t
}

func (t Trees) Write(dir string, r *randT) (map[string]string, error) {
	text := map[string]string{}
	for _, k := range sortedKeys(t) {
		text[k] = t[k].Emit(r)
		full := filepath.Join(dir, k)
		if err := os.MkdirAll(filepath.Dir(full), 0o755); err != nil {
			return nil, err
		}
		if err := os.WriteFile(full, []byte(text[k]), 0o644); err != nil {
			return nil, err
		}
	}
	return text, nil
}
