package main

// C29: the JSON schema and the parser agree.

import (
	"bufio"
	_ "embed"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

// schemaJudge validates documents with a JSON schema validator in one process.
type schemaJudge struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

const judgePy = `
import sys, json, jsonschema
schema = json.load(open(sys.argv[1]))
jsonschema.Draft7Validator.check_schema(schema)
v = jsonschema.Draft7Validator(schema)
print("ready", flush=True)
for line in sys.stdin:
    doc = json.loads(line)
    errs = [("/".join(str(p) for p in e.absolute_path) + ": " + e.message)[:300] for e in v.iter_errors(doc)]
    print(json.dumps(errs[:3]), flush=True)
`

func newJudge(schema string) (*schemaJudge, error) {
	cmd := exec.Command("/opt/veriftools/pyvenv/bin/python3", "-c", judgePy, schema)
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	j := &schemaJudge{cmd: cmd, in: in, out: bufio.NewReader(out)}
	if l, err := j.out.ReadString('\n'); err != nil || l != "ready\n" {
		j.close()
		return nil, fmt.Errorf("the validator does not start: %q %v", l, err)
	}
	return j, nil
}

func (j *schemaJudge) close() {
	_ = j.in.Close()
	_ = j.cmd.Process.Kill()
	_ = j.cmd.Wait()
}

// errors returns what the schema has against a document.
func (j *schemaJudge) errors(doc string) ([]string, error) {
	j.mu.Lock()
	defer j.mu.Unlock()
	if strings.Contains(doc, "\n") {
		return nil, fmt.Errorf("newline in document")
	}
	if _, err := io.WriteString(j.in, doc+"\n"); err != nil {
		return nil, err
	}
	l, err := j.out.ReadString('\n')
	if err != nil {
		return nil, err
	}
	var errs []string
	return errs, json.Unmarshal([]byte(l), &errs)
}

var (
	jsonInt   = regexp.MustCompile(`^-?(0|[1-9][0-9]*)$`)
	jsonFloat = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)
)

// JSON renders the tree as the JSON document that YAML makes of it.
func (y *Y) JSON() string {
	str := func(s string) string {
		b, _ := json.Marshal(s)
		return string(b)
	}
	switch y.K {
	case yMap:
		var l []string
		for i, k := range y.Keys {
			l = append(l, str(k.S)+":"+y.Vals[i].JSON())
		}
		return "{" + strings.Join(l, ",") + "}"
	case ySeq:
		var l []string
		for _, v := range y.Vals {
			l = append(l, v.JSON())
		}
		return "[" + strings.Join(l, ",") + "]"
	case yAlias:
		return y.To.JSON()
	case yRaw:
		if y.S == "true" || y.S == "false" || y.S == "null" || jsonInt.MatchString(y.S) || jsonFloat.MatchString(y.S) {
			return y.S
		}
	}
	return str(y.S)
}

// docForms describes the forms the documentation promises, as they are known here.
//
//go:embed docforms.json
var docForms []byte

// schemaGen makes documents from a schema.
type schemaGen struct {
	r     *rand.Rand
	root  map[string]any
	opt   float64
	depth int
	full  bool // every optional key
}

var stringPool = []string{"", "x", "a b", "echo hi", "true", "3", "é✓", "a: b", "- x", "# no", "'q'", `"q"`, "line\nbreak", "*star", "{x}", "[y]", "~", "null", "0x1", "1e3", " padded ", "%", "@at", "`",
	" ", "\t", "\n", "  ", "\u00a0", ".", "0", "false", "\\", "${{ x }}", "$${{ y }}", "${{", "\a", "日本", "--", "=", "a=b", "1.5", "-7", "yes", "1_000", "2024-01-01", "?", "!x", "&x", strings.Repeat("long ", 60)}

var namePool = []string{"a", "A_b-1", "ns:sub", "1", "-", "_x", "x:y:z", "build", "test-all", "0", "true", "B", "v1_2", "Q9", "PATH", "linux", "inc1/Babfile.yml", "sub/dir/babfile.yaml", "./Babfile.yml", "Babfile.prod.yaml", "no", "null", strings.Repeat("n", 200), "1e3", "0x1F", "a-", "_", "yes"}

func (g *schemaGen) resolve(s any) map[string]any {
	for {
		m, ok := s.(map[string]any)
		if !ok {
			return map[string]any{}
		}
		ref, ok := m["$ref"].(string)
		if !ok {
			return m
		}
		var at any = g.root
		for _, p := range strings.Split(strings.TrimPrefix(ref, "#/"), "/") {
			mm, _ := at.(map[string]any)
			at = mm[p]
		}
		s = at
	}
}

func num(m map[string]any, key string, dflt int) int {
	if f, ok := m[key].(float64); ok {
		return int(f)
	}
	return dflt
}

func (g *schemaGen) str(m map[string]any) string {
	var re *regexp.Regexp
	pool := stringPool
	if p, ok := m["pattern"].(string); ok {
		re, _ = regexp.Compile(p)
		pool = namePool
	}
	for i := 0; i < 200; i++ {
		s := pool[g.r.Intn(len(pool))]
		if len([]rune(s)) >= num(m, "minLength", 0) && (re == nil || re.MatchString(s)) {
			return s
		}
	}
	return pool[0]
}

func (g *schemaGen) gen(s any) *Y {
	g.depth++
	defer func() { g.depth-- }()
	m := g.resolve(s)
	for _, k := range []string{"oneOf", "anyOf"} {
		if l, ok := m[k].([]any); ok && len(l) > 0 {
			return g.gen(l[g.r.Intn(len(l))])
		}
	}
	if l, ok := m["enum"].([]any); ok && len(l) > 0 {
		switch v := l[g.r.Intn(len(l))].(type) {
		case string:
			return ys(v)
		default:
			return yraw(fmt.Sprint(v))
		}
	}
	typ, _ := m["type"].(string)
	if l, ok := m["type"].([]any); ok && len(l) > 0 {
		typ, _ = l[g.r.Intn(len(l))].(string)
	}
	switch typ {
	case "boolean":
		return yraw(pick(g.r, "true", "false"))
	case "integer":
		min := num(m, "minimum", -1000)
		return yraw(pick(g.r, fmt.Sprint(min), fmt.Sprint(min+1), fmt.Sprint(min+g.r.Intn(50)), "0", "1", "2.0", "1e1", "2147483647"))
	case "number":
		return yraw(pick(g.r, "0", "1", "1.5"))
	case "array":
		n := num(m, "minItems", 0)
		if more := []int{0, 1, 1, 2, 3}[g.r.Intn(5)]; more > 0 {
			n += more
		}
		seq := yseq()
		seen := map[string]bool{}
		for try := 0; len(seq.Vals) < n && try < 20; try++ {
			v := g.gen(m["items"])
			if u, _ := m["uniqueItems"].(bool); u && seen[v.JSON()] {
				continue
			}
			seen[v.JSON()] = true
			seq.Vals = append(seq.Vals, v)
		}
		return seq
	case "object":
		y := ymap()
		req := map[string]bool{}
		if l, ok := m["required"].([]any); ok {
			for _, k := range l {
				if s, ok := k.(string); ok {
					req[s] = true
				}
			}
		}
		props, _ := m["properties"].(map[string]any)
		keys := sortedKeys(props)
		g.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		for _, k := range keys {
			if req[k] || g.full || g.r.Float64() < g.opt {
				y.put(k, g.gen(props[k]))
			}
		}
		if extra, ok := m["additionalProperties"].(map[string]any); ok {
			n := num(m, "minProperties", 0) + g.r.Intn(4)
			for try := 0; len(y.Keys) < n && try < 20; try++ {
				k := pick(g.r, stringPool...)
				if pn, ok := m["propertyNames"]; ok {
					k = g.str(g.resolve(pn))
				}
				if y.get(k) == nil && k != "" {
					y.put(k, g.gen(extra))
				}
			}
		}
		return y
	}
	return ys(g.str(m))
}

// relate makes a document keep the rules that relate several values, which a
// schema does not state: references, unique names, prompt types, files.
func relate(r *rand.Rand, doc *Y) (includes []string) {
	if inc := doc.get("includes"); inc != nil {
		for i, v := range inc.Vals {
			inc.Keys[i].S = fmt.Sprintf("inc%d%s", i, pick(r, "", ":sub", "-x", "_Y"))
			if p := v.get("babfile"); p != nil && p.K == yStr {
				p.S = fmt.Sprintf("inc%d/%s", i, pick(r, "Babfile.yml", "babfile.yaml", "Babfile.prod.yml", "myBabfile.yaml"))
				includes = append(includes, p.S)
			}
		}
	}
	tasks := doc.get("tasks")
	if tasks == nil {
		return
	}
	nalias := 0
	alias := func() string {
		nalias++
		return pick(r, "al", "AL-", "al_", "z:al") + fmt.Sprint(nalias)
	}
	for ti, t := range tasks.Vals {
		ref := func() string {
			if ti == 0 || len(includes) > 0 && r.Intn(2) == 0 {
				if len(includes) > 0 {
					i := r.Intn(len(includes))
					return doc.get("includes").Keys[i].S + ":go"
				}
				return ""
			}
			return tasks.Keys[r.Intn(ti)].S
		}
		if a := t.get("alias"); a != nil {
			a.S = alias()
		}
		if a := t.get("aliases"); a != nil {
			for _, v := range a.Vals {
				v.S = alias()
			}
		}
		if d := t.get("deps"); d != nil {
			var l []*Y
			seen := map[string]bool{}
			for range d.Vals {
				if s := ref(); s != "" && !seen[s] {
					seen[s] = true
					l = append(l, ys(s))
				}
			}
			d.Vals = l
		}
		var items func(l *Y)
		items = func(l *Y) {
			for _, it := range l.Vals {
				if v := it.get("task"); v != nil {
					if s := ref(); s != "" {
						v.S = s
					} else {
						it.replace(ymap("cmd", ys("true")))
					}
				}
				if it.get("prompt") != nil {
					relatePrompt(r, it)
				}
				if p := it.get("parallel"); p != nil && p.K == ySeq {
					items(p)
				}
			}
		}
		if run := t.get("run"); run != nil && run.K == ySeq {
			items(run)
		}
	}
	return
}

func relatePrompt(r *rand.Rand, it *Y) {
	typ := ""
	if t := it.get("type"); t != nil {
		typ = t.S
	}
	sel := typ == "select" || typ == "multiselect"
	if !sel {
		it.del("options")
	} else if it.get("options") == nil {
		it.put("options", yseq(ys("red"), ys("green")))
	}
	if typ != "multiselect" {
		it.del("defaults")
	} else if d := it.get("defaults"); d != nil {
		opts := it.get("options").Vals
		for i := range d.Vals {
			d.Vals[i] = opts[r.Intn(len(opts))].clone()
		}
	}
	if typ != "input" {
		it.del("validate")
	} else if v := it.get("validate"); v != nil {
		v.S = pick(r, "", "^[a-z]+$", "x|y", `\d{1,3}`, "é")
	}
	if typ != "password" {
		it.del("confirm")
	}
	if d := it.get("default"); d != nil {
		switch typ {
		case "select":
			opts := it.get("options").Vals
			it.set("default", opts[r.Intn(len(opts))].clone())
		case "number":
			if d.K == yStr {
				d.S = pick(r, "0", "7", "-3")
			} else if d.S == "true" || d.S == "false" {
				it.set("default", ys("12"))
			} else {
				d.S = fmt.Sprint(r.Intn(100) - 20)
			}
		}
	}
	if lo, hi := it.get("min"), it.get("max"); lo != nil && hi != nil {
		a, _ := strconv.ParseFloat(lo.S, 64)
		b, _ := strconv.ParseFloat(hi.S, 64)
		if a > b {
			*lo, *hi = *hi, *lo
		}
	}
}

// relational are the mutators whose mistake lies in how values relate.
var relational = map[string]bool{
	"selection without options": true, "options of no selection": true, "defaults of no multiselect": true,
	"validate of no input": true, "confirm of no password": true, "default that is no option": true,
	"defaults that are no options": true, "default that is not an integer": true, "min above max": true,
	"invalid pattern": true, "duplicate task": true, "include of nothing": true, "value that contains itself": true,
}

func init() {
	register("C29", "a program built into the module prints the generated schema, which must equal schema/babfile.schema.json; every YAML block of the documentation, random projects in documented forms, documents generated from the schema itself and from a copy of the documented forms (all branches, empty and extreme values) and projects with one structural mistake are judged by a JSON schema validator and by bab --validate: documented forms must pass both, and what the schema accepts the parser must accept; non-trivial when a document was judged by both",
		func(c *Ctx) {
			c.Bab()
			file := filepath.Join(c.Repo, "schema", "babfile.schema.json")
			j, err := newJudge(file)
			if err != nil {
				c.Each("file", 1, func(cs *Case) {
					cs.Case("schema file")
					cs.Fail("the published schema is not a usable JSON schema: %v", err)
				})
				return
			}
			defer j.close()
			var root map[string]any
			data, _ := os.ReadFile(file)
			if err := json.Unmarshal(data, &root); err != nil {
				return
			}
			c.Each("file", 1, func(cs *Case) { cs.schemaFile(data) })
			blocks := docBlocks(c.Repo)
			c.Each("docs", len(blocks), func(cs *Case) { cs.schemaDoc(j, blocks[cs.I]) })
			c.Each("forms", c.N(300, 6000), func(cs *Case) { cs.schemaForms(j) })
			c.Each("made", c.N(1500, 30000), func(cs *Case) { cs.schemaMade(nil, j, root) })

			own := filepath.Join(c.Work, "docforms.json")
			var forms map[string]any
			if os.WriteFile(own, docForms, 0o644) != nil || json.Unmarshal(docForms, &forms) != nil {
				return
			}
			j2, err := newJudge(own)
			if err != nil {
				return
			}
			defer j2.close()
			c.Each("promised", c.N(1500, 30000), func(cs *Case) { cs.schemaMade(j2, j, forms) })
		}, "rules that relate several values (references, cycles, the keys of each prompt type, options, ranges, patterns, files) are left out", "integers beyond 32 bits are left out")
}

// generated runs the generator of the module under test.
func (c *Ctx) generatedSchema(dir string) ([]byte, error) {
	main := filepath.Join(dir, "main.go")
	if err := os.WriteFile(main, []byte(`package main

import (
	"encoding/json"
	"os"

	"github.com/bab-sh/bab/internal/schema"
)

func main() {
	if err := json.NewEncoder(os.Stdout).Encode(schema.GenerateSchema()); err != nil {
		panic(err)
	}
}
`), 0o644); err != nil {
		return nil, err
	}
	ov := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(c.Repo, "verifschemagen", "main.go"): main}})
	if err := os.WriteFile(ov, b, 0o644); err != nil {
		return nil, err
	}
	cmd := exec.Command("go", "run", "-overlay", ov, "./verifschemagen")
	cmd.Dir = c.Repo
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("%v: %s", err, errb.String())
	}
	return out, nil
}

func (cs *Case) schemaFile(data []byte) {
	out, err := cs.generatedSchema(cs.Dir)
	if err != nil {
		cs.Inconclusive("cannot run the schema generator: " + clip(err.Error(), 300))
		return
	}
	cs.Case("schema file")
	var a, b any
	if err := json.Unmarshal(out, &a); err != nil {
		cs.Fail("the generated schema is no JSON: %v", err)
		return
	}
	_ = json.Unmarshal(data, &b)
	cs.Obs("schema file compared", 1)
	if !reflect.DeepEqual(a, b) {
		cs.Fail("schema/babfile.schema.json differs from the schema generated from the code:\n%s", jsonDiff("", b, a))
	}
}

// jsonDiff names the places where two documents differ.
func jsonDiff(at string, a, b any) string {
	am, ok1 := a.(map[string]any)
	bm, ok2 := b.(map[string]any)
	if ok1 && ok2 {
		var out []string
		keys := map[string]bool{}
		for k := range am {
			keys[k] = true
		}
		for k := range bm {
			keys[k] = true
		}
		for _, k := range sortedKeys(keys) {
			if d := jsonDiff(at+"/"+k, am[k], bm[k]); d != "" {
				out = append(out, d)
			}
		}
		return strings.Join(out, "\n")
	}
	if reflect.DeepEqual(a, b) {
		return ""
	}
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return fmt.Sprintf("%s: %s, generated %s", at, clip(string(x), 200), clip(string(y), 200))
}

type docBlock struct {
	file string
	line int
	text string
}

// docBlocks collects the YAML blocks of the documentation.
func docBlocks(repo string) (out []docBlock) {
	files := []string{filepath.Join(repo, "README.md")}
	_ = filepath.Walk(filepath.Join(repo, "docs", "content"), func(p string, info os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, ".md") {
			files = append(files, p)
		}
		return nil
	})
	for _, f := range files {
		data, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		var cur []string
		in, start := false, 0
		for i, l := range strings.Split(string(data), "\n") {
			t := strings.TrimSpace(l)
			switch {
			case !in && (strings.HasPrefix(t, "```yaml") || strings.HasPrefix(t, "```yml")):
				in, start, cur = true, i+1, nil
			case in && strings.HasPrefix(t, "```"):
				in = false
				rel, _ := filepath.Rel(repo, f)
				out = append(out, docBlock{rel, start, strings.Join(cur, "\n") + "\n"})
			case in:
				cur = append(cur, l)
			}
		}
	}
	return
}

const yamlPy = `
import sys, json, yaml
class L(yaml.SafeLoader): pass
L.yaml_implicit_resolvers = {k: [(t, r) for t, r in v if t in ("tag:yaml.org,2002:bool", "tag:yaml.org,2002:int", "tag:yaml.org,2002:float", "tag:yaml.org,2002:null", "tag:yaml.org,2002:merge")] for k, v in yaml.SafeLoader.yaml_implicit_resolvers.items()}
print(json.dumps(yaml.load(sys.stdin.read(), L)))
`

func yamlToJSON(text string) (string, error) {
	cmd := exec.Command("/opt/veriftools/pyvenv/bin/python3", "-c", yamlPy)
	cmd.Stdin = strings.NewReader(text)
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if err != nil {
		return "", fmt.Errorf("%s", clip(errb.String(), 1500))
	}
	return strings.TrimSpace(string(out)), nil
}

// schemaDoc judges one YAML block of the documentation. The tasks and files it
// refers to without defining them are made up.
func (cs *Case) schemaDoc(j *schemaJudge, b docBlock) {
	cs.Case(b.file + b.text)
	where := fmt.Sprintf("%s:%d", b.file, b.line)
	doc, err := yamlToJSON(b.text)
	if err != nil {
		cs.Fail("the documentation shows a Babfile that is no YAML (%s): %v\n%s", where, err, b.text)
		return
	}
	var v map[string]any
	if json.Unmarshal([]byte(doc), &v) != nil {
		cs.Obs("documentation blocks that are no Babfile", 1)
		return
	}
	for _, k := range sortedKeys(v) {
		if !contains([]string{"vars", "env", "silent", "output", "dir", "tasks", "includes"}, k) {
			cs.Obs("documentation blocks that are no Babfile", 1)
			return
		}
	}
	errs, err := j.errors(doc)
	if err != nil {
		cs.Inconclusive("validator failed")
		return
	}
	if len(errs) > 0 {
		cs.Fail("the schema rejects a Babfile the documentation shows (%s): %s\n%s", where, strings.Join(errs, "; "), b.text)
		return
	}
	cs.Obs("documentation blocks accepted by the schema", 1)
	if err := os.WriteFile(filepath.Join(cs.Dir, "Babfile"), []byte(b.text), 0o644); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	if inc, ok := v["includes"].(map[string]any); ok {
		for _, x := range inc {
			m, _ := x.(map[string]any)
			p, _ := m["babfile"].(string)
			full := filepath.Join(cs.Dir, p)
			if p == "" || !strings.HasPrefix(full, cs.Dir+"/") {
				cs.Obs("documentation blocks whose includes lie outside", 1)
				return
			}
			_ = os.MkdirAll(filepath.Dir(full), 0o755)
			_ = os.WriteFile(full, []byte("tasks: {}\n"), 0o644)
		}
	}
	res := cs.Bab(Run{Dir: cs.Dir, Args: []string{"--validate"}})
	if !cs.healthy(res, "validate") {
		return
	}
	if res.Code != 0 && !strings.Contains(res.Err, "not found") {
		cs.Fail("bab rejects a Babfile the documentation shows (%s): %s\n%s", where, res.Err, b.text)
		return
	}
	cs.Obs("documentation blocks judged by bab", 1)
}

// schemaForms judges random documented projects, whole and broken.
func (cs *Case) schemaForms(j *schemaJudge) {
	r := cs.R
	g := newGen(r, parseProf())
	proj := g.Generate()
	root := filepath.Join(cs.Dir, "proj")
	for _, d := range g.Dirs {
		_ = os.MkdirAll(filepath.Join(root, d), 0o755)
	}
	t := proj.Trees()
	twist(r, t)
	for _, k := range sortedKeys(t) {
		t[k].walk(func(n *Y) {
			if n.Role == "item" || n.Role == "paritem" || n.Role == "task" || n.Role == "root" {
				if e := n.get("env"); e != nil && e.K == yMap {
					for _, v := range e.Vals {
						v.K = yStr
					}
				}
			}
			if n.Role == "task" {
				if run := n.get("run"); run != nil && len(run.Vals) == 0 {
					n.del("run") // the schema wants items, the parser does not mind
				}
			}
		})
	}
	text, err := t.Write(root, r)
	if err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	cs.Case(showFiles(text))
	verdict := func(y *Y) ([]string, bool) {
		c := y.clone()
		c.walk(func(n *Y) {
			if n.Role == "incpath" && n.K == yStr { // the generator also uses names without an extension
				if ok, _ := regexp.MatchString(`[Bb]abfile(\..*)?\.(ya?ml)$`, n.S); !ok {
					n.S += "/Babfile.yml"
				}
			}
		})
		errs, err := j.errors(c.JSON())
		if err != nil {
			cs.Inconclusive("validator failed")
			return nil, false
		}
		return errs, true
	}
	for _, k := range sortedKeys(t) {
		if len(t[k].get("tasks").Vals) == 0 {
			continue
		}
		errs, ok := verdict(t[k])
		if !ok {
			return
		}
		if len(errs) > 0 {
			cs.Fail("the schema rejects %s, which holds documented forms only: %s\n%s", k, strings.Join(errs, "; "), text[k])
			return
		}
		cs.Obs("documented files accepted by the schema", 1)
	}
	res := cs.Bab(Run{Dir: root, Args: []string{"--validate"}})
	if !cs.healthy(res, "validate") {
		return
	}
	if res.Code != 0 {
		cs.Fail("bab rejects documented forms: %s\n%s", res.Err, showFiles(text))
		return
	}
	name, file, _ := cs.breakTree(t)
	if name == "" || relational[name] {
		cs.Obs("mistakes the schema cannot state", 1)
		return
	}
	if text, err = t.Write(root, r); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	errs, ok := verdict(t[file])
	if !ok {
		return
	}
	res = cs.Bab(Run{Dir: root, Args: []string{"--validate"}})
	if !cs.healthy(res, "validate") {
		return
	}
	cs.Obs("structural mistakes judged by both", 1)
	if len(errs) == 0 && res.Code != 0 {
		cs.Fail("the schema accepts what bab rejects (%s in %s): %s\n%s", name, file, res.Err, text[file])
	}
}

// schemaMade judges a document made from a schema: from the published one, or
// from the promised forms, which the published one has to accept.
func (cs *Case) schemaMade(promised, j *schemaJudge, root map[string]any) {
	r := cs.R
	g := &schemaGen{r: r, root: root, opt: pick(r, 0.1, 0.4, 0.8), full: r.Intn(8) == 0}
	doc := g.gen(root)
	if doc.K != yMap {
		cs.Inconclusive("the schema describes no mapping")
		return
	}
	incs := relate(r, doc)
	if len(doc.Keys) == 0 {
		doc.put("tasks", ymap("only", ymap("run", yseq(ymap("cmd", ys("true"))))))
	}
	errs, err := j.errors(doc.JSON())
	if err != nil {
		cs.Inconclusive("validator failed")
		return
	}
	if promised != nil {
		own, err := promised.errors(doc.JSON())
		if err != nil {
			cs.Inconclusive("validator failed")
			return
		}
		if len(own) == 0 && len(errs) > 0 {
			cs.Case(doc.JSON())
			cs.Fail("the schema rejects documented forms: %s\n%s", strings.Join(errs, "; "), doc.JSON())
			return
		}
	}
	if len(errs) > 0 {
		cs.Obs("made documents the schema rejects", 1)
		return
	}
	for _, p := range incs {
		full := filepath.Join(cs.Dir, p)
		_ = os.MkdirAll(filepath.Dir(full), 0o755)
		_ = os.WriteFile(full, []byte("tasks: {go: {run: [cmd: 'true']}}\n"), 0o644)
	}
	doc.link()
	text := doc.Emit(r)
	if err := os.WriteFile(filepath.Join(cs.Dir, "Babfile"), []byte(text), 0o644); err != nil {
		cs.Inconclusive("cannot write project")
		return
	}
	cs.Case(text)
	if cs.I < 3 {
		cs.Sample(map[string]any{"text": clip(text, 1500)})
	}
	doc.walk(func(n *Y) {
		for _, k := range n.Keys {
			if n.K == yMap && (contains(namePool, k.S) || contains(stringPool, k.S)) {
				continue
			}
			cs.Obs("key "+strings.TrimRight(k.S, "0123456789"), 1)
		}
	})
	res := cs.Bab(Run{Dir: cs.Dir, Args: []string{"--validate"}})
	if !cs.healthy(res, "validate") {
		return
	}
	cs.Obs("made documents judged by both", 1)
	if res.Code != 0 {
		cs.Fail("bab rejects what the schema accepts: %s\n%s\n%s", res.Err, text, doc.JSON())
	}
}
