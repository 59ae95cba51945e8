package main

// Check context: seeds, work directory, builds, evidence, verdicts.

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Violation struct {
	Case string `json:"case"`
	Key  string `json:"key"`
	Msg  string `json:"msg"`
	Dir  string `json:"dir"`
}

type Ctx struct {
	ID, Tier    string
	Seed        int64
	Work        string
	Verif, Repo string
	Only        string // run a single case
	Rec         string

	mu        sync.Mutex
	evals     int
	distinct  map[string]bool
	samples   []any
	obs       map[string]int
	viol      []Violation
	known     map[string]string
	knownSeen map[string]bool
	incon     map[string]int
	builds    map[string]string
	start     time.Time
	rule      string
	assume    []string
	maxViol   int

	race  bool // bab is built with the race detector
	muted bool // workloads borrowed from other checks: their verdicts do not count
	onRes func(cs *Case, r *Res)
}

const level = "exploration"

func newCtx(id string) (*Ctx, error) {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		} else {
			h := fnv.New64a()
			h.Write([]byte(s))
			seed = int64(h.Sum64() >> 1)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	verif := os.Getenv("VMON_VERIF")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VMON_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		return nil, err
	}
	work, err = filepath.EvalSymlinks(work)
	if err != nil {
		return nil, err
	}
	_ = os.Chmod(work, 0o755)
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Work: work, Verif: verif, Repo: repo, Only: os.Getenv("VMON_CASE"),
		distinct: map[string]bool{}, obs: map[string]int{}, known: map[string]string{}, knownSeen: map[string]bool{},
		incon: map[string]int{}, builds: map[string]string{}, start: time.Now(), maxViol: 3}
	c.loadKnown()
	return c, nil
}

// Close removes what the check created, except replays.
func (c *Ctx) Close() {
	if os.Getenv("VMON_KEEP") != "" {
		fmt.Println("work kept at", c.Work)
		return
	}
	_ = filepath.Walk(c.Work, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() {
			_ = os.Chmod(p, 0o755)
		}
		return nil
	})
	_ = os.RemoveAll(c.Work)
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// N picks the number of cases for the tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rng derives the generator of one case from the seed.
func (c *Ctx) Rng(name string, i int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d", c.ID, name, i, c.Seed)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func (c *Ctx) loadKnown() {
	data, err := os.ReadFile(filepath.Join(c.Verif, "known-findings.json"))
	if err != nil {
		return
	}
	var f struct {
		Findings []struct{ Property, Key, What string } `json:"findings"`
	}
	if err := json.Unmarshal(data, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known-findings.json:", err)
		return
	}
	for _, k := range f.Findings {
		if k.Property == c.ID {
			c.known[k.Key] = k.What
		}
	}
}

// Case counts one evaluated case. The key identifies it for the distinct count;
// an empty key means the case was trivial.
func (c *Ctx) Case(key string) {
	if !c.muted {
		c.count(key)
	}
}

func (c *Ctx) count(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key == "" {
		return
	}
	s := sha256.Sum256([]byte(key))
	c.distinct[hex.EncodeToString(s[:8])] = true
}

// Sample keeps a few written-out cases for the evidence.
func (c *Ctx) Sample(v any) {
	if !c.muted {
		c.sample(v)
	}
}

func (c *Ctx) sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 4 {
		c.samples = append(c.samples, v)
	}
}

func (c *Ctx) Obs(name string, n int) {
	c.mu.Lock()
	c.obs[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Inconclusive(why string) {
	c.mu.Lock()
	if !c.muted {
		c.incon[why]++
	}
	c.mu.Unlock()
}

func (c *Ctx) Stopped() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol) >= c.maxViol
}

// Violate records a violation. The key names the specific failing input when it
// may be listed as a known finding; dir is copied into the replay directory.
func (c *Ctx) Violate(caseName, key, dir, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	c.mu.Lock()
	defer c.mu.Unlock()
	if key != "" {
		if what, ok := c.known[key]; ok {
			if !c.knownSeen[key] {
				c.knownSeen[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
			}
			return
		}
	}
	if len(c.viol) >= c.maxViol {
		return
	}
	rd := filepath.Join(c.Verif, "replays", fmt.Sprintf("%s-%s", c.ID, sanitizeName(caseName)))
	_ = os.RemoveAll(rd)
	_ = os.MkdirAll(rd, 0o755)
	if dir != "" {
		_ = exec.Command("cp", "-a", dir, filepath.Join(rd, "case")).Run()
	}
	text := fmt.Sprintf("property %s\ncase %s\nseed %d tier %s\nrerun: VERIF_SEED=%d VERIF_TIER=%s VMON_CASE=%s ./run.sh %s\n\n%s\n",
		c.ID, caseName, c.Seed, c.Tier, c.Seed, c.Tier, caseName, c.ID, msg)
	_ = os.WriteFile(filepath.Join(rd, "violation.txt"), []byte(text), 0o644)
	c.viol = append(c.viol, Violation{caseName, key, msg, rd})
	fmt.Printf("%s: case %s: %s\n", c.ID, caseName, clip(msg, 3000))
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func sanitizeName(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '-'
	}, s)
}

// Each runs the cases name/0..n-1 on all cores. The case function gets its own
// generator and an empty directory, which is removed afterwards.
func (c *Ctx) Each(name string, n int, f func(cs *Case)) { c.EachP(name, n, runtime.NumCPU(), f) }

func (c *Ctx) EachP(name string, n, par int, f func(cs *Case)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				if c.Stopped() {
					continue
				}
				c.runCase(name, i, f)
			}
		}()
	}
	for i := 0; i < n; i++ {
		if c.Only != "" && c.Only != fmt.Sprintf("%s/%d", name, i) {
			continue
		}
		ch <- i
	}
	close(ch)
	wg.Wait()
}

type Case struct {
	*Ctx
	Name string
	I    int
	R    *rand.Rand
	Dir  string // scratch directory of the case
	runs int
	bad  bool
}

func (c *Ctx) runCase(name string, i int, f func(cs *Case)) {
	dir, err := os.MkdirTemp(c.Work, "c")
	if err != nil {
		c.Inconclusive("cannot create case directory")
		return
	}
	cs := &Case{Ctx: c, Name: fmt.Sprintf("%s/%d", name, i), I: i, R: c.Rng(name, i), Dir: dir}
	defer func() {
		if os.Getenv("VMON_KEEP") == "" {
			_ = os.RemoveAll(dir)
		}
	}()
	f(cs)
}

func (cs *Case) Fail(format string, a ...any) {
	cs.bad = true
	if !cs.muted {
		cs.Violate(cs.Name, "", cs.Dir, format, a...)
	}
}

func (cs *Case) FailKey(key, format string, a ...any) {
	cs.bad = true
	if !cs.muted {
		cs.Violate(cs.Name, key, cs.Dir, format, a...)
	}
}

// Build compiles bab from the working tree of the repository.
func (c *Ctx) Build(tag string, flags ...string) string {
	c.mu.Lock()
	if p, ok := c.builds[tag]; ok {
		c.mu.Unlock()
		return p
	}
	c.mu.Unlock()
	out := filepath.Join(c.Work, "bab-"+tag)
	args := append([]string{"build", "-o", out}, flags...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = c.Repo
	if o, err := cmd.CombinedOutput(); err != nil {
		fmt.Fprintf(os.Stderr, "building bab (%s): %v\n%s\n", tag, err, o)
		c.Close()
		os.Exit(2)
	}
	c.mu.Lock()
	c.builds[tag] = out
	c.mu.Unlock()
	return out
}

func (c *Ctx) Bab() string     { return c.Build("plain") }
func (c *Ctx) BabRace() string { return c.Build("race", "-race") }

// Finish writes the evidence and returns the exit status.
func (c *Ctx) Finish() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
		"observed":            c.obs,
	}
	if len(c.incon) > 0 {
		cov["inconclusive"] = c.incon
	}
	if len(c.knownSeen) > 0 {
		var ks []string
		for k := range c.knownSeen {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_seen"] = ks
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": level, "coverage": cov,
		"assumptions": c.assume, "wall_s": float64(int(time.Since(c.start).Seconds()*100)) / 100,
		"violations": len(c.viol),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		return 2
	}
	for _, v := range c.viol {
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, v.Dir)
	}
	fmt.Printf("%s %s: %d evaluations, %d distinct non-trivial, %d violations, observed %v, inconclusive %v, %.1fs\n",
		c.ID, c.Tier, c.evals, len(c.distinct), len(c.viol), c.obs, c.incon, time.Since(c.start).Seconds())
	if len(c.viol) > 0 {
		return 1
	}
	if c.Only == "" && (c.evals == 0 || len(c.distinct) == 0) {
		fmt.Fprintf(os.Stderr, "%s: nothing was observed\n", c.ID)
		return 3
	}
	return 0
}
