package main

// C16: the workloads of the other checks on a bab built with the race detector.

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"time"
)

var raceFn = regexp.MustCompile(`(?m)^  ([\w./()*-]+\(\))$`)

// raceSig names a report by the functions on top of its stacks.
func raceSig(rep string) string {
	var out []string
	for _, part := range strings.Split(rep, "\n\n") {
		if m := raceFn.FindStringSubmatch(part); m != nil && (strings.Contains(part, "ead at") || strings.Contains(part, "rite at")) {
			out = append(out, m[1])
		}
	}
	return strings.Join(sorted(out), " / ")
}

// ofLibrary tells whether no code of bab takes part in a race: both accesses
// happen in goroutines or below the entry point of the terminal library.
func ofLibrary(rep string) bool {
	n := 0
	for _, part := range strings.Split(rep, "\n\n") {
		if !strings.Contains(part, "ead at") && !strings.Contains(part, "rite at") {
			continue
		}
		n++
		inner, _, _ := strings.Cut(part, "bubbletea/v2.(*Program).Run()")
		if strings.Contains(inner, "github.com/bab-sh/bab") || strings.Contains(inner, "main.") || !strings.Contains(inner, "/pkg/mod/") {
			return false
		}
	}
	return n == 2
}

func (c *Ctx) raceCases(name string, n, par int, f func(cs *Case)) {
	t0 := time.Now()
	defer func() {
		if os.Getenv("VMON_TIME") != "" {
			fmt.Println(name, time.Since(t0))
		}
	}()
	c.EachP(name, n, par, func(cs *Case) {
		f(cs)
		key := cs.orderKey()
		cs.count(key)
		logs, _ := filepath.Glob(filepath.Join(cs.Dir, "race.*"))
		for _, l := range logs {
			b, _ := os.ReadFile(l)
			for _, rep := range strings.Split(string(b), "==================\n") {
				if !strings.Contains(rep, "WARNING: DATA RACE") {
					continue
				}
				if ofLibrary(rep) {
					cs.Obs("races inside the terminal library, not counted", 1)
					continue
				}
				sig := raceSig(rep)
				cs.Violate(cs.Name, "race "+sig, cs.Dir, "data race: %s\n%s", sig, rep)
				return
			}
		}
	})
}

var (
	orderMu sync.Mutex
	orders  = map[*Case]*strings.Builder{}
)

// orderKey identifies the order in which the processes of a case started and ended.
func (cs *Case) orderKey() string {
	orderMu.Lock()
	defer orderMu.Unlock()
	b := orders[cs]
	delete(orders, cs)
	if b == nil || b.Len() == 0 {
		return ""
	}
	return fmt.Sprintf("%s %x", cs.Name, sha256.Sum256([]byte(b.String())))
}

func init() {
	register("C16", "bab built with the race detector runs the workloads of the other checks (shared tasks, nested blocks, limits, heavy output, control sequences, prompts, dry runs, includes, display modes with keys and resizes, cancellation, the picker, background update checks); every race report and every panic is a violation; a case is non-trivial when commands ran, and is identified by the observed order of their starts and ends",
		func(c *Ctx) {
			c.race, c.muted = true, true
			c.builds["plain"] = c.BabRace()
			c.relBab("1.2.3")
			c.onRes = func(cs *Case, r *Res) {
				var b strings.Builder
				for _, e := range r.Events {
					b.WriteString(e.Ev + e.ID + " ")
				}
				orderMu.Lock()
				o := orders[cs]
				if o == nil {
					o = &strings.Builder{}
					orders[cs] = o
				}
				o.WriteString(b.String())
				orderMu.Unlock()
				if len(r.Events) > 12 {
					cs.sample(map[string]any{"case": cs.Name, "events": clip(b.String(), 300), "exit": r.Code})
				}
				if p := panicked(r); p != "" && !r.Hung {
					cs.Violate(cs.Name, "", cs.Dir, "bab crashed (%s)\n%s", p, clip(r.Err, 5000))
				}
			}
			all := richProf()
			all.Par, all.Sleep, all.Limit, all.Modes, all.ParItems, all.Fail = 0.4, 10, 0.4, []string{"", "grouped", "tabs", "interleaved"}, 6, 0.05
			par := Prof{Files: 2, Tasks: 6, Items: 3, Deps: 0.4, TaskRef: 0.4, Par: 0.5, ParItems: 6, Log: 0.15, Fail: 0.08, Sleep: 8, Limit: 0.4, Prompt: 0.08, When: 0.15, TaskWhen: 0.1, Vars: 0.4, Env: 0.4, Dir: 0.2, Silent: 0.2, Output: 0.2, Alias: 0.2, Modes: []string{"", "grouped", "tabs"}}
			run := func(p Prof) func(cs *Case) {
				return func(cs *Case) { cs.execCase(p, 2, func(*Placed, *Plan, *Res) bool { return true }) }
			}
			c.raceCases("rich", c.N(200, 1500), 10, run(all))
			c.raceCases("blocks", c.N(400, 3000), 10, run(par))
			c.raceCases("shared", c.N(150, 1000), 10, func(cs *Case) { cs.diamond() })
			c.raceCases("output", c.N(120, 1000), 10, func(cs *Case) { cs.outputCase(6, cs.I%3, cs.I%2 == 0) })
			c.raceCases("control", c.N(50, 400), 10, func(cs *Case) { cs.controlCase(0.25, cs.I%2 == 0) })
			c.raceCases("control-tty", c.N(40, 200), 10, func(cs *Case) { cs.controlTTY() })
			c.raceCases("gates", c.N(60, 300), 10, func(cs *Case) { cs.gateCase(gProf{depth: 1, items: 6}, cs.I%2 == 0) })
			c.raceCases("modes", c.N(40, 800), 10, func(cs *Case) { cs.modeCase() })
			c.raceCases("live", c.N(60, 500), 10, func(cs *Case) { cs.liveCase() })
			c.raceCases("resize", c.N(20, 100), 10, func(cs *Case) { cs.winchStorm() })
			c.raceCases("cancel", c.N(150, 800), 10, func(cs *Case) { cs.cancelRun(cs.I%2 == 0, cs.I%3 == 0) })
			c.raceCases("cancel-short", c.N(60, 400), 10, func(cs *Case) { cs.shortRun() })
			c.raceCases("cancel-waiting", c.N(30, 200), 10, func(cs *Case) { cs.waitingRun() })
			c.raceCases("prompts", c.N(60, 500), 10, func(cs *Case) { cs.promptDefaults() })
			c.raceCases("asked", c.N(60, 500), 10, func(cs *Case) { cs.promptCase() })
			c.raceCases("picker", c.N(60, 500), 10, func(cs *Case) { cs.pickCase() })
			c.raceCases("updates", c.N(80, 600), 10, func(cs *Case) { cs.updateCase() })
			c.raceCases("bad-server", c.N(30, 200), 10, func(cs *Case) { cs.badServer() })
			c.raceCases("streams", c.N(20, 200), 10, func(cs *Case) { cs.stdCase() })
			c.raceCases("dry", c.N(40, 200), 10, func(cs *Case) { cs.dryCase() })
		}, "the race detector reports races between accesses that were executed, in the observed schedules")
}
