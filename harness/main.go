// vmon runs the monitors of bab's semantic properties:
//
//	vmon check ID      run one property's check (VERIF_SEED, VERIF_TIER)
//	vmon list          list the checks
package main

import (
	"fmt"
	"os"
	"os/signal"
	"sort"
	"syscall"
)

type check struct {
	rule   string
	assume []string
	run    func(c *Ctx)
}

var checks = map[string]check{}

func register(id, rule string, run func(c *Ctx), assume ...string) {
	checks[id] = check{rule, assume, run}
}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) >= 3 && os.Args[1] == "supervise" {
		os.Exit(supervise(os.Args[2:]))
	}
	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: vmon check ID | list")
		os.Exit(2)
	}
	id := os.Args[2]
	ch, ok := checks[id]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
	}
	c, err := newCtx(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	// a caught signal is back at its default in the processes started here, also
	// when this process was started with it ignored (a background job, nohup)
	sigs := make(chan os.Signal, 1)
	signal.Notify(sigs, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGHUP, syscall.SIGTERM, syscall.SIGUSR1, syscall.SIGUSR2)
	go func() {
		for s := range sigs {
			if s != syscall.SIGUSR1 && s != syscall.SIGUSR2 {
				c.Close()
				os.Exit(2)
			}
		}
	}()
	c.rule, c.assume = ch.rule, ch.assume
	c.Rec = os.Getenv("VMON_REC")
	rc := 2
	func() {
		defer c.Close()
		ch.run(c)
		rc = c.Finish()
	}()
	os.Exit(rc)
}
