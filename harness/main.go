// Command verifharness runs the real parsers under generated workloads and observes them with oracles.
// It is compiled into /repo's module with a build overlay; nothing of it lives in /repo.
package main

import (
	"flag"
	"fmt"
	"os"
	"sync"
	"time"
)

// Prop is one monitored property: a deterministic list of cases, each run in a child process.
type Prop struct {
	id string
	// cases returns the number of cases for a tier.
	cases func(tier string) int
	// run executes one case in the current (worker) process.
	run func(c *Case, o *Obs)
	// workers returns the number of internal parser goroutines ("processors") used for shard i.
	// nil: defaultWorkers.
	workers func(shard int) int
	// mem: rough GB per worker process, limits the number of parallel workers.
	gb float64
	// rule describes how cases are made and what makes one non-trivial.
	rule        string
	assumptions []string
	race        bool
	gc          bool // keep the garbage collector on (hex readers touch what they reserve)
	// noPanic: a crash of the worker is a violation of the property (default true for all).
	caseTimeoutS int
	// minKeys is the minimum number of distinct situations; fewer means nothing was observed and the run is inconclusive.
	minKeys int
	// maxProcs caps the number of parallel worker processes (0: one per CPU)
	maxProcs int
}

// Case identifies one case.
type Case struct {
	Prop    string
	Tier    string
	Seed    uint64
	Idx     int
	Workers int
	Dir     string // scratch directory of this worker
	rng     *Rng
	beat    func()
	mu      sync.Mutex
	last    time.Time
}

// alive tells the parent that the case makes progress; a case without progress hangs.
func (c *Case) alive() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.beat != nil && time.Since(c.last) > time.Second {
		c.last = time.Now()
		c.beat()
	}
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.id] = p }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifharness check|worker|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		id := fs.String("prop", "", "property")
		tier := fs.String("tier", "quick", "tier")
		seed := fs.Uint64("seed", 1, "seed")
		verif := fs.String("verif", "/verif", "folder of the framework")
		budget := fs.Int("budget", 600, "seconds after which no new case is started")
		evid := fs.String("evidence", "", "evidence file")
		note := fs.String("note", "", "note for the evidence file")
		_ = fs.Parse(os.Args[2:])
		os.Exit(runCheck(*id, *tier, *seed, *verif, *evid, *budget, *note))
	case "worker":
		runWorker(os.Args[2:])
	case "readone":
		readOne(os.Args[2:])
	case "list":
		for id := range registry {
			fmt.Println(id)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}
