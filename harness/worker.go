package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	"github.com/rs/zerolog"
	"github.com/rs/zerolog/log"
)

// perturbWriter is the log sink of the code under test. Every log call of the parsers passes through it, which makes
// it an injection point in all parser goroutines: it yields or sleeps at pseudo-random calls to vary the schedule.
type perturbWriter struct{ state, mode uint64 }

func (w *perturbWriter) Write(p []byte) (int, error) {
	m := w.mode // only changed while no parser runs
	if m == 0 {
		return len(p), nil
	}
	// no synchronisation here: atomic operations would order the accesses of the goroutines and hide races
	s := w.state + uint64(time.Now().UnixNano())*0x9E3779B97F4A7C15
	s ^= s >> 31
	s *= 0xBF58476D1CE4E5B9
	s ^= s >> 29
	switch {
	case s%m == 0:
		time.Sleep(time.Duration(20+s%200) * time.Microsecond)
	case s%3 == 0:
		runtime.Gosched()
	}
	return len(p), nil
}

// quietLogger silences the code under test (and removes the cost of its log).
func quietLogger() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	log.Logger = zerolog.New(io.Discard)
}

// perturb turns on schedule perturbation: about one in m log calls sleeps.
func perturb(seed uint64, m uint64) {
	log.Logger = zerolog.New(&perturbWriter{seed*2 + 1, m})
	zerolog.SetGlobalLevel(zerolog.InfoLevel)
}

type workerMsg struct {
	Ev  string `json:"ev"` // start, done, end
	Idx int    `json:"idx"`
	Obs *Obs   `json:"obs,omitempty"`
}

const memLimitMB = 3500

// memWatch ends the worker when the code under test uses up memory without bound.
type memWatch struct{ on bool }

func (w *memWatch) run() {
	for {
		time.Sleep(50 * time.Millisecond)
		m := rssMB()
		if m > 1200 && !w.on {
			w.on = true
			debug.SetGCPercent(100)
		}
		if m > memLimitMB {
			b := make([]byte, 1<<18)
			fmt.Fprintf(os.Stderr, "VERIF-MEMORY: %d MB in use\n%s\n", m, b[:runtime.Stack(b, true)])
			os.Exit(97)
		}
	}
}

func statm(field int) int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) <= field {
		return 0
	}
	n, _ := strconv.Atoi(f[field])
	return n * (os.Getpagesize() / 1024) / 1024
}

func rssMB() int  { return statm(1) }
func virtMB() int { return statm(0) }

func runWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "tier")
	seed := fs.Uint64("seed", 1, "seed")
	from := fs.Int("from", 0, "first case")
	step := fs.Int("step", 1, "step")
	to := fs.Int("to", 0, "end (exclusive)")
	dir := fs.String("dir", "", "scratch folder")
	save := fs.String("save", "", "folder for inputs of failing cases")
	deadline := fs.Int64("deadline", 0, "unix time after which no case is started")
	_ = fs.Parse(args)
	p := registry[*id]
	out := os.NewFile(3, "results")
	if p == nil || out == nil {
		os.Exit(2)
	}
	enc := json.NewEncoder(out)
	quietLogger()
	if err := os.Chdir(*dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	// The readers reserve large buffers of which they touch little. Without collection these stay untouched; the worker
	// is replaced by a fresh one before that adds up.
	watch := &memWatch{}
	if p.race || p.gc {
		debug.SetGCPercent(100)
	} else {
		debug.SetGCPercent(-1)
		go watch.run()
	}
	for i := *from; i < *to; i += *step {
		if *deadline != 0 && time.Now().Unix() > *deadline {
			break
		}
		_ = enc.Encode(workerMsg{Ev: "start", Idx: i})
		wk := workersOf(i)
		if tuned {
			setWorkers(wk)
		} else {
			wk = runtime.NumCPU()
		}
		c := &Case{Prop: *id, Tier: *tier, Seed: *seed, Idx: i, Workers: wk, Dir: *dir, rng: newRng(*seed, *id, i)}
		c.beat = func() { _ = enc.Encode(workerMsg{Ev: "beat", Idx: i}) }
		o := newObs()
		p.run(c, o)
		if len(o.Bad) > 0 && *save != "" {
			d := filepath.Join(*save, fmt.Sprintf("%s-case%d", *id, i))
			_ = os.MkdirAll(d, 0o755)
			for name, data := range o.files {
				_ = os.WriteFile(filepath.Join(d, name), data, 0o644)
			}
		}
		_ = enc.Encode(workerMsg{Ev: "done", Idx: i, Obs: o})
		if !p.race && !p.gc && (rssMB() > 700 || virtMB() > 60000) && i+*step < *to {
			_ = enc.Encode(workerMsg{Ev: "again", Idx: i + *step})
			return
		}
	}
	_ = enc.Encode(workerMsg{Ev: "end"})
}
