package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

var workerCounts = []int{1, 8, 2, 3, 5, 4, 16, 7, 6, 12, 1, 33, 8, 2, 64, 9}

// workersOf is the number of processors the parsers are made to see in a case.
func workersOf(idx int) int { return workerCounts[idx%len(workerCounts)] }

type tally struct {
	mu       sync.Mutex
	cases    int
	evals    int
	keys     map[string]bool
	count    map[string]int64
	samples  []string
	unseen   map[string]bool
	bad      []badCase
	incon    []string
	harness  []string
	workersC map[int]int
	hung     bool
}

type badCase struct {
	idx     int
	finding Finding
}

func (t *tally) merge(idx int, o *Obs) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.cases++
	t.evals += o.Evals
	for _, k := range o.Keys {
		t.keys[k] = true
	}
	for k, v := range o.Count {
		if strings.HasPrefix(k, "max ") {
			if v > t.count[k] {
				t.count[k] = v
			}
			continue
		}
		t.count[k] += v
	}
	if o.Sample != "" && len(t.samples) < 4 {
		t.samples = append(t.samples, fmt.Sprintf("case %d: %s", idx, clip(o.Sample, 1200)))
	}
	for _, u := range o.Unseen {
		t.unseen[u] = true
	}
	for _, f := range o.Bad {
		t.bad = append(t.bad, badCase{idx, f})
	}
}

type workerRun struct {
	self    string
	prop    *Prop
	tier    string
	seed    uint64
	scratch string
	save    string
	dl      int64
	t       *tally
	untuned int // number of CPUs a worker is confined to when the worker count cannot be set
}

// runRange runs cases from, from+step, ... < to in child processes, restarting after crashes.
func (w *workerRun) runRange(shard, from, step, to int) {
	crashes := 0
	for from < to {
		if w.stopped() {
			return
		}
		if w.dl != 0 && time.Now().Unix() > w.dl {
			return
		}
		last, finished, why := w.spawn(shard, from, step, to, w.timeout())
		if finished {
			return
		}
		if why.next > 0 {
			from = why.next
			continue
		}
		if last < 0 {
			w.t.mu.Lock()
			w.t.harness = append(w.t.harness, "worker did not start: "+why.text)
			w.t.mu.Unlock()
			return
		}
		w.classify(shard, last, why)
		from = last + step
		crashes++
		if crashes > 6 {
			return // enough evidence; the rest of this shard is not explored
		}
	}
}

func (w *workerRun) timeout() time.Duration {
	s := w.prop.caseTimeoutS
	if s == 0 {
		s = 40
	}
	return time.Duration(s) * time.Second
}

// stopped: a confirmed hang costs minutes; one is enough.
func (w *workerRun) stopped() bool {
	w.t.mu.Lock()
	defer w.t.mu.Unlock()
	return w.t.hung
}

type deathReason struct {
	hang   bool
	killed bool
	text   string
	code   int
	next   int // >0: the worker wants to be replaced and go on here
}

var frameRe = regexp.MustCompile(`(?m)^(main\.|github\.com/asap2Go/calibrationReader[./])`)

func (w *workerRun) classify(shard, idx int, why deathReason) {
	add := func(sig, detail string) {
		d := filepath.Join(w.save, fmt.Sprintf("%s-case%d", w.prop.id, idx))
		_ = os.MkdirAll(d, 0o755)
		_ = os.WriteFile(filepath.Join(d, "stderr.txt"), []byte(why.text), 0o644)
		w.saveScratch(shard, d)
		w.t.mu.Lock()
		w.t.bad = append(w.t.bad, badCase{idx, Finding{Sig: sig, Detail: detail}})
		w.t.cases++
		w.t.mu.Unlock()
	}
	switch {
	case why.hang:
		if w.stopped() {
			return
		}
		// confirm alone, with more time, before calling it a hang
		_, finished, again := w.spawn(shard, idx, 1<<30, idx+1, 2*w.timeout())
		if finished {
			w.note(fmt.Sprintf("case %d was slow once (not confirmed)", idx))
			return
		}
		if again.hang {
			w.t.mu.Lock()
			w.t.hung = true
			w.t.mu.Unlock()
			add("hang", "no result within "+(2*w.timeout()).String()+" (confirmed twice); goroutines are in stderr.txt\n"+clip(again.text, 1500))
			return
		}
		w.classifyDeath(idx, again, add)
	case why.code == 97 && strings.Contains(why.text, "VERIF-MEMORY"):
		_, finished, again := w.spawn(shard, idx, 1<<30, idx+1, 2*w.timeout())
		if finished {
			w.note(fmt.Sprintf("case %d used much memory once (not confirmed)", idx))
			return
		}
		if again.code == 97 || again.hang {
			add("memory", fmt.Sprintf("memory use went beyond %d MB while a small file was read (confirmed twice); goroutines are in stderr.txt\n%s", memLimitMB, clip(again.text, 1500)))
			return
		}
		w.classifyDeath(idx, again, add)
	default:
		w.classifyDeath(idx, why, add)
	}
}

func (w *workerRun) note(s string) {
	w.t.mu.Lock()
	w.t.incon = append(w.t.incon, s)
	w.t.mu.Unlock()
}

func (w *workerRun) classifyDeath(idx int, why deathReason, add func(sig, detail string)) {
	txt := why.text
	if why.killed || strings.Contains(txt, "out of memory") || strings.Contains(txt, "cannot allocate memory") {
		w.note(fmt.Sprintf("case %d: worker ended by the system (memory)", idx))
		return
	}
	i := strings.Index(txt, "panic:")
	if j := strings.Index(txt, "fatal error:"); i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		w.t.mu.Lock()
		w.t.harness = append(w.t.harness, fmt.Sprintf("case %d: worker exited with %d: %s", idx, why.code, clip(txt, 400)))
		w.t.mu.Unlock()
		return
	}
	stack := txt[i:]
	if g := strings.Index(stack, "\ngoroutine "); g >= 0 {
		if m := frameRe.FindString(stack[g:]); m == "main." && !strings.Contains(stack, "all goroutines are asleep") {
			w.t.mu.Lock()
			w.t.harness = append(w.t.harness, fmt.Sprintf("case %d: harness panic: %s", idx, clip(stack, 1500)))
			w.t.mu.Unlock()
			return
		}
	}
	add("crash", "the process died: "+clip(stack, 1200))
}

// saveScratch keeps the input files the worker had written when it died.
func (w *workerRun) saveScratch(shard int, dst string) {
	dir := filepath.Join(w.scratch, fmt.Sprintf("w%d", shard))
	_ = filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || fi.Size() > 4<<20 {
			return nil
		}
		b, e := os.ReadFile(p)
		if e == nil {
			_ = os.WriteFile(filepath.Join(dst, strings.ReplaceAll(strings.TrimPrefix(p, dir+"/"), "/", "_")), b, 0o644)
		}
		return nil
	})
}

type tailBuffer struct {
	mu   sync.Mutex
	head bytes.Buffer
	tail []byte
}

func (b *tailBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if b.head.Len() < 32768 {
		b.head.Write(p)
	} else {
		b.tail = append(b.tail, p...)
		if len(b.tail) > 65536 {
			b.tail = b.tail[len(b.tail)-32768:]
		}
	}
	return len(p), nil
}

func (b *tailBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return b.head.String() + string(b.tail)
}

func (w *workerRun) spawn(shard, from, step, to int, limit time.Duration) (int, bool, deathReason) {
	dir := filepath.Join(w.scratch, fmt.Sprintf("w%d", shard))
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	args := []string{"worker", "-prop", w.prop.id, "-tier", w.tier, "-seed", strconv.FormatUint(w.seed, 10),
		"-from", strconv.Itoa(from), "-step", strconv.Itoa(step), "-to", strconv.Itoa(to), "-dir", dir, "-save", w.save, "-deadline", strconv.FormatInt(w.dl, 10)}
	var cmd *exec.Cmd
	if !tuned && w.untuned > 0 {
		if ts, err := exec.LookPath("taskset"); err == nil {
			n := workersOf(shard)
			if n > w.untuned {
				n = w.untuned
			}
			cmd = exec.Command(ts, append([]string{"-c", "0-" + strconv.Itoa(n-1), w.self}, args...)...)
		}
	}
	if cmd == nil {
		cmd = exec.Command(w.self, args...)
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return -1, false, deathReason{text: err.Error()}
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(w.scratch, "race"))
	errBuf := &tailBuffer{}
	cmd.Stderr = errBuf
	cmd.Stdout = nil
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return -1, false, deathReason{text: err.Error()}
	}
	pw.Close()
	defer pr.Close()
	msgs := make(chan workerMsg, 64)
	go func() {
		sc := bufio.NewScanner(pr)
		sc.Buffer(make([]byte, 1<<20), 64<<20)
		for sc.Scan() {
			var m workerMsg
			if json.Unmarshal(sc.Bytes(), &m) == nil {
				msgs <- m
			}
		}
		close(msgs)
	}()
	cur := -1
	next := -1
	ended := false
	timer := time.NewTimer(limit)
	defer timer.Stop()
loop:
	for {
		select {
		case m, ok := <-msgs:
			if !ok {
				break loop
			}
			timer.Reset(limit)
			switch m.Ev {
			case "start":
				cur = m.Idx
			case "done":
				w.t.merge(m.Idx, m.Obs)
				w.t.mu.Lock()
				w.t.workersC[workersOf(m.Idx)]++
				w.t.mu.Unlock()
			case "end":
				ended = true
			case "again":
				next = m.Idx
			}
		case <-timer.C:
			_ = cmd.Process.Signal(syscall.SIGQUIT)
			time.Sleep(3 * time.Second)
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			for range msgs {
			}
			_ = cmd.Wait()
			return cur, false, deathReason{hang: true, text: errBuf.String()}
		}
	}
	err = cmd.Wait()
	if ended {
		return cur, true, deathReason{}
	}
	if next >= 0 {
		return cur, false, deathReason{next: next}
	}
	why := deathReason{text: errBuf.String()}
	if ee, ok := err.(*exec.ExitError); ok {
		why.code = ee.ExitCode()
		if st, ok := ee.Sys().(syscall.WaitStatus); ok && st.Signaled() && st.Signal() == syscall.SIGKILL {
			why.killed = true
		}
	}
	return cur, false, why
}

// knownFindings reads the lines "known: property=<id> sig=<sig> <text>" of the committed file.
func knownFindings(verif, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	if err != nil {
		return res
	}
	re := regexp.MustCompile(`^known: property=(\S+) sig=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil && m[1] == id {
			res[m[2]] = m[3]
		}
	}
	return res
}

func runCheck(id, tier string, seed uint64, verif, evidence string, budget int, note string) int {
	start := time.Now()
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	save := filepath.Join(verif, "replays")
	t := &tally{keys: map[string]bool{}, count: map[string]int64{}, unseen: map[string]bool{}, workersC: map[int]int{}}
	n := p.cases(tier)
	if f, err := strconv.Atoi(os.Getenv("VERIF_FRACTION")); err == nil && f > 0 { // percent of the cases; used by tools/mutrun.py only
		n = maxInt(n*f/100, 40)
	}
	procs := runtime.NumCPU()
	if procs > 8 {
		procs = 8
	}
	gb := p.gb
	if gb == 0 {
		gb = 1
	}
	if m := int(availableGB() * 0.8 / gb); m < procs {
		procs = m
	}
	if p.maxProcs > 0 && procs > p.maxProcs {
		procs = p.maxProcs
	}
	if procs > n {
		procs = n
	}
	if procs < 1 {
		procs = 1
	}
	w := &workerRun{self: self, prop: p, tier: tier, seed: seed, scratch: scratch, save: save, dl: start.Add(time.Duration(budget) * time.Second).Unix(), t: t, untuned: runtime.NumCPU()}
	var wg sync.WaitGroup
	for s := 0; s < procs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			w.runRange(s, s, procs, n)
		}(s)
	}
	wg.Wait()
	if p.race {
		collectRaces(scratch, t)
	}

	known := knownFindings(verif, id)
	knownHit := map[string]bool{}
	var fresh []badCase
	sort.Slice(t.bad, func(i, j int) bool { return t.bad[i].idx < t.bad[j].idx })
	for _, b := range t.bad {
		if _, ok := known[b.finding.Sig]; ok {
			knownHit[b.finding.Sig] = true
			continue
		}
		fresh = append(fresh, b)
	}
	for sig := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, known[sig])
	}
	coverage := map[string]any{
		"evaluations":         t.evals,
		"distinct_nontrivial": len(t.keys),
		"rule":                p.rule,
		"samples":             t.samples,
		"cases_run":           t.cases,
		"cases_planned":       n,
		"observed":            t.count,
		"worker_counts_seen":  workersSeen(t.workersC),
		"worker_count_set":    tuned,
	}
	if len(t.unseen) > 0 {
		coverage["not_observable"] = sortedKeys(t.unseen, 50)
	}
	if len(t.incon) > 0 {
		coverage["inconclusive"] = t.incon
	}
	if len(t.harness) > 0 {
		coverage["harness_errors"] = t.harness
	}
	if note != "" {
		coverage["note"] = note
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": coverage,
		"assumptions": p.assumptions, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	if evidence == "" {
		evidence = filepath.Join(verif, "evidence", id+".json")
	}
	_ = os.MkdirAll(filepath.Dir(evidence), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s seed=%d: %d/%d cases, %d evaluations, %d distinct situations, %d violations, %.1f s; observed: %s\n",
		id, tier, seed, t.cases, n, t.evals, len(t.keys), len(fresh), time.Since(start).Seconds(), joinSorted(t.count))
	for _, h := range t.harness {
		fmt.Println("HARNESS-ERROR:", h)
	}
	for _, s := range t.incon {
		fmt.Println("INCONCLUSIVE:", s)
	}
	if len(fresh) > 0 {
		shown := map[string]bool{}
		for i, b := range fresh {
			k := b.finding.Sig
			if shown[k] && i > 0 {
				continue
			}
			shown[k] = true
			if len(shown) > 5 {
				break
			}
			d := filepath.Join(save, fmt.Sprintf("%s-case%d", id, b.idx))
			_ = os.MkdirAll(d, 0o755)
			path := filepath.Join(d, "violation.txt")
			txt := fmt.Sprintf("property %s, tier %s, seed %d, case %d, processors %d\nsignature: %s\n%s\n\nreplay: VERIF_SEED=%d bash %s/check.sh %s %s   (case %d)\n", id, tier, seed, b.idx, workersOf(b.idx), b.finding.Sig, b.finding.Detail, seed, verif, id, tier, b.idx)
			_ = os.WriteFile(path, []byte(txt), 0o644)
			fmt.Printf("--- %s\n", clip(b.finding.Sig+": "+b.finding.Detail, 1500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		}
		return 1
	}
	if len(t.harness) > 0 {
		return 2
	}
	if len(t.keys) < p.minKeys || t.evals == 0 {
		fmt.Printf("INCONCLUSIVE: only %d distinct situations observed (at least %d expected): nothing is concluded\n", len(t.keys), p.minKeys)
		if len(t.unseen) > 0 || len(t.incon) > 0 {
			return 0
		}
		return 2
	}
	return 0
}

func workersSeen(m map[int]int) map[string]int {
	r := map[string]int{}
	if !tuned {
		return r
	}
	for k, v := range m {
		r[strconv.Itoa(k)] = v
	}
	return r
}

func sortedKeys(m map[string]bool, max int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	if len(l) > max {
		l = l[:max]
	}
	return l
}

func availableGB() float64 {
	b, err := os.ReadFile("/proc/meminfo")
	if err != nil {
		return 8
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "MemAvailable:") {
			f := strings.Fields(l)
			kb, _ := strconv.ParseFloat(f[1], 64)
			return kb / 1e6
		}
	}
	return 8
}

var logSetup = regexp.MustCompile(`(?m)^  main\.(quietLogger|perturb|setWorkers)\(`)

// collectRaces turns reports of the race detector into violations.
func collectRaces(scratch string, t *tally) {
	files, _ := filepath.Glob(filepath.Join(scratch, "race.*"))
	re := regexp.MustCompile(`(?m)^  ((?:github\.com/asap2Go/calibrationReader|main)[^\n(]*)\(`)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			t.count["race reports"]++
			fr := re.FindAllStringSubmatch(rep, -1)
			sig := "race"
			own := false
			for i, x := range fr {
				if i < 2 {
					sig += ":" + filepath.Base(x[1])
				}
				if !strings.HasPrefix(x[1], "main.") {
					own = true
				}
			}
			if own && logSetup.MatchString(rep) {
				// a parser goroutine that outlived its call read the logger while the harness replaced it
				t.count["goroutines that outlived their call (seen by the race detector)"]++
				continue
			}
			if !own {
				t.harness = append(t.harness, "race in the harness: "+clip(rep, 1500))
				continue
			}
			t.bad = append(t.bad, badCase{0, Finding{Sig: sig, Detail: clip(rep, 3000)}})
		}
	}
}
