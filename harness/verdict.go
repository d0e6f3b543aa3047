package main

import (
	"fmt"
	"sort"
	"strings"
)

// Obs is what the monitors observed while one case ran. It travels from the worker to the parent as JSON.
type Obs struct {
	Evals    int              `json:"evals"`  // oracle evaluations (observed executions compared)
	Keys     []string         `json:"keys"`   // signatures of distinct non-trivial situations observed
	Count    map[string]int64 `json:"count"`  // counters of what was observed
	Sample   string           `json:"sample"` // a written-out case
	Bad      []Finding        `json:"bad"`    // violations
	Unseen   []string         `json:"unseen"` // things that could not be observed (renamed fields etc.)
	files    map[string][]byte
	keyset   map[string]bool
	unseen   map[string]bool
	firstBad bool
}

// Finding is one violation; Sig identifies it (used for the known-findings file), Detail explains it.
type Finding struct {
	Sig    string            `json:"sig"`
	Detail string            `json:"detail"`
	Files  map[string]string `json:"files,omitempty"` // name -> path of saved inputs
}

func newObs() *Obs {
	return &Obs{Count: map[string]int64{}, keyset: map[string]bool{}, unseen: map[string]bool{}, files: map[string][]byte{}}
}

func (o *Obs) add(name string, n int) { o.Count[name] += int64(n) }

func (o *Obs) key(format string, a ...any) {
	k := fmt.Sprintf(format, a...)
	if !o.keyset[k] {
		o.keyset[k] = true
		o.Keys = append(o.Keys, k)
	}
}

func (o *Obs) cannotSee(what string) {
	if !o.unseen[what] {
		o.unseen[what] = true
		o.Unseen = append(o.Unseen, what)
	}
}

func (o *Obs) fail(sig, format string, a ...any) {
	if len(o.Bad) < 5 {
		o.Bad = append(o.Bad, Finding{Sig: sig, Detail: fmt.Sprintf(format, a...)})
	}
}

// attach keeps the input of a failing case so that it is saved beside the replay.
func (o *Obs) attach(name string, data []byte) {
	if len(o.files) < 8 {
		o.files[name] = data
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func joinSorted(m map[string]int64) string {
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
