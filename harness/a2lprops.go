package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/asap2Go/calibrationReader/a2l"
)

func parseA2L(path string) (a2l.A2L, error) { return a2l.ParseFromFile(path) }

// sizes of modules: mostly small, sometimes large
func moduleSize(r *Rng, tier string) int {
	switch x := r.IntN(40); {
	case x == 0 && tier == "thorough":
		return r.between(2000, 6000)
	case x == 0 && r.chance(20): // more objects of a kind than the channels hold
		return r.between(1500, 3500)
	case x <= 2:
		return r.between(200, 400)
	case x < 16:
		return r.between(30, 120)
	case x < 20:
		return r.between(0, 2)
	default:
		return r.between(2, 30)
	}
}

// checkTree parses a file and compares everything.
func checkTree(c *Case, o *Obs, root *Obj, txt string, what string, only map[string]bool) (a2l.A2L, bool) {
	path := c.write("file.a2l", txt)
	a, err := parseA2L(path)
	o.Evals++
	c.alive()
	if err != nil {
		o.attach("file.a2l", []byte(txt))
		o.fail("rejected", "%s: a valid file was rejected with %d processors: %v", what, c.Workers, err)
		return a, false
	}
	cmp := &comparer{o: o, keys: true, only: only}
	cmp.compare("", root, reflect.ValueOf(a))
	o.add("values compared", cmp.seen)
	if len(cmp.diffs) > 0 {
		o.attach("file.a2l", []byte(txt))
		sig := cmp.diffs[0]
		if i := strings.Index(sig, ":"); i > 0 {
			sig = sig[:i]
		}
		sig = stripIndex(sig)
		o.fail("content:"+sig, "%s (%d processors): the delivered structure differs from the file:\n  %s", what, c.Workers, strings.Join(cmp.diffs, "\n  "))
		return a, false
	}
	return a, true
}

func stripIndex(s string) string {
	var b strings.Builder
	in := 0
	for _, c := range s {
		switch c {
		case '[':
			in++
		case ']':
			in--
		default:
			if in == 0 {
				b.WriteRune(c)
			}
		}
	}
	return strings.ReplaceAll(b.String(), " ", "_")
}

func setCase(c *Case, o *Obs) {
	c.Workers = useWorkers(c, anyWorkers(c.rng))
}

func runConservation(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 3; k++ {
		setCase(c, o)
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 0, 10, 30})}
		n := moduleSize(r, c.Tier)
		if c.Idx%1000 == 500 && k == 0 { // as large as the files of real control units
			n, g.optPc = r.between(12000, 30000), 0
		} else if c.Idx%4000 == 1234 && k == 0 { // more tokens than the reader expects
			n, g.optPc = 330000, 6
		}
		root := wrap([]*Obj{g.module(n)}, g)
		toks := root.tokens(nil)
		if len(toks) > 3000000 {
			o.add("files of more than 3 million tokens", 1)
		}
		l := plainLayout(r)
		if r.chance(40) {
			l.dense = pick(r, []int{0, 30, 100})
		}
		if r.chance(10) {
			l.oneLine = true
		}
		txt := l.render(toks)
		pert := r.chance(30)
		if pert {
			perturb(r.Uint64(), 300)
		}
		_, ok := checkTree(c, o, root, txt, fmt.Sprintf("module of %d objects", n), nil)
		quietLogger()
		o.add("objects", root.count())
		o.key("objects=%s tokens=%s workers=%d perturbed=%v oneline=%v", bucket(n), bucket(len(toks)), c.Workers, pert, l.oneLine)
		if !ok {
			return
		}
		if o.Sample == "" {
			o.Sample = fmt.Sprintf("module of %d objects, %d tokens, %d processors: %s", n, len(toks), c.Workers, clip(txt, 300))
		}
	}
}

func runFidelity(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 4; k++ {
		setCase(c, o)
		g := &a2lGen{r: r, optPc: pick(r, []int{15, 40, 80, 100}), rich: true}
		m := g.module(r.between(0, 4))
		// every supported part in turn
		for i := 0; i < 12; i++ {
			if g.optPc = pick(r, []int{0, 5, 15, 40, 80, 100}); g.optPc > 40 && r.chance(60) {
				g.optPc = 10
			}
			g.force(m, allEdges[((c.Idx*4+k)*12+i)%len(allEdges)])
		}
		root := wrap([]*Obj{m}, g)
		toks := root.tokens(nil)
		txt := plainLayout(r).render(toks)
		_, ok := checkTree(c, o, root, txt, "attributes", nil)
		o.add("constructs", root.count())
		if !ok {
			return
		}
		if o.Sample == "" {
			o.Sample = clip(txt, 600)
		}
	}
}

func runLayout(c *Case, o *Obs) {
	r := c.rng
	g := &a2lGen{r: r, optPc: pick(r, []int{5, 20, 50}), rich: true}
	mods := []*Obj{g.module(r.between(1, 25))}
	if r.chance(15) {
		mods = append(mods, g.module(r.between(0, 8)))
	}
	root := wrap(mods, g)
	toks := root.tokens(nil)
	for k := 0; k < 4; k++ {
		setCase(c, o)
		l := anyLayout(r)
		txt := l.render(toks)
		what := fmt.Sprintf("layout nl=%q breaks=%d%% oneLine=%v comments=%d%% split=%d%% texts=%d%% bom=%v", l.nl, l.dense, l.oneLine, l.comments, l.splitKw, l.splitTxt, l.bom)
		_, ok := checkTree(c, o, root, txt, what, nil)
		o.key("%s workers=%d", what, c.Workers)
		o.add("layouts", 1)
		if !ok {
			return
		}
		if o.Sample == "" {
			o.Sample = what + ": " + clip(txt, 400)
		}
	}
}

func init() {
	register(&Prop{id: "A01", cases: tiers(8000, 40000), run: runConservation, gb: 2, minKeys: 50,
		rule: "modules of 0..30000 (twice: 330000) objects of all 26 kinds are generated, written out and parsed by the real reader with 1..64 processors, partly with delays injected into the parser goroutines; the monitor compares every collection of the delivered module with the file; a situation is (size class, token count class, worker count, perturbation) or (construct, part)"})
	register(&Prop{id: "A02", cases: tiers(8000, 40000), run: runFidelity, gb: 2, minKeys: 50,
		rule: "objects with 15..100 % of all optional parts, border numbers and hostile texts are generated, written out and parsed by the real reader; every field and presence flag is compared, parts not in the file must be absent; a situation is (construct, part) pairs seen present and compared"})
	register(&Prop{id: "A03", cases: tiers(8000, 40000), run: runLayout, gb: 2, minKeys: 50,
		rule: "the same token sequence is written in four random layouts (line ends, breaks, comments, split keywords and texts, byte order mark) and parsed with 1..64 processors; every delivered structure is compared with the same model; a situation is (layout, worker count)"})
}
