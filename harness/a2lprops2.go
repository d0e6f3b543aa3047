package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

// ---- A04: determinism

type outcome struct {
	failed bool
	print  uint64
}

func a2lOutcome(path string) outcome {
	a, err := parseA2L(path)
	if err != nil {
		return outcome{failed: true}
	}
	return outcome{print: fingerprint(a)}
}

func (x outcome) String() string {
	if x.failed {
		return "error"
	}
	return fmt.Sprintf("result %016x", x.print)
}

// repeatObject adds another object of the same kind and name, with different content.
func repeatObject(r *Rng, g *a2lGen, m *Obj) {
	if len(m.opts) == 0 {
		return
	}
	x := m.opts[r.IntN(len(m.opts))]
	y := g.object(x.def.node)
	if x.def.mult != "one" {
		y.pos[0] = x.obj.pos[0]
	}
	i := r.IntN(len(m.opts) + 1)
	m.opts = append(m.opts[:i:i], append([]optVal{{def: x.def, obj: y}}, m.opts[i:]...)...)
}

func runDeterminism(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 2; k++ {
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 10, 40}), rich: r.chance(50)}
		n := moduleSize(r, "quick")
		mods := []*Obj{g.module(n)}
		if r.chance(10) {
			mods = append(mods, g.module(r.between(0, 10)))
		}
		kind := "valid"
		if r.chance(25) { // objects defined more than once: which one is delivered must not depend on the schedule
			kind = "repeated objects"
			for i := r.between(1, 4); i > 0; i-- {
				repeatObject(r, g, mods[0])
			}
		}
		root := wrap(mods, g)
		toks := root.tokens(nil)
		l := anyLayout(r)
		if r.chance(50) {
			g.rich = false
			l = plainLayout(r)
			d := damages[r.IntN(len(damages))]
			if t, x, ok := d.apply(r, toks, l); ok {
				kind = "damaged:" + d.name
				if t != nil {
					toks = t
				} else {
					toks = []Tok{{text: x, kind: 'v'}}
				}
			}
		}
		txt := l.render(toks)
		path := c.write("file.a2l", txt)
		w0 := useWorkers(c, 1)
		ref := a2lOutcome(path)
		for rep := 0; rep < 5; rep++ {
			w := useWorkers(c, workerCounts[(rep*3+c.Idx)%len(workerCounts)])
			pert := rep%2 == 0
			if pert {
				perturb(r.Uint64(), uint64(pick(r, []int{20, 100, 1000})))
			}
			got := a2lOutcome(path)
			quietLogger()
			o.Evals++
			c.alive()
			o.key("%s workers=%d perturbed=%v size=%s outcome=%v", kind, w, pert, bucket(len(toks)), got.failed)
			if kind == "repeated objects" {
				o.add("runs on files with repeated objects", 1)
			} else if kind == "valid" {
				o.add("runs on valid files", 1)
			} else {
				o.add("runs on damaged files", 1)
			}
			if got != ref {
				o.attach("file.a2l", []byte(txt))
				o.fail("differs", "%s file of %d tokens: %v with %d processors, but %v with %d processors (delays injected: %v)", kind, len(toks), ref, w0, got, w, pert)
				return
			}
		}
		if o.Sample == "" {
			o.Sample = fmt.Sprintf("%s file of %d tokens: %v six times", kind, len(toks), ref)
		}
	}
}

// ---- A05: damages

type damage struct {
	name string
	// apply returns damaged tokens, or (nil, text) for damage of the text
	apply func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool)
}

func pickTok(r *Rng, toks []Tok, ok func(Tok) bool) int {
	var idx []int
	for i, t := range toks {
		if ok(t) {
			idx = append(idx, i)
		}
	}
	if len(idx) == 0 {
		return -1
	}
	if r.chance(10) {
		return idx[len(idx)-1]
	}
	if r.chance(10) {
		return idx[0]
	}
	return idx[r.IntN(len(idx))]
}

func replaceTok(toks []Tok, i int, text string) []Tok {
	t := append([]Tok{}, toks...)
	t[i].text = text
	return t
}

func freeForm(t Tok) bool { return t.kind == 't' || t.node == "IfData" || t.node == "A2ML" }

var endKeywords = []string{"MEASUREMENT", "CHARACTERISTIC", "MODULE", "ANNOTATION", "AXIS_DESCR", "COMPU_METHOD", "GROUP", "RECORD_LAYOUT", "FUNCTION", "PROJECT", "MOD_PAR", "HEADER"}

// acceptsKeywords: values for which the reader takes any token as it is (see DESIGN.md).
func acceptsKeywords(t Tok) bool {
	switch {
	case freeForm(t):
		return true
	case t.node == "Module" && (t.field == "Name" || t.field == "longIdentifier"):
		return true
	}
	return false
}

var damages = []damage{
	{"truncated-tokens", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		return toks[:r.between(1, len(toks)-1)], "", true
	}},
	{"truncated-text", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		s := strings.TrimSpace(l.render(toks))
		return nil, s[:r.between(0, len(s)-1)], true
	}},
	{"end-missing", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return t.kind == 'e' && !freeForm(t) })
		if i < 0 {
			return nil, "", false
		}
		return append(append([]Tok{}, toks[:i]...), toks[i+1:]...), "", true
	}},
	{"end-of-other-block", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return t.kind == 'e' && !freeForm(t) })
		if i < 0 {
			return nil, "", false
		}
		n := "/end " + pick(r, endKeywords)
		if n == toks[i].text {
			return nil, "", false
		}
		return replaceTok(toks, i, n), "", true
	}},
	{"enumeration", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return strings.HasPrefix(t.vkind, "e:") })
		if i < 0 {
			return nil, "", false
		}
		return replaceTok(toks, i, pick(r, []string{"BOGUS", strings.ToLower(toks[i].text), toks[i].text + "_X", "0", "x"})), "", true
	}},
	{"number", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return !strings.HasPrefix(t.vkind, "e:") && len(badValues(t)) > 0 })
		if i < 0 {
			return nil, "", false
		}
		bad := badValues(toks[i])
		return replaceTok(toks, i, pick(r, bad)), "", true
	}},
	{"keyword-for-value", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return (t.kind == 'v' || t.kind == 's') && !acceptsKeywords(t) })
		if i < 0 {
			return nil, "", false
		}
		return replaceTok(toks, i, pick(r, []string{"ASAP2_VERSION", "/begin PROJECT", "/begin MODULE", "/end PROJECT"})), "", true
	}},
	{"include", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := r.between(0, len(toks))
		return append(append(append([]Tok{}, toks[:i]...), Tok{text: "/include", kind: 'v'}, Tok{text: `"other.a2l"`, kind: 's'}), toks[i:]...), "", true
	}},
	{"no-project", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		return nil, pick(r, []string{"", "\n", "ASAP2_VERSION 1 61\n", "/* nothing */\n", "ASAP2_VERSION 1 71\nA2ML_VERSION 1 31\n", "some words"}), true
	}},
	{"text-not-closed", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := pickTok(r, toks, func(t Tok) bool { return t.kind == 's' && len(t.text) > 2 })
		if i < 0 {
			return nil, "", false
		}
		return replaceTok(toks, i, toks[i].text[:len(toks[i].text)-1]), "", true
	}},
	{"comment-not-closed", func(r *Rng, toks []Tok, l *layout) ([]Tok, string, bool) {
		i := r.between(0, len(toks)-1)
		return append(append(append([]Tok{}, toks[:i]...), Tok{text: "/* open", kind: 'v'}), toks[i:]...), "", true
	}},
}

func isIntKind(k string) bool {
	if len(k) < 2 || (k[0] != 'u' && k[0] != 'i') {
		return false
	}
	_, err := strconv.Atoi(k[1:])
	return err == nil
}

// focusDamages damages the tokens of one construct in every way that applies to them.
func focusDamages(r *Rng, toks []Tok, node string) (l []struct {
	name string
	toks []Tok
}) {
	put := func(name string, t []Tok) {
		l = append(l, struct {
			name string
			toks []Tok
		}{name, t})
	}
	var mine []int
	for i, t := range toks {
		if t.node == node {
			mine = append(mine, i)
		}
	}
	seen := map[string]bool{}
	r.Shuffle(len(mine), func(i, j int) { mine[i], mine[j] = mine[j], mine[i] })
	for _, i := range mine {
		t := toks[i]
		k := string(t.kind) + t.field + t.vkind
		if seen[k] {
			continue
		}
		seen[k] = true
		if i+1 < len(toks) {
			put("truncated-tokens", toks[:i+1])
		}
		if freeForm(t) {
			continue
		}
		if t.kind == 'e' {
			put("end-missing", append(append([]Tok{}, toks[:i]...), toks[i+1:]...))
			if n := "/end " + pick(r, endKeywords); n != t.text {
				put("end-of-other-block", replaceTok(toks, i, n))
			}
		}
		if (t.kind == 'v' || t.kind == 's') && !acceptsKeywords(t) {
			put("keyword-for-value", replaceTok(toks, i, pick(r, []string{"ASAP2_VERSION", "/begin PROJECT", "/begin MODULE", "/end PROJECT"})))
		}
		for _, b := range badClasses(t) {
			n := "number"
			if strings.HasPrefix(t.vkind, "e:") {
				n = "enumeration"
			}
			put(n, replaceTok(toks, i, pick(r, b)))
		}
	}
	return l
}

// badValues lists values that are not allowed for a number or an enumeration.
func badValues(t Tok) (l []string) {
	for _, c := range badClasses(t) {
		l = append(l, c...)
	}
	return l
}

// badClasses lists them by what is wrong with them.
func badClasses(t Tok) [][]string {
	k := t.vkind
	if strings.HasPrefix(k, "e:") {
		return [][]string{{"BOGUS", "0", "x"}, {strings.ToLower(t.text), t.text + "_X"}}
	}
	if !(k == "f" || k == "count" || k == "flist" || k == "i32x5" || k == "tuple-f" || isIntKind(k)) {
		return nil
	}
	bad := [][]string{{"abc", `""`, "--3"}, {"1x", "1..2", "1,5"}}
	if isIntKind(k) || k == "count" || k == "i32x5" {
		bad = append(bad, []string{"1.5", "1e3"}, []string{"99999999999999999999"})
	}
	switch k {
	case "u16", "count":
		bad = append(bad, []string{"65536", "70000"}, []string{"-1"})
	case "u32":
		bad = append(bad, []string{"4294967296"}, []string{"-1"})
	case "i16":
		bad = append(bad, []string{"32768"}, []string{"-32769"})
	case "i32", "i32x5":
		bad = append(bad, []string{"2147483648"}, []string{"-2147483649"})
	}
	return bad
}

// focusFile generates a file that contains the given part.
func focusFile(r *Rng, e edge) ([]Tok, int) {
	g := &a2lGen{r: r, optPc: pick(r, []int{0, 5, 20, 50})}
	m := g.module(r.between(0, 6))
	at := g.force(m, e)
	if r.chance(50) { // the same construct goes on behind the part
		for k := r.between(1, 3); k > 0 && len(at.def.opt) > 0; k-- {
			g.part(at, &at.def.opt[r.IntN(len(at.def.opt))], true)
		}
	}
	mods := []*Obj{m}
	if r.chance(50) {
		mods = append(mods, g.module(r.between(0, 3)))
		if r.chance(75) { // nothing but the end of the file behind the part reveals that it is cut off
			mods[0], mods[1] = mods[1], mods[0]
		}
	}
	return wrap(mods, g).tokens(nil), len(mods)
}

func runDamageFocus(c *Case, o *Obs) {
	r := c.rng
	e := allEdges[c.Idx%len(allEdges)]
	node := e.def.node
	if nodeDefs[node] == nil {
		node = e.from
	}
	toks, mods := focusFile(r, e)
	l := focusDamages(r, toks, node)
	r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	if len(l) > 30 {
		l = l[:30]
	}
	for _, d := range l {
		txt := plainLayout(r).render(d.toks)
		w := useWorkers(c, anyWorkers(r))
		path := c.write("damaged.a2l", txt)
		_, err := parseA2L(path)
		o.Evals++
		c.alive()
		o.add("damages "+d.name, 1)
		where := ""
		for i := range d.toks {
			if d.toks[i].text != toks[i].text {
				where = fmt.Sprintf("%s.%s: %q instead of %q", toks[i].node, toks[i].field, d.toks[i].text, toks[i].text)
				o.key("%s %s.%s", d.name, toks[i].node, toks[i].field)
				break
			}
		}
		if where == "" {
			i := len(d.toks) - 1
			where = fmt.Sprintf("ends after %s.%s %q", toks[i].node, toks[i].field, toks[i].text)
			o.key("%s %s.%s", d.name, toks[i].node, toks[i].field)
		}
		if err == nil {
			o.attach("damaged.a2l", []byte(txt))
			o.fail("accepted-"+d.name, "a file of %d modules and %d tokens with damage %s was accepted with %d processors: %s", mods, len(toks), d.name, w, where)
			return
		}
	}
}

// runDamageTiny damages every token of a file with hardly any content: nothing behind the damage reveals it.
func runDamageTiny(c *Case, o *Obs) {
	r := c.rng
	g := &a2lGen{r: r, optPc: pick(r, []int{0, 0, 10})}
	var mods []*Obj
	for n := r.IntN(3); n > 0; n-- {
		m := g.module(1)
		if k := r.IntN(3); k < len(m.opts) {
			m.opts = m.opts[:k]
		}
		mods = append(mods, m)
	}
	toks := wrap(mods, g).tokens(nil)
	if len(toks) > 150 {
		return
	}
	try := func(name string, i int, t []Tok) bool {
		txt := plainLayout(r).render(t)
		w := useWorkers(c, anyWorkers(r))
		_, err := parseA2L(c.write("damaged.a2l", txt))
		o.Evals++
		c.alive()
		o.add("damages "+name, 1)
		o.key("%s tiny %s.%s modules=%d", name, toks[i].node, toks[i].field, len(mods))
		if err == nil {
			o.attach("damaged.a2l", []byte(txt))
			o.fail("accepted-"+name, "a file of %d modules and %d tokens with damage %s at %s %q was accepted with %d processors", len(mods), len(toks), name, toks[i].node, toks[i].text, w)
		}
		return err != nil
	}
	for i, t := range toks {
		ok := i == 0 || try("truncated-tokens", i, toks[:i])
		ok = ok && try("comment-not-closed", i, append(append(append([]Tok{}, toks[:i]...), Tok{text: "/* open", kind: 'v'}), toks[i:]...))
		ok = ok && try("include", i, append(append(append([]Tok{}, toks[:i]...), Tok{text: "/include", kind: 'v'}, Tok{text: `"other.a2l"`, kind: 's'}), toks[i:]...))
		if t.kind == 's' && len(t.text) > 2 {
			ok = ok && try("text-not-closed", i, replaceTok(toks, i, t.text[:len(t.text)-1]))
		}
		if t.kind == 'e' && !freeForm(t) {
			ok = ok && try("end-missing", i, append(append([]Tok{}, toks[:i]...), toks[i+1:]...))
			for _, k := range []string{"PROJECT", "MODULE", "MEASUREMENT", "HEADER"} {
				if n := "/end " + k; n != t.text {
					ok = ok && try("end-of-other-block", i, replaceTok(toks, i, n))
				}
			}
		}
		if !ok {
			return
		}
	}
}

func runDamage(c *Case, o *Obs) {
	if c.Idx%40 == 20 {
		runDamageTiny(c, o)
		return
	}
	if c.Idx%2 == 1 {
		c.Idx /= 2
		runDamageFocus(c, o)
		return
	}
	c.Idx /= 2
	r := c.rng
	g := &a2lGen{r: r, optPc: pick(r, []int{5, 30, 60})}
	n := r.between(1, 15)
	switch x := r.IntN(10); {
	case x < 2:
		n = r.between(50, 200)
	case x == 2:
		n = 0
	}
	var mods []*Obj
	if n > 0 || r.chance(80) {
		mods = append(mods, g.module(n))
	}
	if r.chance(15) {
		mods = append(mods, g.module(r.between(0, 6)))
	}
	root := wrap(mods, g)
	toks := root.tokens(nil)
	l := plainLayout(r)
	for k := 0; k < 14; k++ {
		d := damages[(c.Idx*14+k)%len(damages)]
		if d.name == "no-project" && r.chance(70) {
			d = damages[r.IntN(7)]
		}
		t, txt, ok := d.apply(r, toks, l)
		if !ok {
			continue
		}
		where := ""
		if t != nil {
			txt = l.render(t)
			for i := range t {
				if i < len(toks) && t[i].text != toks[i].text {
					where = fmt.Sprintf("%s.%s %q instead of %q", t[i].node, t[i].field, t[i].text, toks[i].text)
					o.key("%s %s.%s", d.name, toks[i].node, toks[i].field)
					break
				}
			}
		} else {
			where = fmt.Sprintf("text cut to %d bytes: ...%q", len(txt), txt[maxInt(0, len(txt)-60):])
		}
		w := useWorkers(c, anyWorkers(r))
		path := c.write("damaged.a2l", txt)
		_, err := parseA2L(path)
		o.Evals++
		c.alive()
		o.add("damages "+d.name, 1)
		o.key("%s workers=%d size=%s modules=%d", d.name, w, bucket(len(toks)), len(mods))
		if err == nil {
			o.attach("damaged.a2l", []byte(txt))
			o.fail("accepted-"+d.name, "a file of %d modules and %d tokens with damage %s was accepted with %d processors: %s", len(mods), len(toks), d.name, w, where)
			return
		}
		if o.Sample == "" {
			o.Sample = fmt.Sprintf("%s: %s -> %v", d.name, where, err)
		}
	}
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---- A06: modules

func runModules(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 3; k++ {
		setCase(c, o)
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 10, 40}), rich: r.chance(50)}
		n := pick(r, []int{0, 1, 2, 2, 3, 4, 6})
		many := k == 0 && c.Idx%500 == 250
		if many { // as many as do not fit into a byte
			n = 256 + r.IntN(3)
		}
		var mods []*Obj
		for i := 0; i < n; i++ {
			size := r.between(0, 20)
			if many {
				size = r.between(0, 3)
			} else if r.chance(10) {
				size = r.between(100, 250)
			}
			m := g.module(size)
			if i > 0 && r.chance(70) { // objects of the same names as in an earlier module
				shareNames(r, mods[r.IntN(len(mods))], m)
			}
			mods = append(mods, m)
		}
		if n > 1 && r.chance(20) { // modules of the same name
			mods[n-1].pos[0] = mods[0].pos[0]
		}
		root := wrap(mods, g)
		toks := root.tokens(nil)
		l := plainLayout(r)
		if r.chance(40) {
			l = anyLayout(r)
		}
		txt := l.render(toks)
		_, ok := checkTree(c, o, root, txt, fmt.Sprintf("%d modules", n), nil)
		o.add("modules", n)
		o.key("modules=%d workers=%d tokens=%s header=%v", n, c.Workers, bucket(len(toks)), root.one("Project").one("header") != nil)
		if !ok {
			return
		}
		if o.Sample == "" && n > 1 {
			o.Sample = fmt.Sprintf("%d modules, %d tokens: %s", n, len(toks), clip(txt, 300))
		}
	}
}

func shareNames(r *Rng, from, to *Obj) {
	used := map[string]bool{}
	for i := range to.opts {
		if to.opts[i].def.mult != "map" || !r.chance(60) {
			continue
		}
		for j := range from.opts {
			if from.opts[j].def == to.opts[i].def {
				k := from.opts[j].def.field + "/" + from.opts[j].obj.name()
				if !used[k] {
					used[k] = true
					to.opts[i].obj.pos[0] = from.opts[j].obj.pos[0]
					break
				}
			}
		}
	}
	// a shared name must not meet an equal one in the same collection
	seen := map[string]bool{}
	for i := range to.opts {
		if to.opts[i].def.mult != "map" {
			continue
		}
		k := to.opts[i].def.field + "/" + to.opts[i].obj.name()
		if seen[k] {
			to.opts[i].obj.pos[0] = []string{fmt.Sprintf("unique_%d_%d", i, r.IntN(1<<30))}
		}
		seen[to.opts[i].def.field+"/"+to.opts[i].obj.name()] = true
	}
}

// ---- L01: record layouts

func runPositions(c *Case, o *Obs) {
	r := c.rng
	setCase(c, o)
	g := &a2lGen{r: r, optPc: 0}
	m := g.object("Module")
	d := nodeDefs["RecordLayout"]
	rlOpt := opt(nodeDefs["Module"], "RecordLayouts")
	type exp struct {
		pos   map[string]uint64 // field -> position
		types map[string]string
		dup   bool
	}
	want := map[string]exp{}
	for k := 0; k < 60; k++ {
		save := g.optPc
		g.optPc = pick(r, []int{3, 10, 30, 70, 100})
		rl := g.object("RecordLayout")
		g.optPc = save
		e := exp{map[string]uint64{}, map[string]string{}, false}
		// positions: mostly a permutation, sometimes with a collision
		used := map[uint64]bool{}
		collide := r.chance(35)
		for _, v := range rl.opts {
			if v.obj == nil {
				continue
			}
			for i, p := range v.obj.def.pos {
				if strings.EqualFold(p.field, "position") {
					n := uint64(r.IntN(60))
					if r.chance(5) {
						n = uint64(r.IntN(65536))
					}
					for used[n] && !(collide && r.chance(30)) {
						n = uint64(r.IntN(65536))
					}
					if used[n] {
						e.dup = true
					}
					used[n] = true
					v.obj.pos[i] = []string{strconv.FormatUint(n, 10)}
					e.pos[v.def.field] = n
				}
				if strings.EqualFold(p.field, "datatype") {
					e.types[v.def.field] = v.obj.pos[i][0]
				}
			}
		}
		want[rl.name()] = e
		m.opts = append(m.opts, optVal{def: rlOpt, obj: rl})
	}
	root := wrap([]*Obj{m}, g)
	txt := plainLayout(r).render(root.tokens(nil))
	path := c.write("layouts.a2l", txt)
	a, err := parseA2L(path)
	if err != nil || len(a.Project.Modules) != 1 {
		o.fail("rejected", "valid file rejected: %v", err)
		o.attach("layouts.a2l", []byte(txt))
		return
	}
	bad := func(sig, f string, x ...any) {
		o.attach("layouts.a2l", []byte(txt))
		o.fail(sig, f, x...)
	}
	var all []string
	for _, x := range d.opt {
		if n := nodeDefs[x.node]; x.mult == "one" && len(n.pos) > 1 && strings.EqualFold(n.pos[1].field, "datatype") && strings.EqualFold(n.pos[0].field, "position") {
			all = append(all, x.field)
		}
	}
	for name, e := range want {
		rl, ok := a.Project.Modules[0].RecordLayouts[name]
		if !ok {
			bad("missing", "record layout %s is missing", name)
			return
		}
		got, err := rl.GetRecordLayoutRelativePositions()
		o.Evals++
		c.alive()
		o.add("layouts", 1)
		o.key("fields=%s duplicates=%v", bucket(len(e.pos)), e.dup)
		for f := range e.pos {
			o.key("field %s", f)
		}
		if (err != nil) != e.dup {
			bad("error", "record layout %s: two fields share a position: %v, but the error is %v (positions %v)", name, e.dup, err, e.pos)
			return
		}
		if err == nil {
			same := len(got) == len(e.pos)
			for f, p := range e.pos {
				same = same && got[uint16(p)] == f
			}
			if !same {
				bad("positions", "record layout %s: positions %v expected, %v delivered", name, e.pos, got)
				return
			}
		}
		for _, f := range all {
			t, err := rl.GetDatatypeByFieldName(f)
			o.Evals++
			c.alive()
			w, present := e.types[f]
			if present && (err != nil || string(t) != w) {
				bad("datatype", "record layout %s: data type of %s is %s, but %q was delivered (error %v)", name, f, w, t, err)
				return
			}
			if !present && err == nil {
				bad("datatype-absent", "record layout %s has no %s, but data type %q was delivered", name, f, t)
				return
			}
		}
	}
	if o.Sample == "" {
		for n, e := range want {
			o.Sample = fmt.Sprintf("%s: %v duplicates=%v", n, e.pos, e.dup)
			break
		}
	}
	_ = reflect.ValueOf
}

func init() {
	register(&Prop{id: "A04", cases: tiers(1500, 15000), run: runDeterminism, gb: 2, minKeys: 50,
		rule: "a valid or damaged file is parsed with one processor and then five times with other processor counts, every second time with delays injected into the parser goroutines; the outcome (error, or a hash of the complete result) must be the same; a situation is (kind of file, worker count, perturbed, size class, outcome)"})
	register(&Prop{id: "A05", cases: tiers(6320, 40000), run: runDamage, gb: 2, minKeys: 100,
		rule:        "a valid file is damaged in one of 11 ways at a random place and parsed with 1..64 processors; the monitor requires an error; a situation is (damage, construct and field hit) or (damage, worker count, size class, modules)",
		assumptions: []string{"names and descriptions of modules, texts of verbal tables, values of forbidden combinations and the content of free-form blocks accept any token"}})
	register(&Prop{id: "A06", cases: tiers(5000, 30000), run: runModules, gb: 2, minKeys: 50,
		rule: "projects of 0..6 modules, partly with objects of the same names, are parsed with 1..64 processors and compared field by field with the file; a situation is (modules, worker count, size class, header) or (construct, part)"})
	register(&Prop{id: "L01", cases: tiers(8000, 200000), run: runPositions, gb: 2, minKeys: 40,
		rule: "record layouts with random subsets of all positioned fields, random positions (partly colliding) and data types are parsed from a file; the position map and the data type of every field are compared; a situation is (number of fields class, collision) or a field"})
}
