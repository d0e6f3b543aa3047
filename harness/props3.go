package main

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	calib "github.com/asap2Go/calibrationReader"
)

// ---- common: a file with a reader and an expected outcome

type subject struct {
	kind string // "a2l", "ihex", "srec"
	path string
	txt  string
	desc string
}

func (s *subject) read() outcome {
	switch s.kind {
	case "a2l":
		return a2lOutcome(s.path)
	default:
		m, err := parseHexFile(s.kind, s.path)
		if err != nil {
			return outcome{failed: true}
		}
		return outcome{print: fingerprint(m)}
	}
}

// settled waits until no more than base goroutines are left; it returns how many are left.
func settled(base int) int {
	n := 0
	for i := 0; i < 400; i++ {
		n = runtime.NumGoroutine()
		if n <= base {
			return n
		}
		if i < 50 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(i/10) * time.Millisecond)
		}
	}
	return n
}

func goroutineDump() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}

// ---- R01: robustness

var soupWords = []string{"/begin", "/end", "/begin PROJECT", "/end PROJECT", "/begin MODULE", "/end MODULE", "/begin MEASUREMENT", "/end MEASUREMENT", "/begin CHARACTERISTIC", "/end CHARACTERISTIC",
	"/begin RECORD_LAYOUT", "/end RECORD_LAYOUT", "/begin IF_DATA", "/end IF_DATA", "/begin A2ML", "/end A2ML", "/begin COMPU_VTAB", "/end COMPU_VTAB", "/begin AXIS_DESCR", "/end AXIS_DESCR", "/begin MOD_PAR", "/end MOD_PAR",
	"ASAP2_VERSION", "A2ML_VERSION", "MATRIX_DIM", "FORMAT", "\"", "\"\"", "\"text\"", "\"open", "closed\"", "/*", "*/", "//", "/", "*", "/**/", "/include", "0", "1", "-1", "65535", "65536", "1e9", "0xFF", "x", "name", "UBYTE", "VALUE", "READ_ONLY",
	"\n", "\n", "\r\n", "\t", "\x00", "\ufeff", "\xff\xfe", "\\", "\\\"", "'", "EMPTY", "FIX_AXIS_PAR_LIST", "/begin UNKNOWN_THING", "/end UNKNOWN_THING", "VAR_CRITERION", "/begin VARIANT_CODING", "/begin FRAME", "/begin GROUP", "/begin FUNCTION"}

func soup(r *Rng) string {
	var b strings.Builder
	if r.chance(60) {
		b.WriteString("ASAP2_VERSION 1 71 /begin PROJECT p \"\" /begin MODULE m \"\" ")
	}
	for n := r.small(600); n > 0; n-- {
		b.WriteString(pick(r, soupWords))
		if r.chance(85) {
			b.WriteString(pick(r, []string{" ", " ", "\n", "\r\n", "\t"}))
		}
	}
	return b.String()
}

func randomBytes(r *Rng) string {
	b := make([]byte, r.small(4000)-1)
	alphabet := pick(r, []string{"", "0123456789ABCDEFabcdef:S\r\n", "/beginend \"*\n", "\r\n", " \t", ":00000001FF\n", "\x00\x1a\n"})
	for i := range b {
		if alphabet == "" {
			b[i] = byte(r.IntN(256))
		} else {
			b[i] = alphabet[r.IntN(len(alphabet))]
		}
	}
	return string(b)
}

func mutate(r *Rng, s string, dict []string) string {
	b := []byte(s)
	for n := r.between(1, 6); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := r.IntN(len(b))
		j := i + r.small(1+minInt(len(b)-i, 200))
		if j > len(b) {
			j = len(b)
		}
		switch r.IntN(7) {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b = append(b[:i:i], b[j:]...)
		case 2: // repeat a part
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 3:
			b = append(b[:i:i], append([]byte(pick(r, dict)), b[i:]...)...)
		case 4: // cut off
			if r.chance(30) {
				b = b[:i]
			}
		case 5: // move a part
			part := append([]byte{}, b[i:j]...)
			b = append(b[:i:i], b[j:]...)
			k := r.IntN(len(b) + 1)
			b = append(b[:k:k], append(part, b[k:]...)...)
		case 6:
			b[i] = pick(r, []byte("\"/*\n\r \t\x000:S"))
		}
	}
	return string(b)
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var hexDict = []string{":", "S", "\n", "\r\n", ":00000001FF\n", ":020000040000FA\n", ":0200000400\n", "S1", "S3", "S0030000FC\n", "S9030000FC\n", ":00000001", "FF", "\x1a", ":0000000000\n", "S104000000FB\n", " ", "S2", "S7", "S8", "::", "SS"}

func tokenDamage(r *Rng, toks []Tok) []Tok {
	t := append([]Tok{}, toks...)
	for n := r.between(1, 8); n > 0 && len(t) > 1; n-- {
		i := r.IntN(len(t))
		switch r.IntN(5) {
		case 0:
			t = append(t[:i:i], t[i+1:]...)
		case 1:
			t = append(t[:i:i], append([]Tok{t[r.IntN(len(t))]}, t[i:]...)...)
		case 2:
			t[i].text = pick(r, soupWords)
		case 3:
			j := r.IntN(len(t))
			t[i], t[j] = t[j], t[i]
		case 4:
			j := minInt(len(t), i+r.small(40))
			t = append(t[:i:i], t[j:]...)
		}
	}
	return t
}

func hostile(c *Case, k int) *subject {
	r := c.rng
	s := &subject{}
	switch k % 10 {
	case 8, 9: // ends inside of each supported construct in turn
		e := allEdges[(c.Idx*8+k/10*2+k%2)%len(allEdges)]
		toks, _ := focusFile(r, e)
		node := e.def.node
		if nodeDefs[node] == nil {
			node = e.from
		}
		var l []int
		for i, t := range toks {
			if t.node == node && t.kind != 'e' {
				l = append(l, i)
			}
		}
		cut := len(toks) - 1
		if len(l) > 0 {
			if cut = l[len(l)-1] + 1; r.chance(40) {
				cut = pick(r, l) + 1
			}
		}
		s.kind, s.txt, s.desc = "a2l", strings.TrimRight(plainLayout(r).render(toks[:cut]), pick(r, []string{"", "\n"})), "truncated in "+node
	case 0:
		s.kind = pick(r, []string{"a2l", "ihex", "srec"})
		s.txt, s.desc = randomBytes(r), "random bytes"
	case 1:
		s.kind, s.txt, s.desc = "a2l", soup(r), "token soup"
	case 2, 3:
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 20, 60, 100}), rich: true}
		toks := wrap([]*Obj{g.module(r.between(0, 20))}, g).tokens(nil)
		s.kind, s.txt, s.desc = "a2l", anyLayout(r).render(tokenDamage(r, toks)), "damaged tokens"
	case 4:
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 20, 60}), rich: true}
		mods := []*Obj{g.module(r.between(0, 20))}
		if r.chance(20) {
			mods = append(mods, g.module(r.between(0, 10)))
		}
		toks := wrap(mods, g).tokens(nil)
		if r.chance(35) {
			s.kind, s.txt, s.desc = "a2l", plainLayout(r).render(manyDamages(r, toks)), "many damages"
			break
		}
		s.kind, s.txt, s.desc = "a2l", mutate(r, anyLayout(r).render(toks), soupWords), "mutated a2l text"
	case 5, 6:
		s.kind = pick(r, []string{"ihex", "srec"})
		f := genHex(r, s.kind, pick(r, []int{20, 200, 2000}))
		if r.chance(30) {
			s.txt, s.desc = manyCorrupt(r, f), "many corrupt records"
			break
		}
		s.txt, s.desc = mutate(r, f.text(r, true), hexDict), "mutated hex text"
	case 7:
		s.kind = pick(r, []string{"a2l", "ihex", "srec"})
		s.txt = pick(r, []string{"", "\n", "\r\n", "\r", " ", "\x00", "\x1a", "\ufeff", ":", "S", "/", "\"", "/*", "//", "/begin", "/end", "/begin\n", "\n\n\n", strings.Repeat("\n", 5000), strings.Repeat(" ", 5000), strings.Repeat("/*", 500), strings.Repeat("\"", 999),
			strings.Repeat("/begin MODULE x ", 300), strings.Repeat("A", 100000), strings.Repeat(":", 3000), strings.Repeat("S1\n", 300), "/begin PROJECT", "/begin PROJECT p", "/begin PROJECT p \"\"", "/begin PROJECT p \"\" /begin MODULE", "/begin PROJECT p \"\" /begin MODULE m", "/begin PROJECT p \"\" /begin MODULE m \"\"", "ASAP2_VERSION", "ASAP2_VERSION 1"})
		s.desc = "special content"
	}
	return s
}

func extOf(kind string) string {
	return map[string]string{"a2l": ".a2l", "ihex": ".hex", "srec": ".s19"}[kind]
}

func runRobust(c *Case, o *Obs) {
	r := c.rng
	base := settled(runtime.NumGoroutine())
	// valid partners for the combined reader
	g := &a2lGen{r: r, optPc: 5}
	okA := c.write("ok.a2l", plainLayout(r).render(wrap([]*Obj{g.module(3)}, g).tokens(nil)))
	okH := c.write("ok.hex", genIhex(r, 100).text(nil, false))
	badA := []string{c.write("bad1.a2l", ""), c.write("bad2.a2l", "ASAP2_VERSION 1 61 /begin PROJECT p"), filepath.Join(c.Dir, "none.a2l"), filepath.Join(c.Dir, "none", "none.a2l"), ""}
	badH := []string{c.write("bad1.hex", ":00000001FE\n"), c.write("bad2.s19", "S1"), filepath.Join(c.Dir, "none.hex"), filepath.Join(c.Dir, "none.s19"), okA, ""}
	for k := 0; k < 40; k++ {
		s := hostile(c, k)
		w := useWorkers(c, anyWorkers(r))
		pert := r.chance(20)
		if pert {
			perturb(r.Uint64(), 200)
		}
		s.path = c.write("input"+extOf(s.kind), s.txt)
		path := s.path
		s2 := *s
		s2.path = path
		before := settled(base)
		out := s2.read()
		left := settled(before)
		quietLogger()
		o.Evals++
		c.alive()
		if strings.HasPrefix(s.desc, "truncated in ") {
			o.add("inputs truncated", 1)
		} else {
			o.add("inputs "+s.desc, 1)
		}
		if out.failed {
			o.add("rejected", 1)
		} else {
			o.add("accepted", 1)
		}
		o.key("%s %s workers=%d size=%s failed=%v", s.kind, s.desc, w, bucket(len(s.txt)), out.failed)
		if left > before {
			o.attach("input"+extOf(s.kind), []byte(s.txt))
			o.fail("leak-"+s.kind, "%d goroutines more than before the call are left 10 s after the %s reader returned (%s, %d processors)\n%s", left-before, s.kind, s.desc, w, clip(goroutineDump(), 3000))
			return
		}
		if r.chance(20) { // through the combined reader
			ap, hp := okA, okH
			if s.kind == "a2l" {
				ap = path
				if r.chance(40) {
					hp = pick(r, badH)
				}
			} else {
				hp = path
				if r.chance(40) {
					ap = pick(r, badA)
				}
			}
			if r.chance(15) {
				ap, hp = pick(r, badA), pick(r, badH)
			}
			before := settled(base)
			_, err := calib.ReadCalibration(ap, hp)
			quietLogger()
			left := settled(before)
			o.Evals++
			c.alive()
			o.add("combined reads", 1)
			o.key("combined %s %s failed=%v", s.kind, s.desc, err != nil)
			if left > before {
				o.attach("input"+extOf(s.kind), []byte(s.txt))
				o.fail("leak-combined", "%d goroutines are left after the combined reader returned (%s %s)\n%s", left-before, s.kind, s.desc, clip(goroutineDump(), 3000))
				return
			}
		}
		if o.Sample == "" && k%8 == 3 {
			o.Sample = fmt.Sprintf("%s, %d processors -> failed=%v: %s", s.desc, w, out.failed, clip(s.txt, 300))
		}
	}
	// files that end inside of each supported construct, behind each kind of its tokens; with several modules only the end
	// of the file stops the parser, with one module the end of the module
	for k := 0; k < 4; k++ {
		e := allEdges[(c.Idx*2+k/2)%len(allEdges)]
		node := e.def.node
		if nodeDefs[node] == nil {
			node = e.from
		}
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 0, 10})}
		m := g.module(r.between(0, 2))
		g.force(m, e)
		mods := []*Obj{m}
		two := k%2 == 0
		if two {
			mods = []*Obj{g.module(r.between(0, 2)), m}
		}
		toks := wrap(mods, g).tokens(nil)
		seen := map[string]bool{}
		for i := len(toks) - 1; i > 0; i-- {
			t := toks[i]
			key := string(t.kind) + t.field + t.vkind
			if t.node != node || t.kind == 'e' || seen[key] {
				continue
			}
			seen[key] = true
			cut := append([]Tok{}, toks[:i+1]...)
			if !two {
				cut = append(cut, Tok{text: "/end MODULE", kind: 'e'}, Tok{text: "/end PROJECT", kind: 'e'})
			}
			w := useWorkers(c, anyWorkers(r))
			txt := strings.TrimRight(plainLayout(r).render(cut), pick(r, []string{"", "\n"}))
			before := settled(base)
			out := (&subject{kind: "a2l", path: c.write("cut.a2l", txt)}).read()
			left := settled(before)
			quietLogger()
			o.Evals++
			c.alive()
			o.add("inputs cut in each construct", 1)
			o.key("cut in %s.%s modules=%d failed=%v", node, t.field, len(mods), out.failed)
			if left > before {
				o.attach("cut.a2l", []byte(txt))
				o.fail("leak-a2l", "%d goroutines are left 10 s after the reader returned (cut behind %s.%s, %d processors)\n%s", left-before, node, t.field, w, clip(goroutineDump(), 3000))
				return
			}
		}
	}
	// paths that cannot be read
	for _, kind := range []string{"a2l", "ihex", "srec"} {
		folder := filepath.Join(c.Dir, "folder"+extOf(kind))
		_ = os.MkdirAll(folder, 0o755)
		for desc, path := range map[string]string{"missing file": filepath.Join(c.Dir, "missing"+extOf(kind)), "missing folder": filepath.Join(c.Dir, "no", "no", "missing"+extOf(kind)), "a folder": folder, "empty path": "", "path through a file": filepath.Join(okA, "x"+extOf(kind)), "path with a zero byte": okA + "\x00" + extOf(kind)} {
			useWorkers(c, anyWorkers(r))
			before := settled(base)
			out := (&subject{kind: kind, path: path}).read()
			left := settled(before)
			quietLogger()
			o.Evals++
			c.alive()
			o.add("unreadable paths", 1)
			o.key("%s %s", kind, desc)
			if left > before {
				o.fail("leak-"+kind, "%d goroutines are left 10 s after the %s reader returned (%s)\n%s", left-before, kind, desc, clip(goroutineDump(), 3000))
				return
			}
			if !out.failed {
				o.fail("accepted-path-"+kind, "%s: the %s reader returned a result and no error", desc, kind)
				return
			}
		}
	}
}

// ---- a pool of valid and damaged files

func (c *Case) pool(n int, dir string) []*subject {
	r := c.rng
	_ = os.MkdirAll(filepath.Join(c.Dir, dir), 0o755)
	var l []*subject
	for i := 0; i < n; i++ {
		s := &subject{}
		switch i % 3 {
		case 0:
			s.kind = "a2l"
			g := &a2lGen{r: r, optPc: pick(r, []int{0, 10, 40}), rich: r.chance(50)}
			size := r.between(0, 25)
			if r.chance(15) {
				size = r.between(60, 150)
			}
			mods := []*Obj{g.module(size)}
			if r.chance(15) {
				mods = append(mods, g.module(r.between(0, 6)))
			}
			toks := wrap(mods, g).tokens(nil)
			lay := anyLayout(r)
			if r.chance(35) {
				lay = plainLayout(r)
				d := damages[r.IntN(len(damages))]
				if r.chance(30) {
					s.desc, s.txt = "damaged:many", lay.render(manyDamages(r, toks))
				} else if t, x, ok := d.apply(r, toks, lay); ok {
					s.desc = "damaged:" + d.name
					if t != nil {
						x = lay.render(t)
					}
					s.txt = x
				}
			}
			if s.desc == "" {
				s.desc, s.txt = "valid", lay.render(toks)
			}
		default:
			s.kind = pick(r, []string{"ihex", "srec"})
			size := pick(r, []int{40, 400, 2000})
			f := genHex(r, s.kind, size)
			if r.chance(6) { // more than 64 KB
				f = manyRecords(r, s.kind, r.between(5000, 12000))
			}
			s.txt, s.desc = f.text(r, false), "valid"
			if r.chance(12) { // an address defined twice
				var idx []int
				for i, x := range f.recs {
					if (x.kind == 0 || x.kind == '1' || x.kind == '2' || x.kind == '3') && len(x.data) > 0 {
						idx = append(idx, i)
					}
				}
				if len(idx) > 0 {
					i := pick(r, idx)
					lines := append(append(append([]string{}, f.lines[:i]...), f.lines[i]), f.lines[i:]...)
					s.txt, s.desc = strings.Join(lines, f.nl)+f.nl, "damaged:collision"
				}
			} else if r.chance(25) {
				cor := corruptions[r.IntN(len(corruptions))]
				i := r.IntN(len(f.lines))
				if line, ok := cor.apply(r, f, i); ok {
					f.lines[i] = line
					s.txt, s.desc = strings.Join(f.lines, f.nl)+f.nl, "damaged:"+cor.name
				}
			} else if r.chance(18) {
				s.txt, s.desc = manyCorrupt(r, f), "damaged:many"
			}
		}
		s.path = c.write(filepath.Join(dir, fmt.Sprintf("file%d%s", i, extOf(s.kind))), s.txt)
		l = append(l, s)
	}
	return l
}

// manyCorrupt corrupts many or all records of a file, so that several workers meet errors.
func manyCorrupt(r *Rng, f *hexFile) string {
	pc := pick(r, []int{5, 30, 100})
	g := *f
	g.lines = append([]string{}, f.lines...)
	one := corruptions[r.IntN(len(corruptions))]
	for i := range f.lines {
		if !r.chance(pc) {
			continue
		}
		cor := one
		if r.chance(50) {
			cor = corruptions[r.IntN(len(corruptions))]
		}
		if line, ok := cor.apply(r, f, i); ok {
			g.lines[i] = line
		}
	}
	return strings.Join(g.lines, f.nl) + f.nl
}

// manyDamages puts wrong values in many places.
func manyDamages(r *Rng, toks []Tok) []Tok {
	t := append([]Tok{}, toks...)
	pc := pick(r, []int{2, 20, 100})
	for i := range t {
		if !r.chance(pc) || freeForm(t[i]) {
			continue
		}
		if b := badValues(t[i]); len(b) > 0 {
			t[i].text = pick(r, b)
		}
	}
	return t
}

// damagedHex writes a file with an error of a given kind.
func damagedHex(c *Case, k int) *subject {
	r := c.rng
	s := &subject{kind: pick(r, []string{"ihex", "srec"})}
	f := genHex(r, s.kind, pick(r, []int{40, 400}))
	switch k % 3 {
	case 0: // only the last data record collides: everything else is readable
		for i := len(f.recs) - 1; i >= 0; i-- {
			if x := f.recs[i]; (x.kind == 0 || x.kind == '1' || x.kind == '2' || x.kind == '3') && len(x.data) > 0 {
				lines := append(append(append([]string{}, f.lines[:i]...), f.lines[i]), f.lines[i:]...)
				s.txt, s.desc = strings.Join(lines, f.nl)+f.nl, "damaged:collision"
				break
			}
		}
	case 1: // a wrong checksum
		i := r.IntN(len(f.lines))
		l := f.lines[i]
		var v int
		fmt.Sscanf(l[len(l)-2:], "%X", &v)
		f.lines[i] = l[:len(l)-2] + fmt.Sprintf("%02X", (v+r.between(1, 255))&255)
		s.txt, s.desc = strings.Join(f.lines, f.nl)+f.nl, "damaged:checksum"
	case 2:
		s.txt, s.desc = pick(r, []string{"", "\n", "no record", ":", "S", ":00000001FF"[:r.between(1, 10)], "S1"}), "damaged:garbage"
	}
	return s
}

// combined reads two files with the combined reader.
func combined(a, h *subject) outcome {
	cd, err := calib.ReadCalibration(a.path, h.path)
	if err != nil {
		return outcome{failed: true}
	}
	return outcome{print: fingerprint(cd)}
}

func ofKind(pool []*subject, kinds ...string) []*subject {
	var l []*subject
	for _, s := range pool {
		for _, k := range kinds {
			if s.kind == k {
				l = append(l, s)
			}
		}
	}
	return l
}

// ---- C01: concurrency (built with the race detector)

func runConcurrent(c *Case, o *Obs) {
	r := c.rng
	pool := c.pool(9, "pool")
	as, hs := ofKind(pool, "a2l"), ofKind(pool, "ihex", "srec")
	for round := 0; round < 3; round++ {
		w := useWorkers(c, anyWorkers(r))
		type call struct {
			a, h *subject
			name string
			want outcome
			got  outcome
		}
		mode := pick(r, []string{"same file", "one reader", "all readers", "combined", "alone"})
		n := r.between(2, 6)
		per := r.between(1, 3)
		if mode == "alone" {
			n = 1
		}
		calls := make([][]*call, n)
		same := pick(r, pool)
		kind := pick(r, []string{"a2l", "ihex", "srec"})
		if len(ofKind(pool, kind)) == 0 {
			kind = "a2l"
		}
		want := map[string]outcome{}
		for i := range calls {
			for j := 0; j < per; j++ {
				x := &call{}
				switch mode {
				case "combined":
					x.a, x.h = pick(r, as), pick(r, hs)
					x.name = x.a.path + "+" + x.h.path
				case "same file":
					x.a = same
				case "one reader":
					x.a = pick(r, ofKind(pool, kind))
				default:
					x.a = pick(r, pool)
				}
				if x.name == "" {
					x.name = x.a.path
				}
				if _, ok := want[x.name]; !ok {
					if x.h != nil {
						want[x.name] = combined(x.a, x.h)
						quietLogger()
					} else {
						want[x.name] = x.a.read()
					}
				}
				x.want = want[x.name]
				calls[i] = append(calls[i], x)
			}
		}
		pert := mode != "combined" && r.chance(30)
		if pert {
			perturb(r.Uint64(), uint64(pick(r, []int{10, 100})))
		}
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range calls {
			l := calls[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for _, x := range l {
					if x.h != nil {
						x.got = combined(x.a, x.h)
					} else {
						x.got = x.a.read()
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		quietLogger()
		o.key("%s callers=%d calls=%d workers=%d perturbed=%v", mode, n, per, w, pert)
		for i := range calls {
			for _, x := range calls[i] {
				o.Evals++
				c.alive()
				o.add("concurrent calls", 1)
				if x.got != x.want {
					for _, s := range pool {
						o.attach(filepath.Base(s.path), []byte(s.txt))
					}
					o.fail("result", "%s, %d callers, %d processors: %s gave %v alone but %v concurrently", mode, n, w, filepath.Base(x.name), x.want, x.got)
					return
				}
			}
		}
		if o.Sample == "" && n > 1 {
			o.Sample = fmt.Sprintf("%s: %d callers with %d calls each, %d processors, first: %s %s -> %v", mode, n, per, w, calls[0][0].a.kind, calls[0][0].a.desc, calls[0][0].got)
		}
	}
}

// ---- C02: histories

// twin changes a text without changing its length: two data bytes of a record change places (the checksum stays right), or
// one letter or digit of an A2L file is another one.
func twin(r *Rng, kind, txt string) string {
	b := []byte(txt)
	if kind == "a2l" {
		for try := 0; try < 200 && len(b) > 0; try++ {
			i := r.IntN(len(b))
			switch c := b[i]; {
			case c >= '1' && c <= '8':
				b[i]++
				return string(b)
			case c >= 'a' && c <= 'y':
				b[i]++
				return string(b)
			}
		}
		return string(b)
	}
	lines := strings.SplitAfter(txt, "\n")
	for try := 0; try < 50; try++ {
		i := r.IntN(len(lines))
		l := []byte(lines[i])
		end := len(strings.TrimRight(lines[i], "\r\n")) - 2
		from := 9
		if kind == "srec" {
			from = 4
			if len(l) > 1 {
				if n, ok := map[byte]int{'1': 8, '2': 10, '3': 12}[l[1]]; ok {
					from = n
				} else {
					continue
				}
			}
		} else if len(l) < 9 || string(l[7:9]) != "00" {
			continue
		}
		n := (end - from) / 2
		if n < 2 {
			continue
		}
		x, y := from+2*r.IntN(n), from+2*r.IntN(n)
		if strings.EqualFold(string(l[x:x+2]), string(l[y:y+2])) {
			continue
		}
		l[x], l[x+1], l[y], l[y+1] = l[y], l[y+1], l[x], l[x+1]
		lines[i] = string(l)
		return strings.Join(lines, "")
	}
	return txt
}

// scribble changes whatever can be changed in a result: it belongs to the caller.
func scribble(v reflect.Value, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i), depth+1)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Map:
		zero := reflect.Zero(v.Type().Elem())
		for i, k := range v.MapKeys() {
			if i%2 == 0 {
				v.SetMapIndex(k, zero)
			} else {
				scribble(v.MapIndex(k), depth+1)
				if i%5 == 0 {
					v.SetMapIndex(k, reflect.Value{})
				}
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() + 1)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() + 1)
		}
	case reflect.Float32, reflect.Float64:
		if v.CanSet() {
			v.SetFloat(v.Float() + 1)
		}
	}
}

// openFiles are the files below a folder that this process holds open.
func openFiles(dir string) []string {
	var l []string
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if t, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(t, dir+"/") && !strings.HasSuffix(t, ".log") && !strings.HasSuffix(t, ".log (deleted)") {
			l = append(l, t)
		}
	}
	return l
}

// readOne is the main function of a process that makes a single call.
func readOne(args []string) {
	if len(args) < 3 {
		os.Exit(2)
	}
	quietLogger()
	if err := os.Chdir(args[0]); err != nil {
		os.Exit(2)
	}
	var out outcome
	if args[1] == "combined" && len(args) > 3 {
		out = combined(&subject{path: args[2]}, &subject{path: args[3]})
	} else {
		out = (&subject{kind: args[1], path: args[2]}).read()
	}
	fmt.Printf("OUTCOME %v %d\n", out.failed, out.print)
}

// freshOutcome is the outcome of a call in a new process; false if that process did not report.
func freshOutcome(args ...string) (outcome, bool) {
	self, err := os.Executable()
	if err != nil {
		return outcome{}, false
	}
	b, err := exec.Command(self, append([]string{"readone"}, args...)...).Output()
	if err != nil {
		return outcome{}, false
	}
	var out outcome
	i := strings.Index(string(b), "OUTCOME ")
	if i < 0 {
		return outcome{}, false
	}
	if n, _ := fmt.Sscanf(string(b)[i:], "OUTCOME %t %d", &out.failed, &out.print); n != 2 {
		return outcome{}, false
	}
	return out, true
}

type slot struct {
	kind, path string
	txt        string
	gone       bool
}

func runHistory(c *Case, o *Obs) {
	r := c.rng
	long := c.Idx%12 == 5
	var pool []*subject
	if long {
		for _, s := range c.pool(18, "pool") {
			if len(s.txt) < 6000 {
				pool = append(pool, s)
			}
		}
	}
	if len(ofKind(pool, "a2l")) == 0 || len(ofKind(pool, "ihex", "srec")) == 0 {
		pool, long = c.pool(9, "pool"), false
	}
	base := settled(runtime.NumGoroutine())
	stamp := time.Unix(1700000000, 0)
	// contents by kind: those of the pool and twins of the same length
	contents := map[string][]string{}
	desc := map[string]string{}
	for _, s := range pool {
		contents[s.kind] = append(contents[s.kind], s.txt)
		desc[s.txt] = s.desc
		if t := twin(r, s.kind, s.txt); t != s.txt {
			contents[s.kind] = append(contents[s.kind], t)
			desc[t] = "twin of " + s.desc
		}
	}
	var slots []*slot
	for _, s := range pool {
		slots = append(slots, &slot{kind: s.kind, path: s.path, txt: s.txt})
		_ = os.Chtimes(s.path, stamp, stamp)
	}
	put := func(s *slot, txt string) {
		s.txt, s.gone = txt, false
		switch r.IntN(3) {
		case 0: // a new file of the same name
			_ = os.WriteFile(s.path+".new", []byte(txt), 0o644)
			_ = os.Chtimes(s.path+".new", stamp, stamp)
			_ = os.Rename(s.path+".new", s.path)
		case 1:
			_ = os.Remove(s.path)
			fallthrough
		default: // written over
			_ = os.WriteFile(s.path, []byte(txt), 0o644)
			_ = os.Chtimes(s.path, stamp, stamp)
		}
	}
	var as, hs []*slot
	for _, s := range slots {
		if s.kind == "a2l" {
			as = append(as, s)
		} else {
			hs = append(hs, s)
		}
	}
	numbers := map[string]int{}
	nameOf := func(s *slot) string { // by content, not by path
		if s.gone {
			return s.kind + ":missing"
		}
		if numbers[s.txt] == 0 {
			numbers[s.txt] = len(numbers) + 1
		}
		return fmt.Sprintf("%s:content%d", s.kind, numbers[s.txt])
	}
	seen := map[string]outcome{}
	first := map[string]int{}
	type held struct {
		v     any
		print uint64
		what  string
	}
	var hold []held
	steps := r.between(10, 40)
	if long {
		steps = r.between(300, 700)
		if c.Tier == "thorough" && c.Idx%24 == 5 {
			steps = 3000
		}
	}
	var trace []string
	story := func() string {
		if len(trace) > 60 {
			return fmt.Sprintf("(%d earlier), ", len(trace)-60) + strings.Join(trace[len(trace)-60:], ", ")
		}
		return strings.Join(trace, ", ")
	}
	keep := func() {
		for name, n := range numbers {
			o.attach(fmt.Sprintf("content%d", n), []byte(name))
		}
	}
	prev := "nothing"
	check := func(i int, name string, got outcome, how string) bool {
		o.Evals++
		c.alive()
		if old, ok := seen[name]; ok {
			o.add("repeated calls", 1)
			if old != got {
				o.fail("differs", "call %d (%s) gave %v, call %d on the same content (%s) gave %v; calls: %s", first[name], name, old, i, how, got, story())
				keep()
				return false
			}
		} else {
			seen[name], first[name] = got, i
		}
		return true
	}
	for i := 0; i < steps; i++ {
		if r.chance(20) {
			useWorkers(c, anyWorkers(r))
		}
		s := pick(r, slots)
		how := "same path"
		switch {
		case r.chance(15):
			put(s, pick(r, contents[s.kind]))
			how = "path with new content"
			o.add("contents replaced", 1)
		case r.chance(6):
			put(s, twin(r, s.kind, s.txt))
			how = "path with new content"
			o.add("contents replaced", 1)
		case s.gone && r.chance(60):
			put(s, pick(r, contents[s.kind]))
		case r.chance(4):
			_ = os.Remove(s.path)
			s.gone = true
		}
		path := s.path
		if !s.gone && r.chance(15) { // another way to the same content
			switch r.IntN(3) {
			case 0:
				if rel, err := filepath.Rel(c.Dir, s.path); err == nil {
					path, how = rel, "relative path"
				}
			case 1:
				path, how = filepath.Join(c.Dir, "pool", "link"+extOf(s.kind)), "link"
				_ = os.Remove(path)
				if os.Symlink(s.path, path) != nil {
					path, how = s.path, "same path"
				}
			case 2:
				path, how = c.write("copy"+extOf(s.kind), s.txt), "copy"
			}
		}
		if r.chance(2) { // a folder cannot be read
			path = filepath.Join(c.Dir, "folder"+extOf(s.kind))
			_ = os.MkdirAll(path, 0o755)
			if out := (&subject{kind: s.kind, path: path}).read(); !out.failed {
				o.fail("stale", "reading a folder with the %s reader gives %v; calls: %s", s.kind, out, story())
				return
			}
			trace = append(trace, "folder")
			continue
		}
		var name string
		var v any
		var err error
		pm := reflect.Value{}
		switch {
		case r.chance(15):
			a, h := pick(r, as), pick(r, hs)
			name = "combined " + nameOf(a) + "+" + nameOf(h)
			var cd calib.CalibrationData
			cd, err = calib.ReadCalibration(a.path, h.path)
			quietLogger()
			v, pm = cd, reflect.ValueOf(&cd)
			how = "combined"
		case s.kind == "a2l":
			name = nameOf(s)
			a, e := parseA2L(path)
			v, err, pm = a, e, reflect.ValueOf(&a)
		default:
			name = nameOf(s)
			m, e := parseHexFile(s.kind, path)
			v, err, pm = m, e, reflect.ValueOf(m)
		}
		got := outcome{failed: err != nil}
		if err == nil {
			got.print = fingerprint(v)
		}
		trace = append(trace, name)
		o.add("calls", 1)
		o.key("%s %s after %s failed=%v", s.kind, how, prev, got.failed)
		prev = s.kind + " " + map[bool]string{true: "failed", false: "read"}[got.failed]
		if s.gone && how != "combined" && !got.failed {
			o.fail("stale", "the file was removed and reading it still gives %v; calls: %s", got, story())
			return
		}
		if !check(i, name, got, how) {
			return
		}
		if err == nil {
			if r.chance(20) {
				scribble(pm, 0)
				o.add("results scribbled on", 1)
			} else if len(hold) < 60 {
				hold = append(hold, held{v, got.print, name})
			}
		}
	}
	for _, h := range hold {
		o.Evals++
		c.alive()
		o.add("held results checked", 1)
		if fingerprint(h.v) != h.print {
			o.fail("changed", "the result of reading %s was changed by a later call; calls: %s", h.what, story())
			keep()
			return
		}
	}
	if left := settled(base); left > base {
		o.fail("accumulated", "%d goroutines are left after %d calls\n%s", left-base, steps, clip(goroutineDump(), 3000))
		return
	}
	if l := openFiles(c.Dir); len(l) > 0 {
		o.fail("open-files", "%d files are still open after %d calls: %s", len(l), steps, clip(strings.Join(l, ", "), 300))
		return
	}
	// the same calls in new processes, which have no history
	for k := 0; k < 8; k++ {
		s := pick(r, slots)
		if s.gone {
			continue
		}
		args := []string{c.Dir, s.kind, s.path}
		name := nameOf(s)
		if k%4 == 3 {
			a, h := pick(r, as), pick(r, hs)
			if a.gone || h.gone {
				continue
			}
			args, name = []string{c.Dir, "combined", a.path, h.path}, "combined "+nameOf(a)+"+"+nameOf(h)
		}
		want, ok := freshOutcome(args...)
		if !ok {
			o.add("new processes without an answer", 1)
			continue
		}
		if _, known := seen[name]; !known { // here, at the end of the history
			var got outcome
			if k%4 == 3 {
				got = combined(&subject{path: args[2]}, &subject{path: args[3]})
				quietLogger()
			} else {
				got = (&subject{kind: s.kind, path: s.path}).read()
			}
			seen[name], first[name] = got, steps
		}
		o.Evals++
		c.alive()
		o.add("calls compared with a new process", 1)
		if seen[name] != want {
			o.fail("differs-from-new-process", "%s gave %v in call %d of this history, but %v in a new process; calls: %s", name, seen[name], first[name], want, story())
			keep()
			return
		}
	}
	if o.Sample == "" {
		o.Sample = fmt.Sprintf("%d calls: %s; %d results held and unchanged", steps, clip(story(), 300), len(hold))
	}
}

// ---- I01: combined reader

func runCombined(c *Case, o *Obs) {
	r := c.rng
	dir := pick(r, []string{"d", "data.hex", "x.s19", "a.hex.d", "b.S19.c", "out.a2l"})
	pool := c.pool(6, dir)
	as, hs := ofKind(pool, "a2l"), ofKind(pool, "ihex", "srec")
	missing := &subject{kind: "a2l", path: filepath.Join(c.Dir, dir, "missing.a2l"), desc: "missing"}
	for k := 0; k < 8; k++ {
		w := useWorkers(c, anyWorkers(r))
		a := pick(r, as)
		if r.chance(8) {
			a = missing
		}
		h := *pick(r, hs)
		if k < 3 { // partly readable and wholly unreadable files in turn
			h = *damagedHex(c, k)
		}
		// name the hex file in various ways
		right := map[string][]string{"ihex": {".hex", ".HEX", ".Hex", ".hEX"}, "srec": {".s19", ".S19"}}[h.kind]
		ext := pick(r, right)
		x := "own"
		if r.chance(30) {
			x = "other"
			ext = pick(r, []string{"", ".a2l", ".bin", ".mot", ".hex.bak", ".s19x", "hex", ".h", ".s1", ".s190", "_hex", ".s19.txt", "."})
		} else if r.chance(12) {
			x = "the other format's"
			ext = map[string]string{"ihex": ".s19", "srec": ".hex"}[h.kind]
		}
		stem := pick(r, []string{"img", "my.hex", "my.s19", "a.b", "hex", "s19", "my image", "größe", "", "a2l", "x.a2l"})
		if len(stem+ext) < 2 {
			stem = "img"
		}
		h.path = c.write(filepath.Join(dir, stem+ext), h.txt)
		if a != missing && r.chance(30) { // and the A2L file
			x := *a
			x.path = c.write(filepath.Join(dir, pick(r, []string{"my.A2L", "x", "data.hex.a2l", "d.s19", "a b.a2l", ".a2l", "x.hex"})), a.txt)
			if x.path != h.path {
				a = &x
			}
		}
		if r.chance(15) { // relative paths
			if rel, err := filepath.Rel(c.Dir, h.path); err == nil {
				h.path = rel
			}
			if rel, err := filepath.Rel(c.Dir, a.path); err == nil && a != missing {
				x := *a
				x.path = rel
				a = &x
			}
		}
		if r.chance(4) { // a folder
			h.path = filepath.Join(c.Dir, dir, "folder"+ext)
			_ = os.MkdirAll(h.path, 0o755)
		}
		if r.chance(6) {
			h.path = filepath.Join(c.Dir, dir, "missing"+ext)
		}
		// expected: composition of the single readers
		kind := ""
		e := strings.ToLower(filepath.Ext(h.path))
		if e == ".hex" {
			kind = "ihex"
		} else if e == ".s19" {
			kind = "srec"
		}
		wantA, errA := parseA2L(a.path)
		var wantH map[uint32]byte
		errH := errors.New("no reader")
		if kind != "" {
			wantH, errH = parseHexFile(kind, h.path)
		}
		pert := r.chance(30)
		cd, err := calib.ReadCalibration(a.path, h.path)
		quietLogger()
		_ = pert
		o.Evals++
		c.alive()
		o.add("pairs", 1)
		o.key("a2l %s ok=%v, %s %s ext=%s(%s) ok=%v workers=%d", a.desc, errA == nil, h.kind, h.desc, ext, x, errH == nil, w)
		bad := func(sig, f string, y ...any) {
			o.attach("input.a2l", []byte(a.txt))
			o.attach("input"+extOf(h.kind), []byte(h.txt))
			o.fail(sig, f, y...)
		}
		names := fmt.Sprintf("%s (%s) and %s (%s, %s)", filepath.Base(a.path), a.desc, strings.TrimPrefix(h.path, c.Dir), h.kind, h.desc)
		if errA != nil || errH != nil {
			if err == nil {
				bad("accepted", "%s: the combined reader returned no error although the single readers give %v and %v", names, errA, errH)
				return
			}
			if len(cd.Hex) != 0 || !isZero(reflect.ValueOf(cd.A2l)) {
				bad("data-with-error", "%s: the combined reader returned data (%d bytes) together with the error %v", names, len(cd.Hex), err)
				return
			}
			continue
		}
		if err != nil {
			bad("rejected", "%s: both can be read alone, but the combined reader fails: %v", names, err)
			return
		}
		if d := diffImage(wantH, cd.Hex); d != "" {
			bad("image", "%s: the image differs from that of the single reader: %s", names, d)
			return
		}
		if fingerprint(cd.A2l) != fingerprint(wantA) {
			bad("a2l", "%s: the a2l part differs from that of the single reader", names)
			return
		}
		if cd.ModuleIndex != 0 {
			bad("module", "%s: module %d is selected", names, cd.ModuleIndex)
			return
		}
		if o.Sample == "" {
			o.Sample = fmt.Sprintf("%s: %d bytes, %d modules", names, len(cd.Hex), len(cd.A2l.Project.Modules))
		}
	}
}

// ---- I02: lookup

var lookedUp = []string{"AxisPts", "Characteristics", "CompuMethods", "CompuTabs", "CompuVTabs", "CompuVTabRanges", "Functions", "Groups", "Measurements", "RecordLayouts", "Units"}

func runLookup(c *Case, o *Obs) {
	r := c.rng
	setCase(c, o)
	g := &a2lGen{r: r, optPc: pick(r, []int{0, 10, 30})}
	// names shared by collections and modules
	var names []string
	for i := 0; i < 25; i++ {
		names = append(names, g.ident())
	}
	cd := &calib.CalibrationData{}
	for k := pick(r, []int{1, 1, 1, 2, 3}); k > 0; k-- { // other files with the same names in turn
		if !lookupIn(c, o, g, names, cd) {
			return
		}
	}
}

func lookupIn(c *Case, o *Obs, g *a2lGen, names []string, cd *calib.CalibrationData) bool {
	r := c.rng
	d := nodeDefs["Module"]
	var mods []*Obj
	n := pick(r, []int{1, 1, 2, 3})
	for i := 0; i < n; i++ {
		m := g.module(r.between(0, 10))
		used := map[string]bool{}
		for j := range m.opts {
			used[m.opts[j].def.field+"/"+m.opts[j].objName()] = true
		}
		for k := r.between(5, 50); k > 0; k-- {
			od := opt(d, pick(r, lookedUp))
			x := g.object(od.node)
			nm := pick(r, names)
			if used[od.field+"/"+nm] {
				continue
			}
			used[od.field+"/"+nm] = true
			x.pos[0] = []string{nm}
			m.opts = append(m.opts, optVal{def: od, obj: x})
		}
		full := ""
		if r.chance(25) { // one name in every collection
			full = pick(r, names)
			for _, f := range lookedUp {
				if od := opt(d, f); !used[f+"/"+full] {
					used[f+"/"+full] = true
					x := g.object(od.node)
					x.pos[0] = []string{full}
					m.opts = append(m.opts, optVal{def: od, obj: x})
				}
			}
		}
		if mp := m.one("ModPar"); mp != nil || r.chance(60) {
			if mp == nil {
				mp = g.object("ModPar")
				m.opts = append(m.opts, optVal{def: opt(d, "ModPar"), obj: mp})
			}
			sd := opt(nodeDefs["ModPar"], "SystemConstants")
			have := map[string]bool{}
			for _, s := range mp.all("SystemConstants") {
				have[s.name()] = true
			}
			for k := r.between(0, 8); k > 0; k-- {
				x := g.object(sd.node)
				nm := pick(r, names)
				if full != "" && r.chance(50) {
					nm = full
				}
				if have[nm] {
					continue
				}
				have[nm] = true
				x.pos[0] = []string{nm}
				mp.opts = append(mp.opts, optVal{def: sd, obj: x})
			}
		}
		mods = append(mods, m)
	}
	root := wrap(mods, g)
	txt := plainLayout(r).render(root.tokens(nil))
	path := c.write("file.a2l", txt)
	a, err := parseA2L(path)
	if err != nil || len(a.Project.Modules) != n {
		o.attach("file.a2l", []byte(txt))
		o.fail("rejected", "a valid file was rejected (%d modules expected, %d delivered): %v", n, len(a.Project.Modules), err)
		return false
	}
	cd.A2l = a
	bad := func(sig, f string, x ...any) {
		o.attach("file.a2l", []byte(txt))
		o.fail(sig, f, x...)
	}
	ask := append(append([]string{}, names...), "", "no_such_name", strings.ToUpper(names[0]), names[1]+" ", names[2][:len(names[2])-1], names[3]+"1")
	for i := 0; i < n+4; i++ {
		idx := i
		if i > n+1 { // back to an earlier module
			idx = r.IntN(n + 1)
		}
		if i == n+1 {
			idx = r.between(n, 255)
		}
		cd.ModuleIndex = uint8(idx)
		for _, nm := range ask {
			var want []*Obj
			var from []string
			if idx < n {
				for _, f := range lookedUp {
					for _, x := range mods[idx].all(f) {
						if x.name() == nm {
							want = append(want, x)
							from = append(from, f)
						}
					}
				}
				if mp := mods[idx].one("ModPar"); mp != nil {
					for _, x := range mp.all("SystemConstants") {
						if x.name() == nm {
							want = append(want, x)
							from = append(from, "SystemConstants")
						}
					}
				}
			}
			got := cd.GetObjectByIdent(nm)
			o.Evals++
			c.alive()
			o.add("lookups", 1)
			o.key("modules=%d selected=%v hits=%d", n, idx < n, len(want))
			for _, f := range from {
				o.key("collection %s hits=%d", f, len(want))
			}
			if len(got) != len(want) {
				bad("number", "looking up %q in module %d of %d gave %d objects, %d expected (%v)", nm, idx, n, len(got), len(want), from)
				return false
			}
			// each expected object matches exactly one of the delivered ones, in any order
			free := make([]bool, len(got))
			for k, x := range want {
				ok := false
				for j, y := range got {
					if free[j] || y == nil {
						continue
					}
					v := reflect.ValueOf(y)
					if v.Kind() == reflect.Pointer {
						v = v.Elem()
					}
					if want := elemType(a.Project.Modules[idx], from[k]); want != nil && v.Type() != want {
						continue
					}
					cmp := &comparer{o: o}
					cmp.compare(from[k], x, v)
					if len(cmp.diffs) == 0 {
						ok = true
						free[j] = true
						break
					}
				}
				if !ok {
					var types []string
					for _, y := range got {
						types = append(types, fmt.Sprintf("%T", y))
					}
					bad("content-"+from[k], "looking up %q in module %d of %d: the object of %s was not delivered with its content; delivered: %s", nm, idx, n, from[k], strings.Join(types, ", "))
					return false
				}
			}
			if o.Sample == "" && len(want) > 2 {
				o.Sample = fmt.Sprintf("%q in module %d of %d: %s", nm, idx, n, strings.Join(from, ", "))
			}
		}
	}
	return true
}

// elemType is the type of the objects in a collection of a module; nil if it cannot be told.
func elemType(m any, field string) reflect.Type {
	v := reflect.ValueOf(m)
	if field == "SystemConstants" {
		if v = v.FieldByName("ModPar"); !v.IsValid() || v.Kind() != reflect.Struct {
			return nil
		}
	}
	f := v.FieldByName(field)
	if !f.IsValid() || f.Kind() != reflect.Map {
		return nil
	}
	t := f.Type().Elem()
	if t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return t
}

func (v optVal) objName() string {
	if v.obj == nil {
		return ""
	}
	return v.obj.name()
}

func init() {
	register(&Prop{id: "R01", cases: tiers(160, 3000), run: runRobust, gb: 2, minKeys: 100, caseTimeoutS: 40,
		rule: "random bytes, token soup, damaged and mutated A2L, Intel HEX and S-record files, special contents, missing files and folders are read by the real readers with 1..64 processors; the parent process observes crashes and hangs (confirmed in a second run), the monitor counts goroutines before and after each call; a situation is (reader, kind of input, worker count, size class, outcome)"})
	register(&Prop{id: "C01", cases: tiers(100, 900), run: runConcurrent, gb: 3, minKeys: 30, race: true, caseTimeoutS: 100,
		rule: "one to six goroutines call the readers (same file, same reader, all readers, or the combined reader) at the same time, in a build with the race detector; results are compared with those of single calls; a situation is (mode, callers, calls, worker count, perturbed)"})
	register(&Prop{gc: true, id: "C02", cases: tiers(120, 1800), run: runHistory, gb: 2, minKeys: 50,
		rule: "10..40 (some: 300..700) calls of the readers on a pool of valid and damaged files in random order, while files are replaced by others of the same length and time stamp, removed, and read over links, copies and relative paths; equal contents must give equal outcomes, also in a new process; all results are hashed when delivered and again at the end, some are scribbled on; a situation is (reader, way to the file, outcome of the previous call, outcome)"})
	register(&Prop{id: "I01", cases: tiers(240, 4000), run: runCombined, gb: 2, minKeys: 50,
		rule: "pairs of valid, damaged and missing A2L and hex files under various names and folders are read by the combined reader and compared with the single readers; a situation is (state of either file, extension, worker count)"})
	register(&Prop{id: "I02", cases: tiers(8000, 200000), run: runLookup, gb: 2, minKeys: 30,
		rule: "names shared by several collections and modules are looked up in existing and missing modules; number and content of the objects are compared with the file; a situation is (modules, selection, hits) or (collection, hits)"})
}
