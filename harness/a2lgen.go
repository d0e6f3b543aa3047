package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// a2lGen generates files from the schema.
type a2lGen struct {
	r     *Rng
	seq   int
	optPc int // percent of optional parts that are present
	old   []string
	rich  bool
	used  map[string]bool // kind and name of all objects
	names []string        // names of objects of all kinds
}

var identStems = []string{"n", "Engine_Spd", "KL_Tq", "map.cell", "arr[3]", "_x", "B_ok", "long_identifier_with_many_characters_in_it", "Motor.Drehzahl.Ist", "CAN_Rx", "a", "VALUE_x", "MEASUREMENT_1"}

func (g *a2lGen) ident() string {
	g.seq++
	s := fmt.Sprintf("%s_%s%d", pick(g.r, identStems), string(rune('a'+g.r.IntN(26))), g.seq)
	if g.r.chance(1) { // longer than small buffers
		s = fmt.Sprintf("%s_%s_%d", s, strings.Repeat(pick(g.r, identStems), g.r.between(5, pick(g.r, []int{40, 40, 400}))), g.seq)
	}
	return s
}

// name returns a name for an object that no other object of this kind has; objects of other kinds may have it,
// and others of its kind similar ones.
func (g *a2lGen) name(kind string) string {
	if g.used == nil {
		g.used = map[string]bool{}
	}
	s := ""
	if n := len(g.names); n > 0 && g.r.chance(15) {
		s = g.names[n-1-g.r.IntN(minInt(n, pick(g.r, []int{1, 3, 20, 400})))]
		switch g.r.IntN(8) {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ToLower(s)
		case 2:
			s += pick(g.r, []string{"_", ".", "[0]", "1", "_x"})
		case 3:
			s = s[:len(s)-1]
		case 4:
			s = "_" + s
		}
	}
	for s == "" || g.used[kind+" "+s] {
		s = g.ident()
	}
	if len(s) < 100 {
		g.names = append(g.names, s)
	}
	g.used[kind+" "+s] = true
	return s
}

var textWords = []string{"engine", "speed", "rpm", "//", "/*", "*/", "/begin", "/end", "MEASUREMENT", "CHARACTERISTIC", "MODULE", "PROJECT", "IF_DATA", "a/b", "http://x.y/z",
	"it's", "50%", "{x}", "(1+2)", "Größe", "°C", "0x12", "1.5", "-", "\"\"", "x\"\"y", "READ_ONLY", "km/h", "#", "a=b;", "/include", "\xe4\xf6", "/*c*/", "."}

// text returns a text in quotation marks; words are separated by single blanks.
func (g *a2lGen) text() string {
	switch g.r.IntN(8) {
	case 0:
		return `""`
	case 1:
		return `" "`
	case 2:
		return `"` + pick(g.r, textWords[:3]) + `"`
	}
	n := g.r.between(1, 6)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(g.r, textWords))
	}
	if g.r.chance(2) { // longer than small buffers
		for i := pick(g.r, []int{50, 300, 300, 2000}) + g.r.IntN(50); i > 0; i-- {
			w = append(w, pick(g.r, textWords))
		}
	}
	s := strings.Join(w, " ")
	if g.r.chance(10) {
		s = " " + s
	}
	if g.r.chance(10) {
		s += " "
	}
	return `"` + s + `"`
}

// plainText returns a text without anything that looks like syntax.
func (g *a2lGen) plainText() string {
	return fmt.Sprintf(`"text %d"`, g.r.IntN(1000))
}

func (g *a2lGen) float() string {
	r := g.r
	switch r.IntN(10) {
	case 9:
		return pick(r, []string{".5", "5.", "-.25", "007.5", "-0012", "1e5", "2E-3", "+1e+2", "1.0e0", "000", "0.0", "4503599627370497.5", "123456789012345678", "0.1"})
	case 0:
		return "0"
	case 1:
		return strconv.Itoa(r.between(-1000, 1000))
	case 2:
		return strconv.FormatFloat(r.NormFloat64()*1e3, 'f', r.between(1, 6), 64)
	case 3:
		return strconv.FormatFloat(math.Float64frombits(r.Uint64()&^(1<<62)), 'g', -1, 64)
	case 4:
		return strconv.FormatFloat(r.NormFloat64()*1e-9, 'e', 5, 64)
	case 5:
		return strings.ToUpper(strconv.FormatFloat(r.NormFloat64()*1e20, 'e', 3, 64))
	case 6:
		return "+" + strconv.Itoa(r.IntN(100)) + ".0"
	case 7:
		return "-3.4E+38"
	}
	return strconv.FormatFloat(float64(r.IntN(65536))/256, 'f', -1, 64)
}

func (g *a2lGen) uintTok(bits int) string {
	r := g.r
	max := uint64(1)<<uint(bits) - 1
	if r.chance(3) { // leading zeros do not make a number octal
		return pick(r, []string{"0", "00", "000000"}) + strconv.FormatUint(r.Uint64N(max+1)>>uint(r.IntN(bits)), 10)
	}
	switch r.IntN(6) {
	case 0:
		return "0"
	case 1:
		return strconv.FormatUint(max, 10)
	case 2:
		return strconv.FormatUint(max/2+1, 10)
	}
	return strconv.FormatUint(r.Uint64N(max+1)>>uint(r.IntN(bits)), 10)
}

func (g *a2lGen) intTok(bits int) string {
	r := g.r
	half := int64(1) << uint(bits-1)
	if r.chance(3) {
		return pick(r, []string{"-0", "0", "+", "+00"}) + strconv.FormatInt(r.Int64N(half), 10)
	}
	switch r.IntN(6) {
	case 0:
		return strconv.FormatInt(-half, 10)
	case 1:
		return strconv.FormatInt(half-1, 10)
	case 2:
		return "0"
	}
	return strconv.FormatInt(r.Int64N(2*half)-half, 10)
}

func wantsText(field string) bool {
	f := strings.ToLower(field)
	if f == "userlevelid" {
		return false
	}
	for _, k := range []string{"longidentifier", "comment", "text", "label", "displ", "version", "executable", "format", "unit", "origin", "separator", "manufacturer", "customer", "user", "phone", "ecu", "outval", "link", "fx", "formula", "gx", "epk"} {
		if strings.Contains(f, k) {
			return true
		}
	}
	return false
}

func isAddress(field string) bool {
	f := strings.ToLower(field)
	return strings.Contains(f, "address") || f == "mask" || f == "size" || strings.Contains(f, "offset")
}

func (g *a2lGen) str(field string) string {
	switch {
	case wantsText(field):
		if g.rich {
			return g.text()
		}
		return g.plainText()
	case isAddress(field):
		return fmt.Sprintf("0x%X", g.r.Uint32())
	}
	return g.ref()
}

// ref returns a name that refers to something: names may repeat.
func (g *a2lGen) ref() string {
	if len(g.old) > 0 && g.r.chance(25) {
		return g.old[len(g.old)-1-g.r.IntN(minInt(len(g.old), pick(g.r, []int{1, 2, 3, 20})))]
	}
	s := g.ident()
	g.old = append(g.old, s)
	return s
}

// again sometimes replaces a value by the one written before it.
func (g *a2lGen) again(t []string, stride int, v string) string {
	if len(t) >= stride && g.r.chance(15) {
		return t[len(t)-stride]
	}
	return v
}

// length draws the number of entries of a list: mostly few, sometimes more than small counters and buffers hold.
func (g *a2lGen) length(lo, hi int) int {
	switch g.r.IntN(150) {
	case 0:
		return g.r.between(hi+1, 40)
	case 1:
		return g.r.between(41, 300)
	}
	return g.r.between(lo, hi)
}

func (g *a2lGen) freeTokens(max int) []string {
	var l []string
	n := g.r.between(0, max)
	if max > 2 {
		n = g.length(0, max)
	}
	for ; n > 0; n-- {
		switch g.r.IntN(7) {
		case 0:
			l = append(l, g.plainText())
		case 1:
			l = append(l, fmt.Sprintf("0x%X", g.r.Uint32()))
		case 2:
			l = append(l, strconv.Itoa(g.r.IntN(1000)))
		case 3:
			kw := pick(g.r, []string{"SOURCE", "DAQ", "XCP_ON_CAN", "Evt_1", "PAG", "seg"})
			l = append(l, "/begin "+kw)
			l = append(l, g.freeTokens(2)...)
			l = append(l, "/end "+kw)
		default:
			l = append(l, g.ident())
		}
	}
	return l
}

func (g *a2lGen) object(name string) *Obj { return g.objectDepth(name, 0) }

func (g *a2lGen) objectDepth(name string, depth int) *Obj {
	d := nodeDefs[name]
	if d == nil {
		panic("harness: no construct " + name)
	}
	o := &Obj{def: d}
	count := 0
	r := g.r
	for i, p := range d.pos {
		var t []string
		switch {
		case p.kind == "s":
			if i == 0 && !wantsText(p.field) {
				t = []string{g.name(name)}
			} else {
				t = []string{g.str(p.field)}
			}
		case p.kind == "f":
			t = []string{g.float()}
		case p.kind == "count":
			count = g.length(1, 6)
			t = []string{strconv.Itoa(count)}
			if r.chance(3) { // leading zeros do not make a number octal
				count = r.between(8, 12)
				t[0] = pick(r, []string{"0", "00"}) + strconv.Itoa(count)
			}
		case strings.HasPrefix(p.kind, "e:"):
			t = []string{pick(r, enumDefs[p.kind[2:]])}
		case p.kind == "i32x5":
			for k := 0; k < 5; k++ {
				t = append(t, g.intTok(32))
			}
		case p.kind == "sx5":
			for k := 0; k < 5; k++ {
				t = append(t, pick(r, []string{"-1", "0", "0x10", strconv.Itoa(r.IntN(1<<20) - 1000)}))
			}
		case p.kind[0] == 'u':
			b, _ := strconv.Atoi(p.kind[1:])
			t = []string{g.uintTok(b)}
		case p.kind[0] == 'i':
			b, _ := strconv.Atoi(p.kind[1:])
			t = []string{g.intTok(b)}
		case p.kind == "flist":
			for k := g.length(0, 5); k > 0; k-- {
				t = append(t, g.again(t, 1, g.float()))
			}
		case p.kind == "list":
			switch name {
			case "IfData":
				t = g.freeTokens(6)
			case "Formula":
				t = []string{g.str(p.field)}
			case "FrameMeasurement":
				for k := g.length(1, 5); k > 0; k-- {
					t = append(t, g.again(t, 1, g.ref()))
				}
			default:
				for k := g.length(0, 5); k > 0; k-- {
					t = append(t, g.again(t, 1, g.str(p.field)))
				}
			}
		case p.kind == "accum":
			if name == "A2ML" {
				t = []string{"block", `"IF_DATA"`, "taggedunion", "if_data", "{", `"XCP"`, "struct", "{", "uint;", "}", ";", "};"}
				t = t[:r.between(0, len(t))]
			} else {
				for k := g.length(0, 4); k > 0; k-- {
					t = append(t, g.again(t, 1, g.str("text")))
				}
			}
		case strings.HasPrefix(p.kind, "tuples:"):
			for k := 0; k < count; k++ {
				w := p.kind[7:]
				for _, c := range w {
					v := ""
					if c == 'f' {
						v = g.float()
					} else {
						v = g.str("text")
					}
					t = append(t, g.again(t, len(w), v))
				}
			}
		case strings.HasPrefix(p.kind, "pairs:"):
			for k := g.length(0, 4); k > 0; k-- {
				t = append(t, g.again(t, 2, g.ref()))
				t = append(t, g.again(t, 2, g.ref()))
			}
		default:
			panic("harness: kind " + p.kind)
		}
		o.pos = append(o.pos, t)
	}
	if name == "MatrixDim" {
		n := r.between(1, 5)
		for i := n; i < 5; i++ {
			o.pos[i] = nil
		}
	}
	if name == "Module" || name == "Project" || name == "Root_" {
		return o
	}
	for i := range d.opt {
		od := &d.opt[i]
		if !r.chance(g.optPc) {
			continue
		}
		switch od.mult {
		case "one":
			o.opts = append(o.opts, optVal{def: od, obj: g.objectDepth(od.node, depth+1)})
		case "list", "map":
			for k := g.length(1, 3); k > 0; k-- {
				o.opts = append(o.opts, optVal{def: od, obj: g.objectDepth(od.node, depth+1)})
			}
		case "enum":
			o.opts = append(o.opts, optVal{def: od, tok: pick(r, enumDefs[od.node])})
		case "str":
			o.opts = append(o.opts, optVal{def: od, tok: g.ref()})
		}
	}
	if name != "Frame" && name != "Header" { // parts of a frame have a fixed order
		r.Shuffle(len(o.opts), func(i, j int) { o.opts[i], o.opts[j] = o.opts[j], o.opts[i] })
	}
	return o
}

// module generates a module with about n objects.
func (g *a2lGen) module(n int) *Obj {
	m := g.object("Module")
	d := nodeDefs["Module"]
	var single, many []*optDef
	for i := range d.opt {
		if d.opt[i].mult == "one" {
			single = append(single, &d.opt[i])
		} else {
			many = append(many, &d.opt[i])
		}
	}
	if g.r.chance(25) && len(many) > 3 { // a module of few kinds of objects
		g.r.Shuffle(len(many), func(i, j int) { many[i], many[j] = many[j], many[i] })
		many = many[:g.r.between(1, 3)]
	}
	for _, s := range single {
		if g.r.chance(40) {
			m.opts = append(m.opts, optVal{def: s, obj: g.object(s.node)})
		}
	}
	for len(m.opts) < n {
		x := pick(g.r, many)
		m.opts = append(m.opts, optVal{def: x, obj: g.object(x.node)})
	}
	if g.r.chance(80) {
		g.r.Shuffle(len(m.opts), func(i, j int) { m.opts[i], m.opts[j] = m.opts[j], m.opts[i] })
	}
	return m
}

func opt(n *nodeDef, field string) *optDef {
	for i := range n.opt {
		if n.opt[i].field == field {
			return &n.opt[i]
		}
	}
	panic("harness: no part " + field)
}

func wrap(mods []*Obj, g *a2lGen) *Obj {
	root := &Obj{def: nodeDefs["Root_"]}
	if g.r.chance(85) {
		root.opts = append(root.opts, optVal{def: opt(root.def, "Asap2Version"), obj: g.object("ASAP2Version")})
		if g.r.chance(50) {
			root.opts = append(root.opts, optVal{def: opt(root.def, "A2mlVersion"), obj: g.object("A2MLVersion")})
		}
	}
	p := g.object("Project")
	if g.r.chance(60) {
		p.opts = append(p.opts, optVal{def: opt(p.def, "header"), obj: g.object("Header")})
	}
	for _, m := range mods {
		p.opts = append(p.opts, optVal{def: opt(p.def, "Modules"), obj: m})
	}
	root.opts = append(root.opts, optVal{def: opt(root.def, "Project"), obj: p})
	return root
}

// ---- layout

// layout decides how tokens are written. The zero value writes one construct per line.
type layout struct {
	r        *Rng
	nl       string
	mixed    bool // both kinds of line ends
	dense    int  // percent of tokens followed by a line break (0: breaks only around blocks)
	oneLine  bool // everything in one line
	comments int  // percent of gaps with a comment
	splitKw  int  // percent of "/begin X" written over several blanks or lines
	splitTxt int  // percent of blanks in texts written as line breaks
	bom      bool
	indent   bool
	trail    string
}

var commentWords = []string{"note", "MEASUREMENT", "\"", "it's", "/begin", "/end", "PROJECT", "x=1", "/*", "//", "http://x.y", "\"x", "x\"", "\"\"", "//\"", "/*\"x", "\"quoted text\"", "ä", "/end MODULE", "CHARACTERISTIC", "0x10"}

// eol returns the next line end.
func (l *layout) eol() string {
	if l.mixed {
		return pick(l.r, []string{"\n", "\r\n"})
	}
	return l.nl
}

func (l *layout) comment(b *strings.Builder) {
	r := l.r
	n := r.between(0, 5)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, pick(r, commentWords))
	}
	line := r.chance(40) && !l.oneLine
	nl := l.eol()
	if l.oneLine {
		nl = " "
	}
	if l.comments > 0 && r.IntN(3000) == 0 { // a long one
		for i := r.between(100, 9000); i > 0; i-- {
			w = append(w, pick(r, commentWords))
		}
		n = len(w)
	}
	// the first word may be glued to the mark, the last one to the end mark
	mark := pick(r, []string{"/* ", "/*", "/**", "/*/ ", "/*=="})
	if line {
		mark = pick(r, []string{"// ", "//", "///", "//*", "//-"})
	}
	b.WriteString(mark)
	if line {
		b.WriteString(strings.Join(w, " ") + l.eol())
		return
	}
	if n > 0 && strings.HasSuffix(mark, "*") && strings.HasPrefix(w[0], "/") {
		b.WriteString(" ") // "*" and "/" would be an end mark
	}
	for i, x := range w {
		b.WriteString(x)
		switch {
		case i+1 == n && r.chance(40): // glued to the end mark
		case r.chance(30):
			b.WriteString(nl)
		default:
			b.WriteString(" ")
		}
	}
	b.WriteString(pick(r, []string{"*/", "**/", "--*/"}))
	if r.chance(50) {
		b.WriteString(nl)
	} else {
		b.WriteString(" ")
	}
}

func (l *layout) blank() string {
	if l.r.IntN(80) == 0 {
		return pick(l.r, []string{"\f", "\v", " \f\t", "        "})
	}
	switch l.r.IntN(5) {
	case 0:
		return "  "
	case 1:
		return "\t"
	case 2:
		return " \t "
	}
	return " "
}

func (l *layout) render(toks []Tok) string {
	var b strings.Builder
	r := l.r
	if l.bom {
		b.WriteString("\uFEFF")
	}
	depth := 0
	for i, t := range toks {
		if l.comments > 0 && r.chance(l.comments) {
			l.comment(&b)
		}
		if t.kind == 'e' {
			depth--
		}
		if l.indent && (t.kind == 'b' || t.kind == 'e' || t.kind == 'k') && !l.oneLine {
			b.WriteString(strings.Repeat("  ", depth*btoi(depth > 0)))
		}
		switch {
		case (t.kind == 'b' || t.kind == 'e') && strings.Contains(t.text, " ") && l.splitKw > 0 && r.chance(l.splitKw):
			w := strings.SplitN(t.text, " ", 2)
			b.WriteString(w[0])
			if r.chance(40) && !l.oneLine {
				b.WriteString(l.eol())
			}
			b.WriteString(l.blank())
			if l.comments > 0 && r.chance(10) {
				l.comment(&b)
			}
			b.WriteString(w[1])
		case t.kind == 's' && l.splitTxt > 0:
			for k := 0; k < len(t.text); k++ {
				if t.text[k] == ' ' && r.chance(l.splitTxt) {
					b.WriteString(l.eol())
				} else {
					b.WriteByte(t.text[k])
				}
			}
		default:
			b.WriteString(t.text)
		}
		if t.kind == 'b' {
			depth++
		}
		if i+1 == len(toks) {
			break
		}
		n := toks[i+1]
		switch {
		case l.oneLine:
			b.WriteString(" ")
		case n.kind == 'b' || n.kind == 'e' || n.kind == 'k' || t.kind == 'e':
			b.WriteString(l.eol())
		case l.dense > 0 && r.chance(l.dense):
			b.WriteString(l.eol())
			if r.chance(10) {
				b.WriteString(l.blank() + l.eol())
			}
		case l.dense > 0:
			b.WriteString(l.blank())
		default:
			b.WriteString(" ")
		}
	}
	b.WriteString(l.trail)
	if l.comments > 0 && r.chance(20) { // behind everything
		b.WriteString(" ")
		l.comment(&b)
		if r.chance(50) {
			return strings.TrimRight(b.String(), "\r\n ")
		}
	}
	return b.String()
}

func plainLayout(r *Rng) *layout {
	return &layout{r: r, nl: "\n", indent: true, trail: "\n"}
}

func anyLayout(r *Rng) *layout {
	l := &layout{r: r, nl: "\n", indent: r.chance(50), trail: pick(r, []string{"", "\n", "\n\n", " \n"})}
	if r.chance(40) {
		l.nl = "\r\n"
	}
	l.mixed = r.chance(10)
	l.dense = pick(r, []int{0, 0, 10, 50, 100})
	l.oneLine = r.chance(5)
	l.comments = pick(r, []int{0, 0, 3, 15})
	l.splitKw = pick(r, []int{0, 0, 20, 100})
	l.splitTxt = pick(r, []int{0, 0, 30})
	l.bom = r.chance(20)
	if l.oneLine {
		l.splitTxt = 0
	}
	return l
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}
