package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
)

// hexRec is one record of a hex file in model form. data!=nil or kind decides the text.
type hexRec struct {
	kind byte   // ihex: 0,1,3,4,5; srec: '0'..'9'
	addr uint32 // ihex: full address for data; srec: address field
	data []byte
}

type hexFile struct {
	format string // "ihex" or "srec"
	recs   []hexRec
	image  map[uint32]byte
	lines  []string
	nl     string
	desc   string
	// start of the data characters of line i (for targeted corruption)
}

// genImage draws disjoint segments.
func genSegments(r *Rng, maxAddr uint64, total int) []seg {
	var segs []seg
	n := r.between(1, 6)
	used := map[uint32]bool{}
	for s := 0; s < n && total > 0; s++ {
		l := r.small(total)
		if uint64(l) > maxAddr/4 {
			l = int(maxAddr / 4)
		}
		var a uint64
		switch r.IntN(7) {
		case 0:
			a = 0
		case 1: // across a 64K border
			k := uint64(r.IntN(int(maxAddr >> 16)))
			a = (k+1)<<16 - uint64(r.IntN(l)) - 1
			if maxAddr <= 1<<16 {
				a = uint64(r.IntN(int(maxAddr) - l))
			}
		case 2: // ends at the top of the address space
			a = maxAddr - uint64(l)
		case 3: // starts exactly at a border
			a = uint64(r.IntN(int(maxAddr>>8))) << 8
		case 4:
			a = uint64(r.IntN(int((maxAddr+0xffff)>>16))) << 16
		default:
			a = r.Uint64N(maxAddr)
		}
		if a+uint64(l) > maxAddr {
			a = maxAddr - uint64(l)
		}
		clash := false
		for i := 0; i < l; i++ {
			if used[uint32(a)+uint32(i)] {
				clash = true
				break
			}
		}
		if clash {
			continue
		}
		d := make([]byte, l)
		for i := range d {
			d[i] = byte(r.IntN(256))
			used[uint32(a)+uint32(i)] = true
		}
		segs = append(segs, seg{uint32(a), d})
		total -= l
	}
	if len(segs) == 0 {
		segs = append(segs, seg{0x10, []byte{byte(r.IntN(256))}})
	}
	return segs
}

type seg struct {
	addr uint32
	data []byte
}

// recLen draws the number of data bytes of one record.
func recLen(r *Rng, style, max int) int {
	var n int
	switch style {
	case 0:
		n = 16
	case 1:
		n = 32
	case 2:
		n = r.between(1, max)
	case 3:
		n = max
	case 4:
		n = 1
	default:
		n = r.small(max)
	}
	if n > max {
		n = max
	}
	return n
}

func genIhex(r *Rng, size int) *hexFile {
	f := &hexFile{format: "ihex", image: map[uint32]byte{}, nl: "\n"}
	if r.chance(50) {
		f.nl = "\r\n"
	}
	segs := genSegments(r, 1<<32, size)
	style := r.IntN(6)
	// a record whose bytes run over a 64K border is legal (linear addressing carries into the upper half)
	cross := r.chance(50)
	var data []hexRec
	for _, s := range segs {
		for i := 0; i < len(s.data); {
			n := recLen(r, style, 255)
			if n > len(s.data)-i {
				n = len(s.data) - i
			}
			a := s.addr + uint32(i)
			if !cross && int(a&0xffff)+n > 0x10000 {
				n = 0x10000 - int(a&0xffff)
			}
			data = append(data, hexRec{kind: 0, addr: a, data: s.data[i : i+n]})
			i += n
		}
	}
	order := r.IntN(4)
	switch order {
	case 0:
		r.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	case 1: // local disorder
		for i := 0; i+1 < len(data); i++ {
			if r.chance(20) {
				data[i], data[i+1] = data[i+1], data[i]
			}
		}
	}
	base := uint32(0)
	redundant := r.chance(30)
	empties := r.chance(20)
	crossed := false
	for i, d := range data {
		b := d.addr >> 16
		if b != base || (redundant && r.chance(10)) || (i == 0 && r.chance(50)) {
			if redundant && r.chance(30) { // a base that is replaced at once
				f.recs = append(f.recs, hexRec{kind: 4, data: []byte{byte(r.IntN(256)), byte(r.IntN(256))}})
			}
			f.recs = append(f.recs, hexRec{kind: 4, data: []byte{byte(b >> 8), byte(b)}})
			base = b
		}
		if int(d.addr&0xffff)+len(d.data) > 0x10000 {
			crossed = true
		}
		f.recs = append(f.recs, d)
		if empties && r.chance(15) {
			f.recs = append(f.recs, hexRec{kind: 0, addr: base<<16 | uint32(r.IntN(0x10000))})
		}
		if r.chance(2) {
			f.recs = append(f.recs, hexRec{kind: 5, data: []byte{1, 2, byte(r.IntN(256)), 4}})
		}
		if r.chance(2) {
			f.recs = append(f.recs, hexRec{kind: 3, data: []byte{0, 0, byte(r.IntN(256)), 0}})
		}
	}
	f.recs = append(f.recs, hexRec{kind: 1})
	for _, s := range segs {
		for i, b := range s.data {
			f.image[s.addr+uint32(i)] = b
		}
	}
	lower := r.IntN(4)
	for _, x := range f.recs {
		f.lines = append(f.lines, caseOf(r, ihexLine(x), lower))
	}
	f.desc = fmt.Sprintf("nl=%q style=%d order=%d cross=%v redundant=%v empties=%v case=%d", f.nl, style, order, crossed, redundant, empties, lower)
	return f
}

func caseOf(r *Rng, s string, lower int) string {
	switch lower {
	case 1: // the start mark S stays upper case
		return s[:1] + strings.ToLower(s[1:])
	case 2: // the case varies from byte to byte
		b := []byte(s)
		for i := 2 - len(s)%2; i+1 < len(b); i += 2 {
			if r.chance(50) {
				copy(b[i:], strings.ToLower(string(b[i:i+2])))
			}
		}
		return string(b)
	case 3: // the case varies from digit to digit
		b := []byte(s)
		for i := 1; i < len(b); i++ {
			if r.chance(50) {
				copy(b[i:], strings.ToLower(string(b[i:i+1])))
			}
		}
		return string(b)
	}
	return s
}

func ihexLine(x hexRec) string {
	b := []byte{byte(len(x.data)), byte(x.addr >> 8), byte(x.addr), x.kind}
	if x.kind != 0 {
		b[1], b[2] = 0, 0
	}
	b = append(b, x.data...)
	var sum byte
	for _, v := range b {
		sum += v
	}
	b = append(b, -sum)
	return ":" + fmt.Sprintf("%X", b)
}

var srecAddrLen = map[byte]int{'0': 2, '1': 2, '2': 3, '3': 4, '5': 2, '6': 3, '7': 4, '8': 3, '9': 2}

func srecLine(x hexRec) string {
	al := srecAddrLen[x.kind]
	b := []byte{byte(al + len(x.data) + 1)}
	for i := al - 1; i >= 0; i-- {
		b = append(b, byte(x.addr>>(8*uint(i))))
	}
	b = append(b, x.data...)
	var sum byte
	for _, v := range b {
		sum += v
	}
	b = append(b, ^sum)
	return "S" + string(x.kind) + fmt.Sprintf("%X", b)
}

func genSrec(r *Rng, size int) *hexFile {
	f := &hexFile{format: "srec", image: map[uint32]byte{}, nl: "\n"}
	if r.chance(50) {
		f.nl = "\r\n"
	}
	kinds := [][]byte{{'3'}, {'1'}, {'2'}, {'1', '2', '3'}, {'2', '3'}, {'3'}}[r.IntN(6)]
	maxAddr := map[byte]uint64{'1': 1 << 16, '2': 1 << 24, '3': 1 << 32}
	style := r.IntN(6)
	top := maxAddr[kinds[r.IntN(len(kinds))]]
	if size > int(top/4) {
		size = int(top / 4)
	}
	segs := genSegments(r, top, size)
	var data []hexRec
	used := map[byte]bool{}
	for _, s := range segs {
		for i := 0; i < len(s.data); {
			a := s.addr + uint32(i)
			var ok []byte
			for _, k := range kinds {
				if uint64(a) < maxAddr[k] {
					ok = append(ok, k)
				}
			}
			k := pick(r, append(ok, ok...))
			n := recLen(r, style, 254-srecAddrLen[k])
			if n > len(s.data)-i {
				n = len(s.data) - i
			}
			if uint64(a)+uint64(n) > maxAddr[k] {
				n = int(maxAddr[k] - uint64(a))
			}
			data = append(data, hexRec{kind: k, addr: a, data: s.data[i : i+n]})
			used[k] = true
			i += n
		}
	}
	order := r.IntN(3)
	if order == 0 {
		r.Shuffle(len(data), func(i, j int) { data[i], data[j] = data[j], data[i] })
	}
	if r.chance(70) {
		h := make([]byte, r.between(0, 20))
		for i := range h {
			h[i] = byte(32 + r.IntN(90))
		}
		f.recs = append(f.recs, hexRec{kind: '0', data: h})
	}
	empties := r.chance(20)
	for _, d := range data {
		f.recs = append(f.recs, d)
		if empties && r.chance(15) {
			f.recs = append(f.recs, hexRec{kind: d.kind, addr: d.addr})
		}
	}
	if r.chance(40) {
		f.recs = append(f.recs, hexRec{kind: "56"[r.IntN(2)], addr: uint32(len(data)) & 0xffff})
	}
	if r.chance(90) {
		f.recs = append(f.recs, hexRec{kind: "789"[r.IntN(3)], addr: uint32(r.IntN(0x10000))})
	}
	for _, s := range segs {
		for i, b := range s.data {
			f.image[s.addr+uint32(i)] = b
		}
	}
	lower := r.IntN(4)
	for _, x := range f.recs {
		f.lines = append(f.lines, caseOf(r, srecLine(x), lower))
	}
	var ks []string
	for k := range used {
		ks = append(ks, "S"+string(k))
	}
	sort.Strings(ks)
	f.desc = fmt.Sprintf("nl=%q style=%d order=%d kinds=%s empties=%v case=%d", f.nl, style, order, strings.Join(ks, "+"), empties, lower)
	return f
}

func (f *hexFile) ext() string {
	if f.format == "ihex" {
		return ".hex"
	}
	return ".s19"
}

// text joins the lines; blank lines may be added (they carry no record).
func (f *hexFile) text(r *Rng, blanks bool) string {
	var b strings.Builder
	for i, l := range f.lines {
		if blanks && r.chance(3) {
			b.WriteString(f.nl)
		}
		b.WriteString(l)
		if i+1 < len(f.lines) || r == nil || r.chance(80) {
			b.WriteString(f.nl)
		}
	}
	return b.String()
}

func parseHexFile(format, path string) (map[uint32]byte, error) {
	if format == "ihex" {
		return ihex32.ParseFromFile(path)
	}
	return srec19.ParseFromFile(path)
}

func (c *Case) write(name, text string) string {
	p := filepath.Join(c.Dir, name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

func diffImage(want, got map[uint32]byte) string {
	if len(want) == len(got) {
		same := true
		for a, v := range want {
			if g, ok := got[a]; !ok || g != v {
				same = false
				break
			}
		}
		if same {
			return ""
		}
	}
	var miss, extra, wrong []uint32
	for a, v := range want {
		if g, ok := got[a]; !ok {
			miss = append(miss, a)
		} else if g != v {
			wrong = append(wrong, a)
		}
	}
	for a := range got {
		if _, ok := want[a]; !ok {
			extra = append(extra, a)
		}
	}
	first := func(l []uint32) string {
		if len(l) == 0 {
			return "-"
		}
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
		return fmt.Sprintf("0x%08X", l[0])
	}
	return fmt.Sprintf("%d bytes expected, %d delivered; %d missing (first %s), %d extra (first %s), %d with a wrong value (first %s)",
		len(want), len(got), len(miss), first(miss), len(extra), first(extra), len(wrong), first(wrong))
}

func bucket(n int) string {
	b := 0
	for n > 0 {
		b++
		n >>= 1
	}
	return fmt.Sprintf("2^%d", b)
}

func hexSize(r *Rng, tier string) int {
	switch x := r.IntN(20); {
	case x == 0 && tier == "thorough":
		return 200000
	case x == 1:
		return 20000
	case x < 6:
		return 3000
	default:
		return 400
	}
}

// useWorkers sets the number of processors for the following calls; it returns what is in force.
func useWorkers(c *Case, n int) int {
	if tuned {
		setWorkers(n)
		return n
	}
	return c.Workers
}

func anyWorkers(r *Rng) int { return workerCounts[r.IntN(len(workerCounts))] }

func relation(lines, workers int) string {
	switch {
	case lines < workers:
		return "fewer-records-than-workers"
	case lines%workers == 0:
		return "even"
	default:
		return "uneven"
	}
}

// hugeHex makes a file of more records than 16 bits count, with several 100 bases.
func hugeHex(r *Rng, format string) *hexFile { return manyRecords(r, format, r.between(66000, 72000)) }

func manyRecords(r *Rng, format string, n int) *hexFile {
	f := &hexFile{format: format, image: map[uint32]byte{}, nl: pick(r, []string{"\n", "\r\n"}), desc: "huge"}
	a := uint32(r.Uint64()) & 0x7FFFFFFF
	if format == "srec" && r.chance(50) {
		a &= 0x7FFFFF
	}
	step := uint32(1)
	if r.chance(50) {
		step = uint32(r.between(2, 300))
	}
	base := uint32(0)
	for i := 0; i < n; i++ {
		b := byte(r.IntN(256))
		f.image[a] = b
		x := hexRec{addr: a, data: []byte{b}}
		if format == "srec" {
			x.kind = '3'
			if a < 1<<24 && i%3 == 0 {
				x.kind = '2'
			}
		} else if a>>16 != base {
			base = a >> 16
			f.recs = append(f.recs, hexRec{kind: 4, data: []byte{byte(base >> 8), byte(base)}})
		}
		f.recs = append(f.recs, x)
		a += step
	}
	if format == "ihex" {
		f.recs = append(f.recs, hexRec{kind: 1})
	}
	for _, x := range f.recs {
		f.lines = append(f.lines, encode(f, x))
	}
	return f
}

// giantHex makes a file of more than 5 million bytes in more than 200000 records, larger than the reader's tables are made for at first.
func giantHex(r *Rng, format string) *hexFile {
	f := &hexFile{format: format, image: make(map[uint32]byte, 5500000), nl: pick(r, []string{"\n", "\r\n"}), desc: "giant"}
	a := uint32(r.Uint64())&0x7FFFFFFF | 0x1000000
	base := uint32(0)
	for len(f.image) < 5050000 {
		n := r.between(16, 32)
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(r.IntN(256))
			f.image[a+uint32(i)] = d[i]
		}
		x := hexRec{addr: a, data: d}
		if format == "srec" {
			x.kind = '3'
		} else if a>>16 != base {
			base = a >> 16
			f.recs = append(f.recs, hexRec{kind: 4, data: []byte{byte(base >> 8), byte(base)}})
		}
		f.recs = append(f.recs, x)
		a += uint32(n)
	}
	if format == "ihex" {
		f.recs = append(f.recs, hexRec{kind: 1})
	}
	for _, x := range f.recs {
		f.lines = append(f.lines, encode(f, x))
	}
	return f
}

func runExactImage(format string) func(c *Case, o *Obs) {
	return func(c *Case, o *Obs) {
		r := c.rng
		for k := 0; k < 6; k++ {
			var f *hexFile
			size := hexSize(r, c.Tier)
			if format == "ihex" {
				f = genIhex(r, size)
			} else {
				f = genSrec(r, size)
			}
			if k == 0 && c.Idx%40 == 11 {
				f = hugeHex(r, format)
				o.add("files of more than 65535 records", 1)
			} else if k == 0 && c.Idx%400 == 17 {
				f = giantHex(r, format)
				o.add("files of more than 5 million bytes", 1)
			}
			txt := f.text(r, r.chance(30))
			path := c.write("image"+f.ext(), txt)
			for rep := 0; rep < 2; rep++ {
				w := useWorkers(c, anyWorkers(r))
				pert := r.chance(25)
				if pert {
					perturb(r.Uint64(), 50)
				}
				got, err := parseHexFile(format, path)
				quietLogger()
				o.Evals++
				c.alive()
				o.add("records parsed", len(f.recs))
				o.add("bytes compared", len(f.image))
				o.key("%s %s lines=%s workers=%d %s", format, f.desc, bucket(len(f.lines)), w, relation(len(f.lines), w))
				if err != nil {
					o.attach("image"+f.ext(), []byte(txt))
					o.fail("rejected", "a valid %s file (%s, %d records) was rejected with %d processors: %v", format, f.desc, len(f.recs), w, err)
					return
				}
				if d := diffImage(f.image, got); d != "" {
					o.attach("image"+f.ext(), []byte(txt))
					o.fail("image", "wrong image from a %s file (%s, %d records, %d processors): %s", format, f.desc, len(f.recs), w, d)
					return
				}
			}
			if o.Sample == "" {
				o.Sample = fmt.Sprintf("%d records, %d bytes (%s), first lines:\n%s", len(f.recs), len(f.image), f.desc, clip(txt, 200))
			}
		}
	}
}

// ---- H03: corruption

type corruption struct {
	name string
	// apply changes a line; ok=false when it does not apply to this line
	apply func(r *Rng, f *hexFile, i int) (string, bool)
}

const hexDigits = "0123456789ABCDEF"

func upper(b byte) byte {
	if b >= 'a' && b <= 'f' {
		return b - 'a' + 'A'
	}
	return b
}

var corruptions = []corruption{
	{"digit", func(r *Rng, f *hexFile, i int) (string, bool) {
		b := []byte(f.lines[i])
		lo := 1
		if f.format == "srec" {
			lo = 2 // the digit of the record type is not covered by the checksum
		}
		p := r.between(lo, len(b)-1)
		n := hexDigits[r.IntN(16)]
		if upper(b[p]) == n {
			return "", false
		}
		b[p] = n
		return string(b), true
	}},
	{"non-hex", func(r *Rng, f *hexFile, i int) (string, bool) {
		b := []byte(f.lines[i])
		lo := 1
		if f.format == "srec" {
			lo = 2
		}
		p := r.between(lo, len(b)-1)
		b[p] = "GXz#_.:S"[r.IntN(8)]
		return string(b), true
	}},
	{"start", func(r *Rng, f *hexFile, i int) (string, bool) {
		b := []byte(f.lines[i])
		b[0] = "XA0;#T"[r.IntN(6)]
		return string(b), true
	}},
	{"no-start", func(r *Rng, f *hexFile, i int) (string, bool) { return f.lines[i][1:], true }},
	{"checksum", func(r *Rng, f *hexFile, i int) (string, bool) {
		l := f.lines[i]
		var v int
		fmt.Sscanf(l[len(l)-2:], "%X", &v)
		w := v
		switch r.IntN(4) { // typical mistakes: the other complement, no complement, other starting values
		case 0:
			w = v + 1
		case 1:
			w = v - 1
		case 2:
			w = []int{-v, 255 - v, 0, 255, v + 128, v>>4 | v<<4, v + int(l[1]) - '0', v ^ 1}[r.IntN(8)]
		default:
			w = v + r.between(1, 255)
		}
		if w &= 255; w == v {
			return "", false
		}
		v = w
		return l[:len(l)-2] + fmt.Sprintf("%02X", v), true
	}},
	{"truncated", func(r *Rng, f *hexFile, i int) (string, bool) {
		l := f.lines[i]
		return l[:r.between(1, len(l)-1)], true
	}},
	{"longer", func(r *Rng, f *hexFile, i int) (string, bool) {
		return f.lines[i] + fmt.Sprintf("%0*X", 2*r.between(1, 3), 0), true
	}},
	{"count", func(r *Rng, f *hexFile, i int) (string, bool) {
		// a wrong byte count with a checksum that fits it
		x := f.recs[i]
		d := append([]byte{}, x.data...)
		line := encode(f, x)
		delta := r.between(1, 40)
		if r.chance(50) {
			delta = -delta
		}
		pos := 1
		if f.format == "srec" {
			pos = 2
		}
		var cnt, sum int
		fmt.Sscanf(line[pos:pos+2], "%X", &cnt)
		fmt.Sscanf(line[len(line)-2:], "%X", &sum)
		if cnt+delta < 0 || cnt+delta > 255 {
			return "", false
		}
		_ = d
		return line[:pos] + fmt.Sprintf("%02X", cnt+delta) + line[pos+2:len(line)-2] + fmt.Sprintf("%02X", (sum-delta)&255), true
	}},
	{"base-length", func(r *Rng, f *hexFile, i int) (string, bool) {
		if f.format != "ihex" {
			return "", false
		}
		n := []int{0, 1, 3, 4}[r.IntN(4)]
		d := make([]byte, n)
		return ihexLine(hexRec{kind: 4, data: d}), true
	}},
	{"unsupported-type", func(r *Rng, f *hexFile, i int) (string, bool) {
		if f.format == "ihex" {
			k := []byte{2, 6, 7, 0x10, 0x80, 0xff}[r.IntN(6)]
			return ihexLine(hexRec{kind: k, data: []byte{byte(r.IntN(256)), byte(r.IntN(256))}}), true
		}
		x := f.recs[i]
		l := srecLine(x)
		return l[:1] + string("4ABXZ:"[r.IntN(6)]) + l[2:], true
	}},
	{"odd", func(r *Rng, f *hexFile, i int) (string, bool) {
		l := f.lines[i]
		p := r.between(2, len(l)-1)
		return l[:p] + l[p+1:], true
	}},
	{"glued", func(r *Rng, f *hexFile, i int) (string, bool) {
		if i+1 >= len(f.lines) {
			return "", false
		}
		return f.lines[i] + f.lines[i+1], true
	}},
	{"garbage", func(r *Rng, f *hexFile, i int) (string, bool) {
		return []string{"garbage", ":", "S", ":00", "S3", "// comment", ":zzzzzzzzzz", "S5", "\x00\x01"}[r.IntN(9)], true
	}},
}

func encode(f *hexFile, x hexRec) string {
	if f.format == "ihex" {
		return ihexLine(x)
	}
	return srecLine(x)
}

func genHex(r *Rng, format string, size int) *hexFile {
	if format == "ihex" {
		return genIhex(r, size)
	}
	return genSrec(r, size)
}

func runCorruption(c *Case, o *Obs) {
	r := c.rng
	for _, format := range []string{"ihex", "srec"} {
		f := genHex(r, format, []int{40, 400, 3000, 3000, 40000}[r.IntN(5)])
		if c.Idx%50 == 13 {
			f = hugeHex(r, format)
			o.add("files of more than 65535 records", 1)
		} else if c.Idx%400 == 17 {
			f = giantHex(r, format)
			o.add("files of more than 5 million bytes", 1)
		}
		for k := 0; k < 5; k++ {
			cor := corruptions[(c.Idx*5+k)%len(corruptions)]
			var line string
			ok := false
			var i int
			for try := 0; try < 20 && !ok; try++ {
				i = r.IntN(len(f.lines))
				switch r.IntN(6) { // borders matter: first and last records
				case 0:
					i = 0
				case 1:
					i = len(f.lines) - 1
				}
				line, ok = cor.apply(r, f, i)
			}
			if !ok {
				continue
			}
			g := *f
			g.lines = append([]string{}, f.lines...)
			g.lines[i] = line
			if cor.name == "glued" {
				g.lines = append(g.lines[:i+1], g.lines[i+2:]...)
			}
			// an insertion instead of a replacement keeps everything else intact
			if cor.name == "base-length" || cor.name == "unsupported-type" || cor.name == "garbage" {
				g.lines = append(append(append([]string{}, f.lines[:i]...), line), f.lines[i:]...)
			}
			txt := strings.Join(g.lines, f.nl)
			if r.chance(60) {
				txt += f.nl
			}
			path := c.write("corrupt"+f.ext(), txt)
			w := useWorkers(c, anyWorkers(r))
			got, err := parseHexFile(format, path)
			o.Evals++
			c.alive()
			o.add("corruptions "+cor.name, 1)
			pos := "middle"
			if i == 0 {
				pos = "first"
			} else if i == len(f.lines)-1 {
				pos = "last"
			}
			o.key("%s %s %s workers=%d lines=%s kind=%d", format, cor.name, pos, w, bucket(len(f.lines)), f.recs[i].kind)
			if err == nil {
				o.attach("corrupt"+f.ext(), []byte(txt))
				o.fail("accepted-"+cor.name, "%s: a file whose record %d (of %d) was corrupted (%s: %q instead of %q) was accepted with %d processors; difference to the data of the intact file: %s",
					format, i+1, len(f.lines), cor.name, clip(line, 80), clip(f.lines[i], 80), w, diffImage(f.image, got))
				return
			}
			if o.Sample == "" {
				o.Sample = fmt.Sprintf("%s %s record %d: %q -> %v", format, cor.name, i+1, clip(line, 60), err)
			}
		}
	}
}

func runCollision(c *Case, o *Obs) {
	r := c.rng
	for _, format := range []string{"ihex", "srec"} {
		for k := 0; k < 4; k++ {
			f := genHex(r, format, []int{40, 400, 4000, 4000, 40000}[r.IntN(5)])
			if k == 0 && c.Idx%40 == 13 {
				f = hugeHex(r, format)
				o.add("files of more than 65535 records", 1)
			} else if k == 0 && c.Idx%400 == 17 {
				f = giantHex(r, format)
				o.add("files of more than 5 million bytes", 1)
			}
			var idx []int
			for i, x := range f.recs {
				if (x.kind == 0 || x.kind == '1' || x.kind == '2' || x.kind == '3') && len(x.data) > 0 {
					idx = append(idx, i)
				}
			}
			i := idx[r.IntN(len(idx))]
			x := f.recs[i]
			// an overlapping record: shares at least one address with x
			n := r.between(1, len(x.data))
			off := r.IntN(len(x.data) - n + 1)
			if r.chance(40) { // a single byte
				n = 1
				off = r.IntN(len(x.data))
			}
			d := append([]byte{}, x.data[off:off+n]...)
			same := r.chance(40)
			if !same {
				for j := range d {
					d[j] ^= byte(1 + r.IntN(255))
				}
			}
			dup := hexRec{kind: x.kind, addr: x.addr + uint32(off), data: d}
			at := 0
			var lines []string
			if format == "ihex" {
				// appended with its own base; either at the front (base restored) or before the end record
				b := dup.addr >> 16
				ins := []string{ihexLine(hexRec{kind: 4, data: []byte{byte(b >> 8), byte(b)}}), ihexLine(dup)}
				if r.chance(50) {
					ins = append(ins, ihexLine(hexRec{kind: 4, data: []byte{0, 0}}))
					lines = append(ins, f.lines...)
				} else {
					at = len(f.lines) - 1
					lines = append(append(append([]string{}, f.lines[:at]...), ins...), f.lines[at:]...)
				}
			} else {
				at = r.between(0, len(f.lines))
				lines = append(append(append([]string{}, f.lines[:at]...), srecLine(dup)), f.lines[at:]...)
			}
			txt := strings.Join(lines, f.nl)
			if r.chance(60) {
				txt += f.nl
			}
			path := c.write("twice"+f.ext(), txt)
			w := useWorkers(c, anyWorkers(r))
			_, err := parseHexFile(format, path)
			o.Evals++
			c.alive()
			dist := at - i
			if dist < 0 {
				dist = -dist
			}
			o.key("%s same=%v overlap=%s distance=%s workers=%d", format, same, bucket(n), bucket(dist), w)
			o.add("collisions", 1)
			if err == nil {
				o.attach("twice"+f.ext(), []byte(txt))
				o.fail("accepted", "%s: address 0x%08X is defined twice (%d bytes overlap, same values: %v, %d records apart) and the file was accepted with %d processors", format, dup.addr, n, same, dist, w)
				return
			}
			// the intact file is accepted: the rejection is due to the collision
			if k == 0 {
				path := c.write("once"+f.ext(), f.text(nil, false))
				if _, err := parseHexFile(format, path); err != nil {
					o.attach("once"+f.ext(), []byte(f.text(nil, false)))
					o.fail("rejected", "%s: every address is defined once, but the file was rejected: %v", format, err)
					return
				}
				o.Evals++
				c.alive()
			}
			if o.Sample == "" {
				o.Sample = fmt.Sprintf("%s: 0x%08X defined again %d records later -> %v", format, dup.addr, dist, err)
			}
		}
	}
}

func tiers(quick, thorough int) func(string) int {
	return func(t string) int {
		if t == "thorough" {
			return thorough
		}
		return quick
	}
}

func init() {
	register(&Prop{gc: true, id: "H01", cases: tiers(720, 9000), run: runExactImage("ihex"), gb: 1, minKeys: 100,
		rule:        "an image of up to six segments (64K borders, both ends of the address space) is written as Intel HEX with random record lengths (0..255), order, repeated bases, case and line ends, and parsed by the real reader with 1..64 workers; every delivered byte is compared with the image; a situation is (encoding style, size class, worker count, relation of records to workers)",
		assumptions: []string{"files are well-formed, use one kind of line end and end with the end-of-file record", "no record runs past 0xFFFFFFFF"}})
	register(&Prop{gc: true, id: "H02", cases: tiers(720, 9000), run: runExactImage("srec"), gb: 1, minKeys: 100,
		rule:        "an image of up to six segments is written as S-records (S1, S2, S3 and mixtures; header, count and end records present or not) with random record lengths, order, case and line ends, and parsed by the real reader with 1..64 workers; every delivered byte is compared with the image; a situation is (encoding style, size class, worker count, relation of records to workers)",
		assumptions: []string{"files are well-formed and use one kind of line end", "no record runs past the address space of its record type"}})
	register(&Prop{gc: true, id: "H03", cases: tiers(1100, 9000), run: runCorruption, gb: 1, minKeys: 100,
		rule:        "one record of a valid file (first, last or any) is corrupted in one of 13 ways and the file is parsed by the real reader; the monitor requires an error; a situation is (format, corruption, position, worker count, size class, record type)",
		assumptions: []string{"the digit of the record type of an S-record is not covered by its checksum and not corrupted into another valid type"}})
	register(&Prop{gc: true, id: "H04", cases: tiers(700, 9000), run: runCollision, gb: 1, minKeys: 60,
		rule: "a record that defines some address of a valid file again (same or other value, near or far away, in any worker's share) is added; the monitor requires an error, and acceptance of the file without it; a situation is (format, same value, overlap, distance, worker count)"})
}
