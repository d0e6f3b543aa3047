//go:build verifv01

package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strconv"
	"strings"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
)

func runDecode(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 400; k++ {
		n := r.between(1, 3)
		cd := newData(n)
		orders := make([]a2l.DataTypeEnum, n)
		_ = orders
		var names []string
		for i := 0; i < n; i++ {
			m := &cd.A2l.Project.Modules[i].ModCommon.ByteOrder
			switch r.IntN(8) {
			case 0, 4, 5:
				m.ByteOrder = a2l.MsbFirst
			case 1:
				m.ByteOrder = a2l.BigEndian
			case 2, 6, 7:
				m.ByteOrder = a2l.MsbLast
			case 3:
				m.ByteOrder = a2l.LittleEndian
			}
			if r.chance(6) {
				m.ByteOrder = pick(r, []a2l.ByteOrderEnum{a2l.MsbFirstMswLast, a2l.MsbLastMswFirst})
			}
			m.ByteOrderSet = true
			names = append(names, string(m.ByteOrder))
		}
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		order := names[idx]
		big := order == string(a2l.MsbFirst) || order == string(a2l.BigEndian)
		mixed := order == string(a2l.MsbFirstMswLast) || order == string(a2l.MsbLastMswFirst)
		t := refTypes[(c.Idx+k)%len(refTypes)]
		b := make([]byte, t.size)
		fill := r.IntN(4)
		for i := range b {
			switch fill {
			case 0:
				b[i] = pick(r, []byte{0, 0xff, 0x80, 0x7f, 1, 0x7c, 0x3c})
			default:
				b[i] = byte(r.IntN(256))
			}
		}
		short := r.chance(5)
		if short {
			b = b[:r.IntN(len(b))]
		}
		got, err := calib.VerifDecode(cd, append([]byte{}, b...), dte(t))
		o.Evals++
		o.add("decodings", 1)
		what := fmt.Sprintf("% X as %s in a module of byte order %s (module %d of %v)", b, t.name, order, idx, names)
		switch {
		case short:
			o.key("too short %s", t.name)
			if err == nil {
				o.fail("short", "%s: %v was returned although bytes are missing", what, got)
				return
			}
		case mixed:
			o.key("mixed order %s", order)
			if err == nil && t.size > 1 {
				o.fail("mixed", "%s: %v was returned although the byte order is not supported", what, got)
				return
			}
		default:
			want := t.value(b, big)
			o.key("%s %s fill=%d sign=%v", t.name, order, fill, want < 0)
			if err != nil || !sameFloat(got, want) {
				o.fail("value", "%s: %v expected, %v delivered (error %v)", what, want, got, err)
				return
			}
		}
		if o.Sample == "" && !short && !mixed {
			o.Sample = fmt.Sprintf("%s -> %v", what, got)
		}
		// sizes of the types
		d := dte(t)
		if int(d.GetDatatypeLength()) != 8*t.size || d.String() != t.name {
			o.fail("size", "%s: %d bits and name %q are given", t.name, d.GetDatatypeLength(), d.String())
			return
		}
	}
	kinds := map[string]reflect.Kind{"UBYTE": reflect.Uint8, "SBYTE": reflect.Int8, "UWORD": reflect.Uint16, "SWORD": reflect.Int16, "ULONG": reflect.Uint32, "SLONG": reflect.Int32,
		"A_UINT64": reflect.Uint64, "A_INT64": reflect.Int64, "FLOAT16_IEEE": reflect.Uint16, "FLOAT32_IEEE": reflect.Float32, "FLOAT64_IEEE": reflect.Float64}
	for _, t := range refTypes {
		d := dte(t)
		if v := reflect.ValueOf(d.GetType()); !v.IsValid() || v.Kind() != kinds[t.name] || !v.IsZero() || int(v.Type().Size()) != t.size {
			o.fail("gotype", "%s has the type of the value %v", t.name, d.GetType())
			return
		}
	}
	for _, b := range []a2l.ByteOrderEnum{a2l.MsbFirst, a2l.MsbLast, a2l.BigEndian, a2l.LittleEndian, a2l.MsbFirstMswLast, a2l.MsbLastMswFirst} {
		b := b
		if b.String() != string(b) {
			o.fail("order-name", "%s has the name %q", string(b), b.String())
			return
		}
	}
	for s, n := range map[a2l.DataSizeEnum]uint16{a2l.BYTE: 8, a2l.WORD: 16, a2l.LONG: 32} {
		s := s
		if s.GetDataSizeLength() != n {
			o.fail("datasize", "%s has %d bits", s, s.GetDataSizeLength())
			return
		}
	}
	// hex strings
	for k := 0; k < 20; k++ {
		want := make([]byte, r.IntN(9))
		for i := range want {
			want[i] = byte(r.Uint64())
		}
		str := fmt.Sprintf("%x", want)
		if r.chance(50) {
			str = strings.ToUpper(str)
		}
		bad := r.chance(30)
		if bad {
			switch at := r.IntN(len(str) + 1); r.IntN(3) {
			case 0: // a digit too many
				str = str[:at] + string("0123456789abcdefABCDEF"[r.IntN(22)]) + str[at:]
			case 1: // no hex digit
				str = str[:at] + pick(r, []string{"g0", "0G", "- ", "0x", "  ", "+1", "1\n"}) + str[at:]
			default:
				str += pick(r, []string{"0", "F", "zz", "0 "})
			}
		}
		got, err := ihex32.HexToByteSlice(str)
		o.Evals++
		o.key("hex string bad=%v %d", bad, len(str))
		if bad && err == nil || !bad && (err != nil || !bytes.Equal(got, want)) {
			o.fail("hexstring", "the hex string %q became % X (error %v)", str, got, err)
			return
		}
	}
	// fetching ranges
	for k := 0; k < 60; k++ {
		cd := newData(1)
		base := pick(r, []uint32{0, 0x100, 0xFFFF, 0x10000, 0x80000000, 0xFFFFFF00, uint32(r.Uint64())})
		if base > 0xFFFFFF00 {
			base = 0xFFFFFF00
		}
		l := r.between(1, 64)
		img := make([]byte, l)
		for i := range img {
			img[i] = byte(r.IntN(256))
			cd.Hex[base+uint32(i)] = img[i]
		}
		hole := -1
		if r.chance(40) {
			hole = r.IntN(l)
			delete(cd.Hex, base+uint32(hole))
		}
		for q := 0; q < 20; q++ {
			s := r.IntN(l)
			n := r.between(0, minInt(l-s+2, 20))
			got, err := calib.VerifFetch(cd, base+uint32(s), uint32(8*n))
			o.Evals++
			o.add("fetches", 1)
			missing := s+n > l || (hole >= s && hole < s+n)
			o.key("fetch n=%s missing=%v end=%v", bucket(n), missing, s+n == l)
			if missing != (err != nil) {
				o.fail("fetch-error", "fetching %d bytes from 0x%X (image of %d bytes from 0x%X, hole at %d): missing=%v, but the error is %v", n, base+uint32(s), l, base, hole, missing, err)
				return
			}
			if !missing && !bytes.Equal(got, img[s:s+n]) {
				o.fail("fetch", "fetching %d bytes from 0x%X gave % X, % X expected", n, base+uint32(s), got, img[s:s+n])
				return
			}
		}
	}
	// addresses
	for k := 0; k < 200; k++ {
		cd := newData(1)
		bo := &cd.A2l.Project.Modules[0].ModCommon.ByteOrder
		bo.ByteOrder, bo.ByteOrderSet = pick(r, []a2l.ByteOrderEnum{a2l.MsbFirst, a2l.MsbLast, a2l.BigEndian, a2l.LittleEndian}), true
		v := r.Uint32() >> uint(r.IntN(32))
		s := strconv.FormatUint(uint64(v), 16)
		if r.chance(50) {
			s = strings.ToUpper(s)
		}
		if r.chance(40) {
			s = fmt.Sprintf("%08s", s)
		}
		s = pick(r, []string{"0x", "0X", "0x"}) + s
		got, err := calib.VerifAddress(cd, s)
		o.Evals++
		o.add("addresses", 1)
		o.key("address digits=%d %s", len(s)-2, bo.ByteOrder)
		if err != nil || got != v {
			o.fail("address", "%q with byte order %s: 0x%X expected, 0x%X delivered (error %v)", s, bo.ByteOrder, v, got, err)
			return
		}
		bad := pick(r, []string{"0x", "0xG1", "0x1FFFFFFFF", "xyz", "", "0x-1", "0x12.5", "0x1 2", "0x120x34", "120x34", "0x0x12", "0x12h", "0xx12", "12 34"})
		if v, err := calib.VerifAddress(cd, bad); err == nil {
			o.fail("address-accepted", "%q gave address 0x%X", bad, v)
			return
		}
	}
}

func init() {
	register(&Prop{id: "V01", cases: tiers(12000, 800000), run: runDecode, minKeys: 40,
		rule:        "random and border bytes are decoded as every data type in every byte order of one of several modules and compared with a reference decoder; ranges of images with and without holes are fetched; addresses in several spellings are converted; a situation is (type, order, sign), (length class, missing, end) or (digits, order)",
		assumptions: []string{"the byte order is set in the module"}})
}
