//go:build verifv05

package main

import (
	"bytes"
	"fmt"
	"reflect"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

// fieldNames are the fields of one value; axis and other fields are treated separately.
var fieldNames []string

func init() {
	for _, f := range []string{"DistOp", "ShiftOp", "Offset", "NoAxisPts"} {
		for _, x := range "XYZ45" {
			fieldNames = append(fieldNames, f+string(x))
		}
	}
	fieldNames = append(fieldNames, "NoRescaleX")
}

func runFields(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 40; k++ {
		n := r.between(1, 2)
		cd := newData(n)
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		var common []map[string]uint16
		big := r.chance(50)
		for i := 0; i < n; i++ {
			m := &cd.A2l.Project.Modules[i].ModCommon
			m.ByteOrder.ByteOrder, m.ByteOrder.ByteOrderSet = a2l.MsbLast, true
			if big == (i == idx) {
				m.ByteOrder.ByteOrder = a2l.MsbFirst
			}
			common = append(common, randomAlign(r, reflect.ValueOf(m)))
		}
		rl := &a2l.RecordLayout{Name: "rl"}
		layout := randomAlign(r, reflect.ValueOf(rl))
		types := map[string]refType{}
		for _, f := range append(append([]string{}, fieldNames...), "Identification", "FncValues", "AxisPtsX", "AxisPtsY", "AxisPtsZ", "AxisPts4", "AxisPts5") {
			types[f] = pick(r, refTypes)
			setType(rl, f, types[f], true)
		}
		base := pick(r, []uint32{0x1000, 0x80001234, 0xFFF0, uint32(r.Uint64()) | 1})
		if base > 0xFFFF0000 {
			base = 0xFFFF0000
		}
		cur := base + uint32(r.IntN(16))
		put := func(b []byte, at uint32) {
			for i, v := range b {
				cd.Hex[at+uint32(i)] = v
			}
		}
		// a walk over the record: every step starts where the previous one ended
		for step := 0; step < 12; step++ {
			what := r.IntN(10)
			if r.chance(30) { // random bytes in gaps must not matter
				put([]byte{byte(r.IntN(256)), byte(r.IntN(256))}, cur)
			}
			switch {
			case what < 5:
				f := pick(r, fieldNames)
				t := types[f]
				at := alignUp(cur, t.alignment(layout, common[idx]))
				b := smallValue(r, t, big)
				put(b, at)
				hole := r.chance(8)
				if hole {
					delete(cd.Hex, at+uint32(r.IntN(t.size)))
				}
				pos := cur
				got, err := calib.VerifField(cd, rl, f, &pos)
				o.Evals++
				o.add("fields", 1)
				o.key("%s %s hole=%v gap=%v", f, t.name, hole, at != cur)
				desc := fmt.Sprintf("%s (%s, big endian %v) with the cursor at 0x%X, alignments %v and %v, bytes % X at 0x%X", f, t.name, big, cur, layout, common[idx], b, at)
				if hole {
					if err == nil {
						o.fail("field-missing", "%s: %d delivered although bytes are missing", desc, got)
						return
					}
					put(b, at)
					continue
				}
				want := int64(t.value(b, big))
				if err != nil || got != want || pos != at+uint32(t.size) {
					o.fail("field-"+f, "%s: %d and cursor 0x%X expected, %d and 0x%X delivered (error %v)", desc, want, at+uint32(t.size), got, pos, err)
					return
				}
				if o.Sample == "" {
					o.Sample = fmt.Sprintf("%s -> %d, cursor 0x%X", desc, got, pos)
				}
				cur = pos
			case what == 5:
				t := types["Identification"]
				at := alignUp(cur, t.alignment(layout, common[idx]))
				b := smallValue(r, t, big)
				put(b, at)
				pos := cur
				got, err := calib.VerifIdentification(cd, rl, &pos)
				o.Evals++
				o.key("Identification %s gap=%v", t.name, at != cur)
				raw, isBytes := got.([]byte)
				if !isBytes && err == nil {
					o.cannotSee("Identification is not delivered as bytes")
					cur = pos
					continue
				}
				if err != nil || !bytes.Equal(raw, b) || pos != at+uint32(t.size) {
					o.fail("identification", "identification (%s) at 0x%X: % X and cursor 0x%X expected, % X and 0x%X delivered (error %v)", t.name, cur, b, at+uint32(t.size), raw, pos, err)
					return
				}
				cur = pos
			case what == 6:
				size := pick(r, []int{1, 2, 4})
				rl.Reserved.DataSize, rl.Reserved.DataSizeSet = map[int]a2l.DataSizeEnum{1: a2l.BYTE, 2: a2l.WORD, 4: a2l.LONG}[size], true
				pos := cur
				err := calib.VerifReserved(cd, rl, &pos)
				o.Evals++
				o.key("Reserved %d", size)
				if err != nil || pos != cur+uint32(size) {
					o.fail("reserved", "%d reserved bytes at 0x%X: cursor 0x%X (error %v)", size, cur, pos, err)
					return
				}
				cur = pos
			case what == 7:
				t := types["FncValues"]
				at := alignUp(cur, t.alignment(layout, common[idx]))
				b := smallValue(r, t, big)
				put(b, at)
				pos := cur
				got, raw, err := calib.VerifFnc(cd, rl, &pos)
				o.Evals++
				o.key("FncValues %s gap=%v", t.name, at != cur)
				if err != nil || got != t.value(b, big) || !bytes.Equal(raw, b) || pos != at+uint32(t.size) {
					o.fail("value", "value (%s) at 0x%X: %v (% X) and cursor 0x%X expected, %v (% X) and 0x%X delivered (error %v)", t.name, cur, t.value(b, big), b, at+uint32(t.size), got, raw, pos, err)
					return
				}
				cur = pos
			default:
				x := string("XYZ45"[r.IntN(5)])
				t := types["AxisPts"+x]
				num := int64(r.between(0, 9))
				fix := r.chance(40)
				arg := num
				ff := reflect.ValueOf(rl).Elem().FieldByName("FixNoAxisPts" + x)
				ff.FieldByName("NumberOfAxisPointsSet").SetBool(fix)
				if fix {
					if num == 0 {
						num = 1
					}
					ff.FieldByName("NumberOfAxisPoints").SetUint(uint64(num))
					arg = int64(r.between(0, 20)) // not in force
				}
				at := cur
				var want []float64
				for i := int64(0); i < num; i++ {
					at = alignUp(at, t.alignment(layout, common[idx]))
					b := smallValue(r, t, big)
					put(b, at)
					want = append(want, t.value(b, big))
					at += uint32(t.size)
				}
				hole := num > 0 && r.chance(10)
				if hole {
					delete(cd.Hex, at-1-uint32(r.IntN(t.size)))
				}
				pos := cur
				got, err := calib.VerifAxis(cd, rl, x, arg, &pos)
				o.Evals++
				o.add("axes", 1)
				o.key("axis %s %s points=%s fix=%v hole=%v", x, t.name, bucket(int(num)), fix, hole)
				desc := fmt.Sprintf("axis %s (%s, %d points, fixed %v) with the cursor at 0x%X, alignments %v and %v", x, t.name, num, fix, cur, layout, common[idx])
				if hole || num == 0 {
					if err == nil {
						o.fail("axis-missing", "%s: %v delivered although bytes or points are missing", desc, got)
						return
					}
					cur = at + 8
					continue
				}
				if err != nil || !reflect.DeepEqual(got, want) || pos != at {
					o.fail("axis-"+x, "%s: %v and cursor 0x%X expected, %v and 0x%X delivered (error %v)", desc, want, at, got, pos, err)
					return
				}
				cur = pos
			}
			cur += uint32(r.IntN(3))
		}
		// numbers of several bytes in a mixed byte order are not supported
		bo := &cd.A2l.Project.Modules[idx].ModCommon.ByteOrder
		keep := bo.ByteOrder
		bo.ByteOrder = pick(r, []a2l.ByteOrderEnum{a2l.MsbFirstMswLast, a2l.MsbLastMswFirst})
		{
			f := pick(r, append(append([]string{}, fieldNames...), "FncValues", "AxisPtsX", "AxisPtsY", "AxisPtsZ", "AxisPts4", "AxisPts5"))
			t := types[f]
			pos := cur
			at := alignUp(pos, t.alignment(layout, common[idx]))
			put(smallValue(r, t, big), at)
			put(smallValue(r, t, big), alignUp(at+uint32(t.size), t.alignment(layout, common[idx])))
			var got interface{}
			var err error
			switch {
			case f == "FncValues":
				got, _, err = calib.VerifFnc(cd, rl, &pos)
			case len(f) == 8 && f[:7] == "AxisPts":
				ff := reflect.ValueOf(rl).Elem().FieldByName("FixNoAxisPts" + f[7:])
				ff.FieldByName("NumberOfAxisPointsSet").SetBool(false)
				got, err = calib.VerifAxis(cd, rl, f[7:], 2, &pos)
			default:
				got, err = calib.VerifField(cd, rl, f, &pos)
			}
			o.Evals++
			o.key("mixed order %s", f)
			if err == nil && t.size > 1 {
				o.fail("mixed-order", "%s (%s) in byte order %s: %v delivered although the order is not supported", f, t.name, bo.ByteOrder, got)
				return
			}
		}
		bo.ByteOrder = keep
		// a field without a data type cannot be read
		f := pick(r, append(append([]string{}, fieldNames...), "Identification", "FncValues", "Reserved", "AxisPtsX", "AxisPtsY", "AxisPtsZ", "AxisPts4", "AxisPts5"))
		var got interface{}
		var err error
		put([]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}, cur)
		if f == "Reserved" {
			rl.Reserved.DataSize, rl.Reserved.DataSizeSet = "", false
		} else {
			setType(rl, f, refType{}, false)
		}
		switch {
		case f == "Identification":
			got, err = calib.VerifIdentification(cd, rl, &cur)
		case f == "FncValues":
			got, _, err = calib.VerifFnc(cd, rl, &cur)
		case f == "Reserved":
			err = calib.VerifReserved(cd, rl, &cur)
		case len(f) == 8 && f[:7] == "AxisPts":
			ff := reflect.ValueOf(rl).Elem().FieldByName("FixNoAxisPts" + f[7:])
			ff.FieldByName("NumberOfAxisPointsSet").SetBool(false)
			got, err = calib.VerifAxis(cd, rl, f[7:], 2, &cur)
		default:
			got, err = calib.VerifField(cd, rl, f, &cur)
		}
		o.key("no type %s", f)
		if err == nil {
			o.fail("no-type", "%s has no data type, but %v was delivered", f, got)
			return
		}
		o.Evals++
	}
}

func init() {
	register(&Prop{id: "V05", cases: tiers(12000, 800000), run: runFields, minKeys: 150,
		rule:        "random walks over records: fields of random types are placed at their aligned address in the image (partly with holes and with garbage in gaps) and read; value and cursor are compared with a reference model; a situation is (field, type, hole, gap)",
		assumptions: []string{"values are exact in 53 bits", "the byte order is set in the module"}})
}
