//go:build verifv06

package main

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

// recordField is a field of a generated record.
type recordField struct {
	name string
	typ  refType
	pos  uint16
	size int // reserved bytes
}

func runRecords(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 30; k++ {
		n := r.between(1, 3)
		cd := newData(n)
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		big := r.chance(50)
		var common []map[string]uint16
		for i := 0; i < n; i++ {
			m := &cd.A2l.Project.Modules[i].ModCommon
			m.ByteOrder.ByteOrder, m.ByteOrder.ByteOrderSet = a2l.MsbLast, true
			if big == (i == idx) {
				m.ByteOrder.ByteOrder = a2l.MsbFirst
			}
			common = append(common, randomAlign(r, reflect.ValueOf(m)))
		}
		rl := &a2l.RecordLayout{Name: "RL", NameSet: true}
		layout := randomAlign(r, reflect.ValueOf(rl))
		// the fields in the order of their places
		var names []string
		for _, x := range "XYZ45" {
			for _, f := range []string{"DistOp", "ShiftOp", "Offset", "NoAxisPts"} {
				if r.chance(40) {
					names = append(names, f+string(x))
				}
			}
		}
		for _, f := range []string{"NoRescaleX", "Identification", "Reserved"} {
			if r.chance(40) {
				names = append(names, f)
			}
		}
		r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		fixed := map[string]int{}
		for _, x := range "XYZ45" {
			ax := "AxisPts" + string(x)
			if !r.chance(40) {
				continue
			}
			at := -1
			for i, nm := range names {
				if nm == "NoAxisPts"+string(x) {
					at = i
				}
			}
			if at < 0 || r.chance(20) {
				fixed[ax] = r.between(1, 6)
				ff := reflect.ValueOf(rl).Elem().FieldByName("FixNoAxisPts" + string(x))
				ff.FieldByName("NumberOfAxisPointsSet").SetBool(true)
				ff.FieldByName("NumberOfAxisPoints").SetUint(uint64(fixed[ax]))
			}
			at = r.between(at+1, len(names))
			names = append(names[:at], append([]string{ax}, names[at:]...)...)
		}
		if len(names) == 0 {
			names = []string{"NoAxisPtsX"}
		}
		var fields []recordField
		pos := 0
		wide := r.chance(30)
		for _, nm := range names {
			f := recordField{name: nm, typ: pick(r, refTypes), pos: uint16(pos + 1)}
			pos++
			if wide {
				pos += r.IntN(1000)
			} else if r.chance(20) {
				pos += r.IntN(4)
			}
			v := reflect.ValueOf(rl).Elem().FieldByName(nm)
			v.FieldByName("Position").SetUint(uint64(f.pos))
			v.FieldByName("PositionSet").SetBool(true)
			if nm == "Reserved" {
				f.size = pick(r, []int{1, 2, 4})
				rl.Reserved.DataSize, rl.Reserved.DataSizeSet = map[int]a2l.DataSizeEnum{1: a2l.BYTE, 2: a2l.WORD, 4: a2l.LONG}[f.size], true
			} else {
				setType(rl, nm, f.typ, true)
			}
			fields = append(fields, f)
		}
		sort.SliceStable(fields, func(i, j int) bool { return fields[i].pos < fields[j].pos })
		// the record in the image
		base := pick(r, []uint32{0x0, 0x1000, 0x80001234, 0xFFF0, uint32(r.Uint64())})
		if base > 0xFFFF0000 {
			base = 0xFFFF0000
		}
		want := map[string]interface{}{}
		points := map[string]int{}
		cur := base
		spans := map[string][]uint32{} // the addresses of the bytes of each field
		name := ""
		place := func(t refType, b []byte) {
			at := alignUp(cur, t.alignment(layout, common[idx]))
			for cur < at {
				if r.chance(50) {
					cd.Hex[cur] = byte(r.IntN(256))
				}
				cur++
			}
			for i, v := range b {
				cd.Hex[at+uint32(i)] = v
				spans[name] = append(spans[name], at+uint32(i))
			}
			cur = at + uint32(t.size)
		}
		for _, f := range fields {
			name = f.name
			switch {
			case f.name == "Reserved":
				cur += uint32(f.size)
			case f.name == "Identification":
				b := smallValue(r, f.typ, big)
				place(f.typ, b)
				want[f.name] = b
			case len(f.name) == 8 && f.name[:7] == "AxisPts":
				num, ok := fixed[f.name]
				if !ok {
					num = points[f.name[7:]]
				}
				var vals []float64
				for i := 0; i < num; i++ {
					b := smallValue(r, f.typ, big)
					place(f.typ, b)
					vals = append(vals, f.typ.value(b, big))
				}
				want[f.name] = vals
			case len(f.name) == 10 && f.name[:9] == "NoAxisPts":
				num := r.between(1, 9)
				b := encodeSmall(f.typ, num, big)
				place(f.typ, b)
				want[f.name] = int64(num)
				points[f.name[9:]] = num
			default:
				b := smallValue(r, f.typ, big)
				place(f.typ, b)
				want[f.name] = int64(f.typ.value(b, big))
			}
		}
		for i := 0; i < n; i++ {
			cd.A2l.Project.Modules[i].RecordLayouts = map[string]a2l.RecordLayout{"RL": {Name: "RL", NameSet: true}}
		}
		cd.A2l.Project.Modules[idx].RecordLayouts["RL"] = *rl
		ch := &a2l.Characteristic{Name: "C", Deposit: "RL", DepositSet: true, Address: fmt.Sprintf("0x%X", base)}
		setHidden(ch, "nameSet")
		setHidden(ch, "addressSet")
		// what cannot be read is not read from another place
		fault, from := "", len(fields)
		if r.chance(25) {
			fault, from = pick(r, []string{"no layout", "no deposit", "no module", "address", "positions", "no data type", "missing byte", "missing byte"}), 0
			switch fault {
			case "no layout":
				delete(cd.A2l.Project.Modules[idx].RecordLayouts, "RL")
			case "no deposit":
				ch.DepositSet = false
			case "no module":
				cd.ModuleIndex = uint8(r.between(n, 255))
			case "address":
				ch.Address = pick(r, []string{"", "0x", "xyz", "0x100000000", "12 34", "-1"})
			case "positions":
				if len(fields) < 2 {
					fault, from = "", len(fields)
					break
				}
				i := r.IntN(len(fields) - 1)
				reflect.ValueOf(rl).Elem().FieldByName(fields[i].name).FieldByName("Position").SetUint(uint64(fields[i+1].pos))
				cd.A2l.Project.Modules[idx].RecordLayouts["RL"] = *rl
			case "no data type":
				from = r.IntN(len(fields))
				if f := fields[from]; f.name == "Reserved" || len(f.name) == 8 && f.name[:7] == "AxisPts" {
					fault, from = "", len(fields)
					break
				}
				setType(rl, fields[from].name, fields[from].typ, false)
				cd.A2l.Project.Modules[idx].RecordLayouts["RL"] = *rl
			case "missing byte":
				from = r.IntN(len(fields))
				if fields[from].name == "Reserved" {
					fault, from = "", len(fields)
					break
				}
				sp := spans[fields[from].name]
				delete(cd.Hex, sp[r.IntN(len(sp))])
			}
		}
		arg := *rl
		if r.chance(50) { // what the caller may have done before
			arg.RelativePositions, _ = arg.GetRecordLayoutRelativePositions()
		}
		desc := fmt.Sprintf("record at 0x%X (module %d of %d, big endian %v, alignments %v and %v) of %d fields", base, idx, n, big, layout, common[idx], len(fields))
		for _, f := range fields {
			desc += fmt.Sprintf(" %s@%d:%s", f.name, f.pos, f.typ.name)
		}
		got := calib.VerifRecord(cd, ch, &arg)
		if r.chance(20) {
			o.add("repeated reads", 1)
			if again := calib.VerifRecord(cd, ch, &arg); !reflect.DeepEqual(got, again) {
				o.fail("again", "%s: reading it again gave %v after %v", desc, again, got)
				return
			}
		}
		o.Evals++
		o.add("records", 1)
		o.add("fields", len(fields))
		for i, f := range fields {
			prev := "start"
			if i > 0 {
				prev = fields[i-1].name
			}
			o.key("%s after %s", f.name, prev)
		}
		unread := map[string]bool{}
		if fault != "" {
			o.add("records with a fault", 1)
			o.key("fault %s", fault)
			desc += " (" + fault
			if fault == "missing byte" || fault == "no data type" {
				desc += " at " + fields[from].name
			}
			desc += ")"
			for _, f := range fields[from:] {
				unread[f.name] = true
			}
		}
		for name, g := range got {
			if unread[name] {
				if v := reflect.ValueOf(g); g != nil && !v.IsZero() && !(v.Kind() == reflect.Slice && v.Len() == 0) {
					o.fail("unreadable-"+fault, "%s: %s cannot be read, but %v was delivered", desc, name, g)
					return
				}
				continue
			}
			w, ok := want[name]
			if !ok {
				if v := reflect.ValueOf(g); g != nil && !v.IsZero() {
					o.fail("invented", "%s: %s is not part of the layout, but %v was delivered", desc, name, g)
					return
				}
				continue
			}
			if !reflect.DeepEqual(g, w) {
				o.fail("record-"+name, "%s: %s is %v, but %v was delivered", desc, name, w, g)
				return
			}
		}
		if o.Sample == "" {
			o.Sample = desc + fmt.Sprintf(" -> %v", want)
		}
	}
}

// setHidden sets a presence flag as the reader does, if there is one.
func setHidden(ch *a2l.Characteristic, name string) {
	f := reflect.ValueOf(ch).Elem().FieldByName(name)
	if f.IsValid() && f.Kind() == reflect.Bool {
		*(*bool)(unsafe.Pointer(f.UnsafeAddr())) = true
	}
}

// encodeSmall gives the bytes of a small positive number.
func encodeSmall(t refType, n int, big bool) []byte {
	b := make([]byte, t.size)
	var v uint64
	switch {
	case t.float:
		// find the bits by search over the exponent: n = m * 2^e with 1 <= m < 2
		mant := map[int]int{2: 10, 4: 23, 8: 52}[t.size]
		bias := 1<<uint(t.size*8-2-mant) - 1
		e := 0
		for n>>uint(e+1) > 0 {
			e++
		}
		v = uint64(bias+e)<<uint(mant) | uint64(n-1<<uint(e))<<uint(mant-e)
	default:
		v = uint64(n)
	}
	for i := range b {
		k := i
		if big {
			k = t.size - 1 - i
		}
		b[k] = byte(v >> (8 * uint(i)))
	}
	return b
}

func init() {
	register(&Prop{id: "V06", cases: tiers(9000, 900000), run: runRecords, minKeys: 200,
		rule:        "whole records of random layouts (any subset of the fields, any order and distance of positions, random types, alignments, byte order, one of several modules) are placed in an image and read; every value is compared with a reference model, fields that are not part of the layout must stay empty; a situation is a pair of neighbouring fields",
		assumptions: []string{"values are exact in 53 bits", "the byte order is set in the module", "all bytes of the record are in the image"}})
}
