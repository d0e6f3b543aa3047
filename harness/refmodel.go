package main

import (
	"math"
	"reflect"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

// Reference model of data types, written independently of the code under test.

type refType struct {
	name   string
	size   int // bytes
	float  bool
	signed bool
	align  string // kind of alignment
}

var refTypes = []refType{
	{"UBYTE", 1, false, false, "Byte"}, {"SBYTE", 1, false, true, "Byte"},
	{"UWORD", 2, false, false, "Word"}, {"SWORD", 2, false, true, "Word"},
	{"ULONG", 4, false, false, "Long"}, {"SLONG", 4, false, true, "Long"},
	{"A_UINT64", 8, false, false, "Int64"}, {"A_INT64", 8, false, true, "Int64"},
	{"FLOAT16_IEEE", 2, true, true, "Float16Ieee"}, {"FLOAT32_IEEE", 4, true, true, "Float32Ieee"}, {"FLOAT64_IEEE", 8, true, true, "Float64Ieee"},
}

var alignKinds = []string{"Byte", "Word", "Long", "Int64", "Float16Ieee", "Float32Ieee", "Float64Ieee"}

func (t refType) bits(b []byte, big bool) uint64 {
	v := uint64(0)
	for i := 0; i < t.size; i++ {
		k := i
		if !big {
			k = t.size - 1 - i
		}
		v = v*256 + uint64(b[k])
	}
	return v
}

// value is the number the bytes stand for.
func (t refType) value(b []byte, big bool) float64 {
	v := t.bits(b, big)
	if !t.float {
		if t.signed && v>>(uint(t.size)*8-1) == 1 {
			if t.size == 8 {
				return -float64(^v + 1)
			}
			return float64(v) - math.Ldexp(1, t.size*8)
		}
		return float64(v)
	}
	mant := map[int]int{2: 10, 4: 23, 8: 52}[t.size]
	exps := t.size*8 - 1 - mant
	bias := 1<<uint(exps-1) - 1
	m := v & (1<<uint(mant) - 1)
	e := int(v >> uint(mant) & (1<<uint(exps) - 1))
	s := 1.0
	if v>>(uint(t.size)*8-1) == 1 {
		s = -1
	}
	switch {
	case e == 1<<uint(exps)-1 && m != 0:
		return math.NaN()
	case e == 1<<uint(exps)-1:
		return math.Inf(int(s))
	case e == 0:
		return s * math.Ldexp(float64(m), 1-bias-mant)
	}
	return s * math.Ldexp(float64(m|1<<uint(mant)), e-bias-mant)
}

func sameFloat(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// newData makes calibration data of n empty modules.
func newData(n int) *calib.CalibrationData {
	cd := &calib.CalibrationData{Hex: map[uint32]byte{}}
	p := reflect.ValueOf(&cd.A2l.Project.Modules).Elem()
	p.Set(reflect.MakeSlice(p.Type(), n, n))
	return cd
}

// setAlign sets (or clears) one alignment of a record layout or of common settings.
func setAlign(where reflect.Value, kind string, border uint16, set bool) {
	f := where.Elem().FieldByName("Alignment" + kind)
	f.FieldByName("AlignmentBorder").SetUint(uint64(border))
	f.FieldByName("AlignmentBorderSet").SetBool(set)
}

// alignment is the border in force for a type.
func (t refType) alignment(layout, common map[string]uint16) uint32 {
	if a, ok := layout[t.align]; ok {
		return uint32(a)
	}
	if a, ok := common[t.align]; ok {
		return uint32(a)
	}
	return uint32(t.size)
}

func alignUp(a, border uint32) uint32 {
	for a%border != 0 {
		a++
	}
	return a
}

// randomAlign sets random alignments and returns them as a model.
func randomAlign(r *Rng, where reflect.Value) map[string]uint16 {
	m := map[string]uint16{}
	pc := pick(r, []int{0, 20, 50, 100})
	for _, k := range alignKinds {
		if r.chance(pc) {
			b := pick(r, []uint16{1, 2, 4, 8, 16, 3, 5, 6, 12, 64, 100, 1, 2, 4, 8})
			setAlign(where, k, b, true)
			m[k] = b
		} else {
			setAlign(where, k, 0, false)
		}
	}
	return m
}

func dte(t refType) a2l.DataTypeEnum { return a2l.DataTypeEnum(t.name) }

// smallValue fills the bytes with a value that an int64 holds exactly (after dropping a fraction).
func smallValue(r *Rng, t refType, big bool) []byte {
	var v uint64
	switch {
	case t.float && t.size == 2:
		// 1.x * 2^e, e in 0..14
		v = uint64(r.IntN(2))<<15 | uint64(15+r.IntN(15))<<10 | uint64(r.IntN(1024))
	case t.float && t.size == 4:
		v = uint64(math.Float32bits(float32(r.NormFloat64() * 1e6)))
	case t.float:
		v = math.Float64bits(r.NormFloat64() * 1e9)
	case t.size == 8:
		v = r.Uint64() >> uint(11+r.IntN(40))
		if t.signed && r.chance(50) {
			v = -v
		}
	default:
		v = r.Uint64()
	}
	b := make([]byte, t.size)
	for i := range b {
		k := i
		if big {
			k = t.size - 1 - i
		}
		b[k] = byte(v >> (8 * uint(i)))
	}
	return b
}

func setType(rl *a2l.RecordLayout, field string, t refType, set bool) {
	f := reflect.ValueOf(rl).Elem().FieldByName(field)
	f.FieldByName("Datatype").SetString(t.name)
	f.FieldByName("DatatypeSet").SetBool(set)
}
