//go:build verifv02

package main

import (
	"fmt"
	"math"
	"reflect"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

func runAligned(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 60; k++ {
		n := r.between(1, 3)
		cd := newData(n)
		var common []map[string]uint16
		for i := 0; i < n; i++ {
			common = append(common, randomAlign(r, reflect.ValueOf(&cd.A2l.Project.Modules[i].ModCommon)))
		}
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		rl := &a2l.RecordLayout{}
		layout := randomAlign(r, reflect.ValueOf(rl))
		for _, t := range refTypes {
			for q := 0; q < 4; q++ {
				addr := r.Uint32() >> uint(r.IntN(32))
				if r.chance(10) {
					addr = uint32(r.IntN(20))
				}
				if addr > math.MaxUint32-200 {
					addr -= 200
				}
				border := t.alignment(layout, common[idx])
				want := alignUp(addr, border)
				got := calib.VerifAligned(cd, addr, dte(t), rl)
				o.Evals++
				o.add("alignments", 1)
				_, l := layout[t.align]
				_, m := common[idx][t.align]
				o.key("%s layout=%v module=%v aligned=%v border=%d", t.name, l, m, want == addr, border)
				if got != want {
					o.fail("aligned", "%s at 0x%X: 0x%X expected, 0x%X delivered (layout %v, modules %v, module %d)", t.name, addr, want, got, layout, common, idx)
					return
				}
				if o.Sample == "" && want != addr {
					o.Sample = fmt.Sprintf("%s at 0x%X, border %d -> 0x%X", t.name, addr, border, got)
				}
			}
		}
	}
}

func init() {
	register(&Prop{id: "V02", cases: tiers(12000, 800000), run: runAligned, minKeys: 60,
		rule:        "addresses are aligned for every data type with random alignments in the record layout and the module and compared with an arithmetic oracle; a situation is (type, layout defines it, module defines it, address already aligned, border)",
		assumptions: []string{"alignments are at least 1", "the aligned address lies below 2^32"}})
}
