//go:build verifv04

package main

import (
	"fmt"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

func runSelected(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 60; k++ {
		n := r.between(1, 4)
		cd := newData(n)
		names := []string{"A", "B", "RL_1", "rl_1", "x.y", "", "Lookup_UBYTE"}
		consts := make([]map[string]a2l.SystemConstant, n)
		lays := make([]map[string]a2l.RecordLayout, n)
		for i := 0; i < n; i++ {
			consts[i] = map[string]a2l.SystemConstant{}
			lays[i] = map[string]a2l.RecordLayout{}
			for _, nm := range names {
				if r.chance(60) {
					consts[i][nm] = a2l.SystemConstant{Name: nm, NameSet: true, Value: fmt.Sprintf("\"%s of %d\"", nm, i), ValueSet: r.chance(90)}
				}
				if r.chance(60) {
					l := a2l.RecordLayout{Name: nm, NameSet: true}
					l.NoAxisPtsX.Position = uint16(1000*i + r.IntN(1000))
					l.NoAxisPtsX.PositionSet = true
					lays[i][nm] = l
				}
			}
			cd.A2l.Project.Modules[i].ModPar.SystemConstants = consts[i]
			cd.A2l.Project.Modules[i].RecordLayouts = lays[i]
		}
		for _, i := range append(r.Perm(n), n, r.between(n, 255)) {
			cd.ModuleIndex = uint8(i)
			if i >= n { // there is no such module
				nm := pick(r, names)
				_, err := calib.VerifConstant(cd, nm)
				_, errV := calib.VerifConstantValue(cd, nm)
				_, errL := calib.VerifLayout(cd, &a2l.Characteristic{Name: "c", Deposit: nm, DepositSet: true})
				o.Evals += 3
				o.add("missing modules", 1)
				o.key("module missing, modules=%d", n)
				if err == nil || errV == nil || errL == nil {
					o.fail("missing-module", "module %d of %d is selected, and looking up %q gave no error: constant %v, value %v, layout %v", i, n, nm, err, errV, errL)
					return
				}
				continue
			}
			for _, nm := range append(names, "no_such_name") {
				want, ok := consts[i][nm]
				got, err := calib.VerifConstant(cd, nm)
				val, errV := calib.VerifConstantValue(cd, nm)
				o.Evals += 2
				o.add("constants", 1)
				o.key("constant exists=%v value=%v modules=%d", ok, want.ValueSet, n)
				if (err == nil) != ok || ok && got != want {
					o.fail("constant", "constant %q of module %d: %v expected, %v delivered (error %v)", nm, i, want, got, err)
					return
				}
				if (errV == nil) != (ok && want.ValueSet) || errV == nil && val != want.Value {
					o.fail("constant-value", "value of constant %q of module %d: %q (set: %v) expected, %q delivered (error %v)", nm, i, want.Value, want.ValueSet, val, errV)
					return
				}
				ch := &a2l.Characteristic{Name: "c", Deposit: nm, DepositSet: r.chance(90)}
				l, ok := lays[i][nm]
				rl, err := calib.VerifLayout(cd, ch)
				o.Evals++
				o.add("layouts", 1)
				o.key("layout exists=%v deposit=%v modules=%d", ok, ch.DepositSet, n)
				if (err == nil) != (ok && ch.DepositSet) {
					o.fail("layout-error", "record layout %q (deposit set: %v, exists: %v) of module %d: error %v", nm, ch.DepositSet, ok, i, err)
					return
				}
				if err == nil && (rl == nil || fingerprint(*rl) != fingerprint(l)) {
					o.fail("layout", "record layout %q of module %d was not delivered with its content", nm, i)
					return
				}
				if o.Sample == "" && err == nil && errV == nil {
					o.Sample = fmt.Sprintf("module %d of %d: constant %q = %s, record layout %q", i, n, nm, val, rl.Name)
				}
			}
		}
	}
}

func init() {
	register(&Prop{id: "V04", cases: tiers(6000, 300000), run: runSelected, minKeys: 10,
		rule: "system constants, their values and the record layouts of characteristics are looked up in one of several modules with names shared among modules and compared with a model; a situation is (exists, value or deposit set, modules)"})
}
