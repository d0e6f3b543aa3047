//go:build verifv03

package main

import (
	"fmt"
	"math"

	calib "github.com/asap2Go/calibrationReader"
	"github.com/asap2Go/calibrationReader/a2l"
)

func near(a, b, tol float64) bool { return math.Abs(a-b) <= tol*(1+math.Abs(a)+math.Abs(b)) }

func (r *Rng) coeff() float64 {
	switch r.IntN(4) {
	case 0:
		return float64(r.between(-8, 8))
	case 1:
		return float64(r.between(-1000, 1000)) / 8
	case 2:
		return 0
	}
	return r.NormFloat64() * 10
}

func runConversions(c *Case, o *Obs) {
	r := c.rng
	check := func(kind string) { o.Evals++; o.add("conversions "+kind, 1) }
	// numeric methods
	for k := 0; k < 150; k++ {
		n := r.between(1, 3)
		cd := newData(n)
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		x := float64(r.between(-70000, 70000)) / pick(r, []float64{1, 1, 1, 4, 256})
		m := &a2l.CompuMethod{Name: "m"}
		switch k % 6 {
		case 0:
			m.ConversionType = a2l.Identical
			if r.chance(50) { // coefficients of other methods have no influence
				m.CoeffsLinear.A, m.CoeffsLinear.ASet, m.CoeffsLinear.BSet = 7, true, true
			}
			got, err := calib.VerifConvert(cd, x, m)
			check("identical")
			o.key("identical negative=%v", x < 0)
			if err != nil || got != x {
				o.fail("identical", "identical: %v gave %v (error %v)", x, got, err)
				return
			}
		case 1:
			m.ConversionType = a2l.Linear
			a, b := r.coeff(), r.coeff()
			m.CoeffsLinear.A, m.CoeffsLinear.ASet, m.CoeffsLinear.B, m.CoeffsLinear.BSet = a, true, b, true
			miss := r.IntN(12)
			if miss == 0 {
				m.CoeffsLinear.ASet = false
			} else if miss == 1 {
				m.CoeffsLinear.BSet = false
			}
			got, err := calib.VerifConvert(cd, x, m)
			check("linear")
			o.key("linear a=%v b=%v missing=%v", sign(a), sign(b), miss < 2)
			if miss < 2 {
				if err == nil {
					o.fail("linear-missing", "linear without both coefficients gave %v", got)
					return
				}
				break
			}
			if err != nil || !near(got, a*x+b, 1e-12) {
				o.fail("linear", "linear %v*x%+v: %v gave %v (error %v), %v expected", a, b, x, got, err, a*x+b)
				return
			}
			if o.Sample == "" {
				o.Sample = fmt.Sprintf("linear %v*x%+v: %v -> %v", a, b, x, got)
			}
		case 2:
			if !runRational(c, o, cd, m, x, check) {
				return
			}
		case 3:
			m.ConversionType = pick(r, []a2l.CompuMethod{{ConversionType: a2l.Form}, {ConversionType: a2l.TabIntp}, {ConversionType: a2l.TabVerb}, {}}).ConversionType
			m.CompuTabRef.ConversionTable, m.CompuTabRef.ConversionTableSet = "t", true
			for i := range cd.A2l.Project.Modules {
				cd.A2l.Project.Modules[i].CompuTabs = map[string]a2l.CompuTab{"t": {Name: "t", InVal: []float64{x}, InValSet: true, OutVal: []float64{1}, OutValSet: true}}
			}
			got, err := calib.VerifConvert(cd, x, m)
			check("unsupported")
			o.key("unsupported %q", string(m.ConversionType))
			if err == nil {
				o.fail("unsupported", "method %q gave %v instead of an error", string(m.ConversionType), got)
				return
			}
		default: // table without interpolation
			m.ConversionType = a2l.TabNointp
			m.CompuTabRef.ConversionTable, m.CompuTabRef.ConversionTableSet = "tab", true
			var in, out []float64
			var def float64
			hasDef, exists := false, false
			for i := 0; i < n; i++ {
				ti, to := keys(r), []float64{}
				for range ti {
					to = append(to, float64(r.between(-1000, 1000))/4)
				}
				t := a2l.CompuTab{Name: "tab", NameSet: true, InVal: ti, OutVal: to, InValSet: len(ti) > 0, OutValSet: len(ti) > 0, NumberValuePairs: uint16(len(ti)), NumberValuePairsSet: true}
				d := float64(r.between(-50, 50))
				hd := r.chance(50)
				if hd {
					t.DefaultValueNumeric.DisplayValue, t.DefaultValueNumeric.DisplayValueSet = d, true
				}
				mod := &cd.A2l.Project.Modules[i]
				mod.CompuTabs = map[string]a2l.CompuTab{"other": {Name: "other", InVal: []float64{0, 1}, InValSet: true, OutVal: []float64{5, 6}, OutValSet: true}}
				ex := r.chance(90)
				if ex {
					mod.CompuTabs["tab"] = t
				}
				if i == idx {
					in, out, def, hasDef, exists = ti, to, d, hd, ex
				}
			}
			v := x
			if len(in) > 0 && r.chance(70) {
				v = pick(r, in)
			}
			hit := -1
			for i := range in {
				if in[i] == v {
					hit = i
				}
			}
			got, err := calib.VerifConvert(cd, v, m)
			check("table")
			o.key("table exists=%v entries=%d hit=%v default=%v modules=%d", exists, len(in), hit >= 0, hasDef, n)
			what := fmt.Sprintf("table %v -> %v (default %v %v, exists %v), raw value %v", in, out, hasDef, def, exists, v)
			switch {
			case exists && hit >= 0:
				if err != nil || got != out[hit] {
					o.fail("table", "%s: %v delivered (error %v)", what, got, err)
					return
				}
			case exists && hasDef:
				if err != nil || got != def {
					o.fail("table-default", "%s: %v delivered (error %v)", what, got, err)
					return
				}
			default:
				if err == nil {
					o.fail("table-missing", "%s: %v delivered without an error", what, got)
					return
				}
			}
		}
	}
	// verbal tables
	for k := 0; k < 60; k++ {
		n := r.between(1, 3)
		cd := newData(n)
		idx := r.IntN(n)
		cd.ModuleIndex = uint8(idx)
		var mine a2l.CompuVTab
		var mineR a2l.CompuVTabRange
		for i := 0; i < n; i++ {
			mod := &cd.A2l.Project.Modules[i]
			in := keys(r)
			t := a2l.CompuVTab{Name: "v", NameSet: true, InVal: in, InValSet: len(in) > 0, OutValSet: len(in) > 0, NumberValuePairs: uint16(len(in)), NumberValuePairsSet: true}
			for j := range in {
				t.OutVal = append(t.OutVal, fmt.Sprintf("\"m%d text %d\"", i, j))
			}
			if r.chance(60) {
				t.DefaultValue.DisplayString, t.DefaultValue.DisplayStringSet = fmt.Sprintf("\"m%d default\"", i), true
			}
			mod.CompuVTabs = map[string]a2l.CompuVTab{"v": t, "w": {Name: "w", InVal: []float64{1}, InValSet: true, OutVal: []string{"\"w\""}, OutValSet: true}}
			// ranges: ascending, partly touching, partly single values
			q := a2l.CompuVTabRange{Name: "v", NameSet: true, NumberValueTriplesSet: true}
			at := float64(r.between(-100, 100))
			triples := r.between(1, 6)
			switch x := r.IntN(100); {
			case x < 5:
				triples = 0
			case x < 7:
				triples = r.between(250, 400)
			}
			for j := triples; j > 0; j-- {
				if r.chance(50) {
					at += float64(r.between(1, 5))
				}
				hi := at + pick(r, []float64{0, 1, 5, 0.5, 10})
				q.InValMin = append(q.InValMin, at)
				q.InValMax = append(q.InValMax, hi)
				q.OutVal = append(q.OutVal, fmt.Sprintf("\"m%d range %d\"", i, len(q.OutVal)))
				if hi == at {
					hi++
				}
				at = hi
			}
			q.NumberValueTriples = uint16(len(q.OutVal))
			q.InValMinSet, q.InValMaxSet, q.OutValSet = triples > 0, triples > 0, triples > 0
			if triples == 0 && r.chance(50) {
				q.NumberValueTriplesSet = false
			} else if triples > 0 && r.chance(4) { // the file has fewer entries than it says
				q.NumberValueTriples += uint16(r.between(1, 5))
				q.InValMinSet, q.InValMaxSet, q.OutValSet = false, false, false
			}
			if r.chance(60) {
				q.DefaultValue.DisplayString, q.DefaultValue.DisplayStringSet = fmt.Sprintf("\"m%d range default\"", i), true
			}
			if r.chance(20) { // the order of the ranges does not matter
				r.Shuffle(len(q.OutVal), func(a, b int) {
					q.InValMin[a], q.InValMin[b] = q.InValMin[b], q.InValMin[a]
					q.InValMax[a], q.InValMax[b] = q.InValMax[b], q.InValMax[a]
					q.OutVal[a], q.OutVal[b] = q.OutVal[b], q.OutVal[a]
				})
			}
			mod.CompuVTabRanges = map[string]a2l.CompuVTabRange{"v": q}
			if i == idx {
				mine, mineR = t, q
			}
		}
		for z := 0; z < 12; z++ {
			v := float64(r.between(-120, 140))
			if len(mine.InVal) > 0 && r.chance(60) {
				v = pick(r, mine.InVal)
			}
			want, ok := mine.DefaultValue.DisplayString, mine.DefaultValue.DisplayStringSet && len(mine.InVal) > 0
			hit := false
			for j := range mine.InVal {
				if mine.InVal[j] == v {
					want, ok, hit = mine.OutVal[j], true, true
				}
			}
			got, err := calib.VerifVerb(cd, v, &a2l.CompuVTab{Name: "v"})
			check("verbal table")
			o.key("verbal hit=%v default=%v entries=%d modules=%d", hit, mine.DefaultValue.DisplayStringSet, len(mine.InVal), n)
			if len(mine.InVal) == 0 && err == nil && (!mine.DefaultValue.DisplayStringSet || got != mine.DefaultValue.DisplayString) {
				o.fail("verbal-empty", "verbal table without entries (default %q): %v gave %q without an error", mine.DefaultValue.DisplayString, v, got)
				return
			}
			if len(mine.InVal) > 0 && ((err == nil) != ok || ok && got != want) {
				o.fail("verbal", "verbal table %v -> %v (default %q): %v gave %q (error %v), %q expected", mine.InVal, mine.OutVal, mine.DefaultValue.DisplayString, v, got, err, want)
				return
			}
			// ranges
			if len(mineR.OutVal) == 0 {
				got, err = calib.VerifVerbRange(cd, v, &a2l.CompuVTabRange{Name: "v"})
				check("range table")
				o.key("range without entries default=%v number=%v", mineR.DefaultValue.DisplayStringSet, mineR.NumberValueTriplesSet)
				if err == nil && (!mineR.DefaultValue.DisplayStringSet || got != mineR.DefaultValue.DisplayString) {
					o.fail("range-empty", "range table without entries (default %q): %v gave %q without an error", mineR.DefaultValue.DisplayString, v, got)
					return
				}
				continue
			}
			j := r.IntN(len(mineR.OutVal))
			v = pick(r, []float64{mineR.InValMin[j], mineR.InValMax[j], (mineR.InValMin[j] + mineR.InValMax[j]) / 2, mineR.InValMin[j] - 0.25, mineR.InValMax[j] + 0.25, float64(r.between(-120, 160))})
			want, ok, hit = mineR.DefaultValue.DisplayString, mineR.DefaultValue.DisplayStringSet, false
			for j := range mineR.OutVal {
				lo, hi := mineR.InValMin[j], mineR.InValMax[j]
				if v == lo || lo <= v && v < hi {
					want, ok, hit = mineR.OutVal[j], true, true
				}
			}
			got, err = calib.VerifVerbRange(cd, v, &a2l.CompuVTabRange{Name: "v"})
			check("range table")
			o.key("range hit=%v default=%v entries=%d modules=%d border=%v", hit, mineR.DefaultValue.DisplayStringSet, len(mineR.OutVal), n, v == mineR.InValMin[j] || v == mineR.InValMax[j])
			if (err == nil) != ok || ok && got != want {
				o.fail("range", "range table %v..%v -> %v (default %q): %v gave %q (error %v), %q expected", mineR.InValMin, mineR.InValMax, mineR.OutVal, mineR.DefaultValue.DisplayString, v, got, err, want)
				return
			}
		}
		if s, err := calib.VerifVerb(cd, 1, &a2l.CompuVTab{Name: "missing"}); err == nil {
			o.fail("verbal-missing", "a verbal table that does not exist gave %q", s)
			return
		}
		if s, err := calib.VerifVerbRange(cd, 1, &a2l.CompuVTabRange{Name: "missing"}); err == nil {
			o.fail("range-missing", "a range table that does not exist gave %q", s)
			return
		}
		o.Evals += 2
	}
}

func keys(r *Rng) []float64 {
	var l []float64
	seen := map[float64]bool{}
	n, span := r.between(0, 8), 20
	if r.chance(2) { // a large one
		n, span = r.between(260, 400), 1000
	}
	for ; n > 0; n-- {
		v := float64(r.between(-span, span)) / pick(r, []float64{1, 1, 2})
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	return l
}

func sign(x float64) int {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	}
	return 0
}

// runRational: raw = (a p^2 + b p + c) / (d p^2 + e p + f) must hold for the delivered p.
func runRational(c *Case, o *Obs, cd *calib.CalibrationData, m *a2l.CompuMethod, x float64, check func(string)) bool {
	r := c.rng
	m.ConversionType = a2l.RatFunc
	q := [6]float64{}
	kind := pick(r, []string{"linear", "hyperbolic", "quadratic", "full", "nosolution", "zero", "missing"})
	p := float64(r.between(-400, 400)) / 4
	switch kind {
	case "linear": // raw = (b p + c) / f
		q[1], q[2], q[5] = nonzero(r), r.coeff(), nonzero(r)
	case "hyperbolic": // raw = (b p + c) / (e p + f)
		q[1], q[2], q[4], q[5] = r.coeff(), nonzero(r), nonzero(r), r.coeff()
	case "quadratic":
		q[0], q[1], q[2], q[5] = nonzero(r), r.coeff(), r.coeff(), nonzero(r)
	case "full", "missing":
		for i := range q {
			q[i] = r.coeff()
		}
	}
	f := func(p float64) float64 { return (q[0]*p*p + q[1]*p + q[2]) / (q[3]*p*p + q[4]*p + q[5]) }
	raw := f(p)
	wantErr := false
	switch kind {
	case "nosolution": // p^2 + c = raw with raw < c
		q[0], q[2], q[5] = 1, float64(r.between(-10, 10)), 1
		raw = q[2] - float64(r.between(1, 50))
		wantErr = true
	case "zero":
		q[2], q[5] = nonzero(r), nonzero(r)
		raw = x
		wantErr = true
	}
	s := &m.Coeffs
	s.A, s.B, s.C, s.D, s.E, s.F = q[0], q[1], q[2], q[3], q[4], q[5]
	s.ASet, s.BSet, s.CSet, s.DSet, s.ESet, s.FSet = true, true, true, true, true, true
	if kind == "missing" {
		wantErr = true
		*[]*bool{&s.ASet, &s.BSet, &s.CSet, &s.DSet, &s.ESet, &s.FSet}[r.IntN(6)] = false
		raw = x
	}
	if !wantErr {
		// leave out what cannot be computed reliably
		den := q[3]*p*p + q[4]*p + q[5]
		A, B, C := q[0]-q[3]*raw, q[1]-q[4]*raw, q[2]-q[5]*raw
		if math.Abs(den) < 0.1 || math.IsNaN(raw) || math.IsInf(raw, 0) || math.Abs(raw) > 1e6 {
			return true
		}
		if A != 0 && (math.Abs(A) < 1e-2 || math.Abs(A) < 1e-4*(math.Abs(B)+math.Abs(C)) || B*B-4*A*C < 1e-3*(B*B+math.Abs(4*A*C))) {
			return true
		}
		if A == 0 && math.Abs(B) < 1e-2*(1+math.Abs(C)) {
			return true
		}
	}
	got, err := calib.VerifConvert(cd, raw, m)
	check("rational")
	o.key("rational %s a=%d b=%d d=%d e=%d raw=%d", kind, sign(q[0]), sign(q[1]), sign(q[3]), sign(q[4]), sign(raw))
	if wantErr {
		if err == nil {
			o.fail("rational-"+kind, "rational %v (%s): raw %v gave %v instead of an error", q, kind, raw, got)
			return false
		}
		return true
	}
	if err != nil {
		o.fail("rational-error", "rational %v: raw %v (= f(%v)) gave the error %v", q, raw, p, err)
		return false
	}
	den := math.Abs(q[3]*got*got) + math.Abs(q[4]*got) + math.Abs(q[5])
	if d := q[3]*got*got + q[4]*got + q[5]; math.Abs(d) < 1e-6*den {
		return true // a pole: not decidable by insertion
	}
	if !near(f(got), raw, 1e-6) {
		o.fail("rational", "rational %v: raw %v (= f(%v)) gave %v, but f(%v) = %v", q, raw, p, got, got, f(got))
		return false
	}
	return true
}

func nonzero(r *Rng) float64 {
	for {
		if v := r.coeff(); math.Abs(v) > 0.1 {
			return v
		}
	}
}

func init() {
	register(&Prop{id: "V03", cases: tiers(12000, 800000), run: runConversions, minKeys: 100,
		rule:        "raw values are converted by identical, linear, rational, table, verbal and range methods with random coefficients and tables in one of several modules and compared with arithmetic and table oracles (rational: by inserting the result); a situation is (method, signs or table shape, hit, default)",
		assumptions: []string{"coefficients of rational functions for which the result is numerically stable", "entries of a table are distinct, ranges do not overlap"}})
}
