//go:build verifv07

package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/asap2Go/calibrationReader/a2l"
)

// mapWalk compares a value of the parsed file with its place in the map form: every exported field under its name,
// collections by key or index, scalars by value, nothing else.
type mapWalk struct {
	o     *Obs
	diffs []string
	seen  int
}

func (w *mapWalk) diff(path, format string, a ...any) {
	if len(w.diffs) < 5 {
		w.diffs = append(w.diffs, path+": "+fmt.Sprintf(format, a...))
	}
}

func (w *mapWalk) walk(path string, v reflect.Value, got interface{}) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			if got != nil {
				w.diff(path, "nil became %v", got)
			}
			return
		}
		w.walk(path, v.Elem(), got)
	case reflect.Struct:
		m, ok := got.(map[string]interface{})
		if !ok {
			w.diff(path, "a structure became %T", got)
			return
		}
		n := 0
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.PkgPath != "" {
				continue
			}
			n++
			g, ok := m[f.Name]
			if !ok {
				w.diff(path+"."+f.Name, "is missing")
				continue
			}
			w.walk(path+"."+f.Name, v.Field(i), g)
		}
		if len(m) != n {
			w.diff(path, "%d fields became %d entries", n, len(m))
		}
		w.o.key("struct %s", v.Type().Name())
	case reflect.Map:
		m, ok := got.(map[string]interface{})
		if !ok {
			if !(got == nil && v.Len() == 0) {
				w.diff(path, "a map of %d entries became %T", v.Len(), got)
			}
			return
		}
		if len(m) != v.Len() {
			w.diff(path, "a map of %d entries became one of %d", v.Len(), len(m))
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			g, ok := m[string([]rune(k.String()))]
			if !ok {
				w.diff(path, "entry %q is missing", k.String())
				continue
			}
			w.walk(path+"["+k.String()+"]", v.MapIndex(k), g)
		}
	case reflect.Slice, reflect.Array:
		l, ok := got.([]interface{})
		if !ok {
			if !(got == nil && v.Len() == 0) {
				w.diff(path, "a list of %d entries became %T", v.Len(), got)
			}
			return
		}
		if len(l) != v.Len() {
			w.diff(path, "a list of %d entries became one of %d", v.Len(), len(l))
			return
		}
		for i := range l {
			w.walk(fmt.Sprintf("%s[%d]", path, i), v.Index(i), l[i])
		}
	case reflect.String:
		w.seen++
		if g, ok := got.(string); !ok || g != string([]rune(v.String())) {
			w.diff(path, "%q became %v", v.String(), got)
		}
	case reflect.Bool:
		w.seen++
		if g, ok := got.(bool); !ok || g != v.Bool() {
			w.diff(path, "%v became %v", v.Bool(), got)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.number(path, float64(v.Int()), got)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w.number(path, float64(v.Uint()), got)
	case reflect.Float32, reflect.Float64:
		w.number(path, v.Float(), got)
	default:
		w.o.cannotSee(path)
	}
}

func (w *mapWalk) number(path string, want float64, got interface{}) {
	w.seen++
	g, ok := got.(float64)
	if !ok || g != want && math.Abs(g-want) > 1e-12*math.Abs(want) {
		w.diff(path, "%v became %v", want, got)
	}
}

func runHashMap(c *Case, o *Obs) {
	r := c.rng
	for k := 0; k < 2; k++ {
		setCase(c, o)
		g := &a2lGen{r: r, optPc: pick(r, []int{0, 15, 40, 80}), rich: true}
		var mods []*Obj
		for i := pick(r, []int{0, 1, 1, 1, 2, 3}); i > 0; i-- {
			m := g.module(r.between(0, 12))
			for j := 0; j < 4; j++ {
				g.force(m, allEdges[((c.Idx*2+k)*4+j)%len(allEdges)])
			}
			mods = append(mods, m)
		}
		txt := plainLayout(r).render(wrap(mods, g).tokens(nil))
		a, err := parseA2L(c.write("file.a2l", txt))
		if err != nil {
			o.add("files rejected", 1)
			continue
		}
		before := fingerprint(a)
		m, err := a2l.VerifHashMap(&a)
		o.Evals++
		w := &mapWalk{o: o}
		if err != nil {
			w.diff("A2L", "there is no map form: %v", err)
		} else {
			w.walk("A2L", reflect.ValueOf(a), m)
			for name := range m {
				delete(m, name)
			}
			if m2, err := a2l.VerifHashMap(&a); err != nil || len(m2) == 0 {
				w.diff("A2L", "a second map form cannot be built: %v", err)
			}
		}
		if fingerprint(a) != before {
			w.diff("A2L", "was changed by building its map form")
		}
		o.add("values compared", w.seen)
		o.add("modules", len(mods))
		if len(w.diffs) > 0 {
			o.attach("file.a2l", []byte(txt))
			o.fail("map:"+stripIndex(w.diffs[0]), "the map form differs from the parsed file: %v", w.diffs)
			return
		}
		if o.Sample == "" {
			o.Sample = fmt.Sprintf("%d modules, %d values: %s", len(mods), w.seen, clip(txt, 300))
		}
	}
}

func init() {
	register(&Prop{id: "V07", cases: tiers(3000, 150000), run: runHashMap, gb: 2, minKeys: 20,
		rule: "files with 0..3 modules and all optional parts in turn are parsed by the real reader and turned into their map form by the real code; the monitor walks the parsed structure by reflection and compares every exported value with its entry, in both directions; a situation is a type of structure seen"})
}
