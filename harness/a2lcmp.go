package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// comparer walks a generated construct and the delivered structure side by side.
type comparer struct {
	o     *Obs
	diffs []string
	seen  int // values compared
	keys  bool
	only  map[string]bool // nil: everything; else only these fields of modules
}

func (c *comparer) diff(path, format string, a ...any) {
	if len(c.diffs) < 8 {
		c.diffs = append(c.diffs, path+": "+fmt.Sprintf(format, a...))
	}
}

func (c *comparer) field(v reflect.Value, name string) (reflect.Value, bool) {
	if v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return reflect.Value{}, false
		}
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return reflect.Value{}, false
	}
	f := v.FieldByName(name)
	if !f.IsValid() {
		c.o.cannotSee(v.Type().Name() + "." + name)
		return f, false
	}
	return f, true
}

func (c *comparer) str(path string, v reflect.Value, want string) {
	if v.Kind() != reflect.String {
		c.o.cannotSee(path + " is no text")
		return
	}
	c.seen++
	if v.String() != want {
		c.diff(path, "%q expected, %q delivered", want, v.String())
	}
}

func (c *comparer) num(path string, v reflect.Value, tok string) {
	c.seen++
	switch v.Kind() {
	case reflect.Float64, reflect.Float32:
		w, _ := strconv.ParseFloat(tok, 64)
		if v.Kind() == reflect.Float32 {
			w = float64(float32(w))
		}
		if w != v.Float() && !(math.IsNaN(w) && math.IsNaN(v.Float())) {
			c.diff(path, "%s expected, %v delivered", tok, v.Float())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w, _ := strconv.ParseInt(tok, 10, 64)
		if w != v.Int() {
			c.diff(path, "%s expected, %d delivered", tok, v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w, _ := strconv.ParseUint(tok, 10, 64)
		if w != v.Uint() {
			c.diff(path, "%s expected, %d delivered", tok, v.Uint())
		}
	default:
		c.o.cannotSee(path + " is no number")
	}
}

func (c *comparer) boolean(path string, v reflect.Value, want bool) {
	if v.Kind() != reflect.Bool {
		c.o.cannotSee(path + " is no flag")
		return
	}
	c.seen++
	if v.Bool() != want {
		c.diff(path, "%v expected, %v delivered", want, v.Bool())
	}
}

func (c *comparer) list(path string, v reflect.Value, n int) bool {
	if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
		c.o.cannotSee(path + " is no list")
		return false
	}
	c.seen++
	if v.Len() != n {
		c.diff(path, "%d entries expected, %d delivered", n, v.Len())
		return false
	}
	return true
}

// zero requires that nothing was delivered for a part that is not in the file.
func (c *comparer) zero(path string, v reflect.Value) {
	c.seen++
	if !isZero(v) {
		c.diff(path, "not in the file, but delivered: %s", clip(fmt.Sprint(v), 200))
	}
}

func isZero(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if !isZero(v.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !isZero(v.Index(i)) {
				return false
			}
		}
		return true
	}
	return v.IsZero()
}

func (c *comparer) compare(path string, o *Obj, v reflect.Value) {
	d := o.def
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		v = v.Elem()
	}
	if d.flag {
		for _, n := range []string{"value", "valueSet"} {
			if f, ok := c.field(v, n); ok {
				c.boolean(path+"."+n, f, true)
			}
		}
		return
	}
	for i, p := range d.pos {
		toks := o.pos[i]
		fields := strings.Split(p.field, ",")
		sets := strings.Split(p.set, ",")
		for k, name := range fields {
			f, ok := c.field(v, name)
			if !ok {
				continue
			}
			fp := path + "." + name
			if d.name == "MatrixDim" && len(toks) == 0 {
				c.zero(fp, f)
				continue
			}
			switch {
			case p.kind == "s" || strings.HasPrefix(p.kind, "e:"):
				c.str(fp, f, toks[0])
			case p.kind == "f" || p.kind == "count":
				c.num(fp, f, toks[0])
			case p.kind == "i32x5" || p.kind == "flist":
				if c.list(fp, f, len(toks)) {
					for j, t := range toks {
						c.num(fmt.Sprintf("%s[%d]", fp, j), f.Index(j), t)
					}
				}
			case p.kind == "sx5" || p.kind == "list":
				if c.list(fp, f, len(toks)) {
					for j, t := range toks {
						c.str(fmt.Sprintf("%s[%d]", fp, j), f.Index(j), t)
					}
				}
			case p.kind == "accum":
				want := ""
				for _, t := range toks {
					want += " " + t
				}
				// how the tokens are joined is not part of the observable content
				if f.Kind() == reflect.String {
					c.seen++
					if strings.Join(strings.Fields(f.String()), " ") != strings.Join(strings.Fields(want), " ") {
						c.diff(fp, "%q expected, %q delivered", want, f.String())
					}
				}
			case strings.HasPrefix(p.kind, "tuples:") || strings.HasPrefix(p.kind, "pairs:"):
				w := p.kind[strings.Index(p.kind, ":")+1:]
				if c.list(fp, f, len(toks)/len(w)) {
					for j := 0; j < len(toks)/len(w); j++ {
						t := toks[j*len(w)+k]
						ep := fmt.Sprintf("%s[%d]", fp, j)
						if w[k] == 'f' {
							c.num(ep, f.Index(j), t)
						} else {
							c.str(ep, f.Index(j), t)
						}
					}
				}
			default:
				c.num(fp, f, toks[0])
			}
			if k < len(sets) && sets[k] != "-" {
				if s, ok := c.field(v, sets[k]); ok {
					c.boolean(path+"."+sets[k], s, true)
				}
			}
		}
	}
	present := map[string][]optVal{}
	for _, x := range o.opts {
		present[x.def.field] = append(present[x.def.field], x)
	}
	for i := range d.opt {
		od := &d.opt[i]
		if d.name == "Module" && c.only != nil && !c.only[od.field] {
			continue
		}
		f, ok := c.field(v, od.field)
		if !ok {
			continue
		}
		fp := path + "." + od.field
		l := present[od.field]
		if len(l) == 0 {
			if d.name == "Blob" && od.field == "addressType" {
				c.str(fp, f, "DIRECT")
				continue
			}
			c.zero(fp, f)
			continue
		}
		if c.keys {
			c.o.key("%s.%s", d.name, od.token)
		}
		switch od.mult {
		case "one":
			c.compare(fp, l[0].obj, f)
			if d.name == "VariantCoding" && od.field == "varSeparator" {
				if s, ok := c.field(v, "varSeparatorSet"); ok {
					c.boolean(path+".varSeparatorSet", s, true)
				}
			}
		case "enum", "str":
			c.str(fp, f, l[0].tok)
		case "list":
			if c.list(fp, f, len(l)) {
				for j := range l {
					c.compare(fmt.Sprintf("%s[%d]", fp, j), l[j].obj, f.Index(j))
				}
			}
		case "map":
			c.compareMap(fp, l, f)
		}
	}
}

func (c *comparer) compareMap(path string, l []optVal, f reflect.Value) {
	if f.Kind() != reflect.Map || f.Type().Key().Kind() != reflect.String {
		c.o.cannotSee(path + " is no map")
		return
	}
	c.seen++
	want := map[string]bool{}
	for _, x := range l {
		n := x.obj.name()
		want[n] = true
		e := f.MapIndex(reflect.ValueOf(n).Convert(f.Type().Key()))
		if !e.IsValid() {
			c.diff(path, "%q is missing (%d in the file, %d delivered)", n, len(l), f.Len())
			continue
		}
		c.compare(path+"["+n+"]", x.obj, e)
	}
	if f.Len() != len(want) {
		for _, k := range f.MapKeys() {
			if !want[k.String()] {
				c.diff(path, "%q is not in the file, but was delivered", k.String())
				break
			}
		}
	}
}

// fingerprint hashes everything reachable in a value.
func fingerprint(v any) uint64 {
	h := fnv.New64a()
	var walk func(v reflect.Value)
	put := func(s string) { h.Write([]byte(s)); h.Write([]byte{0}) }
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			put("{")
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
			put("}")
		case reflect.Slice, reflect.Array:
			put("[" + strconv.Itoa(v.Len()))
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		case reflect.Map:
			keys := v.MapKeys()
			sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
			put("m" + strconv.Itoa(len(keys)))
			for _, k := range keys {
				walk(k)
				walk(v.MapIndex(k))
			}
		case reflect.String:
			put("s" + v.String())
		case reflect.Bool:
			put(strconv.FormatBool(v.Bool()))
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			put(strconv.FormatInt(v.Int(), 10))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			put(strconv.FormatUint(v.Uint(), 10))
		case reflect.Float32, reflect.Float64:
			put(strconv.FormatUint(math.Float64bits(v.Float()), 16))
		case reflect.Pointer, reflect.Interface:
			if !v.IsNil() {
				walk(v.Elem())
			}
		}
	}
	walk(reflect.ValueOf(v))
	return h.Sum64()
}
