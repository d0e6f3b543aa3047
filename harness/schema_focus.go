package main

import "sort"

// edge is one optional part of one construct: the unit of the systematic sweeps over everything the reader supports.
type edge struct {
	from string
	def  *optDef
}

var allEdges []edge            // every part reachable from a module, in a fixed order
var incoming map[string][]edge // construct -> parts that contain it
var moduleDist map[string]int  // construct -> depth below the module

func init() {
	incoming = map[string][]edge{}
	moduleDist = map[string]int{"Module": 0}
	queue := []string{"Module"}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		d := nodeDefs[n]
		for i := range d.opt {
			od := &d.opt[i]
			e := edge{n, od}
			allEdges = append(allEdges, e)
			if od.mult == "enum" || od.mult == "str" {
				continue
			}
			incoming[od.node] = append(incoming[od.node], e)
			if _, ok := moduleDist[od.node]; !ok {
				moduleDist[od.node] = moduleDist[n] + 1
				queue = append(queue, od.node)
			}
		}
	}
}

// pathTo returns the parts that lead from a module to the construct.
func pathTo(r *Rng, node string) []edge {
	var p []edge
	for node != "Module" {
		var l []edge
		for _, e := range incoming[node] {
			if moduleDist[e.from] < moduleDist[node] || r.chance(10) && len(p) < 6 {
				l = append(l, e)
			}
		}
		e := pick(r, l)
		p = append([]edge{e}, p...)
		node = e.from
	}
	return p
}

// force makes sure that the module contains the part, and returns the construct that holds it.
func (g *a2lGen) force(m *Obj, e edge) *Obj {
	cur := m
	for _, x := range pathTo(g.r, e.from) {
		cur = g.part(cur, x.def, false).obj
	}
	g.part(cur, e.def, true)
	return cur
}

func (g *a2lGen) part(o *Obj, od *optDef, last bool) optVal {
	single := od.mult == "one" || od.mult == "enum" || od.mult == "str"
	var have []optVal
	for _, v := range o.opts {
		if v.def.field == od.field {
			have = append(have, v)
		}
	}
	if len(have) > 0 && (single || (!last && g.r.chance(50))) {
		return pick(g.r, have)
	}
	v := optVal{def: od}
	switch od.mult {
	case "enum":
		v.tok = pick(g.r, enumDefs[od.node])
	case "str":
		v.tok = g.ref()
	default:
		v.obj = g.object(od.node)
	}
	o.opts = append(o.opts, v)
	if o.def.name == "Frame" || o.def.name == "Header" {
		sort.SliceStable(o.opts, func(i, j int) bool { return o.def.index(o.opts[i].def) < o.def.index(o.opts[j].def) })
	} else {
		i := g.r.IntN(len(o.opts))
		k := len(o.opts) - 1
		o.opts[i], o.opts[k] = o.opts[k], o.opts[i]
	}
	return v
}

func (n *nodeDef) index(od *optDef) int {
	for i := range n.opt {
		if &n.opt[i] == od {
			return i
		}
	}
	return -1
}
