package main

import (
	"fmt"
	"strings"
)

type posDef struct {
	field string
	kind  string
	set   string
}

type optDef struct {
	token string // "KEYWORD" or "/begin KEYWORD"
	field string
	mult  string // one, list, map, enum, str
	node  string
}

func (d *optDef) begin() bool     { return strings.HasPrefix(d.token, "/begin ") }
func (d *optDef) keyword() string { return strings.TrimPrefix(d.token, "/begin ") }

type nodeDef struct {
	name string
	flag bool
	pos  []posDef
	opt  []optDef
}

var enumDefs = map[string][]string{}
var nodeDefs = map[string]*nodeDef{}

func init() {
	var cur *nodeDef
	for _, l := range strings.Split(schemaText, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "E":
			enumDefs[f[1]] = f[2:]
		case "N":
			cur = &nodeDef{name: f[1], flag: f[2] == "flag"}
			nodeDefs[f[1]] = cur
		case "P":
			cur.pos = append(cur.pos, posDef{f[1], f[2], f[3]})
		case "O":
			cur.opt = append(cur.opt, optDef{strings.ReplaceAll(f[1], "~", " "), f[2], f[3], f[4]})
		default:
			panic("harness: schema line " + l)
		}
	}
	for _, n := range nodeDefs {
		for _, o := range n.opt {
			if (o.mult == "one" || o.mult == "list" || o.mult == "map") && nodeDefs[o.node] == nil {
				panic("harness: no construct " + o.node)
			}
			if o.mult == "enum" && enumDefs[o.node] == nil {
				panic("harness: no enumeration " + o.node)
			}
		}
	}
}

// Obj is one construct of a generated file.
type Obj struct {
	def  *nodeDef
	pos  [][]string // tokens of each positional value
	opts []optVal
}

type optVal struct {
	def *optDef
	obj *Obj
	tok string // enum, str
}

func (o *Obj) name() string {
	if len(o.pos) == 0 || len(o.pos[0]) == 0 {
		return ""
	}
	return o.pos[0][0]
}

func (o *Obj) all(field string) []*Obj {
	var l []*Obj
	for _, v := range o.opts {
		if v.def.field == field && v.obj != nil {
			l = append(l, v.obj)
		}
	}
	return l
}

func (o *Obj) one(field string) *Obj {
	if l := o.all(field); len(l) > 0 {
		return l[0]
	}
	return nil
}

// Tok is one token of a generated file.
type Tok struct {
	text  string
	kind  byte   // 'k' keyword, 'b' begin, 'e' end, 'v' value, 's' text in quotation marks, 't' token of free content (IF_DATA, A2ML)
	vkind string // kind of the positional value
	node  string // construct it belongs to
	field string
}

func (o *Obj) tokens(l []Tok) []Tok {
	for i, p := range o.def.pos {
		for j, t := range o.pos[i] {
			k := byte('v')
			if strings.HasPrefix(t, `"`) {
				k = 's'
			}
			vk := p.kind
			switch {
			case strings.HasPrefix(vk, "tuples:") || strings.HasPrefix(vk, "pairs:"):
				w := vk[strings.Index(vk, ":")+1:]
				vk = "tuple-" + string(w[j%len(w)])
			}
			if (o.def.name == "IfData" && i > 0) || o.def.name == "A2ML" {
				k = 't'
			}
			l = append(l, Tok{text: t, kind: k, vkind: vk, node: o.def.name, field: p.field})
		}
	}
	for _, v := range o.opts {
		if v.def.begin() {
			l = append(l, Tok{text: v.def.token, kind: 'b', node: v.def.node})
		} else {
			l = append(l, Tok{text: v.def.token, kind: 'k', node: o.def.name})
		}
		switch v.def.mult {
		case "enum":
			l = append(l, Tok{text: v.tok, kind: 'v', vkind: "e:" + v.def.node, node: o.def.name, field: v.def.field})
		case "str":
			l = append(l, Tok{text: v.tok, kind: 'v', vkind: "s", node: o.def.name, field: v.def.field})
		default:
			l = v.obj.tokens(l)
		}
		if v.def.begin() {
			l = append(l, Tok{text: "/end " + v.def.keyword(), kind: 'e', node: v.def.node})
		}
	}
	return l
}

func (o *Obj) count() int {
	n := 1
	for _, v := range o.opts {
		if v.obj != nil {
			n += v.obj.count()
		}
	}
	return n
}

func (o *Obj) String() string { return fmt.Sprintf("%s %s", o.def.name, o.name()) }
