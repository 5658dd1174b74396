package props

import (
	"fmt"
	"strings"

	"verif/mc/engine"
)

// A bounded grammar of documents. Every decision that departs from the minimal value costs
// one unit of the deviation budget, so enumerating all decision vectors enumerates all
// documents within that many deviations from the minimal document of a focus object.

type nkind int

const (
	kVals nkind = iota
	kArr
	kTuple
	kMap
	kObj
	kAlt
	kRefTo
)

type node struct {
	kind   nkind
	vals   []interface{}
	types  string // accepted JSON types, for wrong type mutations: s(tring) b(ool) n(umber) a(rray) o(bject) *(any)
	enum   bool
	elem   *node
	tuple  []*node
	keys   []string
	fields []field
	ext    bool // x- members are allowed
	open   bool // other members are allowed
	alts   []*node
	to     string
}

type field struct {
	name string
	req  bool
	n    *node
	excl []string
}

func fr(name string, n *node) field                 { return field{name: name, req: true, n: n} }
func fo(name string, n *node, excl ...string) field { return field{name: name, n: n, excl: excl} }

func str(vs ...string) *node {
	n := &node{kind: kVals, types: "s"}
	for _, v := range vs {
		n.vals = append(n.vals, v)
	}
	if len(vs) == 0 {
		n.vals = arr{"text", "", "тест \"quoted\" <&>\n"}
	}
	return n
}

func enum(vs ...string) *node {
	n := str(vs...)
	n.enum = true
	return n
}
func boolean() *node { return &node{kind: kVals, types: "b", vals: arr{true, false}} }
func number() *node {
	return &node{kind: kVals, types: "n", vals: arr{1.5, 0, -3, 1e21, 1e-7, 9007199254740992}}
}
func integer() *node {
	return &node{kind: kVals, types: "n", vals: arr{3, 0, int64(9007199254740992)}}
}

// anyv is an arbitrary JSON value.
func anyv() *node {
	return &node{kind: kVals, types: "*", vals: arr{
		obj{"k": arr{1, "two", nil, obj{"x": false}}, "": "e"}, "s", "", 0, 12.25, true, false, arr{}, obj{}, arr{arr{1}, obj{"$ref": "#/x"}}, nil,
	}}
}

// extv is a value of a vendor extension.
func extv() *node {
	return &node{kind: kVals, types: "*", vals: arr{
		obj{"a": arr{1, obj{"b": nil}}, "x-n": "v"}, "s", "", 0, 1e3, true, false, arr{}, obj{}, nil,
	}}
}
func list(n *node) *node      { return &node{kind: kArr, types: "a", elem: n} }
func tuple(ns ...*node) *node { return &node{kind: kTuple, types: "a", tuple: ns} }
func mapOf(n *node, ks ...string) *node {
	return &node{kind: kMap, types: "o", elem: n, keys: ks}
}
func ref(to string) *node      { return &node{kind: kRefTo, to: to} }
func alt(ns ...*node) *node    { return &node{kind: kAlt, alts: ns} }
func object(fs ...field) *node { return &node{kind: kObj, types: "o", fields: fs, ext: true} }
func closedObject(fs ...field) *node {
	n := object(fs...)
	n.ext = false
	return n
}
func (n *node) with(fs ...field) *node {
	m := *n
	m.fields = append(append([]field{}, n.fields...), fs...)
	return &m
}

var extKeys = []string{"x-ext", "x-", "x-Ünï/~ key"}

type grammar map[string]*node

type gen struct {
	c      *engine.Ctx
	g      grammar
	budget int
	all    bool // include all optional members of the focus

	// Mutations.
	mut  bool   // one mutation is still to be made
	done string // class of the mutation that was made
	name string // name of the entity being generated
}

// mutate decides whether the value of the node is replaced by a malformed one.
func (g *gen) mutate(n *node, member string) (interface{}, bool) {
	if !g.mut {
		return nil, false
	}
	types := g.typesOf(n, 0)
	if strings.Contains(types, "*") {
		return nil, false
	}
	var cands []interface{}
	var class []string
	for i := 0; ; i++ {
		v, ok := wrong(types, i)
		if !ok {
			break
		}
		cands = append(cands, v)
		class = append(class, fmt.Sprintf("type %T", v))
	}
	if n.enum {
		cands = append(cands, "not-in-enum")
		class = append(class, "enum")
	}
	k := g.c.Choose("mutate "+member, len(cands)+1)
	if k == 0 {
		return nil, false
	}
	g.mut = false
	g.done = g.name + "." + member + " " + class[k-1]
	return cands[k-1], true
}

// typesOf are the JSON types that the node accepts.
func (g *gen) typesOf(n *node, depth int) string {
	if depth > 5 {
		return ""
	}
	switch n.kind {
	case kAlt:
		r := ""
		for _, a := range n.alts {
			r += g.typesOf(a, depth+1)
		}
		return r
	case kRefTo:
		return g.typesOf(g.g[n.to], depth+1)
	}
	return n.types
}

func (g *gen) alt(label string, n int) int {
	if n < 2 || g.budget <= 0 {
		return 0
	}
	i := g.c.Choose(label, n)
	if i > 0 {
		g.budget--
	}
	return i
}

func (g *gen) gen(n *node) interface{} { return g.member(n, "") }

func (g *gen) member(n *node, member string) interface{} {
	if v, ok := g.mutate(n, member); ok {
		return v
	}
	return g.value(n, member)
}

func (g *gen) value(n *node, member string) interface{} {
	switch n.kind {
	case kVals:
		return clone(n.vals[g.alt("val", len(n.vals))])
	case kArr:
		a := arr{}
		for k := 1 + g.alt("len", 2); k > 0; k-- {
			a = append(a, g.member(n.elem, member+"[]"))
		}
		return a
	case kTuple:
		a := arr{}
		for i, k := 0, 1+g.alt("len", len(n.tuple)); i < k; i++ {
			a = append(a, g.member(n.tuple[i], member+"[]"))
		}
		return a
	case kMap:
		m := obj{}
		i := g.alt("keys", len(n.keys)+1)
		if i == len(n.keys) {
			for _, k := range n.keys {
				m[k] = g.member(n.elem, member+"[]")
			}
		} else {
			m[n.keys[i]] = g.member(n.elem, member+"[]")
		}
		return m
	case kAlt:
		return g.value(n.alts[g.alt("alt", len(n.alts))], member)
	case kRefTo:
		t, ok := g.g[n.to]
		if !ok {
			panic("engine: grammar: " + n.to)
		}
		old := g.name
		g.name = n.to
		defer func() { g.name = old }()
		return g.value(t, member)
	case kObj:
		return g.object(n, false)
	}
	panic("engine: node")
}

func (g *gen) object(n *node, all bool) interface{} {
	m := obj{}
	has := func(ks []string) bool {
		for _, k := range ks {
			if _, ok := m[k]; ok {
				return true
			}
		}
		return false
	}
	for _, f := range n.fields {
		if f.req {
			m[f.name] = nil
		}
	}
	for _, f := range n.fields {
		switch {
		case f.req:
		case has(f.excl):
			continue
		case all:
		case g.alt("opt:"+f.name, 2) == 0:
			continue
		}
		if f.req && g.mut && g.c.Choose("remove "+f.name, 2) == 1 {
			g.mut = false
			g.done = g.name + "." + f.name + " required"
			delete(m, f.name)
			continue
		}
		m[f.name] = g.member(f.n, f.name)
	}
	if g.mut && g.c.Choose("unknown member", 2) == 1 {
		g.mut = false
		g.done = g.name + " unknown"
		m["unknownMember"] = "zz"
	}
	if n.ext {
		if all {
			m["x-all"] = g.gen(extv())
			m["x-all2"] = "second"
		} else if i := g.alt("ext", len(extKeys)+2); i > len(extKeys) {
			for _, k := range extKeys {
				m[k] = g.gen(extv())
			}
		} else if i > 0 {
			m[extKeys[i-1]] = g.gen(extv())
		}
	}
	return m
}

// focus is an object of the grammar together with the minimal document it lives in.
type focus struct {
	name string
	n    *node
	host func(v interface{}) obj
	path []string
}

// document generates a document of the focus.
func (f focus) document(c *engine.Ctx, gr grammar, budget int) obj {
	d, _ := f.generate(&gen{c: c, g: gr, budget: budget})
	return d
}

// malformed generates a document of the focus with one mutation and tells its class.
func (f focus) malformed(c *engine.Ctx, gr grammar, budget int) (obj, string) {
	return f.generate(&gen{c: c, g: gr, budget: budget, mut: true, name: f.name})
}

func (f focus) generate(g *gen) (obj, string) {
	c, budget := g.c, g.budget
	if f.n.kind == kObj && c.Bool("all-members") {
		g.budget = budget - 1
		if g.budget > 2 {
			g.budget = 2
		}
		v := g.object(f.n, true)
		return f.host(v), g.done
	}
	v := g.value(f.n, "")
	return f.host(v), g.done
}

func wrong(types string, i int) (interface{}, bool) {
	cands := []struct {
		t string
		v interface{}
	}{{"s", "str"}, {"b", true}, {"n", 1.5}, {"a", arr{1}}, {"o", obj{"zz": 1}}}
	k := 0
	for _, c := range cands {
		ok := false
		for _, t := range types {
			if string(t) == c.t {
				ok = true
			}
		}
		if ok {
			continue
		}
		if k == i {
			return c.v, true
		}
		k++
	}
	return nil, false
}

func mustObj(v interface{}) obj {
	o, ok := v.(obj)
	if !ok {
		panic(fmt.Sprintf("engine: object expected: %v", v))
	}
	return o
}
