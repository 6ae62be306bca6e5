// Package rdfx states SPDX documents as RDF graphs, writes graphs as RDF/XML in every shape, and
// compares what was read with what was stated.
package rdfx

import (
	"sort"
	"strings"
)

// Expr is a license expression.
type Expr struct {
	Op   string // "" for a leaf, AND, OR, WITH, PLUS
	ID   string // of a leaf, or the exception of WITH
	Subs []*Expr
}

func leaf(id string) *Expr           { return &Expr{ID: id} }
func And(s ...*Expr) *Expr           { return &Expr{Op: "AND", Subs: s} }
func Or(s ...*Expr) *Expr            { return &Expr{Op: "OR", Subs: s} }
func With(s *Expr, exc string) *Expr { return &Expr{Op: "WITH", ID: exc, Subs: []*Expr{s}} }
func Plus(s *Expr) *Expr             { return &Expr{Op: "PLUS", Subs: []*Expr{s}} }
func Leaf(id string) *Expr           { return leaf(id) }

// String writes an expression with all the parentheses it needs.
func (e *Expr) String() string { return e.str(0) }

func (e *Expr) str(prec int) string {
	p := 0
	s := ""
	switch e.Op {
	case "":
		return e.ID
	case "PLUS":
		return e.Subs[0].str(9) + "+"
	case "WITH":
		return e.Subs[0].str(9) + " WITH " + e.ID
	case "AND":
		p = 2
	case "OR":
		p = 1
	}
	if len(e.Subs) == 1 { // a set of one is that one
		return e.Subs[0].str(prec)
	}
	for i, x := range e.Subs {
		if i > 0 {
			s += " " + e.Op + " "
		}
		s += x.str(p)
	}
	if prec > p {
		return "(" + s + ")"
	}
	return s
}

// Parse reads an expression; nil when it is none.
func Parse(s string) *Expr {
	s = strings.NewReplacer("(", " ( ", ")", " ) ").Replace(s)
	p := &lparser{toks: strings.Fields(s)}
	e := p.or()
	if e == nil || p.i != len(p.toks) {
		return nil
	}
	return e
}

type lparser struct {
	toks []string
	i    int
}

func (p *lparser) peek() string {
	if p.i < len(p.toks) {
		return p.toks[p.i]
	}
	return ""
}

func (p *lparser) list(op string, sub func() *Expr) *Expr {
	e := sub()
	if e == nil {
		return nil
	}
	es := []*Expr{e}
	for p.peek() == op {
		p.i++
		x := sub()
		if x == nil {
			return nil
		}
		es = append(es, x)
	}
	if len(es) == 1 {
		return e
	}
	return &Expr{Op: op, Subs: es}
}

func (p *lparser) or() *Expr  { return p.list("OR", p.and) }
func (p *lparser) and() *Expr { return p.list("AND", p.with) }
func (p *lparser) with() *Expr {
	e := p.atom()
	if e != nil && p.peek() == "WITH" {
		p.i++
		x := p.peek()
		if x == "" || strings.ContainsAny(x, "()") {
			return nil
		}
		p.i++
		return With(e, x)
	}
	return e
}

func (p *lparser) atom() *Expr {
	t := p.peek()
	switch t {
	case "", ")", "AND", "OR", "WITH":
		return nil
	case "(":
		p.i++
		e := p.or()
		if p.peek() != ")" {
			return nil
		}
		p.i++
		return e
	}
	p.i++
	if strings.HasSuffix(t, "+") && !listed[t] && len(t) > 1 {
		return Plus(leaf(strings.TrimSuffix(t, "+")))
	}
	return leaf(t)
}

// Canon is the same for expressions of the same meaning: nested sets of one kind are flattened, the
// operands sorted.
func (e *Expr) Canon() string {
	switch e.Op {
	case "":
		return e.ID
	case "PLUS":
		return e.Subs[0].Canon() + "+"
	case "WITH":
		return "[" + e.Subs[0].Canon() + " WITH " + e.ID + "]"
	}
	var ops []string
	var flat func(x *Expr)
	flat = func(x *Expr) {
		if x.Op == e.Op || (x.Op == "AND" || x.Op == "OR") && len(x.Subs) == 1 {
			for _, y := range x.Subs {
				flat(y)
			}
			return
		}
		ops = append(ops, x.Canon())
	}
	for _, x := range e.Subs {
		flat(x)
	}
	sort.Strings(ops)
	n := 0
	for i, s := range ops {
		if i == 0 || s != ops[i-1] { // the members are a set
			ops[n] = s
			n++
		}
	}
	if ops = ops[:n]; n == 1 {
		return ops[0]
	}
	return e.Op + "(" + strings.Join(ops, ", ") + ")"
}

// CanonLicense is the canonical form of a license string; what is no expression stays as it is.
func CanonLicense(s string) string {
	if e := Parse(s); e != nil {
		return e.Canon()
	}
	return "not an expression: " + s
}

// listed are the licenses the documents use; all stand in the list of the specification.
var listed = map[string]bool{"MIT": true, "Apache-2.0": true, "GPL-2.0-only": true, "BSD-3-Clause": true, "ISC": true, "CC0-1.0": true, "GPL-2.0+": true, "LGPL-2.1-or-later": true}

// Listed in a fixed order.
var Listed = []string{"MIT", "Apache-2.0", "GPL-2.0-only", "BSD-3-Clause", "ISC", "LGPL-2.1-or-later"}
