package rdfx

import (
	"fmt"
	"strconv"
	"strings"
)

// How a node is stated.
const (
	Inline   = iota // where it is first used
	Own             // on its own, uses refer to it
	OwnTyped        // on its own, uses refer to it by an empty element of its type
)

// Shape is one way of writing a graph.
type Shape struct {
	Mode     func(n *Node) int   // how a node is stated; nil: Inline
	Perm     func(n *Node) []int // the order of its statements; nil: as they are
	OwnFirst bool                // nodes stated on their own come before the document
	Reverse  bool                // and in reverse
	Style    Style
}

// Style is a way of writing the same statements in XML.
type Style struct {
	Comments bool // between elements and within texts
	CDATA    bool // texts in CDATA sections
	Refs     bool // characters of texts and attributes as references
	Describe int  // types as statements: 1 first, 2 last
	Attrs    bool // texts in attributes of the node where each property occurs once
	Resource bool // blank nodes as the content of properties
	Base     string
	ID       bool   // names relative to the base as rdf:ID
	Default  string // prefix that is the default namespace
	Local    bool   // namespaces declared where they are used
	Quote    bool   // single quotes, blanks in tags
	CRLF     bool
	Head     string // what stands before the root
	Latin    bool   // in ISO-8859-1
}

// Styles are the ways of writing, with names.
func Styles(base string) (names []string, styles []Style) {
	add := func(name string, s Style) { names, styles = append(names, name), append(styles, s) }
	const decl = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n"
	add("comments", Style{Comments: true})
	add("CDATA", Style{CDATA: true})
	add("references", Style{Refs: true})
	add("type first", Style{Describe: 1})
	add("type last", Style{Describe: 2})
	add("attributes", Style{Attrs: true})
	add("attributes, types last", Style{Attrs: true, Describe: 2})
	add("properties as content", Style{Resource: true})
	for _, b := range []string{base, base + "#"} {
		add("relative to "+b, Style{Base: b})
		add("IDs relative to "+b, Style{Base: b, ID: true})
	}
	for _, p := range []string{"spdx", "rdf", "rdfs", "ptr"} {
		add("default namespace "+p, Style{Default: p})
	}
	add("local namespaces", Style{Local: true})
	add("single quotes", Style{Quote: true})
	add("CRLF", Style{CRLF: true})
	add("byte order mark", Style{Head: "\ufeff" + decl})
	add("comment before the root", Style{Head: decl + "<!-- c -->\n<?pi x?>\n"})
	add("ISO-8859-1", Style{Head: "<?xml version='1.0' encoding='ISO-8859-1'?>\n", Latin: true})
	add("references, single quotes, comments, CRLF", Style{Refs: true, Quote: true, Comments: true, CRLF: true})
	add("attributes, CDATA, local namespaces", Style{Attrs: true, CDATA: true, Local: true, Head: decl})
	add("type last, properties as content, IDs", Style{Describe: 2, Resource: true, Base: base, ID: true})
	return
}

// XML writes a graph as RDF/XML.
func (g *Graph) XML(s Shape) string {
	w := &xw{s: s, done: map[*Node]bool{}, uses: map[*Node]int{}}
	for _, n := range g.Nodes {
		for _, p := range n.Props {
			w.uses[p.Node]++
		}
	}
	mode := func(n *Node) int {
		if n == g.Doc {
			return Own
		}
		if s.Mode == nil {
			return Inline
		}
		return s.Mode(n)
	}
	w.mode = mode
	isTop := map[*Node]bool{g.Doc: true}
	for _, n := range g.Own {
		isTop[n] = true
	}
	w.top = func(n *Node) bool { return isTop[n] || mode(n) != Inline }
	var tops []*Node
	for _, n := range g.Nodes {
		if n != g.Doc && w.top(n) {
			tops = append(tops, n)
		}
	}
	if s.Reverse {
		for i, j := 0, len(tops)-1; i < j; i, j = i+1, j-1 {
			tops[i], tops[j] = tops[j], tops[i]
		}
	}
	if s.OwnFirst {
		tops = append(tops, g.Doc)
	} else {
		tops = append([]*Node{g.Doc}, tops...)
	}
	st := s.Style
	w.b.WriteString(st.Head)
	if st.Local {
		w.b.WriteString("<r:RDF xmlns:r=\"" + rdfNS + "\">\n")
	} else {
		w.b.WriteString("<" + w.name("rdf:RDF"))
		for _, p := range []string{"rdf", "rdfs", "spdx", "ptr", "doap"} {
			if p == st.Default {
				w.b.WriteString(" xmlns=\"" + prefixes[p] + "\"")
			}
			if p != st.Default || p == "rdf" { // attributes need the prefix
				w.b.WriteString(" xmlns:" + p + "=\"" + prefixes[p] + "\"")
			}
		}
		if st.Base != "" {
			w.b.WriteString(" xml:base=\"" + st.Base + "\"")
		}
		w.b.WriteString(">\n")
	}
	for _, n := range tops {
		w.comment()
		w.node(n, " ")
	}
	w.comment()
	if st.Local {
		w.b.WriteString("</r:RDF>\n")
	} else {
		w.b.WriteString("</" + w.name("rdf:RDF") + ">\n")
	}
	w.comment()
	out := w.b.String()
	if st.CRLF {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	if st.Latin {
		var b []byte
		for _, r := range out {
			if r > 255 {
				b = append(b, "&#"+strconv.Itoa(int(r))+";"...)
			} else {
				b = append(b, byte(r))
			}
		}
		out = string(b)
	}
	return out
}

var prefixes = map[string]string{"rdf": rdfNS, "rdfs": rdfsNS, "spdx": spdxNS, "ptr": ptrNS, "doap": doapNS}

type xw struct {
	uses map[*Node]int
	b    strings.Builder
	s    Shape
	mode func(n *Node) int
	top  func(n *Node) bool
	done map[*Node]bool
}

var escaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;")
var attrEscaper = strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;")

func (w *xw) comment() {
	if w.s.Style.Comments {
		w.b.WriteString("<!-- <spdx:name>c</spdx:name> & ]]> -->")
	}
}

// name writes the name of an element.
func (w *xw) name(q string) string {
	if d := w.s.Style.Default; d != "" && strings.HasPrefix(q, d+":") {
		return q[len(d)+1:]
	}
	return q
}

// open begins an element.
func (w *xw) open(q string) {
	w.b.WriteString("<" + w.name(q))
	if w.s.Style.Local {
		p, _, _ := strings.Cut(q, ":")
		w.b.WriteString(" xmlns:" + p + "=\"" + prefixes[p] + "\"")
	}
}

func (w *xw) close(q string) {
	w.b.WriteString("</" + w.name(q))
	if w.s.Style.Quote {
		w.b.WriteString("\n")
	}
	w.b.WriteString(">\n")
}

func (w *xw) refs(s string) string {
	var b strings.Builder
	for i, r := range s {
		if i%2 == 0 {
			fmt.Fprintf(&b, "&#%d;", r)
		} else {
			fmt.Fprintf(&b, "&#x%X;", r)
		}
	}
	return b.String()
}

// attr writes an attribute.
func (w *xw) attr(q, value string) {
	st := w.s.Style
	if p, _, _ := strings.Cut(q, ":"); st.Local && !w.opened(p) {
		w.b.WriteString(" xmlns:" + p + "=\"" + prefixes[p] + "\"")
	}
	switch {
	case st.Refs:
		value = w.refs(value)
	case st.Quote:
		value = strings.ReplaceAll(strings.ReplaceAll(attrEscaper.Replace(value), "&quot;", "\""), "'", "&apos;")
	default:
		value = attrEscaper.Replace(value)
	}
	if st.CRLF || strings.Contains(value, "\n") || strings.Contains(value, "\t") {
		value = strings.NewReplacer("\r", "&#13;", "\n", "&#10;", "\t", "&#9;").Replace(value)
	}
	if st.Quote {
		w.b.WriteString("\n\t " + q + " = '" + value + "'")
	} else {
		w.b.WriteString(" " + q + "=\"" + value + "\"")
	}
}

// opened tells whether the tag being written declares the prefix.
func (w *xw) opened(p string) bool {
	s := w.b.String()
	return strings.Contains(s[strings.LastIndex(s, "<"):], "xmlns:"+p+"=")
}

// ref writes a name in an attribute.
func (w *xw) ref(q, iri string) {
	st := w.s.Style
	if b := strings.TrimSuffix(st.Base, "#"); b != "" && strings.HasPrefix(iri, b+"#") {
		iri = iri[len(b):]
		if q == "rdf:about" && st.ID {
			q, iri = "rdf:ID", iri[1:]
		}
	}
	w.attr(q, iri)
}

func (w *xw) text(s string) {
	st := w.s.Style
	cut := len(s) / 2
	for cut > 0 && cut < len(s) && s[cut]&0xC0 == 0x80 {
		cut--
	}
	parts := []string{s}
	if st.Comments && s != "" {
		parts = []string{s[:cut], s[cut:]}
	}
	for i, p := range parts {
		if i > 0 {
			w.comment()
		}
		switch {
		case st.CDATA && !strings.Contains(p, "]]>"):
			w.b.WriteString("<![CDATA[" + p + "]]>")
		case st.Refs:
			w.b.WriteString(w.refs(p))
		default:
			w.b.WriteString(escaper.Replace(p))
		}
	}
}

func (w *xw) node(n *Node, in string) {
	w.done[n] = true
	w.b.WriteString(in)
	st := w.s.Style
	typ := n.Type
	if st.Describe > 0 {
		typ = "rdf:Description"
	}
	w.open(typ)
	if n.IRI != "" {
		w.ref("rdf:about", n.IRI)
	} else if w.top(n) || w.uses[n] > 1 {
		w.attr("rdf:nodeID", n.Blank)
	}
	inAttr := map[int]bool{}
	if st.Attrs {
		times := map[string]int{}
		for _, p := range n.Props {
			times[p.Pred]++
		}
		for i, p := range n.Props {
			if p.Res == "" && p.Node == nil && times[p.Pred] == 1 {
				inAttr[i] = true
				w.attr(p.Pred, p.Lit)
			}
		}
	}
	w.b.WriteString(">\n")
	if st.Describe == 1 {
		w.typed(n, in)
	}
	w.props(n, in, inAttr)
	if st.Describe == 2 {
		w.typed(n, in)
	}
	w.comment()
	w.b.WriteString(in)
	w.close(typ)
}

// typed states the type of a node.
func (w *xw) typed(n *Node, in string) {
	w.b.WriteString(in + " ")
	w.open("rdf:type")
	p, name, _ := strings.Cut(n.Type, ":")
	w.attr("rdf:resource", prefixes[p]+name)
	w.b.WriteString("/>\n")
}

func (w *xw) props(n *Node, in string, leaveOut map[int]bool) {
	order := make([]int, len(n.Props))
	for i := range order {
		order[i] = i
	}
	if w.s.Perm != nil {
		if p := w.s.Perm(n); p != nil {
			order = p
		}
	}
	for _, i := range order {
		p := n.Props[i]
		if leaveOut[i] {
			continue
		}
		w.comment()
		w.b.WriteString(in + " ")
		w.open(p.Pred)
		switch {
		case p.Res != "":
			w.ref("rdf:resource", p.Res)
			w.b.WriteString("/>\n")
		case p.Node == nil:
			w.b.WriteString(">")
			w.text(p.Lit)
			w.close(p.Pred)
		case w.top(p.Node) || w.done[p.Node]:
			if m := p.Node; m.IRI == "" {
				w.attr("rdf:nodeID", m.Blank)
				w.b.WriteString("/>\n")
			} else if w.mode(m) == OwnTyped {
				w.b.WriteString(">\n" + in + "  ")
				w.open(m.Type)
				w.attr("rdf:about", m.IRI)
				w.b.WriteString("/>\n" + in + " ")
				w.close(p.Pred)
			} else {
				w.ref("rdf:resource", m.IRI)
				w.b.WriteString("/>\n")
			}
		case w.s.Style.Resource && p.Node.IRI == "" && w.uses[p.Node] < 2:
			w.attr("rdf:parseType", "Resource")
			w.b.WriteString(">\n")
			w.done[p.Node] = true
			w.typed(p.Node, in+" ")
			w.props(p.Node, in+" ", nil)
			w.b.WriteString(in + " ")
			w.close(p.Pred)
		default:
			w.b.WriteString(">\n")
			w.node(p.Node, in+"  ")
			w.b.WriteString(in + " ")
			w.close(p.Pred)
		}
	}
}
