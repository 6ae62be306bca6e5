package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strings"
	"unicode/utf8"
)

// yNode is a JSON value with the order of its members.
type yNode struct {
	kind byte // 's'tring, 'r'aw (number, true, false, null), 'l'ist, 'm'ap
	text string
	keys []string
	subs []*yNode
}

func yParse(js string) (*yNode, error) {
	d := json.NewDecoder(strings.NewReader(js))
	d.UseNumber()
	var val func() (*yNode, error)
	val = func() (*yNode, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case json.Delim:
			n := &yNode{kind: 'l'}
			if x == '{' {
				n.kind = 'm'
			}
			for d.More() {
				if n.kind == 'm' {
					k, err := d.Token()
					if err != nil {
						return nil, err
					}
					n.keys = append(n.keys, k.(string))
				}
				s, err := val()
				if err != nil {
					return nil, err
				}
				n.subs = append(n.subs, s)
			}
			_, err := d.Token()
			return n, err
		case string:
			return &yNode{kind: 's', text: x}, nil
		case nil:
			return &yNode{kind: 'r', text: "null"}, nil
		default:
			return &yNode{kind: 'r', text: fmt.Sprint(x)}, nil
		}
	}
	return val()
}

// yStyle is a way of writing YAML.
type yStyle struct {
	name     string
	flow     string // indentation of flow style; "-" for one line; "" for block style
	indent   int    // of block style
	dash     bool   // lists stand deeper than their key
	single   bool   // single quotes where they can hold the value
	literal  bool   // block scalars where they can hold the value
	quoted   bool   // keys in quotes
	comments bool
	crlf     bool
	head     string
	tail     string
	anchors  bool // what occurs again is referred to
	plain    bool // values without quotes where that is safe
}

var yStyles = []yStyle{
	{name: "flow on one line", flow: "-"},
	{name: "flow indented with tabs", flow: "\t"},
	{name: "flow indented with blanks", flow: "  ", single: true},
	{name: "flow with comments", flow: "    ", comments: true, quoted: true},
	{name: "flow, CRLF", flow: "\t", crlf: true, quoted: true},
	{name: "block", indent: 2},
	{name: "block, single quotes", indent: 4, dash: true, single: true, head: "---\n"},
	{name: "block scalars", indent: 1, literal: true, dash: true},
	{name: "block scalars by 3", indent: 3, literal: true, plain: true, head: "%YAML 1.1\n---\n", tail: "...\n"},
	{name: "block, quoted keys, comments", indent: 2, quoted: true, comments: true, head: "# SPDX\n\n--- # doc\n"},
	{name: "block, CRLF", indent: 2, crlf: true, single: true},
	{name: "block, references", indent: 2, anchors: true, plain: true},
	{name: "byte order mark", indent: 2, head: "\ufeff", literal: true},
	{name: "flow references", flow: "-", anchors: true},
}

type yWriter struct {
	st   yStyle
	b    bytes.Buffer
	seen map[string]string
}

// yWrite writes a value in a style.
func yWrite(n *yNode, st yStyle) string {
	w := &yWriter{st: st, seen: map[string]string{}}
	w.b.WriteString(st.head)
	if st.flow != "" {
		w.flowNode(n, 0)
		w.b.WriteByte('\n')
	} else {
		w.block(n, 0)
	}
	w.b.WriteString(st.tail)
	out := w.b.String()
	if st.crlf {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

func (w *yWriter) comment() {
	if w.st.comments {
		w.b.WriteString(" # a: \"c\" <")
	}
}

func (w *yWriter) key(k string) {
	switch {
	case w.st.flow == "-" || w.st.quoted || w.st.flow == "\t":
		w.b.WriteString(yDouble(k))
	case w.st.single:
		w.b.WriteString("'" + k + "'")
	default:
		w.b.WriteString(k)
	}
	w.b.WriteByte(':')
}

// anchor writes a reference to a string that was there before, or marks it; done tells that nothing
// more is to be written.
func (w *yWriter) anchor(n *yNode) (done bool) {
	if !w.st.anchors || n.kind != 's' || n.text == "" {
		return false
	}
	if a := w.seen[n.text]; a != "" {
		w.b.WriteString("*" + a)
		return true
	}
	a := fmt.Sprintf("a%d", len(w.seen))
	w.seen[n.text] = a
	w.b.WriteString("&" + a + " ")
	return false
}

func (w *yWriter) flowNode(n *yNode, depth int) {
	line := func(d int) {
		if w.st.flow != "-" {
			w.comment()
			w.b.WriteByte('\n')
			w.b.WriteString(strings.Repeat(w.st.flow, d))
		}
	}
	switch n.kind {
	case 'l', 'm':
		pair := "[]"
		if n.kind == 'm' {
			pair = "{}"
		}
		w.b.WriteByte(pair[0])
		for i, s := range n.subs {
			if i > 0 {
				w.b.WriteString(",")
				if w.st.flow == "-" {
					w.b.WriteString(" ")
				}
			}
			line(depth + 1)
			if n.kind == 'm' {
				w.key(n.keys[i])
				w.b.WriteByte(' ')
			}
			w.flowNode(s, depth+1)
		}
		if len(n.subs) > 0 {
			line(depth)
		}
		w.b.WriteByte(pair[1])
	default:
		if !w.anchor(n) {
			w.scalar(n)
		}
	}
}

func (w *yWriter) block(n *yNode, depth int) {
	pad := func(d int) { w.b.WriteString(strings.Repeat(" ", d*w.st.indent)) }
	value := func(s *yNode, d int) { // after a key or a dash
		switch {
		case s.kind == 'r' || len(s.subs) == 0 && s.kind != 's':
			w.b.WriteByte(' ')
			w.flowNode(&yNode{kind: s.kind, text: s.text}, 0)
			w.comment()
			w.b.WriteByte('\n')
		case s.kind == 's':
			w.b.WriteByte(' ')
			if w.anchor(s) {
				w.b.WriteByte('\n')
				return
			}
			if w.st.literal && yLiteral(s.text) {
				w.literal(s.text, d)
				return
			}
			w.scalar(s)
			w.comment()
			w.b.WriteByte('\n')
		default:
			w.comment()
			w.b.WriteByte('\n')
			if s.kind == 'l' && !w.st.dash {
				d--
			}
			w.block(s, d)
		}
	}
	if n.kind == 'm' {
		for i, s := range n.subs {
			pad(depth)
			w.key(n.keys[i])
			value(s, depth+1)
		}
		return
	}
	for _, s := range n.subs {
		if w.st.comments {
			w.b.WriteString("\n   # - x: y\n")
		}
		pad(depth)
		w.b.WriteByte('-')
		value(s, depth+1)
	}
}

// yLiteral tells whether a block scalar can hold a value.
func yLiteral(s string) bool {
	if !strings.Contains(s, "\n") || !utf8.ValidString(s) {
		return false
	}
	for _, r := range s {
		if r != '\n' && yEscaped(r) {
			return false
		}
	}
	return strings.Trim(s, "\n ") != ""
}

func (w *yWriter) literal(s string, depth int) {
	d := depth * w.st.indent
	w.b.WriteString(fmt.Sprintf("|%d", w.st.indent))
	switch {
	case !strings.HasSuffix(s, "\n"):
		w.b.WriteByte('-')
	default:
		w.b.WriteByte('+')
		s = s[:len(s)-1]
	}
	for _, l := range strings.Split(s, "\n") {
		w.b.WriteByte('\n')
		if l != "" {
			w.b.WriteString(strings.Repeat(" ", d) + l)
		}
	}
	w.b.WriteByte('\n')
}

func (w *yWriter) scalar(n *yNode) {
	if n.kind == 'r' {
		w.b.WriteString(n.text)
		return
	}
	if w.st.plain && ySafe(n.text) {
		w.b.WriteString(n.text)
		return
	}
	if w.st.single {
		ok := utf8.ValidString(n.text)
		for _, r := range n.text {
			if yEscaped(r) {
				ok = false
			}
		}
		if ok {
			w.b.WriteString("'" + strings.ReplaceAll(n.text, "'", "''") + "'")
			return
		}
	}
	w.b.WriteString(yDouble(n.text))
}

// ySafe tells whether a value is itself without quotes.
func ySafe(s string) bool {
	if s == "" || !(s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z') || s[len(s)-1] == ' ' {
		return false
	}
	letters := 0
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			letters++
		case c >= '0' && c <= '9', strings.IndexByte("-._()/+ ", c) >= 0:
		default:
			return false
		}
	}
	return letters > 5 // longer than any word with a meaning of its own
}

// yEscaped tells whether a character stands only in double quotes.
func yEscaped(r rune) bool {
	return r < ' ' || r >= 0x7f && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff
}

// yDouble writes a value in double quotes; a tab stands as it is.
func yDouble(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString("\\n")
		case r == '\r':
			b.WriteString("\\r")
		case r == '\t':
			b.WriteRune(r)
		case yEscaped(r):
			fmt.Fprintf(&b, "\\u%04x", r)
		case r > 0xffff:
			fmt.Fprintf(&b, "\\U%08x", r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
