package checks

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/rdfx"

	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

func init() { register("P12", "exploration", runP12) }

// input is one text, made when it is its turn.
type input struct {
	rd    docReader
	label string
	text  string
	shape bool // the text can give a document of another shape, not only other strings
}

// inputs enumerates texts that a reader may be given, as jobs that call f. The jobs can run at the same time.
func inputs(c *kit.Ctx, skip []string, f func(w int, in input)) {
	var jobs []func(w int)
	add := func(j func(w int)) { jobs = append(jobs, j) }
	for _, part := range []struct {
		name string
		put  func(*kit.Ctx, func(func(int)), func(int, input))
	}{{"deep", p12Deep}, {"tags", p12Tags}, {"tokens", p12Tokens}, {"bytes", p12Bytes}, {"graphs", p12Graphs}, {"values", p12Values}} {
		if only := os.Getenv("VERIF_PART"); only != "" && only != part.name || slices.Contains(skip, part.name) {
			continue
		}
		jobs = nil
		start, n := time.Now(), c.Evals.Load()
		part.put(c, add, f)
		c.ParallelW(len(jobs), func(w, i int) { jobs[i](w) })
		c.Set("part_"+part.name, fmt.Sprintf("%d executions in %.1f s", c.Evals.Load()-n, time.Since(start).Seconds()))
	}
}

func runP12(c *kit.Ctx) {
	c.Flights("exploration", 60*time.Second)
	var accepted atomic.Int64
	var mu sync.Mutex
	slowest := time.Duration(0)
	inputs(c, nil, func(w int, in input) {
		if !c.Seen(in.rd.name + "\x00" + in.text) {
			return
		}
		for i := len(docs.Versions) - 1; i >= 0; i-- {
			v := docs.Versions[i]
			label := fmt.Sprintf("%s into %s, %s", in.rd.name, v.Name, in.label)
			c.Evals.Add(1)
			c.Begin(w, label, in.text)
			start := time.Now()
			err, p, stack := p12Read(in.rd, in.text, v.New())
			if d := time.Since(start); d > slowest {
				mu.Lock()
				if d > slowest {
					slowest = d
					c.Set("slowest", fmt.Sprintf("%s: %d ms", label, d.Milliseconds()))
				}
				mu.Unlock()
			}
			c.End(w)
			if p != nil {
				c.Violate(panicKey(in.rd.name, v, p, stack), fmt.Sprintf("%s: panic: %v", label, p), map[string]any{"text": in.text, "into": v.Name, "stack": stack})
			}
			if err != nil || p != nil || !in.shape {
				return // the other versions are converted to from what was read
			}
			accepted.Add(1)
		}
	})
	c.Set("accepted", accepted.Load())
}

func p12Read(rd docReader, text string, into any) (err error, p any, stack string) {
	p, stack = kit.Guard(func() { err = rd.into(strings.NewReader(text), into) })
	return
}

// panicKey names the place in the tools where a panic arose.
func panicKey(op string, v *docs.Version, p any, stack string) string {
	i := strings.Index(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.Contains(l, "tools-golang") && strings.HasPrefix(l, "github.com") {
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			return op + "/" + strings.TrimPrefix(l, "github.com/spdx/tools-golang/")
		}
	}
	return op + "/" + v.Name + "/" + fmt.Sprintf("%.60v", p)
}

type refText struct {
	rd   docReader
	name string
	text string
}

// p12Texts are documents whose texts are damaged.
func p12Texts(c *kit.Ctx) (out []refText) {
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			if b.name == "full2" {
				continue
			}
			for _, f := range forms {
				if b.name == "full1" && !c.Thorough() && (f != formTV || v.Num < 3) {
					continue
				}
				text, err := f.write(b.doc)
				if err != nil {
					c.Violate("write/"+f.name, fmt.Sprintf("%s: cannot write the %s document of %s: %v", f.name, b.name, v.Name, err), nil)
					continue
				}
				out = append(out, refText{readerOf(f.name), v.Name + " " + b.name, text})
			}
		}
		if v.Num > 1 {
			out = append(out, refText{readerOf("rdf"), v.Name + " small", rdfSmall(specVersion(v.Const))})
			d := docs.Clone(docs.Sparse(v, 1))
			up := rdfx.Up(d)
			if rdfx.Fix(up) {
				out = append(out, refText{readerOf("rdf"), v.Name + " sparse", rdfx.Encode(up, rdfx.Opts{Spec: v.Const}).XML(rdfx.Shape{})})
			}
		}
	}
	return out
}

var p12Nasty = []string{"\x00", "\n", "\r", "\t", " ", "\"", "'", "\\", ":", ",", "-", "#", "{", "}", "[", "]", "<", ">", "/", "&", ";", "=", "!", "?", "*", "|", "%", "@", "`", "(", ")", "0", "9", "e", "\xff", "\xc3", "\u00e9", "\u2028", "\ufeff", "~", "  ", "\n\n", "\n-", "\n ", ": ", "<text>", "</text>", "<!--", "&#0;", "&#x110000;", "!!binary ", "*a", "&a "}

// p12Bytes: every text cut, with every byte or line left out, doubled, replaced.
func p12Bytes(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	nasty := p12Nasty
	if !c.Thorough() {
		nasty = nasty[:0:0]
		for _, n := range p12Nasty {
			if len(n) == 1 && !strings.Contains("\r;=?%@`()e9~!", n) {
				nasty = append(nasty, n)
			}
		}
	}
	n := 0
	for _, r := range p12Texts(c) {
		n++
		const chunk = 64
		heavy := (len(r.text) > 4000 || r.rd.name == "yaml" && len(r.text) > 1000) && !c.Thorough()
		for from := 0; from < len(r.text); from += chunk {
			add(func(w int) {
				for i := from; i < len(r.text) && i < from+chunk; i++ {
					if c.Stop() {
						return
					}
					do := func(what, text string) {
						f(w, input{r.rd, fmt.Sprintf("%s, %s at %d", r.name, what, i), text, c.Thorough()})
					}
					if heavy && i%16 != 0 {
						continue
					}
					do("cut", r.text[:i])
					do("byte left out", r.text[:i]+r.text[i+1:])
					do("byte doubled", r.text[:i+1]+r.text[i:])
					if i > 0 {
						do("beginning cut", r.text[i:])
					}
					for _, s := range nasty {
						do(fmt.Sprintf("%q inserted", s), r.text[:i]+s+r.text[i:])
						do(fmt.Sprintf("%q instead", s), r.text[:i]+s+r.text[i+1:])
					}
				}
			})
		}
		lines := strings.SplitAfter(r.text, "\n")
		for i := range lines {
			add(func(w int) {
				do := func(what string, l ...[]string) {
					var b strings.Builder
					for _, x := range l {
						for _, y := range x {
							b.WriteString(y)
						}
					}
					f(w, input{r.rd, fmt.Sprintf("%s, %s %d", r.name, what, i), b.String(), true})
				}
				do("without line", lines[:i], lines[i+1:])
				do("doubled line", lines[:i+1], lines[i:])
				for j := range lines {
					if c.Stop() {
						return
					}
					if heavy && (j < i-3 || j > i+3) {
						continue
					}
					if j < i {
						do(fmt.Sprintf("line %d before line", i), lines[:j], lines[i:i+1], lines[j:i], lines[i+1:])
						do(fmt.Sprintf("lines %d up to", j), lines[:j], lines[i:])
					} else if j > i+1 {
						do(fmt.Sprintf("line %d after line", i), lines[:i], lines[i+1:j], lines[i:i+1], lines[j:])
					}
				}
			})
		}
	}
	c.Bound("%d texts: cut, every byte left out, doubled, replaced by and prefixed with %d others, every line left out, doubled and moved everywhere, all runs of lines left out (bytes of texts over 4000 bytes: every sixteenth and lines moved by up to three, thorough: all)", n, len(nasty))
}

// boundary tells whether something of the syntax begins or ends at i.
func boundary(s string, i int) bool {
	kind := func(b byte) int {
		switch {
		case b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9':
			return 1
		case b == ' ':
			return 2
		}
		return int(b)
	}
	return i == 0 || kind(s[i]) != kind(s[i-1])
}

var p12Strings = []string{"", " ", ":", "-", "#", "\n", "\x00", "\u00e9", "SPDXRef-", "SPDXRef-DOCUMENT", "DocumentRef-", "DocumentRef-:", "DocumentRef-a:", "DocumentRef-a:SPDXRef-", "DocumentRef-a:SPDXRef-b", "SPDXRef-a:SPDXRef-b",
	"DocumentRef-a:SPDXRef-b:c", "NONE", "NOASSERTION", "LicenseRef-", "Person", "Person:", "Person: ", "Person: a", "Tool: a (b)", "Organization: ()", ": a", "(", ")", "a (", "SHA1", "SHA1:", "SHA1: a", ": a", "(excludes:", "a (excludes: b)", "a (excludes: ./b", "1", "1:2", ":2", "2:", "-1:2", "a:b",
	"9999999999999999999999", "0x10", "true", "null", "2020-01-01T00:00:00Z", "SPDX-2.1", "SPDX-2.2", "SPDX-2.3", "SPDX-9.9", "a b", "a b c", "a b c d", "SPDXRef-a CONTAINS SPDXRef-b", "SPDXRef-a CONTAINS", " CONTAINS ", "DocumentRef-a b SHA1: c", "DocumentRef-a b SHA1", "DocumentRef-a", "SECURITY cpe23Type x", "SECURITY  x", "http://", "a#", "#a", "a#b#c", "%", "%zz", "<text>", "</text>", "<text>a</text>b",
	strings.Repeat("a", 5000), strings.Repeat(":", 100), strings.Repeat("(", 100), strings.Repeat("SPDXRef-", 50)}

// p12Palette are values of JSON of every type.
func p12Palette(full bool) []any {
	out := []any{nil, true, false, 0, -1, 1.5, json.Number("1e400"), json.Number("99999999999999999999"), []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}}, []any{[]any{}}, []any{""}, []any{0}, map[string]any{"": nil}, map[string]any{"a": []any{}}, []any{nil, nil}, []any{map[string]any{}, nil}}
	if full {
		for _, s := range p12Strings {
			out = append(out, s)
		}
	} else {
		out = append(out, "", "x", ":", "SPDXRef-", "DocumentRef-a:SPDXRef-b")
	}
	return out
}

// p12Values: every value in JSON and YAML replaced by every other, left out, doubled under other types.
func p12Values(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	places := 0
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			if b.name == "full2" || b.name == "full1" && v.Num < 3 && !c.Thorough() {
				continue
			}
			yaml := b.name == "minimal" || c.Thorough()
			text, err := formJSON.write(b.doc)
			if err != nil {
				continue // said above
			}
			parse := func() (x any) {
				d := json.NewDecoder(strings.NewReader(text))
				d.UseNumber()
				if err := d.Decode(&x); err != nil {
					panic(err)
				}
				return x
			}
			paths := p12Paths(parse(), nil)
			places += len(paths)
			emit := func(w int, label string, x any) {
				t, err := json.Marshal(x)
				if err != nil {
					panic(err)
				}
				f(w, input{readerOf("json"), label, string(t), true})
				if yaml {
					f(w, input{readerOf("yaml"), label + " (JSON is YAML)", string(t), true})
				}
			}
			for pi, path := range paths {
				name := fmt.Sprintf("%s %s %v", v.Name, b.name, path)
				add(func(w int) {
					for _, alt := range p12Palette(true) {
						if c.Stop() {
							return
						}
						emit(w, fmt.Sprintf("%s = %.40v", name, alt), p12Set(parse(), path, alt, false))
					}
					emit(w, name+" left out", p12Set(parse(), path, nil, true))
					for _, k := range p12Strange(v) { // a field of another object
						x := parse()
						at := p12Get(x, path)
						if m, ok := at.(map[string]any); ok {
							alts := p12Palette(false)
							if !c.Thorough() {
								alts = []any{nil, []any{map[string]any{}, nil}, "x"}
							}
							for _, alt := range alts {
								if _, has := m[k]; !has {
									m[k] = alt
									emit(w, fmt.Sprintf("%s with %s: %v", name, k, alt), x)
									delete(m, k)
								}
							}
						}
					}
				})
				if b.name == "minimal" && !c.Thorough() {
					continue
				}
				add(func(w int) {
					// pairs: places of the same object or list, or all (thorough)
					for pj, other := range paths[pi+1:] {
						if len(path) == 0 || !siblings(path, other) || pj > kit.Pick(c, 3, 10) {
							continue
						}
						few := p12Palette(false)
						if !c.Thorough() {
							few = []any{nil, 0, []any{}, map[string]any{}, []any{nil}, []any{map[string]any{}}, "", "x"}
						}
						for _, a1 := range few {
							for _, a2 := range few {
								if c.Stop() {
									return
								}
								x := p12Set(p12Set(parse(), path, a1, false), other, a2, false)
								t, _ := json.Marshal(x)
								f(w, input{readerOf("json"), fmt.Sprintf("%s = %v, %v = %v", name, a1, other, a2), string(t), true})
							}
						}
					}
				})
			}
		}
	}
	c.Bound("%d places in JSON documents (also read as YAML): each value replaced by %d values of every type, left out, and every object given every field of the others; pairs of neighbouring values by %d", places, len(p12Palette(true)), len(p12Palette(false)))
}

var strange sync.Map

// p12Strange are the names of all fields of JSON documents of a version.
func p12Strange(v *docs.Version) []string {
	if s, ok := strange.Load(v); ok {
		return s.([]string)
	}
	names := map[string]bool{}
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type)
	walk = func(t reflect.Type) {
		switch t.Kind() {
		case reflect.Ptr, reflect.Slice, reflect.Map:
			walk(t.Elem())
		case reflect.Struct:
			if seen[t] {
				return
			}
			seen[t] = true
			for i := 0; i < t.NumField(); i++ {
				n, _, _ := strings.Cut(t.Field(i).Tag.Get("json"), ",")
				if n != "" && n != "-" {
					names[n] = true
				}
				walk(t.Field(i).Type)
			}
		}
	}
	walk(reflect.TypeOf(v.New()))
	for _, n := range []string{"documentDescribes", "hasFiles", "packageName", "relationships", "files", "packages", "$ref", "__proto__", ""} {
		names[n] = true
	}
	var out []string
	for n := range names {
		out = append(out, n)
	}
	sort.Strings(out)
	strange.Store(v, out)
	return out
}

func siblings(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a[:len(a)-1] {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func p12Paths(x any, at []any) (out [][]any) {
	out = append(out, append([]any(nil), at...))
	switch x := x.(type) {
	case map[string]any:
		for _, k := range sortedStrings(x) {
			out = append(out, p12Paths(x[k], append(at, k))...)
		}
	case []any:
		for i, e := range x {
			out = append(out, p12Paths(e, append(at, i))...)
		}
	}
	return out
}

func p12Get(x any, path []any) any {
	for _, s := range path {
		switch y := x.(type) {
		case map[string]any:
			x = y[s.(string)]
		case []any:
			x = y[s.(int)]
		}
	}
	return x
}

func p12Set(x any, path []any, to any, remove bool) any {
	if len(path) == 0 {
		return to
	}
	last := path[len(path)-1]
	switch y := p12Get(x, path[:len(path)-1]).(type) {
	case map[string]any:
		if remove {
			delete(y, last.(string))
		} else {
			y[last.(string)] = to
		}
	case []any:
		if remove {
			return p12Set(x, path[:len(path)-1], append(append([]any(nil), y[:last.(int)]...), y[last.(int)+1:]...), false)
		}
		y[last.(int)] = to
	}
	return x
}

// p12Tags: every tag with every value in every section, and pairs of tags.
func p12Tags(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	tags := map[string][]string{}
	for _, t := range append(append([]tvTok(nil), tvTokens...), tvBadTokens...) {
		tags[t.tag] = append(tags[t.tag], t.value(1))
	}
	names := sortedStrings(tags)
	rd := readerOf("tagvalue")
	sections := []string{"", "Creator: Tool: t", "PackageName: p", "PackageName: p\nSPDXID: SPDXRef-p", "PackageName: p\nSPDXID: SPDXRef-p\nExternalRef: SECURITY cpe23Type x", "FileName: f", "FileName: f\nSPDXID: SPDXRef-f", "FileName: f\nSPDXID: SPDXRef-f\nArtifactOfProjectName: a",
		"PackageName: p\nSPDXID: SPDXRef-p\nFileName: f\nSPDXID: SPDXRef-f", "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: SPDXRef-s", "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: SPDXRef-s\nSnippetByteRange: 1:2", "LicenseID: LicenseRef-1", "Reviewer: Person: r", "Relationship: SPDXRef-a CONTAINS SPDXRef-b", "Annotator: Person: a"}
	for _, v := range docs.Versions {
		for _, sec := range sections {
			head := "SPDXVersion: " + v.Const + "\n" + sec + "\n"
			for _, tag := range names {
				add(func(w int) {
					values := append(append([]string(nil), p12Strings...), tags[tag]...)
					for _, val := range values {
						if c.Stop() {
							return
						}
						f(w, input{rd, fmt.Sprintf("%q, %s: %.40q", head, tag, val), head + tag + ": " + val + "\n", true})
						if strings.Contains(val, "\n") || val == "" {
							f(w, input{rd, fmt.Sprintf("%q, %s: <text>%.40q", head, tag, val), head + tag + ": <text>" + val + "</text>\n", true})
						}
					}
					// two
					for _, tag2 := range names {
						for _, v1 := range p12Few(c, tags[tag]) {
							for _, v2 := range p12Few(c, tags[tag2]) {
								if c.Stop() {
									return
								}
								f(w, input{rd, fmt.Sprintf("%q, %s: %q, %s: %q", head, tag, v1, tag2, v2), head + tag + ": " + v1 + "\n" + tag2 + ": " + v2 + "\n", true})
							}
						}
					}
				})
			}
		}
	}
	c.Bound("each of %d tags with %d values in %d sections of each version, and all pairs of tags with few values", len(names), len(p12Strings), len(sections))
}

func p12Few(c *kit.Ctx, own []string) []string {
	few := own[:min(len(own), kit.Pick(c, 1, 4))]
	return append(append([]string(nil), few...), kit.Pick(c, []string{""}, []string{"", ":", "SPDXRef-x", "1:2"})...)
}

// p12Graphs: every statement of a graph left out, doubled, changed.
func p12Graphs(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	rd := readerOf("rdf")
	stated := 0
	for _, v := range docs.Versions[1:] {
		for _, b := range bases(v) {
			if b.name != "sparse2" && (b.name != "full1" || !c.Thorough()) {
				continue
			}
			up := rdfx.Up(docs.Clone(b.doc))
			if !rdfx.Fix(up) {
				continue
			}
			p12LicenseSets(up)
			for oi, o := range []rdfx.Opts{{Describe: true}, {LicNode: 1}} {
				if oi != v.Num-2 && !c.Thorough() {
					continue
				}
				o.Spec = v.Const
				g := rdfx.Encode(up, o)
				stated += g.Triples()
				types, preds := map[string]bool{}, map[string]bool{}
				for _, n := range g.Nodes {
					types[n.Type] = true
					for _, p := range n.Props {
						preds[p.Pred] = true
					}
				}
				name := fmt.Sprintf("%s %s (way %d)", v.Name, b.name, oi)
				shapes := []rdfx.Shape{{Mode: func(*rdfx.Node) int { return rdfx.Own }}, {}}
				emit := func(w int, label string, g *rdfx.Graph) {
					for i, s := range shapes {
						if i == 1 && !c.Thorough() {
							continue
						}
						f(w, input{rd, name + ", " + label, g.XML(s), true})
					}
				}
				for ni, n := range g.Nodes {
					// the type of the node
					for _, t := range sortedStrings(types) {
						add(func(w int) {
							h := g.Clone()
							h.Nodes[ni].Type = t
							emit(w, fmt.Sprintf("node %d %s is %s", ni, n.Type, t), h)
							// and all of that type
							for _, m := range h.Nodes {
								if m.Type == n.Type {
									m.Type = t
								}
							}
							emit(w, fmt.Sprintf("all %s are %s", n.Type, t), h)
						})
					}
					// the name of the node
					add(func(w int) {
						for _, iri := range []string{"", "#", "x", "http://spdx.org/rdf/terms#noassertion", "http://spdx.org/rdf/terms#NONE", "http://a/b#", "http://a/b", "#SPDXRef-DOCUMENT", "SPDXRef-x"} {
							h := g.Clone()
							h.Nodes[ni].IRI = iri
							if iri == "" {
								h.Nodes[ni].Blank = "nx"
							}
							emit(w, fmt.Sprintf("node %d %s named %q", ni, n.Type, iri), h)
						}
						for nj := range g.Nodes { // two nodes are one
							h := g.Clone()
							h.Nodes[ni].IRI, h.Nodes[ni].Blank = h.Nodes[nj].IRI, h.Nodes[nj].Blank
							emit(w, fmt.Sprintf("node %d is node %d", ni, nj), h)
						}
					})
					for pi := range n.Props {
						add(func(w int) {
							label := fmt.Sprintf("node %d %s %s", ni, n.Type, n.Props[pi].Pred)
							with := func(what string, change func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph)) {
								if c.Stop() {
									return
								}
								h := g.Clone()
								m := h.Nodes[ni]
								change(&m.Props[pi], m, h)
								emit(w, label+": "+what, h)
							}
							with("left out", func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { m.Props = append(m.Props[:pi:pi], m.Props[pi+1:]...) })
							with("the only one", func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { m.Props = []rdfx.Prop{*p} })
							for _, lit := range append([]string{"", "x", "http://a#b"}, p12Strings[kit.Pick(c, 20, 0):40]...) {
								if strings.Contains(lit, "\x00") {
									continue
								}
								with(fmt.Sprintf("text %q", lit), func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { *p = rdfx.Prop{Pred: p.Pred, Lit: lit} })
							}
							for _, res := range []string{"x", "#", "http://spdx.org/rdf/terms#noassertion", "http://spdx.org/rdf/terms#NONE", "http://spdx.org/rdf/terms#", "http://spdx.org/licenses/", "http://spdx.org/licenses/MIT", "http://a/b#SPDXRef-z", "DocumentRef-a:SPDXRef-b", "#SPDXRef-z", "%", "://"} {
								with(fmt.Sprintf("name %q", res), func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { *p = rdfx.Prop{Pred: p.Pred, Res: res} })
							}
							for nj := range g.Nodes {
								with(fmt.Sprintf("node %d", nj), func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { *p = rdfx.Prop{Pred: p.Pred, Node: h.Nodes[nj]} })
								with(fmt.Sprintf("also node %d", nj), func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) {
									m.Props = append(m.Props, rdfx.Prop{Pred: p.Pred, Node: h.Nodes[nj]})
								})
							}
							for _, t := range sortedStrings(types) {
								with("an empty "+t, func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) {
									x := &rdfx.Node{Blank: "nx", Type: t}
									h.Nodes = append(h.Nodes, x)
									*p = rdfx.Prop{Pred: p.Pred, Node: x}
								})
							}
							for _, q := range sortedStrings(preds) {
								with("as "+q, func(p *rdfx.Prop, m *rdfx.Node, h *rdfx.Graph) { p.Pred = q })
							}
						})
					}
				}
			}
		}
	}
	c.Bound("graphs of %d statements: each left out, alone, with %d other texts, names, and every node of the graph as its object (circles), under every other property; every node under every other type, name, and as every other node", stated, kit.Pick(c, 23, 43))
}

// p12LicenseSets gives the elements nested licenses.
func p12LicenseSets(d *v2_3.Document) {
	e := rdfx.And(rdfx.Or(rdfx.Leaf("MIT"), rdfx.With(rdfx.Leaf("GPL-2.0-only"), "Classpath-exception-2.0")), rdfx.Plus(rdfx.Leaf("Apache-1.0"))).String()
	for _, p := range d.Packages {
		p.PackageLicenseConcluded = e
	}
	for _, f := range d.Files {
		f.LicenseConcluded = e
	}
}

// p12Tokens: all short sequences of tokens of each format.
func p12Tokens(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	seqs := func(rd docReader, head, tail string, tokens []string, n int) {
		// the first two tokens make a job
		var rec func(w int, s string, left int)
		rec = func(w int, s string, left int) {
			f(w, input{rd, "tokens", head + s + tail, true})
			if left == 0 || c.Stop() {
				return
			}
			for _, t := range tokens {
				rec(w, s+t, left-1)
			}
		}
		for _, a := range tokens {
			for _, b := range tokens {
				add(func(w int) { rec(w, a+b, n-2) })
			}
			add(func(w int) { f(w, input{rd, "tokens", head + a + tail, true}) })
		}
		c.Bound("%s: all sequences of up to %d of %d tokens after %.60q", rd.name, n, len(tokens), head)
	}
	n := Count(c, 4, 5)
	js := readerOf("json")
	seqs(js, "", "", []string{"{", "}", "[", "]", ",", ":", `"spdxVersion"`, `"SPDX-2.3"`, "null", "0", `""`}, n+1)
	for _, v := range docs.Versions {
		head := `{"spdxVersion":"` + v.Const + `"`
		seqs(js, head, "}", []string{",", ":", `"packages"`, `"files"`, `"SPDXID"`, `"relationships"`, `"creationInfo"`, "{", "}", "[", "]", "null", `""`, "1"}, n)
		ya := readerOf("yaml")
		seqs(ya, "spdxVersion: "+v.Const+"\n", "\n", []string{"packages:", "files:", "name:", "- ", "\n", "  ", "null", "x", "{", "}", "&a ", "*a", "<<: ", "|", "---\n", "!!binary "}, n)
		tv := readerOf("tagvalue")
		seqs(tv, "SPDXVersion: "+v.Const+"\n", "", []string{"PackageName", "SPDXID", "Relationship", "FileName", "SnippetSPDXID", ":", " ", "\n", "SPDXRef-a", "<text>", "</text>", "#", "a"}, n)
	}
	seqs(readerOf("tagvalue"), "", "", []string{"SPDXVersion", ":", " ", "\n", "\r", "SPDX-2.3", "<text>", "</text>", "<", "#", "\x00", "\xff"}, n+1)
	seqs(readerOf("yaml"), "", "", []string{"spdxVersion", ":", " ", "\n", "SPDX-2.3", "- ", "[", "]", "{", "}", "&a ", "*a ", "\t", "\"", "|"}, n)
	x := readerOf("rdf")
	seqs(x, "", "", []string{"<rdf:RDF ", "<a", "</a", ">", "/>", "</rdf:RDF>", "xmlns:rdf=", "\"", "'", "x", " ", "<!--", "-->", "<![CDATA[", "]]>", "&", ";", "<?xml ", "?>"}, n)
	for _, v := range docs.Versions[1:] {
		seqs(x, `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#"><spdx:SpdxDocument rdf:about="http://a/b#SPDXRef-DOCUMENT"><spdx:specVersion>`+v.Const+`</spdx:specVersion>`, "</spdx:SpdxDocument></rdf:RDF>",
			[]string{"<spdx:relationship>", "</spdx:relationship>", "<spdx:Relationship>", "</spdx:Relationship>", "<spdx:describesPackage>", "</spdx:describesPackage>", "<spdx:Package/>", "<spdx:Package rdf:about=\"#a\"/>", "<spdx:relatedSpdxElement rdf:resource=\"http://a/b#SPDXRef-DOCUMENT\"/>", "<spdx:name/>", "x", "<spdx:relationshipType rdf:resource=\"x\"/>", "<spdx:creationInfo/>"}, n)
	}
}

// p12Deep: things nested deep, repeated often, very long.
func p12Deep(c *kit.Ctx, add func(func(int)), f func(int, input)) {
	js, ya, tv, x := readerOf("json"), readerOf("yaml"), readerOf("tagvalue"), readerOf("rdf")
	const rdfHead = `<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#"><spdx:SpdxDocument rdf:about="http://a/b#SPDXRef-DOCUMENT"><spdx:specVersion>SPDX-2.3</spdx:specVersion>`
	put := func(rd docReader, label, text string) { add(func(w int) { f(w, input{rd, label, text, true}) }) }
	for _, n := range []int{10, 1000, 9990, 10010, Count(c, 100000, 300000)} {
		s := func(t string) string { return strings.Repeat(t, n) }
		in := fmt.Sprintf(", %d", n)
		put(js, "nested lists"+in, `{"spdxVersion":"SPDX-2.3","packages":`+s("[")+s("]")+"}")
		put(js, "nested objects"+in, `{"spdxVersion":"SPDX-2.3","packages":`+s(`{"a":`)+"1"+s("}")+"}")
		put(js, "unclosed lists"+in, `{"spdxVersion":"SPDX-2.3","packages":`+s("["))
		put(js, "many packages"+in, `{"spdxVersion":"SPDX-2.3","packages":[{}`+s(`,{}`)+"]}")
		put(js, "long name"+in, `{"spdxVersion":"SPDX-2.3","name":"`+s("x")+`"}`)
		put(js, "long identifier"+in, `{"spdxVersion":"SPDX-2.3","SPDXID":"SPDXRef-`+s("x")+`","packages":[{"SPDXID":"`+s(":")+`"}]}`)
		put(x, "nested elements"+in, s("<a>"))
		put(x, "nested closed elements"+in, s("<a>")+s("</a>"))
		put(x, "nested in a document"+in, rdfHead+s("<spdx:relationship><spdx:Relationship>"))
		put(x, "nested relationships"+in, rdfHead+s("<spdx:relationship><spdx:Relationship><spdx:relatedSpdxElement><spdx:File>")+s("</spdx:File></spdx:relatedSpdxElement></spdx:Relationship></spdx:relationship>")+"</spdx:SpdxDocument></rdf:RDF>")
		put(x, "nested license sets"+in, rdfHead+"<spdx:describesPackage><spdx:Package rdf:about=\"http://a/b#SPDXRef-p\"><spdx:licenseConcluded>"+s("<spdx:ConjunctiveLicenseSet><spdx:member>")+s("</spdx:member></spdx:ConjunctiveLicenseSet>")+"</spdx:licenseConcluded></spdx:Package></spdx:describesPackage></spdx:SpdxDocument></rdf:RDF>")
		put(x, "many entities"+in, rdfHead+"<spdx:name>"+s("&amp;")+"</spdx:name></spdx:SpdxDocument></rdf:RDF>")
		put(tv, "long line"+in, "SPDXVersion: SPDX-2.3\nDocumentName: "+s("x")+"\n")
		put(tv, "colons"+in, "SPDXVersion: SPDX-2.3\nDocumentName"+s(":"))
		put(tv, "many texts"+in, "SPDXVersion: SPDX-2.3\nDocumentName: "+s("<text>"))
		put(tv, "open text"+in, "SPDXVersion: SPDX-2.3\nDocumentName: <text>"+s("x\n"))
		put(tv, "many lines"+in, "SPDXVersion: SPDX-2.3\n"+s("\n"))
		if n <= 10010 || c.Thorough() {
			put(ya, "nested lists"+in, "spdxVersion: SPDX-2.3\npackages: "+s("[")+s("]"))
			put(ya, "nested objects"+in, "spdxVersion: SPDX-2.3\npackages: "+s("{a: ")+s("}"))
			put(ya, "nested blocks"+in, "spdxVersion: SPDX-2.3\npackages:\n "+s("- "))
			put(ya, "unclosed"+in, "spdxVersion: SPDX-2.3\npackages: "+s("["))
		}
	}
	// things that double with every level
	for _, depth := range []int{3, 10, 30, 60} {
		var y, e strings.Builder
		y.WriteString("spdxVersion: SPDX-2.3\na0: &a0 [x]\n")
		e.WriteString("<?xml version=\"1.0\"?><!DOCTYPE r [<!ENTITY e0 \"x\">")
		for i := 1; i <= depth; i++ {
			fmt.Fprintf(&y, "a%d: &a%d [*a%d, *a%d]\n", i, i, i-1, i-1)
			fmt.Fprintf(&e, "<!ENTITY e%d \"&e%d;&e%d;\">", i, i-1, i-1)
		}
		fmt.Fprintf(&e, "]>"+rdfHead+"<spdx:name>&e%d;</spdx:name></spdx:SpdxDocument></rdf:RDF>", depth)
		put(ya, "doubling aliases", y.String())
		put(x, "doubling entities", e.String())
		// licenses whose sets have each the next one twice
		var l strings.Builder
		l.WriteString(rdfHead + "<spdx:describesPackage><spdx:Package rdf:about=\"http://a/b#SPDXRef-p\"><spdx:licenseConcluded rdf:nodeID=\"l0\"/></spdx:Package></spdx:describesPackage></spdx:SpdxDocument>")
		for i := 0; i < depth; i++ {
			fmt.Fprintf(&l, "<spdx:ConjunctiveLicenseSet rdf:nodeID=\"l%d\"><spdx:member><spdx:DisjunctiveLicenseSet><spdx:member rdf:nodeID=\"l%d\"/><spdx:member rdf:resource=\"http://spdx.org/licenses/MIT\"/></spdx:DisjunctiveLicenseSet></spdx:member><spdx:member rdf:nodeID=\"l%d\"/></spdx:ConjunctiveLicenseSet>", i, i+1, i+1)
		}
		fmt.Fprintf(&l, "<spdx:ListedLicense rdf:nodeID=\"l%d\"><spdx:licenseId>MIT</spdx:licenseId></spdx:ListedLicense></rdf:RDF>", depth)
		put(x, fmt.Sprintf("doubling licenses, %d", depth), l.String())
		// files that depend on the next one twice, elements related
		var fs strings.Builder
		fs.WriteString(rdfHead + "<spdx:describesPackage><spdx:Package rdf:about=\"http://a/b#SPDXRef-p\"><spdx:hasFile rdf:resource=\"http://a/b#SPDXRef-f0\"/></spdx:Package></spdx:describesPackage></spdx:SpdxDocument>")
		for i := 0; i < depth; i++ {
			fmt.Fprintf(&fs, "<spdx:File rdf:about=\"http://a/b#SPDXRef-f%d\"><spdx:fileName>f</spdx:fileName><spdx:fileDependency rdf:resource=\"http://a/b#SPDXRef-f%d\"/><spdx:fileDependency><spdx:File rdf:about=\"http://a/b#SPDXRef-f%d\"/></spdx:fileDependency>"+
				"<spdx:relationship><spdx:Relationship><spdx:relationshipType rdf:resource=\"http://spdx.org/rdf/terms#relationshipType_contains\"/><spdx:relatedSpdxElement rdf:resource=\"http://a/b#SPDXRef-f%d\"/></spdx:Relationship></spdx:relationship></spdx:File>", i, i+1, i+1, i+1)
		}
		fmt.Fprintf(&fs, "<spdx:File rdf:about=\"http://a/b#SPDXRef-f%d\"><spdx:fileName>f</spdx:fileName></spdx:File></rdf:RDF>", depth)
		put(x, fmt.Sprintf("doubling files, %d", depth), fs.String())
	}
	c.Bound("lists, objects, elements and relationships nested up to %d deep, texts and lists as long; aliases, entities, licenses and files that double 60 times", Count(c, 100000, 300000))
}
