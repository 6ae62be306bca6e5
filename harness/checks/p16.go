//go:build sched

package checks

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/rdfx"
	"verifharness/schd"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/tagvalue"
	"github.com/spdx/tools-golang/utils"
	spdxyaml "github.com/spdx/tools-golang/yaml"
)

func init() { register("P16", "exploration", runP16) }

// cop is an operation that runs concurrently with others.
type cop struct {
	name string
	doc  any // the document it works on, or nil
	do   func(doc any) string
	solo string // what it gives alone, in a process of its own
	n    [2]int // scheduling points alone: statements, entries of functions
}

// slow gives its text in pieces, with a scheduling point before each.
type slow struct{ r io.Reader }

func (s slow) Read(p []byte) (int, error) {
	schd.Point()
	return s.r.Read(p[:min(len(p), 400)])
}

// slowTo takes what it is given with a scheduling point before and after.
type slowTo struct{ b bytes.Buffer }

func (s *slowTo) Write(p []byte) (int, error) {
	schd.Point()
	n, err := s.b.Write(p)
	schd.Point()
	return n, err
}

func p16Reads(which string, text func(v *docs.Version) any) (out []*cop) {
	for _, v := range docs.Versions {
		doc := text(v)
		for _, f := range forms {
			t, err := f.write(docs.Clone(doc))
			if err != nil {
				panic(err)
			}
			rd := readerOf(f.name)
			out = append(out, &cop{name: fmt.Sprintf("read %s %s %s", f.name, v.Name, which), do: func(any) string {
				n := v.New()
				err := rd.into(slow{strings.NewReader(t)}, n)
				return result(n, err)
			}})
			if v.Num < 3 {
				out = append(out, &cop{name: fmt.Sprintf("read %s %s %s as the latest", f.name, v.Name, which), do: func(any) string {
					n, err := rd.read(slow{strings.NewReader(t)})
					return result(n, err)
				}})
			}
		}
		if v.Num > 1 {
			up := rdfx.Up(docs.Sparse(v, 1))
			if which != "first" {
				up = rdfx.Up(docs.Other(v, 1, false))
			}
			if !rdfx.Fix(up) {
				panic("no RDF")
			}
			t := rdfx.Encode(up, rdfx.Opts{Spec: v.Const}).XML(rdfx.Shape{})
			out = append(out, &cop{name: fmt.Sprintf("read rdf %s %s", v.Name, which), do: func(any) string {
				n := v.New()
				err := readerOf("rdf").into(slow{strings.NewReader(t)}, n)
				return result(n, err)
			}})
		}
	}
	return out
}

// p16OnDoc are the operations on one document.
func p16OnDoc(v *docs.Version, which string, doc any) (out []*cop) {
	_, latest := doc.(*spdx.Document)
	writes := map[string]func(d any, w io.Writer) error{
		"tagvalue":      func(d any, w io.Writer) error { return tagvalue.Write(d, w) },
		"json":          func(d any, w io.Writer) error { return spdxjson.Write(d, w) },
		"json indented": func(d any, w io.Writer) error { return spdxjson.Write(d, w, spdxjson.Indent(" ")) },
		"yaml":          func(d any, w io.Writer) error { return spdxyaml.Write(d, w) },
	}
	for _, o := range p15Ops() {
		if o.latest && !latest {
			continue
		}
		do := o.do
		if w, ok := strings.CutPrefix(o.name, "write "); ok && writes[w] != nil {
			do = func(d any) string {
				var b slowTo
				err := writes[w](d, &b)
				return result(b.b.String(), err)
			}
		}
		out = append(out, &cop{name: fmt.Sprintf("%s %s %s", o.name, v.Name, which), doc: doc, do: do})
	}
	return out
}

// p16Trees are the operations on directories.
func p16Trees(which string) (out []*cop) {
	dir := filepath.Join(kit.Scratch, "p16-"+which)
	for name, text := range map[string]string{"a.txt": "SPDX-License-Identifier: MIT AND " + which + "\n", "b/c.go": "// SPDX-License-Identifier: Apache-2.0 OR " + which + "+\n", "b/ignored": which, "b/d": which + which} {
		p := filepath.Join(dir, name)
		if _, err := os.Stat(p); err == nil {
			continue
		}
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	tv := map[string]string{"Created": "2020-01-01T00:00:00Z"}
	return []*cop{
		{name: "build " + which, do: func(any) string {
			d, err := builder.Build("p"+which, dir, &builder.Config{NamespacePrefix: "http://" + which + "/", CreatorType: "Person", Creator: which, PathsIgnored: []string{"**/ignored"}, TestValues: tv})
			return result(d, err)
		}},
		{name: "search " + which, do: func(any) string {
			d, err := idsearcher.BuildIDsDocument("p"+which, dir, &idsearcher.Config{NamespacePrefix: "http://" + which + "/", BuilderPathsIgnored: []string{"**/ignored"}, SearcherPathsIgnored: []string{"/a.txt"}})
			if d != nil && d.CreationInfo != nil {
				d.CreationInfo.Created = ""
			}
			return result(d, err)
		}},
		{name: "paths " + which, do: func(any) string {
			l, err := utils.GetAllFilePaths(dir, []string{"**/ignored", "/" + which})
			return result(fmt.Sprint(l), err)
		}},
		{name: "hashes " + which, do: func(any) string {
			a, b, c, err := utils.GetHashesForFilePath(filepath.Join(dir, "a.txt"))
			return result(fmt.Sprint(a, b, c), err)
		}},
	}
}

// sortedLists brings the lists that tag-value sorts in order.
func sortedLists(doc any) any {
	rv := reflect.ValueOf(doc).Elem()
	sortList(rv.FieldByName("Files"), "FileSPDXIdentifier")
	sortList(rv.FieldByName("Packages"), "PackageSPDXIdentifier")
	sortList(rv.FieldByName("ExternalDocumentReferences"), "DocumentRefID")
	docs.Each(doc, "Package", func(p reflect.Value) { sortList(p.FieldByName("Files"), "FileSPDXIdentifier") })
	return doc
}

// duo is two operations that run at the same time, on documents of their own or on the same.
type duo struct {
	a, b   *cop
	shared bool
	known  string // a known finding that the two run into
}

func (p duo) name() string {
	if p.shared {
		return p.a.name + " || " + p.b.name + " (same document)"
	}
	return p.a.name + " || " + p.b.name
}

func p16Duos(c *kit.Ctx) (ops []*cop, duos []duo) {
	first := func(v *docs.Version) any { return sortedLists(docs.Full(v, 1)) }
	second := func(v *docs.Version) any { return sortedLists(docs.Other(v, 2, false)) }
	as := append(p16Reads("first", first), p16Trees("first")...)
	bs := append(p16Reads("second", second), p16Trees("second")...)
	for _, v := range docs.Versions {
		as = append(as, p16OnDoc(v, "first", first(v))...)
		bs = append(bs, p16OnDoc(v, "second", second(v))...)
	}
	ops = append(append(ops, as...), bs...)
	for _, a := range as {
		for _, b := range bs {
			duos = append(duos, duo{a: a, b: b})
			if c.Thorough() {
				duos = append(duos, duo{a: b, b: a})
			}
		}
	}
	for _, v := range docs.Versions {
		for _, k := range []struct {
			which string
			doc   any
		}{{"full", sortedLists(docs.Full(v, 2))}, {"sparse", sortedLists(docs.Sparse(v, 2))}} {
			l := p16OnDoc(v, k.which, k.doc)
			ops = append(ops, l...)
			for _, a := range l {
				for _, b := range l {
					duos = append(duos, duo{a: a, b: b, shared: true})
				}
			}
		}
		// not sorted: tag-value sorts it, see the known findings
		d := docs.Sparse(v, 2)
		reverseLists(d)
		l := p16OnDoc(v, "unsorted", d)
		ops = append(ops, l...)
		for _, a := range l {
			for _, b := range l {
				known := ""
				if v.Num == 3 && (strings.HasPrefix(a.name, "write tagvalue") || strings.HasPrefix(b.name, "write tagvalue")) {
					known = "tagvalue/2.3/sorts"
				}
				duos = append(duos, duo{a: a, b: b, shared: true, known: known})
			}
		}
	}
	return ops, duos
}

// p16Run runs the two under a schedule and compares with what each gives alone.
func p16Run(c *kit.Ctx, p duo, coarse bool, schedule []schd.Segment) schd.Result {
	docA, docB := cloneDoc(p.a.doc), cloneDoc(p.b.doc)
	if p.shared {
		docB = docA
	}
	r := schd.Run(coarse, schedule, func() string { return p.a.do(docA) }, func() string { return p.b.do(docB) })
	key := func(kind string, o *cop) string {
		if p.known != "" {
			return p.known
		}
		return kind + "/" + strings.ReplaceAll(p.name(), " ", "_")
	}
	for i, o := range []*cop{p.a, p.b} {
		if r.Out[i] != o.solo {
			c.Violate(key("result", o), fmt.Sprintf("%s: %s gives another result than alone under %v: %.300s", p.name(), o.name, schedule, docs.Diff(o.solo, r.Out[i])),
				map[string]any{"schedule": schedule, "coarse": coarse, "alone": o.solo, "got": r.Out[i]})
		}
	}
	for i, d := range []any{docA, docB} {
		o := []*cop{p.a, p.b}[i]
		if d != nil && (i == 0 || !p.shared) && !reflect.DeepEqual(d, o.doc) {
			c.Violate(key("changed", o), fmt.Sprintf("%s under %v: the document of %s is changed: %s", p.name(), schedule, o.name, docs.Diff(docs.Canon(o.doc), docs.Canon(d))), schedule)
		}
	}
	return r
}

func runP16(c *kit.Ctx) {
	ops, duos := p16Duos(c)
	if s, ok := strings.CutPrefix(os.Getenv("VERIF_P16"), "solo:"); ok {
		var i int
		fmt.Sscan(s, &i)
		os.Stdout.WriteString(ops[i].do(cloneDoc(ops[i].doc)))
		os.Exit(0)
	}
	if s, ok := strings.CutPrefix(os.Getenv("VERIF_P16"), "race:"); ok {
		p16RaceShard(c, duos, s)
		os.Exit(0)
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	// what each gives alone, in a fresh process
	c.Parallel(len(ops), func(i int) {
		cmd := exec.Command(self, "-prop", "P16", "-tier", c.Tier, "-scratch", kit.Scratch)
		cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_P16=solo:%d", i))
		out, err := cmd.Output()
		if err != nil {
			panic(fmt.Sprintf("%s: %v", ops[i].name, err))
		}
		ops[i].solo = string(out)
		for k := range ops[i].n {
			r := schd.Run(k == 1, nil, func() string { return ops[i].do(cloneDoc(ops[i].doc)) })
			ops[i].n[k] = r.Points[0]
			if r.Out[0] != ops[i].solo {
				c.Violate("alone/"+ops[i].name, fmt.Sprintf("%s gives another result after other operations: %s", ops[i].name, docs.Diff(ops[i].solo, r.Out[0])), nil)
			}
		}
	})
	total := [2]int{}
	for _, o := range ops {
		for k := range total {
			total[k] += o.n[k]
		}
		if strings.HasPrefix(o.solo, "error") || strings.HasPrefix(o.solo, "panic") {
			c.Set("error of "+o.name, o.solo)
		}
	}
	c.Set("operations", len(ops))
	c.Set("points_of_all_operations", total)
	t0 := time.Now()
	p16Interleave(c, duos)
	c.Set("interleavings_s", time.Since(t0).Seconds())
	t0 = time.Now()
	p16Race(c)
	c.Set("race_s", time.Since(t0).Seconds())
}

// p16Interleave enumerates the schedules of each two operations.
func p16Interleave(c *kit.Ctx, duos []duo) {
	var mu sync.Mutex
	most := 0
	// the longest first
	sorted := append([]duo(nil), duos...)
	cost := func(p duo) int { return p.a.n[0] * (p.a.n[0] + p.b.n[0]) }
	sort.SliceStable(sorted, func(i, j int) bool { return cost(sorted[i]) > cost(sorted[j]) })
	c.Parallel(len(sorted), func(i int) {
		p := sorted[i]
		blocked := 0
		each := func(coarse bool, s []schd.Segment) bool {
			if c.Stop() || blocked > 20 {
				return false
			}
			c.Evals.Add(1)
			if r := p16Run(c, p, coarse, s); r.Blocked {
				blocked++
				c.Add("blocked", 1)
			}
			return true
		}
		// the first is interrupted once, at every point, and the second runs to its end
		coarse := 0
		if cost(p) > kit.Pick(c, 60000, 10000000) {
			coarse = 1 // at entries of functions and where it meets its source or destination
		}
		for k := 0; k <= p.a.n[coarse]; k++ {
			if !each(coarse == 1, []schd.Segment{{Thread: 0, Points: k}, {Thread: 1, Points: -1}}) {
				return
			}
		}
		c.Seen(fmt.Sprint(p.name(), coarse))
		mu.Lock()
		most = max(most, p.a.n[coarse])
		mu.Unlock()
		// two preemptions: the second is interrupted too, the first ends, the second ends
		if p.a.n[1]*p.b.n[1] > kit.Pick(c, 100, 10000) {
			return
		}
		c.Add("pairs_with_two_preemptions", 1)
		for k := 1; k <= p.a.n[1]; k++ {
			for m := 1; m < p.b.n[1]; m++ {
				if !each(true, []schd.Segment{{Thread: 0, Points: k}, {Thread: 1, Points: m}, {Thread: 0, Points: -1}}) {
					return
				}
			}
		}
	})
	c.Set("points_at_most", most)
	c.Bound("all schedules with one preemption of %d ordered pairs of operations, on documents of their own and on the same document (at every statement of the repository if both have few, else at every function entry and where they meet source or destination); two preemptions at function entries for pairs with up to %d combinations", len(duos), kit.Pick(c, 100, 10000))
}

func cloneDoc(d any) any {
	if d == nil {
		return nil
	}
	return docs.Clone(d)
}
