package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
)

func init() {
	register("P26", "exploration", runP26)
	register("P27", "exploration", runP27)
}

func runP26(c *kit.Ctx) {
	ends := []common.DocElementID{
		{ElementRefID: "DOCUMENT"}, {ElementRefID: "p1"}, {ElementRefID: "p2"}, {ElementRefID: "f1"}, {ElementRefID: "f2"}, {ElementRefID: "s1"}, {ElementRefID: "s2"},
		{ElementRefID: "gone"}, {ElementRefID: "P1"}, {ElementRefID: "p"}, {ElementRefID: "p1-x"},
		{SpecialID: "NONE"}, {SpecialID: "NOASSERTION"},
		{DocumentRefID: "d", ElementRefID: "p1"}, {DocumentRefID: "d", ElementRefID: "other"}, {DocumentRefID: "d", ElementRefID: "DOCUMENT"},
		{ElementRefID: "NONE"}, {ElementRefID: "document"}, {ElementRefID: "f3"}, {ElementRefID: "s3"},
	}
	// where the elements are, if anywhere: bit set over places
	type layout struct {
		name string
		make func() *spdx.Document
		ids  []string
	}
	file := func(id string, snip ...string) *spdx.File {
		f := &spdx.File{FileName: "./" + id, FileSPDXIdentifier: common.ElementID(id)}
		for _, s := range snip {
			if f.Snippets == nil {
				f.Snippets = map[common.ElementID]*spdx.Snippet{}
			}
			f.Snippets[common.ElementID(s)] = &spdx.Snippet{SnippetSPDXIdentifier: common.ElementID(s)}
		}
		return f
	}
	pkg := func(id string, files ...*spdx.File) *spdx.Package {
		return &spdx.Package{PackageName: "n" + id, PackageSPDXIdentifier: common.ElementID(id), Files: files}
	}
	layouts := []layout{
		{"empty", func() *spdx.Document { return &spdx.Document{} }, nil},
		{"p1", func() *spdx.Document { return &spdx.Document{Packages: []*spdx.Package{pkg("p1")}} }, []string{"p1"}},
		{"p2 p1", func() *spdx.Document { return &spdx.Document{Packages: []*spdx.Package{pkg("p2"), pkg("p1")}} }, []string{"p1", "p2"}},
		{"f1", func() *spdx.Document { return &spdx.Document{Files: []*spdx.File{file("f1")}} }, []string{"f1"}},
		{"f2 f1", func() *spdx.Document { return &spdx.Document{Files: []*spdx.File{file("f2"), file("f1")}} }, []string{"f1", "f2"}},
		{"p1 f1", func() *spdx.Document {
			return &spdx.Document{Packages: []*spdx.Package{pkg("p1")}, Files: []*spdx.File{file("f1")}}
		}, []string{"p1", "f1"}},
		{"p1(f1) f2", func() *spdx.Document {
			return &spdx.Document{Packages: []*spdx.Package{pkg("p1", file("f1"))}, Files: []*spdx.File{file("f2")}}
		}, []string{"p1", "f1", "f2"}},
		{"p1 p2(f1,f2)", func() *spdx.Document {
			return &spdx.Document{Packages: []*spdx.Package{pkg("p1"), pkg("p2", file("f1"), file("f2"))}}
		}, []string{"p1", "p2", "f1", "f2"}},
		{"p1(f1(s1)) f2(s2)", func() *spdx.Document {
			return &spdx.Document{Packages: []*spdx.Package{pkg("p1", file("f1", "s1"))}, Files: []*spdx.File{file("f2", "s2")}}
		}, []string{"p1", "f1", "f2", "s1", "s2"}},
		{"s2 s1", func() *spdx.Document {
			return &spdx.Document{Snippets: []spdx.Snippet{{SnippetSPDXIdentifier: "s2"}, {SnippetSPDXIdentifier: "s1"}}}
		}, []string{"s1", "s2"}},
	}
	nLayouts := len(layouts)
	// three files, each nowhere, in one of two packages or in the document, with and without snippets:
	// single relationships only
	for m := 0; m < 7*7*7; m++ {
		var where [3]int
		var with [3]bool
		x := m
		var name []string
		ids := []string{"p1", "p2"}
		for i := range where {
			if k := x % 7; k > 0 {
				where[i], with[i] = (k+1)/2, k%2 == 0
			}
			x /= 7
			id := fmt.Sprint("f", i+1)
			if where[i] > 0 {
				ids = append(ids, id)
				s := ""
				if with[i] {
					ids = append(ids, fmt.Sprint("s", i+1))
					s = fmt.Sprint("(s", i+1, ")")
				}
				name = append(name, fmt.Sprint(id, s, " in ", []string{"p1", "p2", "document"}[where[i]-1]))
			}
		}
		layouts = append(layouts, layout{"p1 p2 " + strings.Join(name, " "), func() *spdx.Document {
			d := &spdx.Document{Packages: []*spdx.Package{pkg("p1"), pkg("p2")}}
			for i := range where {
				f := file(fmt.Sprint("f", i+1))
				if with[i] {
					f = file(fmt.Sprint("f", i+1), fmt.Sprint("s", i+1))
				}
				switch where[i] {
				case 1, 2:
					p := d.Packages[where[i]-1]
					p.Files = append(p.Files, f)
				case 3:
					d.Files = append(d.Files, f)
				}
			}
			return d
		}, ids})
	}
	for _, l := range layouts[:nLayouts] {
		c.Sample(l.name)
	}
	type rel struct{ a, b int }
	var rels []rel
	for a := range ends {
		for b := range ends {
			rels = append(rels, rel{a, b})
		}
	}
	check := func(l layout, rs []rel, typ string) {
		c.Evals.Add(1)
		doc := l.make()
		doc.SPDXIdentifier = "DOCUMENT"
		known := map[string]bool{"DOCUMENT": true}
		for _, id := range l.ids {
			known[id] = true
		}
		var missing []string
		for _, r := range rs {
			doc.Relationships = append(doc.Relationships, &spdx.Relationship{RefA: ends[r.a], RefB: ends[r.b], Relationship: typ})
			for _, e := range []common.DocElementID{ends[r.a], ends[r.b]} {
				if e.SpecialID == "" && e.DocumentRefID == "" && !known[string(e.ElementRefID)] {
					missing = append(missing, string(e.ElementRefID))
				}
			}
		}
		before := docs.Canon(doc)
		err, p := guardErr(func() error { return spdxlib.ValidateDocument(doc) })
		var rd []string
		for _, r := range rs {
			rd = append(rd, fmt.Sprintf("%s-%s", docElem(ends[r.a]), docElem(ends[r.b])))
		}
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%s/%v", l.name, rd), fmt.Sprintf("document with %s and relationships %v: %s", l.name, rd, what), map[string]any{"elements": l.name, "relationships": rd})
		}
		switch {
		case p != nil:
			bad(fmt.Sprint("panic: ", p))
		case len(missing) == 0 && err != nil:
			bad("is rejected: " + err.Error())
		case len(missing) > 0 && err == nil:
			bad(fmt.Sprintf("is accepted although %v is missing", missing))
		case docs.Canon(doc) != before:
			bad("is changed: " + docs.Diff(before, docs.Canon(doc)))
		case err != nil:
			for _, m := range missing {
				if strings.Contains(err.Error(), m) {
					return
				}
			}
			bad(fmt.Sprintf("error %q names none of the missing %v", err, missing))
		}
	}
	types := []string{"DESCRIBES", "CONTAINS", "OTHER"}
	c.Parallel(len(layouts)*len(rels), func(n int) {
		l, r := layouts[n%len(layouts)], rels[n/len(layouts)]
		c.Seen(fmt.Sprint(l.name, r))
		if n < len(layouts) {
			check(l, nil, "")
		}
		for _, t := range types {
			check(l, []rel{r}, t)
		}
		if n%len(layouts) >= nLayouts {
			return
		}
		for _, q := range rels {
			if c.Stop() {
				return
			}
			check(l, []rel{r, q}, types[n%3])
			if c.Thorough() || n%17 == 0 {
				check(l, []rel{q, r, {0, 0}}, types[0])
				check(l, []rel{{0, 0}, q, r, q}, types[1])
			}
		}
	})
	// the longer the list the later the fault: a dangling end at every position of long lists
	for _, n := range []int{3, 10, 100} {
		for k := 0; k < n; k++ {
			for _, side := range []int{0, 1} {
				rs := make([]rel, n)
				for i := range rs {
					rs[i] = rel{i % 4, (i + 1) % 4}
				}
				if side == 0 {
					rs[k].a = 7
				} else {
					rs[k].b = 7
				}
				check(layouts[6], rs, "OTHER")
				ok := make([]rel, n)
				for i := range ok {
					ok[i] = rel{i % 2, []int{3, 4, 11, 12, 13, 14}[i%6]}
				}
				check(layouts[6], ok, "OTHER")
			}
		}
	}
	c.Bound("%d placements of elements x all ordered pairs of relationships with both ends over %d identifiers; %d placements of three files, with and without snippets, x all single relationships; long lists with a dangling end at every position", nLayouts, len(ends), len(layouts)-nLayouts)
}

func docElem(d common.DocElementID) string {
	s := string(d.ElementRefID) + d.SpecialID
	if d.SpecialID != "" {
		s = "!" + s
	}
	if d.DocumentRefID != "" {
		s = string(d.DocumentRefID) + ":" + s
	}
	return s
}

func runP27(c *kit.Ctx) {
	ends := []common.DocElementID{
		{ElementRefID: "DOCUMENT"}, {ElementRefID: "p1"}, {ElementRefID: "p2"}, {ElementRefID: "p3"}, {ElementRefID: "f1"}, {ElementRefID: "gone"},
		{SpecialID: "NONE"}, {DocumentRefID: "d", ElementRefID: "p1"}, {DocumentRefID: "d", ElementRefID: "DOCUMENT"},
	}
	types := []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "describes"}
	type rel struct{ a, t, b int }
	var rels []rel
	for a := range ends {
		for t := range types {
			for b := range ends {
				if t >= 2 && (a > 1 || b > 2) {
					continue // the other types matter little
				}
				rels = append(rels, rel{a, t, b})
			}
		}
	}
	pkgSets := [][]string{{}, {"p1"}, {"p2"}, {"p1", "p2"}, {"p2", "p1"}, {"p3", "p1", "p2"}}
	check := func(pkgs []string, rs []rel) {
		c.Evals.Add(1)
		doc := &spdx.Document{SPDXIdentifier: "DOCUMENT", Packages: []*spdx.Package{}, Relationships: []*spdx.Relationship{}, Files: []*spdx.File{{FileSPDXIdentifier: "f1"}}}
		isPkg := map[common.DocElementID]bool{}
		for _, p := range pkgs {
			doc.Packages = append(doc.Packages, &spdx.Package{PackageSPDXIdentifier: common.ElementID(p)})
			isPkg[common.DocElementID{ElementRefID: common.ElementID(p)}] = true
		}
		want := map[string]bool{}
		self := common.DocElementID{ElementRefID: "DOCUMENT"}
		var rd []string
		for _, r := range rs {
			a, b, t := ends[r.a], ends[r.b], types[r.t]
			doc.Relationships = append(doc.Relationships, &spdx.Relationship{RefA: a, RefB: b, Relationship: t})
			if t == "DESCRIBES" && a == self && isPkg[b] {
				want[string(b.ElementRefID)] = true
			}
			if t == "DESCRIBED_BY" && b == self && isPkg[a] {
				want[string(a.ElementRefID)] = true
			}
			rd = append(rd, fmt.Sprintf("%s-%s-%s", docElem(a), t, docElem(b)))
		}
		if len(pkgs) == 1 {
			want = map[string]bool{pkgs[0]: true}
		}
		var ws []string
		for w := range want {
			ws = append(ws, w)
		}
		sort.Strings(ws)
		before := docs.Canon(doc)
		var got []common.ElementID
		err, p := guardErr(func() (e error) { got, e = spdxlib.GetDescribedPackageIDs(doc); return })
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%v/%v", pkgs, rd), fmt.Sprintf("packages %v, relationships %v: %s", pkgs, rd, what), map[string]any{"packages": pkgs, "relationships": rd})
		}
		var gs []string
		for _, g := range got {
			gs = append(gs, string(g))
		}
		switch {
		case p != nil:
			bad(fmt.Sprint("panic: ", p))
		case len(ws) == 0 && (err == nil || len(gs) > 0):
			bad(fmt.Sprintf("describes %v, no error", gs))
		case len(ws) > 0 && err != nil:
			bad("error: " + err.Error())
		case !reflect.DeepEqual(gs, ws):
			bad(fmt.Sprintf("describes %v instead of %v", gs, ws))
		case docs.Canon(doc) != before:
			bad("the document is changed: " + docs.Diff(before, docs.Canon(doc)))
		}
	}
	c.Parallel(len(rels), func(i int) {
		for _, pk := range pkgSets {
			check(pk, nil)
			check(pk, []rel{rels[i]})
			for _, q := range rels {
				if c.Stop() {
					return
				}
				c.Seen(fmt.Sprint(pk, i, q))
				check(pk, []rel{rels[i], q})
				if len(pk) > 1 && rels[i].t < 2 && q.t < 2 && (rels[i].a == 0 || rels[i].b == 0) && (q.a == 0 || q.b == 0) {
					for _, z := range rels {
						if z.t < 2 && (z.a == 0 || z.b == 0 || c.Thorough()) {
							check(pk, []rel{rels[i], q, z})
						}
					}
				}
			}
		}
	})
	p27Filter(c)
	p27Sort(c)
	c.Bound("%d sets of packages x all pairs of %d relationships (and triples of those about the document); all 0/1 filters of lists of up to 5 relationships; all lists of up to %d identifiers", len(pkgSets), len(rels), Count(c, 5, 6))
}

// p27Filter: all ways to choose from lists of relationships.
func p27Filter(c *kit.Ctx) {
	for n := 0; n <= 5; n++ {
		doc := &spdx.Document{}
		for i := 0; i < n; i++ {
			doc.Relationships = append(doc.Relationships, &spdx.Relationship{RefA: common.DocElementID{ElementRefID: common.ElementID(fmt.Sprint("a", (i*3)%4))},
				RefB: common.DocElementID{ElementRefID: common.ElementID(fmt.Sprint("b", 9-i))}, Relationship: "OTHER"})
		}
		total := 1
		for i := 0; i < n; i++ {
			total *= 3
		}
		for m := 0; m < total; m++ {
			c.Evals.Add(1)
			choice := map[*spdx.Relationship]int{}
			var want []common.ElementID
			x := m
			for _, r := range doc.Relationships {
				choice[r] = x % 3
				x /= 3
				switch choice[r] {
				case 1:
					want = append(want, r.RefA.ElementRefID)
				case 2:
					want = append(want, r.RefB.ElementRefID)
				}
			}
			calls := 0
			got, err := spdxlib.FilterRelationships(doc, func(r *spdx.Relationship) *common.ElementID {
				calls++
				switch choice[r] {
				case 1:
					return &r.RefA.ElementRefID
				case 2:
					return &r.RefB.ElementRefID
				}
				return nil
			})
			if err != nil || len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) || calls != n {
				c.Violate(fmt.Sprintf("filter/%d/%d", n, m), fmt.Sprintf("filter %d of %d relationships: %v instead of %v, error %v, %d calls", m, n, got, want, err, calls), nil)
			}
		}
	}
}

// p27Sort: all lists of identifiers.
func p27Sort(c *kit.Ctx) {
	ids := []common.ElementID{"a", "A", "a1", "a10", "a2", ""}
	n := Count(c, 5, 6)
	var lists [][]common.ElementID
	var gen func(l []common.ElementID)
	gen = func(l []common.ElementID) {
		lists = append(lists, append([]common.ElementID(nil), l...))
		if len(l) < n {
			for _, id := range ids {
				gen(append(l, id))
			}
		}
	}
	gen(nil)
	long := func(n, k int) (l []common.ElementID) {
		for i := 0; i < n; i++ {
			l = append(l, common.ElementID(fmt.Sprint("i", i*k%n)))
		}
		return
	}
	for _, n := range []int{11, 12, 13, 14, 50, 51, 100} {
		for _, k := range []int{1, 3, 7, n - 1} {
			lists = append(lists, long(n, k))
		}
	}
	for _, l := range lists {
		c.Evals.Add(1)
		want := append([]common.ElementID(nil), l...)
		for i := range want { // insertion sort
			for k := i; k > 0 && want[k] < want[k-1]; k-- {
				want[k], want[k-1] = want[k-1], want[k]
			}
		}
		got := spdxlib.SortElementIDs(append([]common.ElementID(nil), l...))
		if len(got) != len(want) || len(want) > 0 && !reflect.DeepEqual(got, want) {
			c.Violate(fmt.Sprintf("sort/%q", l), fmt.Sprintf("sorting %q gives %q", l, got), l)
		}
	}
}
