//go:build maporder

package checks

import (
	"fmt"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/mapord"
	"verifharness/rdfx"

	"github.com/spdx/tools-golang/spdx/v2/common"
	rdf2_2 "github.com/spdx/tools-golang/spdx/v2/v2_2/rdf"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	rdf2_3 "github.com/spdx/tools-golang/spdx/v2/v2_3/rdf"
)

func init() { register("P18", "exploration", runP18) }

// rdfCase is a document whose serialisations are explored.
type rdfCase struct {
	name string
	ver  *docs.Version
	doc  *v2_3.Document
	tree map[string]*rdfx.Expr
}

// rdfCases are documents in which the elements refer to each other in many ways.
func rdfCases() (out []rdfCase) {
	for _, v := range docs.Versions {
		if !rdfVersion(v) {
			continue
		}
		mk := func(name string, change func(d *v2_3.Document)) {
			d := docs.Clone(smallRDF(v)).(*v2_3.Document)
			change(d)
			if !rdfx.Fix(d) {
				panic(name + ": no document")
			}
			out = append(out, rdfCase{name: name, ver: v, doc: d})
		}
		// bare leaves of a document its skeleton
		bare := func(d *v2_3.Document) {
			d.Relationships, d.Annotations, d.Reviews, d.OtherLicenses, d.ExternalDocumentReferences = nil, nil, nil, nil, nil
			p, f := d.Packages[0], d.Files[0]
			g := p.Files[0]
			s := rdfSnippet(d)
			*p = v2_3.Package{PackageName: "p", PackageSPDXIdentifier: p.PackageSPDXIdentifier, PackageDownloadLocation: "NONE", Files: p.Files}
			*f = v2_3.File{FileName: "f", FileSPDXIdentifier: f.FileSPDXIdentifier}
			*g = v2_3.File{FileName: "g", FileSPDXIdentifier: g.FileSPDXIdentifier}
			_ = s
		}
		rel := func(a common.ElementID, typ string, b common.ElementID) *v2_3.Relationship {
			return &v2_3.Relationship{RefA: common.DocElementID{ElementRefID: a}, RefB: common.DocElementID{ElementRefID: b}, Relationship: typ}
		}
		mk("one of each", func(d *v2_3.Document) {})
		mk("odd texts", func(d *v2_3.Document) {
			bare(d)
			const odd = "Zo\u00eb \u2013 \u00abx\u00bb & <b> &amp; \"q\" 'a' ]]> %20\n\t\tline  two\U0001F600"
			d.DocumentComment, d.DocumentName, d.CreationInfo.CreatorComment = odd, odd, odd
			p, f, g := d.Packages[0], d.Files[0], d.Packages[0].Files[0]
			p.PackageComment, p.PackageDescription, p.PackageVersion, p.PackageCopyrightText = odd, odd, odd, odd
			f.FileComment, f.FileCopyrightText, g.FileNotice, g.FileContributors = odd, odd, odd, []string{odd, "x"}
		})
		mk("package and files", bare)
		mk("package not analyzed, with a file", func(d *v2_3.Document) {
			bare(d)
			p := d.Packages[0]
			p.FilesAnalyzed, p.IsFilesAnalyzedTagPresent = false, true
			p.PackageVersion, p.PackageHomePage = "1", "http://example.org/"
		})
		mk("package analyzed, with a file", func(d *v2_3.Document) {
			bare(d)
			p := d.Packages[0]
			p.FilesAnalyzed, p.IsFilesAnalyzedTagPresent = true, true
			p.PackageVerificationCode = &common.PackageVerificationCode{Value: "85ed0817af83a24ad8da68c2b5094de69833983c", ExcludedFiles: []string{"./x"}}
		})
		mk("the same of several elements", func(d *v2_3.Document) {
			bare(d)
			sum := []common.Checksum{{Algorithm: "SHA1", Value: "ab"}, {Algorithm: "MD5", Value: "cd"}}
			d.Packages[0].PackageChecksums, d.Packages[0].Files[0].Checksums, d.Files[0].Checksums = sum, sum, sum
			for _, a := range rdfx.Elements(d) {
				d.Relationships = append(d.Relationships, rel(a, "CONTAINS", d.Files[0].FileSPDXIdentifier), rel(a, "DEPENDS_ON", d.Packages[0].PackageSPDXIdentifier))
				d.Annotations = append(d.Annotations, &v2_3.Annotation{Annotator: common.Annotator{Annotator: "A", AnnotatorType: "Tool"}, AnnotationDate: "1", AnnotationType: "OTHER",
					AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: a}, AnnotationComment: "note"})
			}
		})
		mk("files depend on each other", func(d *v2_3.Document) {
			bare(d)
			a, b := d.Packages[0].Files[0], d.Files[0]
			a.FileDependencies, b.FileDependencies = []string{string(b.FileSPDXIdentifier)}, []string{string(a.FileSPDXIdentifier)}
		})
		mk("relationships in a circle", func(d *v2_3.Document) {
			bare(d)
			x := rdfx.Elements(d)
			for i, a := range x {
				d.Relationships = append(d.Relationships, rel(a, "CONTAINS", x[(i+1)%len(x)]))
			}
		})
		mk("the document related to", func(d *v2_3.Document) {
			bare(d)
			for _, a := range rdfx.Elements(d)[1:] {
				d.Relationships = append(d.Relationships, rel(a, "DESCRIBED_BY", d.SPDXIdentifier))
			}
		})
		mk("all relate to a file and it to all", func(d *v2_3.Document) {
			bare(d)
			f := d.Files[0].FileSPDXIdentifier
			for _, a := range rdfx.Elements(d) {
				d.Relationships = append(d.Relationships, rel(a, "DEPENDS_ON", f), rel(f, "DEPENDENCY_OF", a))
			}
		})
		mk("snippets of several files", func(d *v2_3.Document) {
			bare(d)
			a, b := d.Packages[0].Files[0], d.Files[0]
			for i, f := range []*v2_3.File{a, b} {
				f.Snippets = map[common.ElementID]*v2_3.Snippet{}
				for k := 0; k < 2; k++ {
					id := common.ElementID(fmt.Sprintf("Snip-%d-%d", i, k))
					other := a.FileSPDXIdentifier
					if k == 0 {
						other = b.FileSPDXIdentifier
					}
					f.Snippets[id] = &v2_3.Snippet{SnippetSPDXIdentifier: id, SnippetFromFileSPDXIdentifier: f.FileSPDXIdentifier, SnippetName: string(id), Ranges: []common.SnippetRange{
						{StartPointer: common.SnippetRangePointer{Offset: 1 + k}, EndPointer: common.SnippetRangePointer{Offset: 9}},
						{StartPointer: common.SnippetRangePointer{LineNumber: 2, FileSPDXIdentifier: other}, EndPointer: common.SnippetRangePointer{LineNumber: 3 + i, FileSPDXIdentifier: other}},
					}}
					d.Relationships = append(d.Relationships, rel(d.SPDXIdentifier, "CONTAINS", id), rel(id, "COPY_OF", f.FileSPDXIdentifier))
				}
			}
		})
		mk("annotations of all", func(d *v2_3.Document) {
			bare(d)
			for i, a := range rdfx.Elements(d) {
				for k := 0; k < 2; k++ {
					d.Annotations = append(d.Annotations, &v2_3.Annotation{Annotator: common.Annotator{Annotator: "A", AnnotatorType: "Tool"}, AnnotationDate: fmt.Sprint(i), AnnotationType: "OTHER",
						AnnotationSPDXIdentifier: common.DocElementID{ElementRefID: a}, AnnotationComment: fmt.Sprint("note ", k)})
				}
			}
		})
		mk("licenses", func(d *v2_3.Document) {
			lic := d.OtherLicenses
			bare(d)
			d.OtherLicenses = lic
			e := rdfx.And(rdfx.Or(rdfx.Leaf("MIT"), rdfx.Leaf("LicenseRef-1")), rdfx.With(rdfx.Leaf("GPL-2.0-only"), "Classpath-exception-2.0"), rdfx.Plus(rdfx.Leaf("LicenseRef-2"))).String()
			p, f := d.Packages[0], d.Files[0]
			p.PackageLicenseConcluded, p.PackageLicenseDeclared, p.PackageLicenseInfoFromFiles = e, "LicenseRef-1", []string{"LicenseRef-1", "LicenseRef-2", "MIT"}
			f.LicenseConcluded, f.LicenseInfoInFiles = e, []string{"LicenseRef-2", e}
		})
		mk("two packages share a file", func(d *v2_3.Document) {
			bare(d)
			q := docs.Clone(d.Packages[0]).(*v2_3.Package)
			q.PackageSPDXIdentifier, q.PackageName, q.Files = "Second", "q", nil
			q.PackageChecksums = []common.Checksum{{Algorithm: "SHA1", Value: "ab"}, {Algorithm: "MD5", Value: "cd"}}
			d.Packages = append(d.Packages, q)
			d.Relationships = append(d.Relationships, rel("Second", "DEPENDS_ON", d.Packages[0].PackageSPDXIdentifier), rel(d.Packages[0].PackageSPDXIdentifier, "DEPENDENCY_OF", "Second"),
				rel("Second", "CONTAINS", d.Packages[0].Files[0].FileSPDXIdentifier))
		})
	}
	return out
}

// orderings gives all orders of n when there are few, else all exchanges of two, rotations and the reverse.
func orderings(n, all int) [][]int {
	if n > all {
		out := mapord.Transpositions(n)[1:]
		for k := 1; k < n; k++ {
			p := make([]int, n)
			for i := range p {
				p[i] = (i + k) % n
			}
			out = append(out, p)
		}
		return out
	}
	var out [][]int
	var rec func(p []int, used int)
	rec = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>i&1 == 0 {
				rec(append(p, i), used|1<<i)
			}
		}
	}
	rec(nil, 0)
	return out[1:]
}

func runP18(c *kit.Ctx) {
	cases := rdfCases()
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, f) }
	for _, cs := range cases {
		for oi := 0; oi < 2*len(rdfOpts); oi++ {
			o := rdfOpts[oi%len(rdfOpts)]
			o.Spec = specName(cs.ver)
			g := rdfx.Encode(cs.doc, o)
			name := fmt.Sprintf("%s %s (way %d)", cs.ver.Name, cs.name, oi)
			if oi >= len(rdfOpts) { // what is alike stated once
				if !g.Share() {
					continue
				}
				name += ", shared"
			}
			judge := func(what string, s rdfx.Shape) {
				add(func() {
					text := g.XML(s)
					if c.Seen(text) {
						rdfJudge(c, cs.ver, name+"/"+what, name+", "+what, text, cs.doc)
					}
				})
			}
			p18Shapes(c, cs, g, oi, judge)
			p18Orders(c, cs, g, oi, judge)
			if oi == 0 || c.Thorough() {
				add(func() { p18Maps(c, cs, g, name) })
			}
			add(func() { p18Text(c, cs, g, name) })
		}
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
	p18Documents(c)
	c.Bound("%d documents stated in %d ways each", len(cases), len(rdfOpts))
}

// p18Documents: every document of the space the graph reader is checked on, in other orders.
func p18Documents(c *kit.Ctx) {
	c.Bound("every document with one deviation from four base documents, with all statements in reverse, rotated, each node on its own, before and after the document")
	eachDoc(c, spaceOpts{format: docs.RDF, vers: rdfVersion, maxAlts: kit.Pick(c, 6, 0)}, func(d docCase) {
		up := rdfDoc(d.doc)
		if up == nil {
			return
		}
		o := rdfOpts[0]
		o.Spec = specName(d.ver)
		g := rdfx.Encode(up, o)
		turn := func(k int) func(n *rdfx.Node) []int {
			return func(n *rdfx.Node) []int {
				p := make([]int, len(n.Props))
				for i := range p {
					p[i] = len(p) - 1 - i
					if k > 0 {
						p[i] = (i + len(p)/2) % len(p)
					}
				}
				return p
			}
		}
		for k := 0; k < 4; k++ {
			s := rdfx.Shape{Perm: turn(k & 1), OwnFirst: k == 3, Mode: func(*rdfx.Node) int { return k >> 1 }}
			if text := g.XML(s); c.Seen(text) {
				rdfJudge(c, d.ver, fmt.Sprintf("%s/order%d", caseKey(d), k), fmt.Sprintf("%s %s %s, order %d", d.ver.Name, d.base, d.label, k), text, up)
			}
		}
	})
}

// p18Shapes: which nodes stand on their own.
func p18Shapes(c *kit.Ctx, cs rdfCase, g *rdfx.Graph, oi int, judge func(string, rdfx.Shape)) {
	for m := rdfx.Inline; m <= rdfx.OwnTyped; m++ {
		for k := 0; k < 4; k++ {
			s := rdfx.Shape{Mode: func(*rdfx.Node) int { return m }, OwnFirst: k&1 != 0, Reverse: k&2 != 0}
			judge(fmt.Sprintf("all nodes in mode %d, order %d", m, k), s)
			// only those with a name
			s.Mode = func(n *rdfx.Node) int {
				if n.IRI == "" {
					return rdfx.Inline
				}
				return m
			}
			judge(fmt.Sprintf("named nodes in mode %d, order %d", m, k), s)
		}
	}
	nodes := g.Nodes
	deep := cs.name != "one of each"
	for i, a := range nodes {
		if a == g.Doc {
			continue
		}
		for m := rdfx.Own; m <= rdfx.OwnTyped; m++ {
			for k := 0; k < 2; k++ {
				judge(fmt.Sprintf("node %d in mode %d, order %d", i, m, k), rdfx.Shape{OwnFirst: k == 1, Mode: func(n *rdfx.Node) int {
					if n == a {
						return m
					}
					return rdfx.Inline
				}})
				// and all but it
				judge(fmt.Sprintf("all but node %d in mode %d, order %d", i, m, k), rdfx.Shape{OwnFirst: k == 1, Mode: func(n *rdfx.Node) int {
					if n == a {
						return rdfx.Inline
					}
					return m
				}})
			}
			if !deep || oi > 0 && !c.Thorough() {
				continue
			}
			for j := 0; j < i; j++ {
				b := nodes[j]
				if b == g.Doc || !c.Thorough() && (a.IRI == "" || b.IRI == "") {
					continue
				}
				for m2 := rdfx.Own; m2 <= rdfx.OwnTyped; m2++ {
					for k := 0; k < 4; k++ {
						judge(fmt.Sprintf("nodes %d, %d in modes %d, %d, order %d", i, j, m, m2, k), rdfx.Shape{OwnFirst: k&1 != 0, Reverse: k&2 != 0, Mode: func(n *rdfx.Node) int {
							switch n {
							case a:
								return m
							case b:
								return m2
							}
							return rdfx.Inline
						}})
					}
				}
			}
		}
	}
}

// p18Orders: the order of the statements of each node.
func p18Orders(c *kit.Ctx, cs rdfCase, g *rdfx.Graph, oi int, judge func(string, rdfx.Shape)) {
	all := Count(c, 4, 6)
	reverse := func(n *rdfx.Node) []int {
		p := make([]int, len(n.Props))
		for i := range p {
			p[i] = len(p) - 1 - i
		}
		return p
	}
	for m := rdfx.Inline; m <= rdfx.OwnTyped; m++ {
		mode := func(*rdfx.Node) int { return m }
		judge(fmt.Sprintf("all statements in reverse, mode %d", m), rdfx.Shape{Mode: mode, Perm: reverse})
		judge(fmt.Sprintf("all statements in reverse, mode %d, own first", m), rdfx.Shape{Mode: mode, Perm: reverse, OwnFirst: true, Reverse: true})
		if m == rdfx.OwnTyped && !c.Thorough() || oi > 0 && !c.Thorough() {
			continue
		}
		for i, a := range g.Nodes {
			for _, p := range orderings(len(a.Props), all) {
				judge(fmt.Sprintf("node %d as %v, mode %d", i, p, m), rdfx.Shape{Mode: mode, Perm: func(n *rdfx.Node) []int {
					if n == a {
						return p
					}
					return nil
				}})
			}
		}
	}
}

// p18Maps: the orders in which the library's maps are walked.
func p18Maps(c *kit.Ctx, cs rdfCase, g *rdfx.Graph, name string) {
	want := rdfx.Canon(cs.doc)
	orders := func(n int) [][]int {
		if n <= Count(c, 7, 20) {
			return mapord.Transpositions(n)
		}
		id := mapord.Transpositions(n)[:1]
		for k := 1; k < n; k++ { // rotations
			p := make([]int, n)
			for i := range p {
				p[i] = (i + k) % n
			}
			id = append(id, p)
		}
		return id
	}
	for m := rdfx.Inline; m <= rdfx.Own; m++ {
		text := g.XML(rdfx.Shape{Mode: func(*rdfx.Node) int { return m }})
		failed := false
		deviations := 1
		if c.Thorough() && cs.name == "package and files" {
			deviations = 2
		}
		runs, points := mapord.Explore(deviations, orders, func() bool { return failed || c.Stop() }, func(script []int) {
			c.Evals.Add(1)
			got, err := readRDF(cs.ver, text)
			mapord.Free(func() {
				if err != nil {
					failed = true
					c.Violate(name+"/maps", fmt.Sprintf("%s, map orders %v: reading fails: %v", name, script, err), text)
				} else if w := rdfx.Canon(got); w != want {
					failed = true
					c.Violate(name+"/maps", fmt.Sprintf("%s, map orders %v: read otherwise than stated: %s", name, script, rdfx.Diff(want, w)), text)
				}
			})
		})
		c.Transitions.Add(int64(points))
		c.States.Add(int64(runs))
	}
}

// p18Text: ways of writing the same XML, and reading again.
func p18Text(c *kit.Ctx, cs rdfCase, g *rdfx.Graph, name string) {
	names, styles := rdfx.Styles(cs.doc.DocumentNamespace)
	for i, st := range styles {
		for m := rdfx.Inline; m <= rdfx.OwnTyped; m++ {
			text := g.XML(rdfx.Shape{Style: st, Mode: func(*rdfx.Node) int { return m }})
			what := fmt.Sprintf("%s, mode %d", names[i], m)
			rdfJudge(c, cs.ver, name+"/"+what, name+", "+what, text, cs.doc)
			p18Direct(c, cs, name+", "+what, text)
		}
	}
	text := g.XML(rdfx.Shape{})
	prefix := func(t, from, to string) string {
		return strings.NewReplacer("<"+from+":", "<"+to+":", "</"+from+":", "</"+to+":", "xmlns:"+from+"=", "xmlns:"+to+"=").Replace(t)
	}
	for _, w := range []struct{ what, text string }{
		{"with an XML declaration", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + text},
		{"with another prefix", prefix(text, "spdx", "s")},
		{"with swapped prefixes", prefix(prefix(prefix(text, "spdx", "tmp"), "rdfs", "spdx"), "tmp", "rdfs")},
		{"indented with tabs", strings.ReplaceAll(text, "\n  ", "\n\t")},
		{"once more", text},
		{"yet once more", text},
	} {
		rdfJudge(c, cs.ver, name+"/"+w.what, name+", "+w.what, w.text, cs.doc)
	}
}

// p18Direct: the readers of the versions read as the reader for all versions.
func p18Direct(c *kit.Ctx, cs rdfCase, what, text string) {
	c.Evals.Add(1)
	var got any
	var err error
	p, _ := kit.Guard(func() {
		if cs.ver.Num == 2 {
			got, err = rdf2_2.Read(strings.NewReader(text))
		} else {
			got, err = rdf2_3.Read(strings.NewReader(text))
		}
	})
	if p != nil {
		err = fmt.Errorf("panic: %v", p)
	}
	if err != nil {
		c.Violate("direct/"+what, what+": the reader of the version fails: "+err.Error(), text)
	} else if w, g := rdfx.Canon(cs.doc), rdfx.Canon(got); w != g {
		c.Violate("direct/"+what, what+": the reader of the version reads otherwise than stated: "+rdfx.Diff(w, g), text)
	}
}
