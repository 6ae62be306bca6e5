//go:build maporder

package checks

import (
	"bytes"
	"fmt"
	"hash/crc32"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/rdfx"

	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx/common"
	v2common "github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

func init() { register("P17", "exploration", runP17) }

func rdfVersion(v *docs.Version) bool { return v.Num >= 2 }

// rdfOpts are ways of stating a document; the first is the default.
var rdfOpts = []rdfx.Opts{
	{Describe: true},
	{Describe: true, LicNode: 1, Literal: true},
	{Describe: false, LicNode: 2, Small: true},
	{Describe: true, LicNode: 1, Small: true, Purpose2: true},
}

// readRDF reads text into a document of the version; a panic is an error of its own kind.
func readRDF(v *docs.Version, text string) (doc any, err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	doc = v.New()
	err = rdf.ReadInto(bytes.NewReader([]byte(text)), doc.(common.AnyDocument))
	return doc, err
}

// rdfJudge compares what is read from text with the document it states.
func rdfJudge(c *kit.Ctx, v *docs.Version, key, label, text string, want *v2_3.Document) {
	c.Evals.Add(1)
	got, err := readRDF(v, text)
	replay := func() any {
		return map[string]any{"version": v.Name, "label": label, "rdf": text, "stated": rdfx.Canon(want)}
	}
	if err != nil {
		c.Violate(key, fmt.Sprintf("%s: reading fails: %v", label, err), replay())
		return
	}
	w, g := rdfx.Canon(want), rdfx.Canon(got)
	if w != g {
		c.Violate(key, fmt.Sprintf("%s: read otherwise than stated: %s", label, rdfx.Diff(w, g)), replay())
	}
}

// rdfDoc narrows a document to RDF; nil when that leaves none.
func rdfDoc(doc any) *v2_3.Document {
	up := rdfx.Up(docs.Clone(doc))
	if !rdfx.Fix(up) {
		return nil
	}
	return up
}

func specName(v *docs.Version) string { return "SPDX-" + v.Name }

func runP17(c *kit.Ctx) {
	// documents
	eachDoc(c, spaceOpts{format: docs.RDF, pairsOn: kit.Pick(c, nil, []string{"full1"}), vers: rdfVersion}, func(d docCase) {
		up := rdfDoc(d.doc)
		if up == nil {
			return
		}
		turn := int(crc32.ChecksumIEEE([]byte(d.base + d.label)))
		for i, o := range rdfOpts {
			if i > 0 && !c.Thorough() && (i != 1+turn%3 || strings.Contains(d.label, ", ")) {
				continue
			}
			o.Spec = specName(d.ver)
			text := rdfx.Encode(up, o).XML(rdfx.Shape{})
			if !c.Seen(text) {
				continue
			}
			rdfJudge(c, d.ver, caseKey(d), fmt.Sprintf("%s %s %s (way %d)", d.ver.Name, d.base, d.label, i), text, up)
		}
	})
	var jobs []func()
	add := func(f func()) { jobs = append(jobs, f) }
	for _, v := range docs.Versions {
		if rdfVersion(v) {
			p17Licenses(c, v, add)
			p17Kinds(c, v, add)
			add(func() { p17Read(c, v) })
		}
	}
	c.Parallel(len(jobs), func(i int) { jobs[i]() })
}

// licenseTrees gives all expressions up to a depth over a few leaves.
func licenseTrees(depth int) []*rdfx.Expr {
	leaves := []*rdfx.Expr{rdfx.Leaf("MIT"), rdfx.Leaf("Apache-2.0"), rdfx.Leaf("LicenseRef-1"), rdfx.Leaf("ISC"),
		rdfx.With(rdfx.Leaf("GPL-2.0-only"), "Classpath-exception-2.0"), rdfx.With(rdfx.Leaf("LicenseRef-2"), "Font-exception-2.0")}
	level := leaves
	out := append([]*rdfx.Expr(nil), leaves...)
	for d := 1; d <= depth; d++ {
		var next []*rdfx.Expr
		seen := map[string]bool{}
		for _, a := range level {
			for _, b := range leaves {
				for _, op := range []string{"AND", "OR"} {
					for _, e := range []*rdfx.Expr{{Op: op, Subs: []*rdfx.Expr{a, b}}, {Op: op, Subs: []*rdfx.Expr{b, a}}, {Op: op, Subs: []*rdfx.Expr{a}},
						{Op: op, Subs: []*rdfx.Expr{b, a, leaves[3]}}} {
						if k := fmt.Sprintf("%v", rdfTree(e)); !seen[k] {
							seen[k] = true
							next = append(next, e)
						}
					}
				}
			}
		}
		out = append(out, next...)
		level = next
	}
	// two sets side by side
	sets := []*rdfx.Expr{rdfx.And(leaves[0], leaves[1]), rdfx.Or(leaves[0], leaves[1]), rdfx.And(leaves[2], leaves[4]), rdfx.Or(leaves[3], leaves[2])}
	for _, a := range sets {
		for _, b := range sets {
			out = append(out, rdfx.And(a, b), rdfx.Or(a, b), rdfx.And(rdfx.Or(a, leaves[3]), b))
		}
	}
	// sets of one member around a set or a license, once to three times, in a set of one to three members
	one := func(op string, e *rdfx.Expr) *rdfx.Expr { return &rdfx.Expr{Op: op, Subs: []*rdfx.Expr{e}} }
	for _, a := range append(append([]*rdfx.Expr(nil), sets[1], sets[2]), leaves[2], leaves[4]) {
		wrapped := []*rdfx.Expr{a}
		for d := 0; d < 3; d++ {
			var next []*rdfx.Expr
			for _, w := range wrapped {
				next = append(next, one("AND", w), one("OR", w))
			}
			wrapped = next
			for _, w := range wrapped {
				for _, op := range []string{"AND", "OR"} {
					out = append(out, &rdfx.Expr{Op: op, Subs: []*rdfx.Expr{w, leaves[3]}}, &rdfx.Expr{Op: op, Subs: []*rdfx.Expr{leaves[3], w}}, &rdfx.Expr{Op: op, Subs: []*rdfx.Expr{leaves[3], w, sets[3]}})
				}
			}
		}
	}
	return out
}

func rdfTree(e *rdfx.Expr) string {
	s := e.Op + e.ID + "("
	for _, x := range e.Subs {
		s += rdfTree(x) + ","
	}
	return s + ")"
}

// licensePlaces are the places a license can stand in.
var licensePlaces = []struct {
	name string
	get  func(d *v2_3.Document) *string
}{
	{"package concluded", func(d *v2_3.Document) *string { return &d.Packages[0].PackageLicenseConcluded }},
	{"package declared", func(d *v2_3.Document) *string { return &d.Packages[0].PackageLicenseDeclared }},
	{"package info from files", func(d *v2_3.Document) *string { return &d.Packages[0].PackageLicenseInfoFromFiles[0] }},
	{"file concluded", func(d *v2_3.Document) *string { return &d.Packages[0].Files[0].LicenseConcluded }},
	{"file info", func(d *v2_3.Document) *string { return &d.Packages[0].Files[0].LicenseInfoInFiles[0] }},
	{"snippet concluded", func(d *v2_3.Document) *string { return &rdfSnippet(d).SnippetLicenseConcluded }},
	{"snippet info", func(d *v2_3.Document) *string { return &rdfSnippet(d).LicenseInfoInSnippet[0] }},
	{"data license", func(d *v2_3.Document) *string { return &d.DataLicense }},
}

func rdfSnippet(d *v2_3.Document) *v2_3.Snippet {
	for _, s := range d.Packages[0].Files[0].Snippets {
		return s
	}
	return nil
}

// smallRDF is a document with one of each element.
func smallRDF(v *docs.Version) *v2_3.Document {
	d := rdfDoc(docs.Full(v, 1))
	d.OtherLicenses = nil
	for i := 1; i <= 2; i++ {
		d.OtherLicenses = append(d.OtherLicenses, &v2_3.OtherLicense{LicenseIdentifier: fmt.Sprintf("LicenseRef-%d", i), ExtractedText: fmt.Sprintf("text %d", i), LicenseName: fmt.Sprintf("License %d", i)})
	}
	if !rdfx.Fix(d) {
		panic("the small document is none")
	}
	return d
}

func p17Licenses(c *kit.Ctx, v *docs.Version, add func(func())) {
	trees := licenseTrees(Count(c, 2, 2))
	c.Bound("%s: %d license expressions as trees of nodes (sets nested to depth 2, of one to three members, with exceptions, declared licenses) in each of %d places, with licenses as names, ListedLicense and License nodes", v.Name, len(trees), len(licensePlaces))
	small := smallRDF(v)
	for i, id := range rdfx.SPDXLicenses {
		add(func() {
			for k := 0; k < 3; k++ {
				d := docs.Clone(small).(*v2_3.Document)
				place := licensePlaces[i%len(licensePlaces)]
				e := rdfx.Leaf(id)
				*place.get(d) = e.String()
				g := rdfx.EncodeTrees(d, rdfx.Opts{Spec: specName(v), Describe: true, LicNode: k}, map[string]*rdfx.Expr{e.String(): e})
				rdfJudge(c, v, fmt.Sprintf("%s/license/%s/%s/%d", v.Name, place.name, e, k), fmt.Sprintf("%s %s as %s, licenses stated in way %d", v.Name, place.name, e, k), g.XML(rdfx.Shape{}), d)
			}
		})
	}
	c.Bound("%s: each of the %d licenses on the SPDX list, stated in three ways", v.Name, len(rdfx.SPDXLicenses))
	for pi, place := range licensePlaces {
		for ti, e := range trees {
			if !c.Thorough() && pi > 1 && ti%4 != pi%4 {
				continue
			}
			add(func() {
				for k := 0; k < 3; k++ {
					if !c.Thorough() && pi > 0 && k != ti%3 {
						continue
					}
					d := docs.Clone(small).(*v2_3.Document)
					*place.get(d) = e.String()
					g := rdfx.EncodeTrees(d, rdfx.Opts{Spec: specName(v), Describe: true, LicNode: k}, map[string]*rdfx.Expr{e.String(): e})
					rdfJudge(c, v, fmt.Sprintf("%s/license/%s/%s/%d", v.Name, place.name, e, k), fmt.Sprintf("%s %s as %s, licenses stated in way %d", v.Name, place.name, rdfTree(e), k), g.XML(rdfx.Shape{}), d)
				}
			})
		}
		for _, e := range []*rdfx.Expr{rdfx.Plus(rdfx.Leaf("GPL-2.0")), rdfx.Leaf("NONE"), rdfx.Leaf("NOASSERTION")} {
			for _, lower := range []bool{false, true} {
				if e.Op == "" && place.name == "data license" {
					continue
				}
				d := docs.Clone(small).(*v2_3.Document)
				*place.get(d) = e.String()
				g := rdfx.EncodeTrees(d, rdfx.Opts{Spec: specName(v), Describe: true, LicNode: 1, Small: lower}, map[string]*rdfx.Expr{e.String(): e})
				rdfJudge(c, v, fmt.Sprintf("%s/license/%s/%s", v.Name, place.name, e), fmt.Sprintf("%s %s as %s", v.Name, place.name, e), g.XML(rdfx.Shape{}), d)
			}
		}
	}
}

// p17Kinds tries everything of which there is a list in the specification.
func p17Kinds(c *kit.Ctx, v *docs.Version, add func(func())) {
	small := smallRDF(v)
	judge := func(what string, change func(d *v2_3.Document)) {
		add(func() {
			d := docs.Clone(small).(*v2_3.Document)
			change(d)
			if !rdfx.Fix(d) {
				panic(what + ": no document")
			}
			for i, o := range rdfOpts {
				o.Spec = specName(v)
				g := rdfx.Encode(d, o)
				rdfJudge(c, v, v.Name+"/"+what, fmt.Sprintf("%s %s (way %d)", v.Name, what, i), g.XML(rdfx.Shape{}), d)
				if g.Share() {
					rdfJudge(c, v, v.Name+"/"+what+"/shared", fmt.Sprintf("%s %s (way %d), what is alike stated once", v.Name, what, i), g.XML(rdfx.Shape{}), d)
				}
			}
		})
	}
	rels := rdfx.RelNames
	if v.Num >= 3 {
		rels = append(append([][2]string(nil), rels...), rdfx.RelNames23...)
	}
	ext := small.ExternalDocumentReferences[0].DocumentRefID
	var ends []v2common.DocElementID
	for _, id := range rdfx.Elements(small) {
		ends = append(ends, v2common.DocElementID{ElementRefID: id})
	}
	n := len(ends)
	ends = append(ends, v2common.DocElementID{SpecialID: "NONE"}, v2common.DocElementID{SpecialID: "NOASSERTION"}, v2common.DocElementID{DocumentRefID: ext, ElementRefID: "Far"})
	for _, r := range rels {
		for i, a := range ends[:n] {
			for j, b := range ends {
				if r[0] != "CONTAINS" && (i+j)%n != 0 {
					continue
				}
				judge(fmt.Sprintf("relationship %v %s %v", a, r[0], b), func(d *v2_3.Document) {
					d.Relationships = []*v2_3.Relationship{{RefA: a, RefB: b, Relationship: r[0], RelationshipComment: "why"}}
				})
			}
		}
	}
	// every two relationships between two elements
	for i, a := range ends[:n] {
		for j, b := range ends {
			for k, x := range ends[:n] {
				if i == k {
					continue
				}
				judge(fmt.Sprintf("relationships %v-%v, %v-%v", a, b, x, a), func(d *v2_3.Document) {
					d.Relationships = []*v2_3.Relationship{{RefA: a, RefB: b, Relationship: "CONTAINS"}, {RefA: x, RefB: a, Relationship: "DEPENDS_ON", RelationshipComment: fmt.Sprint(i, j, k)}}
				})
			}
		}
	}
	// two elements of which the same is stated
	for i, a := range ends[:n] {
		for _, b := range ends[:i] {
			for _, x := range ends {
				judge(fmt.Sprintf("%v and %v relate to %v", a, b, x), func(d *v2_3.Document) {
					d.Relationships = []*v2_3.Relationship{{RefA: a, RefB: x, Relationship: "CONTAINS"}, {RefA: b, RefB: x, Relationship: "CONTAINS"}}
				})
			}
			judge(fmt.Sprintf("one annotation of %v and %v", a, b), func(d *v2_3.Document) {
				d.Annotations = nil
				for _, x := range []v2common.DocElementID{a, b} {
					d.Annotations = append(d.Annotations, &v2_3.Annotation{Annotator: v2common.Annotator{Annotator: "A", AnnotatorType: "Person"}, AnnotationDate: "2020-01-01T00:00:00Z",
						AnnotationType: "OTHER", AnnotationSPDXIdentifier: x, AnnotationComment: "note"})
				}
			})
		}
	}
	for _, a := range docs.Algorithms(v.Num) {
		sum := []v2common.Checksum{{Algorithm: v2common.ChecksumAlgorithm(a), Value: "624c1abb3664f4b35547e7c73864ad24"}, {Algorithm: "SHA1", Value: "85ed0817af83a24ad8da68c2b5094de69833983c"}}
		if a == "SHA1" {
			sum = sum[:1]
		}
		judge("checksum "+a+" of all", func(d *v2_3.Document) {
			d.ExternalDocumentReferences[0].Checksum = sum[0]
			for _, p := range d.Packages {
				p.PackageChecksums = sum
				for _, f := range p.Files {
					f.Checksums = sum
				}
			}
			for _, f := range d.Files {
				f.Checksums = sum
			}
		})
	}
	judge("external references and verification code of two packages", func(d *v2_3.Document) {
		q := docs.Clone(d.Packages[0]).(*v2_3.Package)
		q.PackageSPDXIdentifier, q.Files, q.Annotations = "Second", nil, nil
		d.Packages = append(d.Packages, q)
	})
	for i, a := range ends[:n] {
		for _, t := range []string{"REVIEW", "OTHER"} {
			judge(fmt.Sprintf("annotations %s of %v", t, a), func(d *v2_3.Document) {
				d.Annotations = nil
				for k := 0; k <= i%3; k++ {
					d.Annotations = append(d.Annotations, &v2_3.Annotation{Annotator: v2common.Annotator{Annotator: "A", AnnotatorType: "Person"}, AnnotationDate: "2020-01-01T00:00:00Z",
						AnnotationType: t, AnnotationSPDXIdentifier: a, AnnotationComment: fmt.Sprint("note ", k)})
				}
			})
		}
	}
	if v.Num >= 3 {
		for _, p := range rdfx.Purposes() {
			judge("purpose "+p, func(d *v2_3.Document) { d.Packages[0].PrimaryPackagePurpose = p })
		}
	}
	for _, t := range rdfx.FileTypes() {
		judge("file type "+t, func(d *v2_3.Document) { d.Packages[0].Files[0].FileTypes = []string{t} })
	}
	judge("all file types", func(d *v2_3.Document) { d.Packages[0].Files[0].FileTypes = rdfx.FileTypes() })
	for _, a := range docs.Algorithms(v.Num) {
		sum := v2common.Checksum{Algorithm: v2common.ChecksumAlgorithm(a), Value: "624c1abb3664f4b35547e7c73864ad24"}
		judge("checksum "+a, func(d *v2_3.Document) {
			d.Packages[0].PackageChecksums = []v2common.Checksum{sum}
			d.Packages[0].Files[0].Checksums = []v2common.Checksum{sum}
			d.ExternalDocumentReferences[0].Checksum = sum
		})
	}
	r := func(a, b, c, d int) v2common.SnippetRange {
		return v2common.SnippetRange{StartPointer: v2common.SnippetRangePointer{Offset: a, LineNumber: c}, EndPointer: v2common.SnippetRangePointer{Offset: b, LineNumber: d}}
	}
	rs := []v2common.SnippetRange{r(1, 5, 0, 0), r(310, 420, 0, 0), r(0, 0, 1, 3), r(0, 0, 9, 9)}
	for i := range rs {
		for j := range rs {
			judge(fmt.Sprintf("ranges %d %d", i, j), func(d *v2_3.Document) { rdfSnippet(d).Ranges = []v2common.SnippetRange{rs[i], rs[j]} })
			other := rs[j]
			other.StartPointer.FileSPDXIdentifier = small.Files[0].FileSPDXIdentifier
			other.EndPointer.FileSPDXIdentifier = small.Files[0].FileSPDXIdentifier
			judge(fmt.Sprintf("ranges %d, %d in another file", i, j), func(d *v2_3.Document) { rdfSnippet(d).Ranges = []v2common.SnippetRange{rs[i], other} })
		}
	}
	// one file in two packages, packages in each other's relationships, files that depend on each other
	judge("files depend on each other", func(d *v2_3.Document) {
		a, b := d.Packages[0].Files[0], d.Files[0]
		a.FileDependencies, b.FileDependencies = []string{string(b.FileSPDXIdentifier)}, []string{string(a.FileSPDXIdentifier)}
	})
	judge("file depends on itself", func(d *v2_3.Document) {
		a := d.Packages[0].Files[0]
		a.FileDependencies = []string{string(a.FileSPDXIdentifier)}
	})
	for _, ns := range []string{"http://example.org/spdxdocs/a-1.0-444504E0", "https://x.org/a/b.c/", "http://x.org", "https://example.org/spdx?x=y"} {
		judge("namespace "+ns, func(d *v2_3.Document) { d.DocumentNamespace = ns })
	}
	c.Bound("%s: all %d relationship types between kinds of elements, pairs of relationships over all %d ends, annotations of every element, purposes, file types, algorithms, ranges, each stated in %d ways", v.Name, len(rels), len(ends), len(rdfOpts))
}

// p17Read reads into every target what Read and the reader of the version give alike.
func p17Read(c *kit.Ctx, v *docs.Version) {
	up := rdfDoc(docs.Full(v, 2))
	text := rdfx.Encode(up, rdfx.Opts{Spec: specName(v), Describe: true}).XML(rdfx.Shape{})
	own, err := readRDF(v, text)
	if err != nil {
		c.Violate(v.Name+"/targets", err.Error(), text)
		return
	}
	for _, t := range docs.Versions {
		c.Evals.Add(1)
		got, err := readRDF(t, text)
		want := t.New()
		err2 := convert.Document(own.(common.AnyDocument), want)
		if err != nil || err2 != nil || docs.Canon(got) != docs.Canon(want) {
			c.Violate(fmt.Sprintf("%s/into %s", v.Name, t.Name), fmt.Sprintf("%s read into %s differs from converting what is read: %v %v %s", v.Name, t.Name, err, err2, docs.Diff(docs.Canon(want), docs.Canon(got))), text)
		}
	}
	_ = v2_2.Version
}
