package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx/v2/common"
	rdf22 "github.com/spdx/tools-golang/spdx/v2/v2_2/rdf/reader"
	rdf23 "github.com/spdx/tools-golang/spdx/v2/v2_3/rdf/reader"
	"sigs.k8s.io/yaml"
)

func init() { register("P11", "exploration", runP11) }

// place is a place of a document where an identifier stands.
type place struct {
	name string
	kind string // element, docelement, special (docelement or NONE, NOASSERTION), document
	tv   string // tag-value text with @ for the identifier
	js   string // JSON text with @ for the identifier
	get  string // path of fields to the value
	ver  int    // first version
}

var places = []place{
	{"document", "element", "SPDXID: @\n", `"SPDXID":"@"`, "SPDXIdentifier", 1},
	{"package", "element", "PackageName: p\nSPDXID: @\n", `"packages":[{"SPDXID":"@","name":"p","filesAnalyzed":true}]`, "Packages.0.PackageSPDXIdentifier", 1},
	{"file", "element", "FileName: f\nSPDXID: @\n", `"files":[{"SPDXID":"@","fileName":"f"}]`, "Files.0.FileSPDXIdentifier", 1},
	{"snippet", "element", "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: @\nSnippetFromFileSPDXID: SPDXRef-f\n", `"snippets":[{"SPDXID":"@","snippetFromFile":"SPDXRef-f"}]`, "Snippet.SnippetSPDXIdentifier", 1},
	{"snippetfromfile", "element", "FileName: f\nSPDXID: SPDXRef-f\nSnippetSPDXID: SPDXRef-s\nSnippetFromFileSPDXID: @\n", `"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"@"}]`, "Snippet.SnippetFromFileSPDXIdentifier", 1},
	{"relationshipA", "docelement", "Relationship: @ CONTAINS SPDXRef-x\n", `"relationships":[{"spdxElementId":"@","relationshipType":"CONTAINS","relatedSpdxElement":"SPDXRef-x"}]`, "Relationships.0.RefA", 1},
	{"relationshipB", "special", "Relationship: SPDXRef-x CONTAINS @\n", `"relationships":[{"spdxElementId":"SPDXRef-x","relationshipType":"CONTAINS","relatedSpdxElement":"@"}]`, "Relationships.0.RefB", 1},
	{"annotation", "docelement", "Annotator: Tool: t\nAnnotationDate: d\nAnnotationType: REVIEW\nSPDXREF: @\nAnnotationComment: c\n", "", "Annotations.0.AnnotationSPDXIdentifier", 1},
	{"external", "document", "ExternalDocumentRef: @ http://x SHA1: abc\n", `"externalDocumentRefs":[{"externalDocumentId":"@","spdxDocument":"http://x","checksum":{"algorithm":"SHA1","checksumValue":"abc"}}]`, "ExternalDocumentReferences.0.DocumentRefID", 1},
	{"describes", "special", "", `"documentDescribes":["@"]`, "Relationships.0.RefB", 2},
	{"hasfiles", "special", "", `"packages":[{"SPDXID":"SPDXRef-p","name":"p","hasFiles":["@"]}]`, "Relationships.0.RefB", 2},
	{"rangestart", "element", "", `"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"SPDXRef-f","ranges":[{"startPointer":{"offset":1,"reference":"@"},"endPointer":{"offset":2,"reference":"SPDXRef-f"}}]}]`, "Snippets.0.Ranges.0.StartPointer.FileSPDXIdentifier", 1},
	{"rangeend", "element", "", `"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"SPDXRef-f","ranges":[{"startPointer":{"offset":1,"reference":"SPDXRef-f"},"endPointer":{"offset":2,"reference":"@"}}]}]`, "Snippets.0.Ranges.0.EndPointer.FileSPDXIdentifier", 1},
}

var (
	reElem  = regexp.MustCompile(`^SPDXRef-[^:]+$`)
	reDElem = regexp.MustCompile(`^(DocumentRef-[^:]+:)?SPDXRef-[^:]+$`)
	reDoc   = regexp.MustCompile(`^DocumentRef-[^:]+$`)
	reColon = regexp.MustCompile(`^(DocumentRef-[^:]+:)?SPDXRef-.*:`)
	// what the specification and the data model leave open: a prefix repeated inside an identifier
	reTwice = regexp.MustCompile(`(SPDXRef-|DocumentRef-)(SPDXRef-|DocumentRef-)`)
)

// verdict of the reference on an identifier: 1 accepted, 0 rejected, -1 left open.
func idVerdict(f *form, v *docs.Version, p place, s string) int {
	if reTwice.MatchString(s) {
		return -1
	}
	if f == formTV && (strings.Contains(s, " ") || s == "") {
		return -1 // separates the parts of a value
	}
	special := s == "NONE" || s == "NOASSERTION"
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	if f != formTV && p.kind != "document" && !reDElem.MatchString(s) && reColon.MatchString(s) {
		return -1 // a colon in the element part may be kept, as long as it is kept
	}
	switch p.kind {
	case "element":
		return b(reElem.MatchString(s))
	case "docelement":
		if special && f != formTV {
			return -1
		}
		if f != formTV && reDoc.MatchString(s) {
			return -1 // pinned by the existing tests: a reference to a whole document
		}
		return b(reDElem.MatchString(s))
	case "special":
		if special {
			if f == formTV {
				return b(v.Num >= 2)
			}
			return 1
		}
		if f != formTV && reDoc.MatchString(s) {
			return -1
		}
		return b(reDElem.MatchString(s))
	}
	if strings.Contains(s, ":") {
		return -1
	}
	return b(reDoc.MatchString(s))
}

// getID reads an identifier from a document and prints it.
func getID(doc any, path string) (s string, ok bool) {
	v := reflect.ValueOf(doc).Elem()
	for _, step := range strings.Split(path, ".") {
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if step == "Snippet" {
			var found reflect.Value
			docs.Each(doc, "Snippet", func(s reflect.Value) { found = s })
			if !found.IsValid() {
				return "", false
			}
			v = found
			continue
		}
		if step == "0" {
			if v.Len() == 0 {
				return "", false
			}
			v = v.Index(0)
			continue
		}
		v = v.FieldByName(step)
	}
	switch x := v.Interface().(type) {
	case common.ElementID:
		return "SPDXRef-" + string(x), true
	case common.DocumentID:
		return "DocumentRef-" + string(x), true
	case common.DocElementID:
		return idString(x), true
	}
	return "", false
}

func (p place) text(f *form, v *docs.Version, id string) string {
	if f == formTV {
		head := "SPDXVersion: " + v.Const + "\n"
		if p.name != "document" {
			head += "SPDXID: SPDXRef-DOCUMENT\nCreator: Tool: t\n"
		}
		t := head + strings.ReplaceAll(p.tv, "@", id)
		if p.name == "document" {
			t += "Creator: Tool: t\n"
		}
		return t
	}
	q, _ := json.Marshal(id)
	t := `{"spdxVersion":"` + v.Const + `",` + strings.ReplaceAll(p.js, `"@"`, string(q))
	if p.name != "document" {
		t += `,"SPDXID":"SPDXRef-DOCUMENT"`
	}
	t += `,"creationInfo":{"created":"x","creators":["Tool: t"]}}`
	if f == formYAML {
		b, _ := yaml.JSONToYAML([]byte(t))
		t = string(b)
	}
	return t
}

func runP11(c *kit.Ctx) {
	parts := []string{"SPDXRef-", "DocumentRef-a:SPDXRef-", "DocumentRef-", ":", "a", "B.9", "NONE", "NOASSERTION", " ", "spdxref-", "LicenseRef-", "-"}
	n := kit.Pick(c, 4, 5)
	c.Bound("all strings of up to %d parts out of %q in each of %d places of a document, of each version, in tag-value, JSON and YAML (quick: of up to 3 parts in YAML); accepted exactly when well-formed, printed as it was stated, written and read again", n, parts, len(places))
	var ids []string
	seen := map[string]bool{}
	nparts := map[string]int{}
	for _, s := range seqs(parts, n) {
		id := strings.Join(s, "")
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
			nparts[id] = len(s)
		}
	}
	extra := []string{"none", "None", "noassertion", "NoAssertion", "NONE.", "NO", "NA", "SPDXREF-a", "SPDXref-a", "SPDXRef_a", "SPDXRef a", "documentref-a:SPDXRef-b", "DOCUMENTREF-a:SPDXRef-b",
		"DocumentRef-a:spdxref-b", "DocumentRef-a:SPDXREF-b", "DocumentRef-a SPDXRef-b", "DocumentRef-a/SPDXRef-b", "DocumentRef-a#SPDXRef-b", "DocumentRef-NONE:SPDXRef-NOASSERTION", "DocumentRef-a:NONE", "DocumentRef-a:none",
		"DocumentRef-SPDXRef-a:SPDXRef-DocumentRef-b", "SPDXRef-DOCUMENT", "DocumentRef-x:SPDXRef-DOCUMENT", "SPDXRef-document", "DOCUMENT", "SPDXRef-A", "SPDXRef-1", "SPDXRef-1.", "SPDXRef-..", "SPDXRef-" + strings.Repeat("x", 300)}
	for _, id := range extra {
		if !seen[id] {
			seen[id] = true
			ids = append(ids, id)
		}
	}
	c.Bound("and %d spellings with other case, separators and lengths", len(extra))
	type job struct {
		f *form
		v *docs.Version
		p place
	}
	var jobs []job
	for _, f := range forms {
		for _, v := range docs.Versions {
			for _, p := range places {
				if p.ver > v.Num || f == formTV && p.tv == "" || f != formTV && p.js == "" {
					continue
				}
				jobs = append(jobs, job{f, v, p})
			}
		}
	}
	one := func(j job, id string) {
		want := idVerdict(j.f, j.v, j.p, id)
		t := j.p.text(j.f, j.v, id)
		c.Evals.Add(1)
		key := fmt.Sprintf("%s/%s/%s/%q", j.f.name, j.v.Name, j.p.name, id)
		if j.f == formTV && j.p.name == "snippetfromfile" && want == 0 && reDElem.MatchString(id) {
			key = fmt.Sprintf("%s/%s/%s/external", j.f.name, j.v.Name, j.p.name)
		}
		bad := func(what string) {
			c.Violate(key, fmt.Sprintf("%s %s: identifier %q of %s %s", j.v.Name, j.f.name, id, j.p.name, what), map[string]any{"text": t})
		}
		got := j.v.New()
		err, p := guardErr(func() error { return j.f.read(t, got) })
		if p != nil {
			bad(fmt.Sprint("panics: ", p))
			return
		}
		if err != nil {
			if want == 1 {
				bad("is rejected: " + err.Error())
			}
			return
		}
		if want == 0 {
			s, _ := getID(got, j.p.get)
			bad("is accepted, as " + s)
			return
		}
		if reTwice.MatchString(id) || want == -1 && (reDoc.MatchString(id) || j.f == formTV || j.p.kind == "document") {
			return
		}
		s, ok := getID(got, j.p.get)
		if !ok || s != id {
			bad("reads as " + s)
			return
		}
		out, err := "", error(nil)
		err, p = guardErr(func() (e error) { out, e = j.f.write(got); return })
		if err != nil || p != nil {
			bad(fmt.Sprint("cannot be written: ", err, p))
			return
		}
		// what is written states the identifier as it was
		if !strings.Contains(out, strings.Trim(id, " ")) {
			bad("is not written as it was")
			return
		}
		if want != 1 {
			return
		}
		again := j.v.New()
		err, p = guardErr(func() error { return j.f.read(out, again) })
		if err != nil || p != nil {
			bad(fmt.Sprint("cannot be read again: ", err, p))
			return
		}
		if s2, _ := getID(again, j.p.get); s2 != id {
			bad("reads again as " + s2)
		}
	}
	const chunk = 500
	per := (len(ids) + chunk - 1) / chunk
	c.Parallel(len(jobs)*per, func(i int) {
		j := jobs[i/per]
		lo := i % per * chunk
		for _, id := range ids[lo:min(lo+chunk, len(ids))] {
			if c.Stop() {
				return
			}
			if j.f == formYAML && !c.Thorough() && nparts[id] > 3 {
				continue
			}
			one(j, id)
			c.Distinct.Add(1)
		}
	})
	// the functions the RDF readers take identifiers apart with
	c.Bound("the same strings given to the RDF readers' functions for identifiers")
	type rdfIDs struct {
		name string
		elem func(string) (common.ElementID, error)
		doc  func(string) (common.DocElementID, error)
	}
	c.Parallel(len(ids), func(i int) {
		id := ids[i]
		if reTwice.MatchString(id) {
			return
		}
		for _, r := range []rdfIDs{{"2.2", rdf22.ExtractElementID, rdf22.ExtractDocElementID}, {"2.3", rdf23.ExtractElementID, rdf23.ExtractDocElementID}} {
			c.Evals.Add(1)
			if p, _ := kit.Guard(func() {
				e, err := r.elem(id)
				if (err == nil) != reElem.MatchString(id) || err == nil && common.RenderElementID(e) != id {
					c.Violate(fmt.Sprintf("rdf/%s/element/%q", r.name, id), fmt.Sprintf("%s rdf: ExtractElementID(%q) gives %q, %v", r.name, id, e, err), nil)
				}
				d, err := r.doc(id)
				if (err == nil) != reDElem.MatchString(id) || err == nil && common.RenderDocElementID(d) != id {
					c.Violate(fmt.Sprintf("rdf/%s/docelement/%q", r.name, id), fmt.Sprintf("%s rdf: ExtractDocElementID(%q) gives %+v, %v", r.name, id, d, err), nil)
				}
			}); p != nil {
				c.Violate(fmt.Sprintf("rdf/%s/panic/%q", r.name, id), fmt.Sprintf("%s rdf: taking %q apart panics: %v", r.name, id, p), nil)
			}
		}
	})
	// the functions that print and make identifiers
	c.Bound("printing and making identifiers with every combination of 4 document and 5 element parts and 3 special ones")
	for _, d := range []string{"", "a", "B.9-c", "x"} {
		for _, e := range []string{"", "a", "DOCUMENT", "NONE", "b-.9"} {
			c.Evals.Add(1)
			m := common.MakeDocElementID(d, e)
			if string(m.DocumentRefID) != d || string(m.ElementRefID) != e || m.SpecialID != "" {
				c.Violate("make/"+d+"/"+e, fmt.Sprintf("MakeDocElementID(%q, %q) is %+v", d, e, m), nil)
			}
			if e != "" {
				if s := common.RenderDocElementID(m); s != idString(m) {
					c.Violate("render/"+d+"/"+e, fmt.Sprintf("RenderDocElementID(%+v) is %q", m, s), nil)
				}
				if s := common.RenderElementID(common.ElementID(e)); s != "SPDXRef-"+e {
					c.Violate("renderelement/"+e, fmt.Sprintf("RenderElementID(%q) is %q", e, s), nil)
				}
			}
		}
	}
	for _, s := range []string{"NONE", "NOASSERTION"} {
		if m := common.MakeDocElementSpecial(s); m != (common.DocElementID{SpecialID: s}) || common.RenderDocElementID(m) != s {
			c.Violate("special/"+s, fmt.Sprintf("MakeDocElementSpecial(%q) is %+v", s, m), nil)
		}
	}
	c.Sample("DocumentRef-a:SPDXRef-B.9 in every place")
	c.Sample(places[5].text(formTV, docs.Versions[1], "DocumentRef-a:SPDXRef-a"))
}
