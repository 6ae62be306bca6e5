package rdfx

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

const (
	spdxNS = "http://spdx.org/rdf/terms#"
	rdfsNS = "http://www.w3.org/2000/01/rdf-schema#"
	rdfNS  = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
	ptrNS  = "http://www.w3.org/2009/pointers#"
	doapNS = "http://usefulinc.com/ns/doap#"
	licNS  = "http://spdx.org/licenses/"
)

// Node is a node of the graph that statements are made of.
type Node struct {
	IRI   string // "" for a blank node
	Blank string // label of a blank node
	Type  string // prefixed name
	Props []Prop
}

// Prop is one statement. One of the three is set.
type Prop struct {
	Pred string // prefixed name
	Lit  string
	Res  string // a name that nothing is stated of
	Node *Node
}

// Graph is a document as a graph.
type Graph struct {
	Doc   *Node
	Nodes []*Node // every node, the document first
	// Own are the nodes that have to be stated on their own when nothing refers to them
	Own []*Node
}

// Opts are the choices in stating a document.
type Opts struct {
	Spec     string // SPDX-2.2, SPDX-2.3
	Describe bool   // packages stated with describesPackage
	// LicNode says how the k-th license leaf is stated: 0 its name only, 1 ListedLicense node, 2 License node
	LicNode int
	// Literal states NONE and NOASSERTION as text where the text may stand
	Literal  bool
	Small    bool // noassertion instead of NOASSERTION in names
	Purpose2 bool // package purposes named as in the ontology
}

type enc struct {
	trees  map[string]*Expr
	o      Opts
	d      *v2_3.Document
	g      *Graph
	ns     string
	elems  map[common.ElementID]*Node
	lics   map[string]*Node
	blanks int
}

func (e *enc) node(iri, typ string) *Node {
	n := &Node{IRI: iri, Type: typ}
	if iri == "" {
		e.blanks++
		n.Blank = "b" + strconv.Itoa(e.blanks)
	}
	e.g.Nodes = append(e.g.Nodes, n)
	return n
}

func (n *Node) lit(pred, s string) {
	if s != "" {
		n.Props = append(n.Props, Prop{Pred: pred, Lit: s})
	}
}
func (n *Node) res(pred, iri string)     { n.Props = append(n.Props, Prop{Pred: pred, Res: iri}) }
func (n *Node) sub(pred string, m *Node) { n.Props = append(n.Props, Prop{Pred: pred, Node: m}) }

// text states a text that may also be NONE or NOASSERTION.
func (e *enc) text(n *Node, pred, s string) {
	if (s == "NONE" || s == "NOASSERTION") && !e.o.Literal {
		n.res(pred, e.special(s))
		return
	}
	n.lit(pred, s)
}

func (e *enc) special(s string) string {
	if e.o.Small {
		s = strings.ToLower(s)
	}
	return spdxNS + s
}

// RelNames are the relationship types of the specification and their names in RDF.
var RelNames = [][2]string{
	{"DESCRIBES", "describes"}, {"DESCRIBED_BY", "describedBy"}, {"CONTAINS", "contains"}, {"CONTAINED_BY", "containedBy"},
	{"DEPENDS_ON", "dependsOn"}, {"DEPENDENCY_OF", "dependencyOf"}, {"DEPENDENCY_MANIFEST_OF", "dependencyManifestOf"},
	{"BUILD_DEPENDENCY_OF", "buildDependencyOf"}, {"DEV_DEPENDENCY_OF", "devDependencyOf"}, {"OPTIONAL_DEPENDENCY_OF", "optionalDependencyOf"},
	{"PROVIDED_DEPENDENCY_OF", "providedDependencyOf"}, {"TEST_DEPENDENCY_OF", "testDependencyOf"}, {"RUNTIME_DEPENDENCY_OF", "runtimeDependencyOf"},
	{"EXAMPLE_OF", "exampleOf"}, {"GENERATES", "generates"}, {"GENERATED_FROM", "generatedFrom"}, {"ANCESTOR_OF", "ancestorOf"},
	{"DESCENDANT_OF", "descendantOf"}, {"VARIANT_OF", "variantOf"}, {"DISTRIBUTION_ARTIFACT", "distributionArtifact"},
	{"PATCH_FOR", "patchFor"}, {"PATCH_APPLIED", "patchApplied"}, {"COPY_OF", "copyOf"}, {"FILE_ADDED", "fileAdded"},
	{"FILE_DELETED", "fileDeleted"}, {"FILE_MODIFIED", "fileModified"}, {"EXPANDED_FROM_ARCHIVE", "expandedFromArchive"},
	{"DYNAMIC_LINK", "dynamicLink"}, {"STATIC_LINK", "staticLink"}, {"DATA_FILE_OF", "dataFileOf"}, {"TEST_CASE_OF", "testcaseOf"},
	{"BUILD_TOOL_OF", "buildToolOf"}, {"DEV_TOOL_OF", "devToolOf"}, {"TEST_OF", "testOf"}, {"TEST_TOOL_OF", "testToolOf"},
	{"DOCUMENTATION_OF", "documentation"}, {"OPTIONAL_COMPONENT_OF", "optionalComponentOf"}, {"METAFILE_OF", "metafileOf"},
	{"PACKAGE_OF", "packageOf"}, {"AMENDS", "amendment"}, {"PREREQUISITE_FOR", "prerequisiteFor"}, {"HAS_PREREQUISITE", "hasPrerequisite"},
	{"OTHER", "other"},
}

// RelNames23 came with version 2.3.
var RelNames23 = [][2]string{{"REQUIREMENT_DESCRIPTION_FOR", "requirementDescriptionFor"}, {"SPECIFICATION_FOR", "specificationFor"}}

func relName(s string) string {
	for _, t := range [][][2]string{RelNames, RelNames23} {
		for _, p := range t {
			if p[0] == s {
				return p[1]
			}
		}
	}
	panic("no RDF name for relationship type " + s)
}

func algName(a common.ChecksumAlgorithm) string {
	return "checksumAlgorithm_" + strings.ReplaceAll(strings.ToLower(string(a)), "-", "_")
}

// algNames of the algorithms whose names are not just their lower case.
var algNames = map[common.ChecksumAlgorithm]string{"BLAKE2b-256": "blake2b256", "BLAKE2b-384": "blake2b384", "BLAKE2b-512": "blake2b512"}

// Encode states d, which must have gone through Fix, as a graph.
func Encode(d *v2_3.Document, o Opts) *Graph { return EncodeTrees(d, o, nil) }

// EncodeTrees states the license expressions in trees as the trees given.
func EncodeTrees(d *v2_3.Document, o Opts, trees map[string]*Expr) *Graph {
	e := &enc{trees: trees, o: o, d: d, g: &Graph{}, ns: d.DocumentNamespace, elems: map[common.ElementID]*Node{}, lics: map[string]*Node{}}
	doc := e.node(e.ns+"#SPDXRef-"+string(d.SPDXIdentifier), "spdx:SpdxDocument")
	e.g.Doc = doc
	e.elems[d.SPDXIdentifier] = doc
	elem := func(id common.ElementID, typ string) *Node {
		n := e.node(e.ns+"#SPDXRef-"+string(id), typ)
		e.elems[id] = n
		return n
	}
	eachFile(d, func(f *v2_3.File) {
		elem(f.FileSPDXIdentifier, "spdx:File")
		for _, id := range sortedSnippets(f) {
			e.g.Own = append(e.g.Own, elem(id, "spdx:Snippet"))
		}
	})
	for _, p := range d.Packages {
		elem(p.PackageSPDXIdentifier, "spdx:Package")
	}
	for _, l := range d.OtherLicenses {
		n := e.node(e.ns+"#"+l.LicenseIdentifier, "spdx:ExtractedLicensingInfo")
		e.lics[l.LicenseIdentifier] = n
	}

	doc.lit("spdx:specVersion", o.Spec)
	e.license(doc, "spdx:dataLicense", d.DataLicense)
	doc.lit("spdx:name", d.DocumentName)
	doc.lit("rdfs:comment", d.DocumentComment)
	for _, x := range d.ExternalDocumentReferences {
		n := e.node("", "spdx:ExternalDocumentRef")
		n.lit("spdx:externalDocumentId", "DocumentRef-"+string(x.DocumentRefID))
		n.res("spdx:spdxDocument", x.URI)
		e.checksum(n, x.Checksum)
		doc.sub("spdx:externalDocumentRef", n)
	}
	if ci := d.CreationInfo; ci != nil {
		n := e.node("", "spdx:CreationInfo")
		n.lit("spdx:licenseListVersion", ci.LicenseListVersion)
		for _, c := range ci.Creators {
			n.lit("spdx:creator", c.CreatorType+": "+c.Creator)
		}
		n.lit("spdx:created", ci.Created)
		n.lit("rdfs:comment", ci.CreatorComment)
		doc.sub("spdx:creationInfo", n)
	}
	for _, r := range d.Reviews {
		n := e.node("", "spdx:Review")
		n.lit("spdx:reviewer", r.ReviewerType+": "+r.Reviewer)
		n.lit("spdx:reviewDate", r.ReviewDate)
		n.lit("rdfs:comment", r.ReviewComment)
		doc.sub("spdx:reviewed", n)
	}
	for _, l := range d.OtherLicenses {
		n := e.lics[l.LicenseIdentifier]
		n.lit("spdx:licenseId", l.LicenseIdentifier)
		n.lit("spdx:extractedText", l.ExtractedText)
		n.lit("spdx:name", l.LicenseName)
		for _, u := range l.LicenseCrossReferences {
			n.lit("rdfs:seeAlso", u)
		}
		n.lit("rdfs:comment", l.LicenseComment)
		doc.sub("spdx:hasExtractedLicensingInfo", n)
	}
	for _, p := range d.Packages {
		e.pkg(p)
		if o.Describe {
			doc.sub("spdx:describesPackage", e.elems[p.PackageSPDXIdentifier])
		}
	}
	eachFile(d, e.file)
	for _, r := range d.Relationships {
		e.relationship(r)
	}
	for _, a := range d.Annotations {
		n := e.node("", "spdx:Annotation")
		n.lit("spdx:annotator", a.Annotator.AnnotatorType+": "+a.Annotator.Annotator)
		n.lit("spdx:annotationDate", a.AnnotationDate)
		if a.AnnotationType != "" {
			n.res("spdx:annotationType", spdxNS+"annotationType_"+strings.ToLower(a.AnnotationType))
		}
		n.lit("rdfs:comment", a.AnnotationComment)
		e.elems[a.AnnotationSPDXIdentifier.ElementRefID].sub("spdx:annotation", n)
	}
	// what the document does not lead to stands on its own
	reached := map[*Node]bool{}
	var reach func(n *Node)
	reach = func(n *Node) {
		if reached[n] {
			return
		}
		reached[n] = true
		for _, p := range n.Props {
			if p.Node != nil {
				reach(p.Node)
			}
		}
	}
	reach(doc)
	for _, n := range e.g.Own {
		reach(n)
	}
	referred := map[*Node]bool{}
	for _, n := range e.g.Nodes {
		for _, p := range n.Props {
			if p.Node != nil && p.Node != n {
				referred[p.Node] = true
			}
		}
	}
	for _, first := range []bool{true, false} {
		for _, n := range e.g.Nodes {
			if n.IRI != "" && !reached[n] && !(first && referred[n]) {
				e.g.Own = append(e.g.Own, n)
				reach(n)
			}
		}
	}
	return e.g
}

func (e *enc) checksum(n *Node, c common.Checksum) {
	if c == (common.Checksum{}) {
		return
	}
	m := e.node("", "spdx:Checksum")
	name := algName(c.Algorithm)
	if x, ok := algNames[c.Algorithm]; ok {
		name = "checksumAlgorithm_" + x
	}
	m.res("spdx:algorithm", spdxNS+name)
	m.lit("spdx:checksumValue", c.Value)
	n.sub("spdx:checksum", m)
}

func (e *enc) license(n *Node, pred, s string) {
	if s == "" {
		return
	}
	x := e.trees[s]
	if x == nil {
		x = Parse(s)
	}
	if x == nil {
		panic("not a license expression: " + s)
	}
	n.Props = append(n.Props, e.expr(pred, x))
}

func (e *enc) expr(pred string, x *Expr) Prop {
	switch x.Op {
	case "":
		if x.ID == "NONE" || x.ID == "NOASSERTION" {
			return Prop{Pred: pred, Res: e.special(x.ID)}
		}
		if n := e.lics[x.ID]; n != nil {
			return Prop{Pred: pred, Node: n}
		}
		if e.o.LicNode == 0 {
			return Prop{Pred: pred, Res: licNS + x.ID}
		}
		typ := "spdx:ListedLicense"
		if e.o.LicNode == 2 {
			typ = "spdx:License"
		}
		if strings.HasPrefix(x.ID, "LicenseRef-") {
			panic("license not declared: " + x.ID)
		}
		n := e.node(licNS+x.ID, typ)
		n.lit("spdx:licenseId", x.ID)
		n.lit("spdx:name", "Name of "+x.ID)
		n.lit("spdx:licenseText", "The text of "+x.ID)
		n.lit("rdfs:seeAlso", "http://example.org/"+x.ID)
		n.lit("spdx:isOsiApproved", "true")
		e.lics[x.ID] = n
		return Prop{Pred: pred, Node: n}
	case "WITH":
		n := e.node("", "spdx:WithExceptionOperator")
		m := e.node("", "spdx:LicenseException")
		m.lit("spdx:licenseExceptionId", x.ID)
		m.lit("spdx:name", "Exception "+x.ID)
		n.Props = append(n.Props, e.expr("spdx:member", x.Subs[0]))
		n.sub("spdx:licenseException", m)
		return Prop{Pred: pred, Node: n}
	case "PLUS":
		n := e.node("", "spdx:OrLaterOperator")
		n.Props = append(n.Props, e.expr("spdx:member", x.Subs[0]))
		return Prop{Pred: pred, Node: n}
	}
	typ := "spdx:ConjunctiveLicenseSet"
	if x.Op == "OR" {
		typ = "spdx:DisjunctiveLicenseSet"
	}
	n := e.node("", typ)
	for _, s := range x.Subs {
		n.Props = append(n.Props, e.expr("spdx:member", s))
	}
	return Prop{Pred: pred, Node: n}
}

func (e *enc) pkg(p *v2_3.Package) {
	n := e.elems[p.PackageSPDXIdentifier]
	n.lit("spdx:name", p.PackageName)
	n.lit("spdx:versionInfo", p.PackageVersion)
	n.lit("spdx:packageFileName", p.PackageFileName)
	agent := func(pred, typ, name string) {
		if name == "NOASSERTION" {
			e.text(n, pred, name)
		} else {
			n.lit(pred, typ+": "+name)
		}
	}
	if s := p.PackageSupplier; s != nil {
		agent("spdx:supplier", s.SupplierType, s.Supplier)
	}
	if s := p.PackageOriginator; s != nil {
		agent("spdx:originator", s.OriginatorType, s.Originator)
	}
	if s := p.PackageDownloadLocation; s == "NONE" || s == "NOASSERTION" {
		e.text(n, "spdx:downloadLocation", s)
	} else {
		n.lit("spdx:downloadLocation", s)
	}
	if p.IsFilesAnalyzedTagPresent {
		n.lit("spdx:filesAnalyzed", strconv.FormatBool(p.FilesAnalyzed))
	}
	if c := p.PackageVerificationCode; c != nil && c.Value != "" {
		m := e.node("", "spdx:PackageVerificationCode")
		m.lit("spdx:packageVerificationCodeValue", c.Value)
		for _, x := range c.ExcludedFiles {
			m.lit("spdx:packageVerificationCodeExcludedFile", x)
		}
		n.sub("spdx:packageVerificationCode", m)
	}
	for _, c := range p.PackageChecksums {
		e.checksum(n, c)
	}
	n.lit("doap:homepage", p.PackageHomePage)
	n.lit("spdx:sourceInfo", p.PackageSourceInfo)
	e.license(n, "spdx:licenseConcluded", p.PackageLicenseConcluded)
	for _, l := range p.PackageLicenseInfoFromFiles {
		e.license(n, "spdx:licenseInfoFromFiles", l)
	}
	e.license(n, "spdx:licenseDeclared", p.PackageLicenseDeclared)
	n.lit("spdx:licenseComments", p.PackageLicenseComments)
	e.text(n, "spdx:copyrightText", p.PackageCopyrightText)
	n.lit("spdx:summary", p.PackageSummary)
	n.lit("spdx:description", p.PackageDescription)
	n.lit("rdfs:comment", p.PackageComment)
	for _, x := range p.PackageExternalReferences {
		m := e.node("", "spdx:ExternalRef")
		cat := map[string]string{"SECURITY": "security", "PACKAGE-MANAGER": "packageManager", "PERSISTENT-ID": "persistentId", "OTHER": "other"}[x.Category]
		m.res("spdx:referenceCategory", spdxNS+"referenceCategory_"+cat)
		m.res("spdx:referenceType", x.RefType)
		m.lit("spdx:referenceLocator", x.Locator)
		m.lit("rdfs:comment", x.ExternalRefComment)
		n.sub("spdx:externalRef", m)
	}
	for _, s := range p.PackageAttributionTexts {
		n.lit("spdx:attributionText", s)
	}
	for _, f := range p.Files {
		n.sub("spdx:hasFile", e.elems[f.FileSPDXIdentifier])
	}
	if s := p.PrimaryPackagePurpose; s != "" {
		name := "packagePurpose_" + strings.ToLower(strings.ReplaceAll(s, "-", "_"))
		if e.o.Purpose2 {
			name = "purpose_" + strings.ToLower(s)
			if s == "OPERATING-SYSTEM" {
				name = "purpose_operatingSystem"
			}
		}
		n.res("spdx:primaryPackagePurpose", spdxNS+name)
	}
	n.lit("spdx:releaseDate", p.ReleaseDate)
	n.lit("spdx:builtDate", p.BuiltDate)
	n.lit("spdx:validUntilDate", p.ValidUntilDate)
}

func (e *enc) file(f *v2_3.File) {
	n := e.elems[f.FileSPDXIdentifier]
	n.lit("spdx:fileName", f.FileName)
	for _, t := range f.FileTypes {
		n.res("spdx:fileType", spdxNS+"fileType_"+strings.ToLower(t))
	}
	for _, c := range f.Checksums {
		e.checksum(n, c)
	}
	e.license(n, "spdx:licenseConcluded", f.LicenseConcluded)
	for _, l := range f.LicenseInfoInFiles {
		e.license(n, "spdx:licenseInfoInFile", l)
	}
	n.lit("spdx:licenseComments", f.LicenseComments)
	e.text(n, "spdx:copyrightText", f.FileCopyrightText)
	for _, a := range f.ArtifactOfProjects {
		m := e.node(a.URI, "doap:Project")
		m.lit("doap:name", a.Name)
		m.lit("doap:homepage", a.HomePage)
		n.sub("spdx:artifactOf", m)
	}
	n.lit("rdfs:comment", f.FileComment)
	n.lit("spdx:noticeText", f.FileNotice)
	for _, s := range f.FileContributors {
		n.lit("spdx:fileContributor", s)
	}
	for _, s := range f.FileAttributionTexts {
		n.lit("spdx:attributionText", s)
	}
	for _, s := range f.FileDependencies {
		n.sub("spdx:fileDependency", e.elems[common.ElementID(s)])
	}
	for _, id := range sortedSnippets(f) {
		e.snippet(f.Snippets[id])
	}
}

func (e *enc) snippet(s *v2_3.Snippet) {
	n := e.elems[s.SnippetSPDXIdentifier]
	n.sub("spdx:snippetFromFile", e.elems[s.SnippetFromFileSPDXIdentifier])
	for _, r := range s.Ranges {
		m := e.node("", "ptr:StartEndPointer")
		point := func(pred string, p common.SnippetRangePointer) {
			q := e.node("", "ptr:ByteOffsetPointer")
			if p.LineNumber != 0 {
				q.Type = "ptr:LineCharPointer"
				q.lit("ptr:lineNumber", strconv.Itoa(p.LineNumber))
			} else {
				q.lit("ptr:offset", strconv.Itoa(p.Offset))
			}
			q.sub("ptr:reference", e.elems[p.FileSPDXIdentifier])
			m.sub(pred, q)
		}
		point("ptr:startPointer", r.StartPointer)
		point("ptr:endPointer", r.EndPointer)
		n.sub("spdx:range", m)
	}
	e.license(n, "spdx:licenseConcluded", s.SnippetLicenseConcluded)
	for _, l := range s.LicenseInfoInSnippet {
		e.license(n, "spdx:licenseInfoInSnippet", l)
	}
	n.lit("spdx:licenseComments", s.SnippetLicenseComments)
	e.text(n, "spdx:copyrightText", s.SnippetCopyrightText)
	n.lit("rdfs:comment", s.SnippetComment)
	n.lit("spdx:name", s.SnippetName)
	for _, t := range s.SnippetAttributionTexts {
		n.lit("spdx:attributionText", t)
	}
}

func (e *enc) relationship(r *v2_3.Relationship) {
	n := e.node("", "spdx:Relationship")
	n.res("spdx:relationshipType", spdxNS+"relationshipType_"+relName(r.Relationship))
	switch {
	case r.RefB.SpecialID != "":
		n.res("spdx:relatedSpdxElement", e.special(r.RefB.SpecialID))
	case r.RefB.DocumentRefID != "":
		for _, x := range e.d.ExternalDocumentReferences {
			if x.DocumentRefID == r.RefB.DocumentRefID {
				n.res("spdx:relatedSpdxElement", x.URI+"#SPDXRef-"+string(r.RefB.ElementRefID))
				break
			}
		}
	case e.elems[r.RefB.ElementRefID] != nil:
		n.sub("spdx:relatedSpdxElement", e.elems[r.RefB.ElementRefID])
	default:
		n.res("spdx:relatedSpdxElement", e.ns+"#SPDXRef-"+string(r.RefB.ElementRefID))
	}
	n.lit("rdfs:comment", r.RelationshipComment)
	e.elems[r.RefA.ElementRefID].sub("spdx:relationship", n)
}

// Triples counts the statements of a graph.
func (g *Graph) Triples() (n int) {
	for _, x := range g.Nodes {
		n += 1 + len(x.Props)
	}
	return
}

func (g *Graph) String() string {
	s := ""
	for _, n := range g.Nodes {
		s += fmt.Sprintf("%s%s a %s\n", n.IRI, n.Blank, n.Type)
		for _, p := range n.Props {
			s += fmt.Sprintf("  %s %q %s", p.Pred, p.Lit, p.Res)
			if p.Node != nil {
				s += p.Node.IRI + p.Node.Blank
			}
			s += "\n"
		}
	}
	return s
}

// Elements are the identifiers of the document's elements, itself first.
func Elements(d *v2_3.Document) []common.ElementID {
	ids := []common.ElementID{d.SPDXIdentifier}
	for _, p := range d.Packages {
		ids = append(ids, p.PackageSPDXIdentifier)
	}
	eachFile(d, func(f *v2_3.File) { ids = append(ids, f.FileSPDXIdentifier) })
	eachFile(d, func(f *v2_3.File) { ids = append(ids, sortedSnippets(f)...) })
	return ids
}

// Clone copies a graph.
func (g *Graph) Clone() *Graph {
	m := map[*Node]*Node{}
	var cp func(n *Node) *Node
	cp = func(n *Node) *Node {
		if n == nil {
			return nil
		}
		if x, ok := m[n]; ok {
			return x
		}
		x := &Node{IRI: n.IRI, Blank: n.Blank, Type: n.Type, Props: append([]Prop(nil), n.Props...)}
		m[n] = x
		for i := range x.Props {
			x.Props[i].Node = cp(x.Props[i].Node)
		}
		return x
	}
	out := &Graph{Doc: cp(g.Doc)}
	for _, n := range g.Nodes {
		out.Nodes = append(out.Nodes, cp(n))
	}
	for _, n := range g.Own {
		out.Own = append(out.Own, cp(n))
	}
	return out
}

// Share makes blank nodes of which the same is stated one node, and tells whether there were any and
// every statement still is another.
func (g *Graph) Share() (any bool) {
	for again := true; again; {
		again = false
		first := map[string]*Node{}
		same := map[*Node]*Node{}
		var left []*Node
		for _, n := range g.Nodes {
			if n.IRI != "" || n == g.Doc {
				left = append(left, n)
				continue
			}
			k := n.Type
			for _, p := range n.Props {
				k += fmt.Sprintf("\x00%s\x00%s\x00%s\x00%p", p.Pred, p.Lit, p.Res, p.Node)
			}
			if m := first[k]; m != nil {
				same[n], again, any = m, true, true
				continue
			}
			first[k] = n
			left = append(left, n)
		}
		g.Nodes = left
		for _, n := range g.Nodes {
			for i, p := range n.Props {
				if m := same[p.Node]; m != nil {
					n.Props[i].Node = m
				}
			}
		}
	}
	for _, n := range g.Nodes {
		seen := map[string]bool{}
		for _, p := range n.Props {
			k := fmt.Sprintf("%s\x00%p", p.Pred, p.Node)
			if p.Node != nil && seen[k] {
				return false
			}
			seen[k] = true
		}
	}
	return any
}
