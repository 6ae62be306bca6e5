package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
)

func init() {
	register("P02", "model_checking", func(c *kit.Ctx) { runTV(c, true) })
	register("P03", "model_checking", func(c *kit.Ctx) { runTV(c, false) })
}

// The reference: SPDX tag-value as a state machine over the sections of a document, written from the
// specification. It builds a 2.3 document, which has every field the earlier versions have.

type tvSection int

const (
	secStart tvSection = iota
	secCreation
	secPackage
	secFile
	secSnippet
	secLicense
	secReview
)

type tvModel struct {
	ver  int
	doc  *v2_3.Document
	sec  tvSection
	pkg  *v2_3.Package
	file *v2_3.File
	snip *v2_3.Snippet
	lic  *v2_3.OtherLicense
	rel  *v2_3.Relationship
	ann  *v2_3.Annotation
	rev  *v2_3.Review
	ext  *v2_3.PackageExternalReference // the reference a comment would belong to
	aop  *v2_3.ArtifactOfProject        // the project a home page or URI would belong to
}

var (
	errTag   = errors.New("tag not known in this section")
	errValue = errors.New("malformed value")
	errLoose = errors.New("nothing to attach to")
	errNoID  = errors.New("element without identifier")
)

type tvField struct {
	sec   tvSection
	field string
	ver   int // first version that has it
}

var tvStrings = map[string]tvField{
	"SPDXVersion": {secStart, "SPDXVersion", 1}, "DataLicense": {secStart, "DataLicense", 1},
	"DocumentName": {secStart, "DocumentName", 1}, "DocumentNamespace": {secStart, "DocumentNamespace", 1},
	"DocumentComment":    {secStart, "DocumentComment", 1},
	"LicenseListVersion": {secCreation, "LicenseListVersion", 1}, "Created": {secCreation, "Created", 1}, "CreatorComment": {secCreation, "CreatorComment", 1},
	"PackageVersion": {secPackage, "PackageVersion", 1}, "PackageFileName": {secPackage, "PackageFileName", 1},
	"PackageDownloadLocation": {secPackage, "PackageDownloadLocation", 1}, "PackageHomePage": {secPackage, "PackageHomePage", 1},
	"PackageSourceInfo": {secPackage, "PackageSourceInfo", 1}, "PackageLicenseConcluded": {secPackage, "PackageLicenseConcluded", 1},
	"PackageLicenseDeclared": {secPackage, "PackageLicenseDeclared", 1}, "PackageLicenseComments": {secPackage, "PackageLicenseComments", 1},
	"PackageCopyrightText": {secPackage, "PackageCopyrightText", 1}, "PackageSummary": {secPackage, "PackageSummary", 1},
	"PackageDescription": {secPackage, "PackageDescription", 1}, "PackageComment": {secPackage, "PackageComment", 1},
	"PrimaryPackagePurpose": {secPackage, "PrimaryPackagePurpose", 3}, "ReleaseDate": {secPackage, "ReleaseDate", 3},
	"BuiltDate": {secPackage, "BuiltDate", 3}, "ValidUntilDate": {secPackage, "ValidUntilDate", 3},
	"LicenseConcluded": {secFile, "LicenseConcluded", 1}, "LicenseComments": {secFile, "LicenseComments", 1},
	"FileCopyrightText": {secFile, "FileCopyrightText", 1}, "FileComment": {secFile, "FileComment", 1}, "FileNotice": {secFile, "FileNotice", 1},
	"SnippetLicenseConcluded": {secSnippet, "SnippetLicenseConcluded", 1}, "SnippetLicenseComments": {secSnippet, "SnippetLicenseComments", 1},
	"SnippetCopyrightText": {secSnippet, "SnippetCopyrightText", 1}, "SnippetComment": {secSnippet, "SnippetComment", 1}, "SnippetName": {secSnippet, "SnippetName", 1},
	"ExtractedText": {secLicense, "ExtractedText", 1}, "LicenseName": {secLicense, "LicenseName", 1}, "LicenseComment": {secLicense, "LicenseComment", 1},
	"ReviewDate": {secReview, "ReviewDate", 1}, "ReviewComment": {secReview, "ReviewComment", 1},
}

var tvLists = map[string]tvField{
	"PackageLicenseInfoFromFiles": {secPackage, "PackageLicenseInfoFromFiles", 1}, "PackageAttributionText": {secPackage, "PackageAttributionTexts", 2},
	"FileType": {secFile, "FileTypes", 1}, "LicenseInfoInFile": {secFile, "LicenseInfoInFiles", 1}, "FileContributor": {secFile, "FileContributors", 1},
	"FileDependency": {secFile, "FileDependencies", 1}, "FileAttributionText": {secFile, "FileAttributionTexts", 2},
	"LicenseInfoInSnippet": {secSnippet, "LicenseInfoInSnippet", 1}, "SnippetAttributionText": {secSnippet, "SnippetAttributionTexts", 2},
	"LicenseCrossReference": {secLicense, "LicenseCrossReferences", 1},
}

var (
	reElement  = regexp.MustCompile(`^SPDXRef-([^:]+)$`)
	reDocElem  = regexp.MustCompile(`^(?:DocumentRef-([^:]+):)?SPDXRef-([^:]+)$`)
	reAgent    = regexp.MustCompile(`^\s*(Person|Organization|Tool)\s*:\s*(.*?)\s*$`)
	reChecksum = regexp.MustCompile(`^\s*([^:]*?)\s*:\s*(.*?)\s*$`)
	reRange    = regexp.MustCompile(`^\s*(-?\d+)\s*:\s*(-?\d+)\s*$`)
	reEDR      = regexp.MustCompile(`^ *DocumentRef-(\S+) +(\S+) +([^\s:]+): *(\S+) *$`)
	rePVC      = regexp.MustCompile(`^(.*?)\s*\(excludes:\s*(.*)\)$`)
	algsSince  = map[string]int{"SHA1": 1, "SHA256": 1, "MD5": 1, "SHA224": 2, "SHA384": 2, "SHA512": 2, "MD2": 2, "MD4": 2, "MD6": 2,
		"SHA3-256": 3, "SHA3-384": 3, "SHA3-512": 3, "BLAKE2b-256": 3, "BLAKE2b-384": 3, "BLAKE2b-512": 3, "BLAKE3": 3, "ADLER32": 3}
)

func newTVModel(ver int) *tvModel { return &tvModel{ver: ver, doc: &v2_3.Document{}} }

func (m *tvModel) checksum(value string) (common.Checksum, error) {
	g := reChecksum.FindStringSubmatch(value)
	if g == nil {
		return common.Checksum{}, errValue
	}
	if since, ok := algsSince[g[1]]; !ok || since > m.ver {
		return common.Checksum{}, errValue
	}
	return common.Checksum{Algorithm: common.ChecksumAlgorithm(g[1]), Value: g[2]}, nil
}

func (m *tvModel) docElement(value string) (common.DocElementID, error) {
	g := reDocElem.FindStringSubmatch(value)
	if g == nil {
		return common.DocElementID{}, errValue
	}
	return common.DocElementID{DocumentRefID: common.DocumentID(g[1]), ElementRefID: common.ElementID(g[2])}, nil
}

// leaveElement is called when a package, file, snippet, license or review begins.
func (m *tvModel) leaveFile() error {
	if m.file != nil && m.file.FileSPDXIdentifier == "" {
		return errNoID
	}
	return nil
}

// step reads one tag. After an error the text is rejected whatever follows.
func (m *tvModel) step(tag, value string) error {
	if tag != "ExternalRefComment" {
		m.ext = nil
	}
	if tag != "ArtifactOfProjectHomePage" && tag != "ArtifactOfProjectURI" {
		m.aop = nil
	}
	// relationships and annotations may stand anywhere
	switch tag {
	case "Relationship", "RelationshipComment", "Annotator", "AnnotationDate", "AnnotationType", "SPDXREF", "AnnotationComment":
		if m.sec == secStart {
			m.sec = secCreation
		}
		return m.stepAnywhere(tag, value)
	}
	body := m.sec == secCreation || m.sec == secStart || m.sec == secPackage || m.sec == secFile || m.sec == secSnippet
	switch tag {
	case "PackageName":
		if !body {
			return errTag
		}
		if err := m.leaveFile(); err != nil {
			return err
		}
		if m.pkg != nil && m.pkg.PackageSPDXIdentifier == "" {
			return errNoID
		}
		m.pkg = &v2_3.Package{PackageName: value, FilesAnalyzed: true}
		m.doc.Packages = append(m.doc.Packages, m.pkg)
		m.file, m.snip, m.sec = nil, nil, secPackage
		return nil
	case "FileName":
		if !body {
			return errTag
		}
		if err := m.leaveFile(); err != nil {
			return err
		}
		m.file = &v2_3.File{FileName: value}
		if m.pkg != nil {
			m.pkg.Files = append(m.pkg.Files, m.file)
		} else {
			m.doc.Files = append(m.doc.Files, m.file)
		}
		m.snip, m.sec = nil, secFile
		return nil
	case "SnippetSPDXID":
		if m.sec != secFile && m.sec != secSnippet {
			return errTag
		}
		if err := m.leaveFile(); err != nil {
			return err
		}
		g := reElement.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		m.snip = &v2_3.Snippet{SnippetSPDXIdentifier: common.ElementID(g[1])}
		if m.file.Snippets == nil {
			m.file.Snippets = map[common.ElementID]*v2_3.Snippet{}
		}
		m.file.Snippets[common.ElementID(g[1])] = m.snip
		m.sec = secSnippet
		return nil
	case "LicenseID":
		if m.sec == secReview {
			return errTag
		}
		m.lic = &v2_3.OtherLicense{LicenseIdentifier: value}
		m.doc.OtherLicenses = append(m.doc.OtherLicenses, m.lic)
		m.sec = secLicense
		return nil
	case "Reviewer":
		g := reAgent.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		m.rev = &v2_3.Review{ReviewerType: g[1], Reviewer: g[2]}
		m.doc.Reviews = append(m.doc.Reviews, m.rev)
		m.sec = secReview
		return nil
	case "ExternalDocumentRef", "DocumentComment":
		// belong to the document information, also after creation information
		if m.sec != secStart && m.sec != secCreation {
			return errTag
		}
		m.sec = secStart
		if tag == "ExternalDocumentRef" {
			g := reEDR.FindStringSubmatch(value)
			if g == nil {
				return errValue
			}
			m.doc.ExternalDocumentReferences = append(m.doc.ExternalDocumentReferences, v2_3.ExternalDocumentRef{
				DocumentRefID: common.DocumentID(g[1]), URI: g[2],
				Checksum: common.Checksum{Algorithm: common.ChecksumAlgorithm(g[3]), Value: g[4]}})
			return nil
		}
	case "LicenseListVersion", "Creator", "Created", "CreatorComment":
		if m.sec == secStart {
			m.sec = secCreation
		}
	}
	if f, ok := tvStrings[tag]; ok {
		if f.sec != m.sec || f.ver > m.ver {
			return errTag
		}
		m.element().FieldByName(f.field).SetString(value)
		return nil
	}
	if f, ok := tvLists[tag]; ok {
		if f.sec != m.sec || f.ver > m.ver {
			return errTag
		}
		l := m.element().FieldByName(f.field)
		l.Set(reflect.Append(l, reflect.ValueOf(value)))
		return nil
	}
	switch m.sec {
	case secStart:
		if tag == "SPDXID" {
			g := reElement.FindStringSubmatch(value)
			if g == nil {
				return errValue
			}
			m.doc.SPDXIdentifier = common.ElementID(g[1])
			return nil
		}
	case secCreation:
		if tag == "Creator" {
			g := reAgent.FindStringSubmatch(value)
			if g == nil {
				return errValue
			}
			m.element()
			m.doc.CreationInfo.Creators = append(m.doc.CreationInfo.Creators, common.Creator{CreatorType: g[1], Creator: g[2]})
			return nil
		}
	case secPackage:
		return m.stepPackage(tag, value)
	case secFile:
		return m.stepFile(tag, value)
	case secSnippet:
		return m.stepSnippet(tag, value)
	}
	return errTag
}

// element is the struct whose fields the current section fills.
func (m *tvModel) element() reflect.Value {
	switch m.sec {
	case secStart:
		return reflect.ValueOf(m.doc).Elem()
	case secCreation:
		if m.doc.CreationInfo == nil {
			m.doc.CreationInfo = &v2_3.CreationInfo{}
		}
		return reflect.ValueOf(m.doc.CreationInfo).Elem()
	case secPackage:
		return reflect.ValueOf(m.pkg).Elem()
	case secFile:
		return reflect.ValueOf(m.file).Elem()
	case secSnippet:
		return reflect.ValueOf(m.snip).Elem()
	case secLicense:
		return reflect.ValueOf(m.lic).Elem()
	}
	return reflect.ValueOf(m.rev).Elem()
}

func (m *tvModel) stepAnywhere(tag, value string) error {
	switch tag {
	case "Relationship":
		f := strings.Fields(value)
		if len(f) != 3 {
			return errValue
		}
		a, err := m.docElement(f[0])
		if err != nil {
			return err
		}
		var b common.DocElementID
		if m.ver >= 2 && (f[2] == "NONE" || f[2] == "NOASSERTION") {
			b.SpecialID = f[2]
		} else if b, err = m.docElement(f[2]); err != nil {
			return err
		}
		m.rel = &v2_3.Relationship{RefA: a, Relationship: f[1], RefB: b}
		m.doc.Relationships = append(m.doc.Relationships, m.rel)
		return nil
	case "RelationshipComment":
		if m.rel == nil {
			return errLoose
		}
		m.rel.RelationshipComment = value
		return nil
	case "Annotator":
		g := reAgent.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		m.ann = &v2_3.Annotation{Annotator: common.Annotator{AnnotatorType: g[1], Annotator: g[2]}}
		m.doc.Annotations = append(m.doc.Annotations, m.ann)
		return nil
	}
	if m.ann == nil {
		return errLoose
	}
	switch tag {
	case "AnnotationDate":
		m.ann.AnnotationDate = value
	case "AnnotationType":
		m.ann.AnnotationType = value
	case "AnnotationComment":
		m.ann.AnnotationComment = value
	case "SPDXREF":
		id, err := m.docElement(value)
		if err != nil {
			return err
		}
		m.ann.AnnotationSPDXIdentifier = id
	}
	return nil
}

func (m *tvModel) stepPackage(tag, value string) error {
	p := m.pkg
	switch tag {
	case "SPDXID":
		g := reElement.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		p.PackageSPDXIdentifier = common.ElementID(g[1])
	case "PackageSupplier", "PackageOriginator":
		name, typ := value, ""
		if value != "NOASSERTION" {
			g := reAgent.FindStringSubmatch(value)
			if g == nil || g[1] == "Tool" {
				return errValue
			}
			typ, name = g[1], g[2]
		}
		if tag == "PackageSupplier" {
			p.PackageSupplier = &common.Supplier{SupplierType: typ, Supplier: name}
		} else {
			p.PackageOriginator = &common.Originator{OriginatorType: typ, Originator: name}
		}
	case "FilesAnalyzed":
		if value != "true" && value != "false" {
			return errValue
		}
		p.FilesAnalyzed, p.IsFilesAnalyzedTagPresent = value == "true", true
	case "PackageVerificationCode":
		p.PackageVerificationCode = &common.PackageVerificationCode{Value: value}
		if g := rePVC.FindStringSubmatch(value); g != nil {
			p.PackageVerificationCode.Value = g[1]
			p.PackageVerificationCode.ExcludedFiles = strings.Split(g[2], ", ")
		}
	case "PackageChecksum":
		ck, err := m.checksum(value)
		if err != nil {
			return err
		}
		p.PackageChecksums = append(p.PackageChecksums, ck)
	case "ExternalRef":
		f := strings.Fields(value)
		if len(f) != 3 {
			return errValue
		}
		m.ext = &v2_3.PackageExternalReference{Category: f[0], RefType: f[1], Locator: f[2]}
		p.PackageExternalReferences = append(p.PackageExternalReferences, m.ext)
	case "ExternalRefComment":
		if m.ext == nil {
			return errLoose
		}
		m.ext.ExternalRefComment = value
		m.ext = nil
	default:
		return errTag
	}
	return nil
}

func (m *tvModel) stepFile(tag, value string) error {
	f := m.file
	switch tag {
	case "SPDXID":
		g := reElement.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		f.FileSPDXIdentifier = common.ElementID(g[1])
	case "FileChecksum":
		ck, err := m.checksum(value)
		if err != nil {
			return err
		}
		f.Checksums = append(f.Checksums, ck)
	case "ArtifactOfProjectName":
		m.aop = &v2_3.ArtifactOfProject{Name: value}
		f.ArtifactOfProjects = append(f.ArtifactOfProjects, m.aop)
	case "ArtifactOfProjectHomePage", "ArtifactOfProjectURI":
		if m.aop == nil {
			return errLoose
		}
		if tag == "ArtifactOfProjectURI" {
			m.aop.URI = value
		} else {
			m.aop.HomePage = value
		}
	default:
		return errTag
	}
	return nil
}

func (m *tvModel) stepSnippet(tag, value string) error {
	switch tag {
	case "SnippetFromFileSPDXID":
		g := reElement.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		m.snip.SnippetFromFileSPDXIdentifier = common.ElementID(g[1])
	case "SnippetByteRange", "SnippetLineRange":
		g := reRange.FindStringSubmatch(value)
		if g == nil {
			return errValue
		}
		a, _ := strconv.Atoi(g[1])
		b, _ := strconv.Atoi(g[2])
		var r common.SnippetRange
		if tag == "SnippetByteRange" {
			r.StartPointer.Offset, r.EndPointer.Offset = a, b
		} else {
			r.StartPointer.LineNumber, r.EndPointer.LineNumber = a, b
		}
		m.snip.Ranges = append(m.snip.Ranges, r)
	default:
		return errTag
	}
	return nil
}

// end is the end of the text.
func (m *tvModel) end() error {
	if err := m.leaveFile(); err != nil {
		return err
	}
	if m.pkg != nil && m.pkg.PackageSPDXIdentifier == "" {
		return errNoID
	}
	return nil
}

// key is the state of the machine: what decides which tags are accepted and where they go, and how
// many elements of each kind there are, up to limit.
func (m *tvModel) key(limit int) string {
	n := func(x int) byte { return byte('0' + min(x, limit)) }
	b := func(x bool) byte {
		if x {
			return '1'
		}
		return '0'
	}
	k := []byte{byte('0' + m.sec),
		b(m.pkg != nil), b(m.pkg != nil && m.pkg.PackageSPDXIdentifier != ""), b(m.file != nil), b(m.file != nil && m.file.FileSPDXIdentifier != ""),
		b(m.ext != nil), b(m.aop != nil), b(m.rel != nil), b(m.ann != nil), b(m.doc.CreationInfo != nil),
		n(len(m.doc.Packages)), n(len(m.doc.Files)), n(len(m.doc.OtherLicenses)), n(len(m.doc.Reviews))}
	pf, sn := 0, 0
	if m.pkg != nil {
		pf = len(m.pkg.Files)
	}
	if m.file != nil {
		sn = len(m.file.Snippets)
	}
	return string(append(k, n(pf), n(sn)))
}

// tvTok is one tag with a family of values; %d is replaced so that every occurrence is different.
type tvTok struct{ tag, val string }

func (t tvTok) value(n int) string { return strings.ReplaceAll(t.val, "%d", strconv.Itoa(n)) }

var tvTokens, tvBadTokens, tvNearTokens = func() (good, bad, near []tvTok) {
	for t := range tvStrings {
		if t == "SPDXVersion" {
			continue
		}
		v := "value: of%d # x"
		good = append(good, tvTok{t, v})
		if t == "PackageDescription" || t == "FileNotice" || t == "ExtractedText" || t == "DocumentComment" || t == "SnippetComment" {
			good = append(good, tvTok{t, "line %d\n\n#two:\n <text>indented: %d\n"})
		}
	}
	for t := range tvLists {
		good = append(good, tvTok{t, "item %d"})
	}
	add := func(tag string, vals ...string) {
		for _, v := range vals {
			good = append(good, tvTok{tag, v})
		}
	}
	no := func(tag string, vals ...string) {
		for _, v := range vals {
			bad = append(bad, tvTok{tag, v})
		}
	}
	add("PackageName", "name%d", "name: %d (x)")
	add("FileName", "./file%d")
	add("LicenseID", "LicenseRef-%d")
	add("SPDXID", "SPDXRef-e%d")
	no("SPDXID", "SPDXRef-a%d:", ":SPDXRef-a%d", "SPDXRef-a%d:SPDXRef-b", "SPDXRef-a%d::", "", "e%d", "SPDXRef-", "SPDXRef-a:%d", "DocumentRef-x:SPDXRef-y%d", "NONE", "spdxref-%d", "SPDXRefe%d")
	add("SnippetSPDXID", "SPDXRef-s%d")
	no("SnippetSPDXID", "SPDXRef-a%d:", ":SPDXRef-a%d", "SPDXRef-a%d:SPDXRef-b", "SPDXRef-a%d::", "", "s%d", "SPDXRef-", "SPDXRef-a:%d", "DocumentRef-x:SPDXRef-y%d", "NOASSERTION")
	add("SnippetFromFileSPDXID", "SPDXRef-f%d")
	no("SnippetFromFileSPDXID", "SPDXRef-a%d:", ":SPDXRef-a%d", "SPDXRef-a%d:SPDXRef-b", "SPDXRef-a%d::", "", "f%d", "SPDXRef-", "SPDXRef-a:%d", "DocumentRef-x", "NONE")
	add("SnippetByteRange", "%d:1%d", "%d : 2%d")
	no("SnippetByteRange", "", "%d", "a:%d", "%d:b", "%d:", ":%d", "1:2:%d", "1-%d", "1.5:%d")
	add("SnippetLineRange", "%d:1%d", " %d: 2%d")
	no("SnippetLineRange", "", "%d", "a:%d", "%d:b", "%d:", ":%d", "1:2:%d", "0x1:%d")
	for _, t := range []string{"Creator", "Reviewer", "Annotator"} {
		add(t, "Person: Jane%d (j@example.com)", "Organization: Org: %d", "Tool: tool-%d")
		no(t, "", "Jane%d", "Robot: r%d", "person: p%d", "NOASSERTION", ": x%d", "Persons: x%d")
	}
	for _, t := range []string{"PackageSupplier", "PackageOriginator"} {
		add(t, "Person: Jane%d (j@example.com)", "Organization: Org: %d", "NOASSERTION")
		no(t, "", "Jane%d", "Tool: t%d", "person: p%d", "NONE", ": x%d", "Noassertion")
	}
	for _, t := range []string{"PackageChecksum", "FileChecksum"} {
		for a := range algsSince {
			add(t, a+": "+"%dabc")
		}
		no(t, "", "SHA1", "sha1: %d", "FOO: %d", ": %d", "SHA1 %d", "SHA-1: %d", "BLAKE2B-256: %d")
	}
	add("Relationship", "SPDXRef-DOCUMENT DESCRIBES SPDXRef-p%d", "SPDXRef-a  CONTAINS   DocumentRef-x%d:SPDXRef-b",
		"DocumentRef-x%d:SPDXRef-b AMENDS SPDXRef-DOCUMENT", "SPDXRef-a%d DEPENDS_ON NONE", "SPDXRef-a%d DEPENDS_ON NOASSERTION")
	no("Relationship", "", "SPDXRef-a%d DESCRIBES", "SPDXRef-a%d DESCRIBES SPDXRef-b x", "a%d DESCRIBES SPDXRef-b", "SPDXRef-a%d DESCRIBES b",
		"NONE DESCRIBES SPDXRef-a%d", "SPDXRef-a%d X DocumentRef-x", "SPDXRef-a%d X DocumentRef-:SPDXRef-b", "SPDXRef-a%d X DocumentRef-x:b",
		"DocumentRef-a:SPDXRef-b:c%d X SPDXRef-d", "SPDXRef- X SPDXRef-d%d", "SPDXRef-a:b%d X SPDXRef-c", "SPDXRef-a%d X none",
		"DocumentRef-a:SPDXRef-b%d: X SPDXRef-c", "SPDXRef-c X DocumentRef-a:SPDXRef-b%d:", "SPDXRef-a%d: X SPDXRef-c", "SPDXRef-c X SPDXRef-a%d:", "DocumentRef-a::SPDXRef-b%d X SPDXRef-c",
		":SPDXRef-a%d X SPDXRef-c", "SPDXRef-a%d X DocumentRef-a:SPDXRef-b:SPDXRef-c", "SPDXRef-a%d X NONE:", "SPDXRef-a%d X DocumentRef-a:NONE")
	add("RelationshipComment", "rel comment %d", "rel\ncomment %d")
	add("AnnotationDate", "date %d")
	add("AnnotationType", "REVIEW%d")
	add("AnnotationComment", "ann comment %d", "ann\n comment %d\n")
	add("SPDXREF", "SPDXRef-a%d", "DocumentRef-x%d:SPDXRef-b")
	no("SPDXREF", "DocumentRef-a:SPDXRef-b%d:", "SPDXRef-b%d:", ":SPDXRef-b%d", "DocumentRef-a::SPDXRef-b%d", "DocumentRef-a:SPDXRef-b%d:SPDXRef-c", "SPDXRef-a%d:SPDXRef-b", "", "a%d", "SPDXRef-", "DocumentRef-x%d", "DocumentRef-:SPDXRef-a%d", "DocumentRef-x:SPDXRef-", "DocumentRef-x:b%d", "DocumentRef-a:SPDXRef-b:c%d", "SPDXRef-a:b%d")
	add("ExternalDocumentRef", "DocumentRef-x%d http://example.com/%d SHA1:abc%d", "DocumentRef-y%d  urn:x:%d SHA256:  abc%d")
	no("ExternalDocumentRef", "", "x%d http://example.com SHA1:a", "DocumentRef- http://example.com SHA1:a%d", "DocumentRef-x%d http://example.com",
		"DocumentRef-x%d http://example.com SHA1 a", "DocumentRef-x%d http://example.com SHA1", "DocumentRef-x%d http://example.com SHA1: a b", "DocumentRef-x%d")
	add("ExternalRef", "SECURITY cpe23Type cpe:2.3:a:%d", "PACKAGE-MANAGER  purl   pkg:npm/%d", "OTHER LocationRef-%d loc")
	no("ExternalRef", "", "SECURITY cpe%d", "SECURITY", "SECURITY cpe23Type a b%d")
	add("ExternalRefComment", "ext comment %d", "ext\ncomment %d")
	add("FilesAnalyzed", "true", "false")
	no("FilesAnalyzed", "", "True", "FALSE", "yes %d", "true %d", "0")
	add("PackageVerificationCode", "abc%d", "abc%d (excludes: ./x%d)", "abc%d (excludes: ./x%d, ./y(1).txt)")
	add("ArtifactOfProjectName", "project %d")
	add("ArtifactOfProjectHomePage", "http://example.com/%d")
	add("ArtifactOfProjectURI", "urn:%d")
	for _, t := range []string{"Foo", "packagename", "", "PackageNames", "SPDXRef", "Package Name"} {
		bad = append(bad, tvTok{t, "x%d"})
	}
	// near misses of every tag
	known := map[string]bool{}
	for _, t := range good {
		known[t.tag] = true
	}
	for _, t := range sortedStrings(known) {
		for _, m := range []string{t + "s", t[:len(t)-1], strings.ToLower(t), strings.ToUpper(t), "X" + t, t + " x", t[1:], strings.ToLower(t[:1]) + t[1:]} {
			if !known[m] {
				for _, g := range good {
					if g.tag == t {
						near = append(near, tvTok{m, g.val})
						break
					}
				}
			}
		}
	}
	sortToks(good)
	sortToks(bad)
	sortToks(near)
	return
}()

func sortToks(t []tvTok) {
	for i := range t {
		for j := i; j > 0 && (t[j].tag+"\x00"+t[j].val) < (t[j-1].tag+"\x00"+t[j-1].val); j-- {
			t[j], t[j-1] = t[j-1], t[j]
		}
	}
}

type tvPair struct{ tag, value string }

func (p tvPair) line() string {
	if strings.Contains(p.value, "\n") {
		return p.tag + ": <text>" + p.value + "</text>\n"
	}
	return p.tag + ": " + p.value + "\n"
}

// play runs a history on the reference.
func play(ver int, h []tvPair) (*tvModel, error) {
	m := newTVModel(ver)
	for _, p := range h {
		if err := m.step(p.tag, p.value); err != nil {
			return m, err
		}
	}
	return m, nil
}

type tvChecker struct {
	c       *kit.Ctx
	v       *docs.Version
	accepts bool // P02: accepted texts; otherwise P03: rejected ones
	target  string
	n       atomic.Int64
}

// compare reads the text of a history with the code and compares with the reference.
func (t *tvChecker) compare(h []tvPair, extra string) {
	m, err := play(t.v.Num, h)
	if err == nil {
		err = m.end()
	}
	if (err == nil) != t.accepts {
		return
	}
	var b bytes.Buffer
	for _, p := range h {
		b.WriteString(p.line())
	}
	t.n.Add(1)
	t.c.Evals.Add(1)
	t.c.Traces.Add(1)
	text := b.String()
	label := h[len(h)-1].tag
	if len(h) > 1 {
		label = h[len(h)-2].tag + ";" + label
	}
	bad := func(what string) {
		t.c.Violate(fmt.Sprintf("%s/%d/%s=%.40s%s", t.v.Name, m.sec, label, h[len(h)-1].value, extra),
			fmt.Sprintf("%s: %s (last tags %s)", t.v.Name, what, label), map[string]any{"text": text, "version": t.v.Name})
	}
	if t.accepts {
		got := t.v.New()
		gerr, p := guardErr(func() error { return tagvalue.ReadInto(bytes.NewReader(b.Bytes()), got) })
		if p != nil {
			bad(fmt.Sprint("panics: ", p))
			return
		}
		if gerr != nil {
			bad("rejected: " + gerr.Error())
			return
		}
		exp := reflect.New(reflect.TypeOf(got).Elem())
		exp.Elem().Set(copyByName(reflect.ValueOf(m.doc).Elem(), exp.Elem().Type()))
		if w, g := docs.Canon(exp.Interface()), docs.Canon(got); w != g {
			bad("reads different: " + docs.Diff(w, g))
		}
		return
	}
	got := docs.Minimal(t.v)
	gerr, p := guardErr(func() error { return tagvalue.ReadInto(bytes.NewReader(b.Bytes()), got) })
	if p != nil {
		bad(fmt.Sprint("panics: ", p))
		return
	}
	if gerr == nil {
		bad("accepted, although: " + err.Error())
		return
	}
	if docs.Canon(got) != t.target {
		bad("rejected, but the caller's document has changed")
	}
}

func extend(h []tvPair, t tvTok) []tvPair {
	n := make([]tvPair, len(h), len(h)+1)
	copy(n, h)
	return append(n, tvPair{t.tag, t.value(len(h))})
}

// undefined tells whether the specification leaves open what a tag means here.
func undefined(m *tvModel, t tvTok) bool {
	// 2.1 states the document comment before the creation information; after it, it is neither
	// clearly allowed nor clearly forbidden
	return t.tag == "DocumentComment" && m.ver == 1 && m.sec == secCreation
}

type tvNode struct {
	h []tvPair
}

func runTV(c *kit.Ctx, accepts bool) {
	limit := kit.Pick(c, 1, 2)
	var all []tvTok
	all = append(all, tvTokens...)
	all = append(all, tvBadTokens...)
	c.Set("tokens_wellformed", len(tvTokens))
	c.Set("tokens_malformed", len(tvBadTokens))
	c.Bound("reference state machine per version: section, current elements and whether they have an identifier, pending comment targets, elements of each kind counted up to %d; breadth-first from the empty text", limit)
	c.Bound("from every state every tag of the format with every well-formed and malformed value; the text of the whole history is read by the code and compared")
	c.Bound("from every state of the coarsest abstraction every misspelling of every tag: %d of them", len(tvNearTokens))
	c.Bound("from every state of the coarsest abstraction every tag 3 and 5 times (thorough: 2 to 8 times) in a row, followed by every tag")
	c.Bound("from every state of the coarsest abstraction every pair (thorough: triple of section-changing) of tags that the reference accepts, followed by its end")
	for _, v := range docs.Versions {
		t := &tvChecker{c: c, v: v, accepts: accepts, target: docs.Canon(docs.Minimal(v))}
		start := []tvPair{{"SPDXVersion", v.Const}}
		seen := map[string]bool{}
		coarse := map[string][]tvPair{}
		m0, _ := play(v.Num, start)
		seen[m0.key(limit)] = true
		coarse[m0.key(0)] = start
		frontier := []tvNode{{start}}
		depth := 0
		for len(frontier) > 0 && !c.Stop() {
			depth++
			next := make([][]tvNode, len(frontier))
			keys := make([][]string, len(frontier))
			c.Parallel(len(frontier), func(i int) {
				h := frontier[i].h
				m, _ := play(v.Num, h)
				for _, tok := range all {
					if c.Stop() {
						return
					}
					if undefined(m, tok) {
						continue
					}
					c.Transitions.Add(1)
					hh := extend(h, tok)
					t.compare(hh, "")
					mm, err := play(v.Num, hh)
					if err != nil {
						if !accepts && (err != errTag || c.Thorough() || tok.val == "x%d") {
							// whatever follows does not heal it: an identifier, a new element, the end
							for _, s := range [][]tvTok{{{"SPDXID", "SPDXRef-h%d"}}, {{"PackageName", "p%d"}, {"SPDXID", "SPDXRef-h%d"}}, {{"FileName", "f%d"}, {"SPDXID", "SPDXRef-h%d"}}, {{"Relationship", "SPDXRef-a NEXT SPDXRef-b%d"}, {"RelationshipComment", "x"}}} {
								hhh := hh
								for _, x := range s {
									hhh = extend(hhh, x)
								}
								t.compare(hhh, "+")
							}
						}
						continue
					}
					keys[i] = append(keys[i], mm.key(limit))
					next[i] = append(next[i], tvNode{hh})
				}
			})
			var nf []tvNode
			for i := range next {
				for j := range next[i] {
					if k := keys[i][j]; !seen[k] {
						seen[k] = true
						nf = append(nf, next[i][j])
						c.Seen(v.Name + k)
						m, _ := play(v.Num, next[i][j].h)
						if _, ok := coarse[m.key(0)]; !ok {
							coarse[m.key(0)] = next[i][j].h
						}
					}
				}
			}
			frontier = nf
		}
		c.States.Add(int64(len(seen)))
		c.Set("depth_"+v.Name, depth)
		c.Set("states_"+v.Name, len(seen))
		// pairs from the coarse states
		var hs [][]tvPair
		for _, k := range sortedStrings(coarse) {
			hs = append(hs, coarse[k])
		}
		c.Set("coarse_states_"+v.Name, len(hs))
		type job struct {
			h   []tvPair
			tok tvTok
		}
		var jobs []job
		for _, h := range hs {
			m, _ := play(v.Num, h)
			last := ""
			for _, tok := range tvTokens {
				if undefined(m, tok) {
					continue
				}
				hh := extend(h, tok)
				if _, err := play(v.Num, hh); err == nil {
					if !accepts && !c.Thorough() && hh[len(hh)-1].tag == last {
						continue // one value of each tag
					}
					last = tok.tag
					jobs = append(jobs, job{hh, tok})
				}
			}
		}
		// one tag many times over
		ones := func(toks []tvTok) (out []tvTok) {
			for i, tok := range toks {
				if i == 0 || toks[i-1].tag != tok.tag {
					out = append(out, tok)
				}
			}
			return
		}
		good := tvTokens
		if !c.Thorough() {
			good = ones(good)
		}
		after := good
		if !accepts {
			after = append(append([]tvTok{}, good...), tvBadTokens...)
		}
		counts := map[int]bool{3: true, 5: accepts}
		if c.Thorough() {
			counts = map[int]bool{2: true, 3: true, 4: true, 5: true, 6: true, 7: true, 8: true}
		}
		c.Parallel(len(hs)*len(good), func(i int) {
			h, tok := hs[i/len(good)], good[i%len(good)]
			for k := 1; k <= 8; k++ {
				m, err := play(v.Num, h)
				if err != nil || undefined(m, tok) {
					return
				}
				h = extend(h, tok)
				m, err = play(v.Num, h)
				if err != nil {
					return
				}
				if !counts[k] {
					continue
				}
				for _, x := range after {
					if c.Stop() {
						return
					}
					if undefined(m, x) {
						continue
					}
					hx := extend(h, x)
					c.Transitions.Add(1)
					mm, err := play(v.Num, hx)
					if err == nil && !undefined(mm, x) {
						t.compare(extend(hx, x), fmt.Sprint("*", k, "="))
					}
					if (err == nil) != accepts && err == nil {
						continue
					}
					if err == nil && (mm.sec == secPackage && mm.pkg.PackageSPDXIdentifier == "" || mm.sec == secFile && mm.file.FileSPDXIdentifier == "") {
						hx = extend(hx, tvTok{"SPDXID", "SPDXRef-z%d"})
					}
					t.compare(hx, fmt.Sprint("*", k))
				}
			}
		})
		// misspelt tags
		if !accepts {
			c.Parallel(len(hs), func(i int) {
				m, _ := play(v.Num, hs[i])
				for _, tok := range tvNearTokens {
					if c.Stop() {
						return
					}
					h := extend(hs[i], tok)
					c.Transitions.Add(1)
					if mm := m; mm.sec == secPackage && mm.pkg.PackageSPDXIdentifier == "" || mm.sec == secFile && mm.file.FileSPDXIdentifier == "" {
						t.compare(extend(h, tvTok{"SPDXID", "SPDXRef-z%d"}), "")
					}
					t.compare(h, "")
				}
			})
		}
		second := tvTokens
		if !accepts {
			second = all
			if !c.Thorough() {
				// every malformed value, and one value of each tag
				second = append([]tvTok{}, tvBadTokens...)
				for i, tok := range tvTokens {
					if i == 0 || tvTokens[i-1].tag != tok.tag {
						second = append(second, tok)
					}
				}
			}
		}
		var mu sync.Mutex
		var trans int64
		c.Parallel(len(jobs), func(i int) {
			m, _ := play(v.Num, jobs[i].h)
			n := int64(0)
			for _, tok := range second {
				if c.Stop() {
					return
				}
				if undefined(m, tok) {
					continue
				}
				n++
				h3 := extend(jobs[i].h, tok)
				// the elements under way get their identifiers, so that the text as a whole is acceptable, or
				// would be but for the last tag
				mm, err := play(v.Num, h3)
				if err != nil {
					mm = m
				}
				if mm.sec == secPackage && mm.pkg.PackageSPDXIdentifier == "" || mm.sec == secFile && mm.file.FileSPDXIdentifier == "" {
					t.compare(extend(h3, tvTok{"SPDXID", "SPDXRef-z%d"}), "")
				}
				t.compare(h3, "")
				if accepts && err == nil && !undefined(mm, jobs[i].tok) {
					// the tag before it once more, as it was
					same := jobs[i].h[len(jobs[i].h)-1]
					t.compare(append(h3, same), "=")
					if mm.sec == secPackage && mm.pkg.PackageSPDXIdentifier == "" || mm.sec == secFile && mm.file.FileSPDXIdentifier == "" {
						t.compare(append(extend(h3, tvTok{"SPDXID", "SPDXRef-z%d"}), same), "=")
					}
				}
			}
			if h := jobs[i].h; accepts && !undefined(m, jobs[i].tok) {
				t.compare(append(h[:len(h):len(h)], h[len(h)-1]), "=")
				t.compare(append(h[:len(h):len(h)], h[len(h)-1], h[len(h)-1]), "=")
			}
			mu.Lock()
			trans += n
			mu.Unlock()
		})
		c.Transitions.Add(trans)
		if len(hs) > 0 {
			var b strings.Builder
			for _, p := range hs[len(hs)-1] {
				b.WriteString(p.line())
			}
			c.Sample(b.String())
		}
		c.Set("texts_"+v.Name, t.n.Load())
	}
	if n := c.States.Load(); n > 0 {
		c.Sample(fmt.Sprintf("%d states in all", n))
	}
}

func sortedStrings[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}
