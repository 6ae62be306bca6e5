package rdfx

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"

	"verifharness/docs"
)

func eachFile(d *v2_3.Document, f func(*v2_3.File)) {
	for _, p := range d.Packages {
		for _, x := range p.Files {
			f(x)
		}
	}
	for _, x := range d.Files {
		f(x)
	}
}

func sortedSnippets(f *v2_3.File) []common.ElementID {
	var ids []common.ElementID
	for id := range f.Snippets {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	return ids
}

// Up copies a document of any version, field by field, into one of the latest.
func Up(doc any) *v2_3.Document {
	out := &v2_3.Document{}
	copyTo(reflect.ValueOf(out).Elem(), reflect.ValueOf(doc).Elem())
	return out
}

func copyTo(dst, src reflect.Value) {
	switch {
	case src.Kind() == reflect.Ptr:
		if src.IsNil() {
			return
		}
		copyTo(dst, src.Elem())
	case dst.Kind() == reflect.Ptr:
		n := reflect.New(dst.Type().Elem())
		copyTo(n.Elem(), src)
		dst.Set(n)
	case src.Type() == dst.Type() && src.Kind() == reflect.Struct && src.Type().PkgPath() == "github.com/spdx/tools-golang/spdx/v2/common":
		dst.Set(reflect.ValueOf(docs.Clone(src.Interface())))
	case src.Kind() == reflect.Struct:
		for i := 0; i < src.NumField(); i++ {
			if f := src.Type().Field(i); f.IsExported() {
				if t := dst.FieldByName(f.Name); t.IsValid() {
					copyTo(t, src.Field(i))
				}
			}
		}
	case src.Kind() == reflect.Slice:
		if src.Len() == 0 {
			return
		}
		s := reflect.MakeSlice(dst.Type(), src.Len(), src.Len())
		for i := 0; i < src.Len(); i++ {
			copyTo(s.Index(i), src.Index(i))
		}
		dst.Set(s)
	case src.Kind() == reflect.Map:
		if src.Len() == 0 {
			return
		}
		m := reflect.MakeMap(dst.Type())
		for _, k := range src.MapKeys() {
			e := reflect.New(dst.Type().Elem()).Elem()
			copyTo(e, src.MapIndex(k))
			m.SetMapIndex(k.Convert(dst.Type().Key()), e)
		}
		dst.Set(m)
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

// Fix narrows a document to what can be stated in RDF, keeping as much of its variation as it can.
// It tells whether the result is one: not so when two elements have the same identifier.
func Fix(d *v2_3.Document) bool {
	if d.DocumentNamespace == "" || strings.ContainsAny(d.DocumentNamespace, "# ") || !strings.HasPrefix(d.DocumentNamespace, "http") {
		d.DocumentNamespace = "http://example.org/ns/doc-1"
	}
	d.DataLicense = "CC0-1.0"
	d.Snippets = nil
	if d.SPDXIdentifier == "" {
		d.SPDXIdentifier = "DOCUMENT"
	}
	ids := []common.ElementID{d.SPDXIdentifier}
	var files []common.ElementID
	for _, p := range d.Packages {
		ids = append(ids, p.PackageSPDXIdentifier)
	}
	eachFile(d, func(f *v2_3.File) {
		ids = append(ids, f.FileSPDXIdentifier)
		files = append(files, f.FileSPDXIdentifier)
	})
	nElem := len(ids)
	eachFile(d, func(f *v2_3.File) { ids = append(ids, sortedSnippets(f)...) })
	seen := map[common.ElementID]bool{}
	for _, id := range ids {
		if seen[id] || id == "" {
			return false
		}
		seen[id] = true
	}
	isFile := map[common.ElementID]bool{}
	for _, f := range files {
		isFile[f] = true
	}
	turn := 0
	pick := func(of []common.ElementID) common.ElementID { turn++; return of[turn%len(of)] }

	lics := map[string]bool{}
	for i, l := range d.OtherLicenses {
		if !strings.HasPrefix(l.LicenseIdentifier, "LicenseRef-") {
			l.LicenseIdentifier = "LicenseRef-" + l.LicenseIdentifier
		}
		l.LicenseIdentifier = ident(l.LicenseIdentifier)
		if lics[l.LicenseIdentifier] {
			return false
		}
		lics[l.LicenseIdentifier] = true
		l.ExtractedText, l.LicenseName, l.LicenseComment = plain(l.ExtractedText), plain(l.LicenseName), plain(l.LicenseComment)
		uris(&l.LicenseCrossReferences, fmt.Sprintf("see%d", i))
	}
	nLic := 0
	// license makes an expression of any text
	license := func(s *string) {
		if *s == "" || *s == "NONE" || *s == "NOASSERTION" {
			return
		}
		if e := Parse(*s); e != nil && known(e, lics) {
			return
		}
		nLic++
		*s = Listed[nLic%len(Listed)]
	}
	licenses := func(p *[]string) {
		l := *p
		defer unique(p)
		for i := range l {
			if l[i] == "" {
				l[i] = "NONE"
			}
			license(&l[i])
		}
	}

	d.DocumentName, d.DocumentComment = plain(d.DocumentName), plain(d.DocumentComment)
	exts := map[common.DocumentID]bool{}
	for i := range d.ExternalDocumentReferences {
		x := &d.ExternalDocumentReferences[i]
		if exts[x.DocumentRefID] || x.DocumentRefID == "" {
			return false
		}
		exts[x.DocumentRefID] = true
		x.URI = uri(x.URI, fmt.Sprintf("ext%d-%s", i, x.DocumentRefID))
		checksum(&x.Checksum)
	}
	if ci := d.CreationInfo; ci != nil {
		seen := map[common.Creator]bool{}
		var creators []common.Creator
		for _, c := range ci.Creators {
			c.Creator = name(c.Creator)
			if !seen[c] {
				seen[c] = true
				creators = append(creators, c)
			}
		}
		ci.Creators = creators
		ci.LicenseListVersion, ci.Created, ci.CreatorComment = plain(ci.LicenseListVersion), plain(ci.Created), plain(ci.CreatorComment)
	}
	for _, r := range d.Reviews {
		r.Reviewer, r.ReviewDate, r.ReviewComment = name(r.Reviewer), plain(r.ReviewDate), plain(r.ReviewComment)
	}
	for _, p := range d.Packages {
		p.Annotations = nil
		p.IsUnpackaged = false
		for _, s := range []*string{&p.PackageName, &p.PackageVersion, &p.PackageFileName, &p.PackageSourceInfo, &p.PackageLicenseComments, &p.PackageCopyrightText,
			&p.PackageSummary, &p.PackageDescription, &p.PackageComment, &p.ReleaseDate, &p.BuiltDate, &p.ValidUntilDate} {
			*s = plain(*s)
		}
		if s := p.PackageSupplier; s != nil && s.Supplier != "NOASSERTION" {
			s.Supplier = name(s.Supplier)
		}
		if s := p.PackageOriginator; s != nil && s.Originator != "NOASSERTION" {
			s.Originator = name(s.Originator)
		}
		if s := p.PackageDownloadLocation; s != "" && s != "NONE" && s != "NOASSERTION" {
			p.PackageDownloadLocation = uri(s, "dl")
		}
		if p.PackageHomePage != "" {
			p.PackageHomePage = uri(p.PackageHomePage, "home")
		}
		if !p.IsFilesAnalyzedTagPresent {
			p.FilesAnalyzed = true
		}
		if c := p.PackageVerificationCode; c != nil {
			c.Value = plain(c.Value)
			if c.Value == "" {
				p.PackageVerificationCode = nil
			}
			plains(&c.ExcludedFiles)
		}
		for i := range p.PackageChecksums {
			checksum(&p.PackageChecksums[i])
		}
		license(&p.PackageLicenseConcluded)
		license(&p.PackageLicenseDeclared)
		licenses(&p.PackageLicenseInfoFromFiles)
		plains(&p.PackageAttributionTexts)
		for _, x := range p.PackageExternalReferences {
			x.RefType = uri(x.RefType, "reftype")
			x.Locator, x.ExternalRefComment = plain(x.Locator), plain(x.ExternalRefComment)
		}
		if !purposes[p.PrimaryPackagePurpose] {
			p.PrimaryPackagePurpose = "OPERATING-SYSTEM"
		}
	}
	aop := 0
	nsnip := 0
	eachFile(d, func(f *v2_3.File) {
		f.Annotations = nil
		for _, s := range []*string{&f.FileName, &f.LicenseComments, &f.FileCopyrightText, &f.FileComment, &f.FileNotice} {
			*s = plain(*s)
		}
		for i, t := range f.FileTypes {
			if !fileTypes[t] {
				f.FileTypes[i] = []string{"SOURCE", "BINARY", "DOCUMENTATION"}[i%3]
			}
		}
		unique(&f.FileTypes)
		for i := range f.Checksums {
			checksum(&f.Checksums[i])
		}
		license(&f.LicenseConcluded)
		licenses(&f.LicenseInfoInFiles)
		for _, a := range f.ArtifactOfProjects {
			aop++
			a.Name, a.HomePage = plain(a.Name), plain(a.HomePage)
			if a.URI != "" {
				a.URI = uri(a.URI, "artifact") + fmt.Sprint("-", aop)
			}
		}
		plains(&f.FileContributors)
		plains(&f.FileAttributionTexts)
		for i := range f.FileDependencies {
			if !isFile[common.ElementID(f.FileDependencies[i])] {
				f.FileDependencies[i] = string(pick(files))
			}
		}
		unique(&f.FileDependencies)
		ss := map[common.ElementID]*v2_3.Snippet{}
		for _, id := range sortedSnippets(f) {
			s := f.Snippets[id]
			nsnip++
			s.SnippetSPDXIdentifier = id
			s.SnippetFromFileSPDXIdentifier = f.FileSPDXIdentifier
			for i := range s.Ranges {
				for _, p := range []*common.SnippetRangePointer{&s.Ranges[i].StartPointer, &s.Ranges[i].EndPointer} {
					if !isFile[p.FileSPDXIdentifier] {
						p.FileSPDXIdentifier = f.FileSPDXIdentifier
					}
					if p.LineNumber != 0 { // a pointer is of one kind
						p.Offset = 0
					}
				}
			}
			license(&s.SnippetLicenseConcluded)
			licenses(&s.LicenseInfoInSnippet)
			plains(&s.SnippetAttributionTexts)
			for _, t := range []*string{&s.SnippetLicenseComments, &s.SnippetCopyrightText, &s.SnippetComment, &s.SnippetName} {
				*t = plain(*t)
			}
			ss[id] = s
		}
		f.Snippets = ss
	})
	for _, r := range d.Relationships {
		if r.RefA.DocumentRefID != "" || !seen[r.RefA.ElementRefID] {
			r.RefA = common.DocElementID{ElementRefID: pick(ids[:nElem])}
		}
		if r.RefB.SpecialID == "" && r.RefB.DocumentRefID != "" && !exts[r.RefB.DocumentRefID] {
			r.RefB.DocumentRefID = ""
			for _, x := range d.ExternalDocumentReferences {
				r.RefB.DocumentRefID = x.DocumentRefID
			}
		}
		if r.RefB.SpecialID == "" && r.RefB.DocumentRefID == "" && !seen[r.RefB.ElementRefID] && turn%3 != 1 {
			r.RefB = common.DocElementID{ElementRefID: pick(ids)}
		}
		r.RelationshipComment = plain(r.RelationshipComment)
	}
	for _, a := range d.Annotations {
		if a.AnnotationSPDXIdentifier.DocumentRefID != "" || !seen[a.AnnotationSPDXIdentifier.ElementRefID] {
			a.AnnotationSPDXIdentifier = common.DocElementID{ElementRefID: pick(ids[:nElem])}
		}
		a.Annotator.Annotator = name(a.Annotator.Annotator)
		a.AnnotationDate, a.AnnotationComment = plain(a.AnnotationDate), plain(a.AnnotationComment)
	}
	return true
}

var purposes = map[string]bool{"": true, "APPLICATION": true, "FRAMEWORK": true, "LIBRARY": true, "CONTAINER": true, "OPERATING-SYSTEM": true, "DEVICE": true,
	"FIRMWARE": true, "SOURCE": true, "ARCHIVE": true, "FILE": true, "INSTALL": true, "OTHER": true}
var fileTypes = map[string]bool{"SOURCE": true, "BINARY": true, "ARCHIVE": true, "APPLICATION": true, "AUDIO": true, "IMAGE": true, "TEXT": true, "VIDEO": true, "DOCUMENTATION": true, "SPDX": true, "OTHER": true}

func known(e *Expr, lics map[string]bool) bool {
	if e.Op == "" {
		return listed[e.ID] || lics[e.ID] || e.ID == "NONE" || e.ID == "NOASSERTION"
	}
	for _, s := range e.Subs {
		if !known(s, lics) {
			return false
		}
	}
	return true
}

// plain keeps of a text what RDF/XML keeps of it here: no blanks at its ends.
func plain(s string) string { return strings.Trim(s, " \t\n\r") }

// plains makes a set of texts: a statement made twice is made once.
func plains(p *[]string) {
	l := *p
	for i := range l {
		if l[i] = plain(l[i]); l[i] == "" {
			l[i] = "x"
		}
	}
	unique(p)
}

func unique(p *[]string) {
	seen := map[string]bool{}
	out := (*p)[:0:0]
	for _, s := range *p {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	*p = out
}

func name(s string) string {
	if s = plain(s); s == "" {
		return "x"
	}
	return s
}

func ident(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r == '-' || r == '.' || r >= '0' && r <= '9' || r >= 'A' && r <= 'Z' || r >= 'a' && r <= 'z' {
			b.WriteRune(r)
		} else {
			b.WriteByte('.')
		}
	}
	return b.String()
}

func uri(s, tag string) string {
	if strings.HasPrefix(s, "http") && !strings.ContainsAny(s, " \t\n<>\"#{}|\\^`") {
		return s
	}
	return "http://example.org/" + tag + "/" + ident(s)
}

func uris(p *[]string, tag string) {
	for i, s := range *p {
		(*p)[i] = uri(s, tag)
	}
	unique(p)
}

func checksum(c *common.Checksum) {
	c.Value = plain(c.Value)
	if c.Value == "" {
		c.Value = "00"
	}
}

func keys(m map[string]bool) (out []string) {
	for k := range m {
		if k != "" {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return
}

// Purposes of packages.
func Purposes() []string { return keys(purposes) }

// FileTypes are the types of files.
func FileTypes() []string { return keys(fileTypes) }
