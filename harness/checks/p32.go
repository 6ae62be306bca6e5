package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"sigs.k8s.io/yaml"
)

func init() { register("P32", "exploration", runP32) }

// name32 is what the SPDX specification calls a field: its JSON property and its tag.
type name32 struct{ json, tag string }

// names32, by struct and field. Fields without either have no place of their own in the format.
var names32 = map[string]name32{
	"Document.SPDXVersion":                {"spdxVersion", "SPDXVersion"},
	"Document.DataLicense":                {"dataLicense", "DataLicense"},
	"Document.SPDXIdentifier":             {"SPDXID", "SPDXID"},
	"Document.DocumentName":               {"name", "DocumentName"},
	"Document.DocumentNamespace":          {"documentNamespace", "DocumentNamespace"},
	"Document.ExternalDocumentReferences": {"externalDocumentRefs", ""},
	"Document.DocumentComment":            {"comment", "DocumentComment"},
	"Document.CreationInfo":               {"creationInfo", ""},
	"Document.Packages":                   {"packages", ""},
	"Document.Files":                      {"files", ""},
	"Document.OtherLicenses":              {"hasExtractedLicensingInfos", ""},
	"Document.Relationships":              {"relationships", ""},
	"Document.Annotations":                {"annotations", ""},
	"Document.Snippets":                   {"snippets", ""},

	"ExternalDocumentRef.DocumentRefID": {"externalDocumentId", ""},
	"ExternalDocumentRef.URI":           {"spdxDocument", ""},
	"ExternalDocumentRef.Checksum":      {"checksum", ""},

	"CreationInfo.LicenseListVersion": {"licenseListVersion", "LicenseListVersion"},
	"CreationInfo.Creators":           {"creators", "Creator"},
	"CreationInfo.Created":            {"created", "Created"},
	"CreationInfo.CreatorComment":     {"comment", "CreatorComment"},

	"Package.PackageName":                 {"name", "PackageName"},
	"Package.PackageSPDXIdentifier":       {"SPDXID", "SPDXID"},
	"Package.PackageVersion":              {"versionInfo", "PackageVersion"},
	"Package.PackageFileName":             {"packageFileName", "PackageFileName"},
	"Package.PackageSupplier":             {"supplier", "PackageSupplier"},
	"Package.PackageOriginator":           {"originator", "PackageOriginator"},
	"Package.PackageDownloadLocation":     {"downloadLocation", "PackageDownloadLocation"},
	"Package.FilesAnalyzed":               {"filesAnalyzed", "FilesAnalyzed"},
	"Package.PackageVerificationCode":     {"packageVerificationCode", "PackageVerificationCode"},
	"Package.PackageChecksums":            {"checksums", "PackageChecksum"},
	"Package.PackageHomePage":             {"homepage", "PackageHomePage"},
	"Package.PackageSourceInfo":           {"sourceInfo", "PackageSourceInfo"},
	"Package.PackageLicenseConcluded":     {"licenseConcluded", "PackageLicenseConcluded"},
	"Package.PackageLicenseInfoFromFiles": {"licenseInfoFromFiles", "PackageLicenseInfoFromFiles"},
	"Package.PackageLicenseDeclared":      {"licenseDeclared", "PackageLicenseDeclared"},
	"Package.PackageLicenseComments":      {"licenseComments", "PackageLicenseComments"},
	"Package.PackageCopyrightText":        {"copyrightText", "PackageCopyrightText"},
	"Package.PackageSummary":              {"summary", "PackageSummary"},
	"Package.PackageDescription":          {"description", "PackageDescription"},
	"Package.PackageComment":              {"comment", "PackageComment"},
	"Package.PackageExternalReferences":   {"externalRefs", ""},
	"Package.PackageAttributionTexts":     {"attributionTexts", "PackageAttributionText"},
	"Package.PrimaryPackagePurpose":       {"primaryPackagePurpose", "PrimaryPackagePurpose"},
	"Package.ReleaseDate":                 {"releaseDate", "ReleaseDate"},
	"Package.BuiltDate":                   {"builtDate", "BuiltDate"},
	"Package.ValidUntilDate":              {"validUntilDate", "ValidUntilDate"},
	"Package.Files":                       {"files", ""},
	"Package.Annotations":                 {"annotations", ""},

	"PackageVerificationCode.Value":         {"packageVerificationCodeValue", ""},
	"PackageVerificationCode.ExcludedFiles": {"packageVerificationCodeExcludedFiles", ""},

	"PackageExternalReference.Category":           {"referenceCategory", ""},
	"PackageExternalReference.RefType":            {"referenceType", ""},
	"PackageExternalReference.Locator":            {"referenceLocator", ""},
	"PackageExternalReference.ExternalRefComment": {"comment", "ExternalRefComment"},

	"Checksum.Algorithm": {"algorithm", ""},
	"Checksum.Value":     {"checksumValue", ""},

	"File.FileName":             {"fileName", "FileName"},
	"File.FileSPDXIdentifier":   {"SPDXID", "SPDXID"},
	"File.FileTypes":            {"fileTypes", "FileType"},
	"File.Checksums":            {"checksums", "FileChecksum"},
	"File.LicenseConcluded":     {"licenseConcluded", "LicenseConcluded"},
	"File.LicenseInfoInFiles":   {"licenseInfoInFiles", "LicenseInfoInFile"},
	"File.LicenseComments":      {"licenseComments", "LicenseComments"},
	"File.FileCopyrightText":    {"copyrightText", "FileCopyrightText"},
	"File.ArtifactOfProjects":   {"artifactOfs", ""},
	"File.FileComment":          {"comment", "FileComment"},
	"File.FileNotice":           {"noticeText", "FileNotice"},
	"File.FileContributors":     {"fileContributors", "FileContributor"},
	"File.FileAttributionTexts": {"attributionTexts", "FileAttributionText"},
	"File.FileDependencies":     {"fileDependencies", "FileDependency"},
	"File.Annotations":          {"annotations", ""},

	"ArtifactOfProject.Name":     {"name", "ArtifactOfProjectName"},
	"ArtifactOfProject.HomePage": {"homePage", "ArtifactOfProjectHomePage"},
	"ArtifactOfProject.URI":      {"URI", "ArtifactOfProjectURI"},

	"Snippet.SnippetSPDXIdentifier":         {"SPDXID", "SnippetSPDXID"},
	"Snippet.SnippetFromFileSPDXIdentifier": {"snippetFromFile", "SnippetFromFileSPDXID"},
	"Snippet.Ranges":                        {"ranges", ""},
	"Snippet.SnippetLicenseConcluded":       {"licenseConcluded", "SnippetLicenseConcluded"},
	"Snippet.LicenseInfoInSnippet":          {"licenseInfoInSnippets", "LicenseInfoInSnippet"},
	"Snippet.SnippetLicenseComments":        {"licenseComments", "SnippetLicenseComments"},
	"Snippet.SnippetCopyrightText":          {"copyrightText", "SnippetCopyrightText"},
	"Snippet.SnippetComment":                {"comment", "SnippetComment"},
	"Snippet.SnippetName":                   {"name", "SnippetName"},
	"Snippet.SnippetAttributionTexts":       {"", "SnippetAttributionText"},

	"SnippetRange.StartPointer":              {"startPointer", ""},
	"SnippetRange.EndPointer":                {"endPointer", ""},
	"SnippetRangePointer.Offset":             {"offset", ""},
	"SnippetRangePointer.LineNumber":         {"lineNumber", ""},
	"SnippetRangePointer.FileSPDXIdentifier": {"reference", ""},

	"OtherLicense.LicenseIdentifier":      {"licenseId", "LicenseID"},
	"OtherLicense.ExtractedText":          {"extractedText", "ExtractedText"},
	"OtherLicense.LicenseName":            {"name", "LicenseName"},
	"OtherLicense.LicenseCrossReferences": {"seeAlsos", "LicenseCrossReference"},
	"OtherLicense.LicenseComment":         {"comment", "LicenseComment"},

	"Relationship.RefA":                {"spdxElementId", ""},
	"Relationship.RefB":                {"relatedSpdxElement", ""},
	"Relationship.Relationship":        {"relationshipType", ""},
	"Relationship.RelationshipComment": {"comment", "RelationshipComment"},

	"Annotation.Annotator":                {"annotator", "Annotator"},
	"Annotation.AnnotationDate":           {"annotationDate", "AnnotationDate"},
	"Annotation.AnnotationType":           {"annotationType", "AnnotationType"},
	"Annotation.AnnotationSPDXIdentifier": {"", "SPDXREF"},
	"Annotation.AnnotationComment":        {"comment", "AnnotationComment"},

	"Review.ReviewDate":    {"", "ReviewDate"},
	"Review.ReviewComment": {"", "ReviewComment"},
}

// text32 is a value that is stated as one text, and whether it is one.
func text32(v reflect.Value) (string, bool) {
	agent := func(typ, name string) (string, bool) {
		switch {
		case name == "":
			return "", true
		case typ == "":
			return name, true
		}
		return typ + ": " + name, true
	}
	switch x := v.Interface().(type) {
	case common.ElementID:
		if x == "" {
			return "", true
		}
		return "SPDXRef-" + string(x), true
	case common.DocumentID:
		if x == "" {
			return "", true
		}
		return "DocumentRef-" + string(x), true
	case common.DocElementID:
		if x == (common.DocElementID{}) {
			return "", true
		}
		return idString(x), true
	case common.Annotator:
		return agent(x.AnnotatorType, x.Annotator)
	case common.Creator:
		return agent(x.CreatorType, x.Creator)
	case common.Supplier:
		return agent(x.SupplierType, x.Supplier)
	case common.Originator:
		return agent(x.OriginatorType, x.Originator)
	}
	if v.Kind() == reflect.String {
		return v.String(), true
	}
	return "", false
}

// json32 is the JSON value the specification gives a part of a document; nil: none.
func json32(ver int, v reflect.Value) any {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return json32(ver, v.Elem())
	}
	if s, ok := text32(v); ok {
		return s
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int:
		if v.Int() == 0 {
			return nil // bytes and lines are counted from 1
		}
		return json.Number(strconv.FormatInt(v.Int(), 10))
	case reflect.Slice:
		if v.Len() == 0 {
			return nil
		}
		out := []any{}
		for i := 0; i < v.Len(); i++ {
			out = append(out, json32(ver, v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := map[string]any{}
		for i := 0; i < v.NumField(); i++ {
			if n := names32[v.Type().Name()+"."+v.Type().Field(i).Name].json; n != "" {
				if x := json32(ver, v.Field(i)); x != nil && x != "" {
					out[n] = x
				}
			}
		}
		return out
	}
	return nil
}

// prune32 leaves out what states nothing.
func prune32(x any) any {
	switch t := x.(type) {
	case map[string]any:
		for k, v := range t {
			p := prune32(v)
			empty := p == nil || p == ""
			switch e := p.(type) {
			case map[string]any:
				empty = len(e) == 0
			case []any:
				empty = len(e) == 0
			case json.Number:
				empty = e == "0" && (k == "offset" || k == "lineNumber")
			}
			if empty {
				delete(t, k)
			} else {
				t[k] = p
			}
		}
		// the specification has had both spellings
		if c, ok := t["referenceCategory"].(string); ok {
			t["referenceCategory"] = strings.ReplaceAll(c, "_", "-")
		}
	case []any:
		for i := range t {
			t[i] = prune32(t[i])
		}
	}
	return x
}

// jsonText32 is a JSON text of a value, with the properties in the order of their names or the other
// way round; as YAML also with all but ASCII characters escaped.
func jsonText32(b *bytes.Buffer, x any, reversed, asYAML bool, indent string) {
	nl := ""
	if reversed {
		nl = "\n" + indent
	}
	switch t := x.(type) {
	case map[string]any:
		ks := make([]string, 0, len(t))
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		b.WriteString("{")
		for i := range ks {
			k := ks[i]
			if reversed {
				k = ks[len(ks)-1-i]
			}
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(nl + "  " + strconv.Quote(k) + ": ")
			jsonText32(b, t[k], reversed, asYAML, indent+"  ")
		}
		b.WriteString(nl + "}")
	case []any:
		b.WriteString("[")
		for i := range t {
			if i > 0 {
				b.WriteString(",")
			}
			b.WriteString(nl + "  ")
			jsonText32(b, t[i], reversed, asYAML, indent+"  ")
		}
		b.WriteString(nl + "]")
	default:
		if s, ok := t.(string); ok && asYAML {
			b.WriteString(strconv.QuoteToASCII(s))
			return
		}
		e := json.NewEncoder(b)
		e.SetEscapeHTML(reversed)
		if err := e.Encode(t); err != nil {
			panic(err)
		}
		b.Truncate(b.Len() - 1) // its line feed
	}
}

// tags32 is what the tag-value text of a part of a document states, as "tag: value".
func tags32(v reflect.Value, out *[]string) {
	add := func(tag, val string) {
		if val != "" {
			*out = append(*out, tag+": "+val)
		}
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			tags32(v.Elem(), out)
		}
		return
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			tags32(v.Index(i), out)
		}
		return
	case reflect.Map:
		for _, k := range v.MapKeys() {
			tags32(v.MapIndex(k), out)
		}
		return
	case reflect.Struct:
	default:
		return
	}
	str := func(f string) string { s, _ := text32(v.FieldByName(f)); return s }
	sum := func(c common.Checksum) string {
		if c == (common.Checksum{}) {
			return ""
		}
		return string(c.Algorithm) + ": " + c.Value
	}
	typ := v.Type().Name()
	switch x := v.Interface().(type) {
	case common.SnippetRange:
		r := func(a, b int) string {
			if a == 0 && b == 0 {
				return ""
			}
			return fmt.Sprintf("%d:%d", a, b)
		}
		add("SnippetByteRange", r(x.StartPointer.Offset, x.EndPointer.Offset))
		add("SnippetLineRange", r(x.StartPointer.LineNumber, x.EndPointer.LineNumber))
		return
	}
	switch typ {
	case "ExternalDocumentRef":
		add("ExternalDocumentRef", str("DocumentRefID")+" "+str("URI")+" "+sum(v.FieldByName("Checksum").Interface().(common.Checksum)))
		return
	case "PackageExternalReference":
		add("ExternalRef", str("Category")+" "+str("RefType")+" "+str("Locator"))
	case "Relationship":
		add("Relationship", str("RefA")+" "+str("Relationship")+" "+str("RefB"))
	case "Review":
		add("Reviewer", str("ReviewerType")+": "+str("Reviewer"))
	}
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		f := v.Field(i)
		tag := names32[typ+"."+name].tag
		if tag == "" {
			if v.Type().Field(i).IsExported() {
				tags32(f, out)
			}
			continue
		}
		if name == "FilesAnalyzed" {
			if v.FieldByName("IsFilesAnalyzedTagPresent").Bool() {
				add(tag, strconv.FormatBool(f.Bool()))
			}
			continue
		}
		for f.Kind() == reflect.Ptr {
			if f.IsNil() {
				break
			}
			f = f.Elem()
		}
		switch x := f.Interface().(type) {
		case common.PackageVerificationCode:
			s := x.Value
			if s != "" && len(x.ExcludedFiles) > 0 {
				s += " (excludes: " + strings.Join(x.ExcludedFiles, ", ") + ")"
			}
			add(tag, s)
			continue
		case []common.Checksum:
			for _, c := range x {
				add(tag, sum(c))
			}
			continue
		}
		if f.Kind() == reflect.Slice {
			for j := 0; j < f.Len(); j++ {
				s, _ := text32(f.Index(j))
				add(tag, s)
			}
			continue
		}
		if f.Kind() != reflect.Ptr {
			s, _ := text32(f)
			add(tag, s)
		}
	}
}

// loose32 takes the white space behind colons away: both "SHA1: x" and "SHA1:x" are known.
func loose32(s string) string {
	for strings.Contains(s, ": ") {
		s = strings.ReplaceAll(s, ": ", ":")
	}
	return s
}

func diff32(want, have []string) string {
	n := map[string]int{}
	for _, s := range want {
		n[loose32(s)]++
	}
	for _, s := range have {
		n[loose32(s)]--
	}
	var ks []string
	for k, c := range n {
		if c != 0 {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if n[k] > 0 {
			return fmt.Sprintf("lacks %.200q", k)
		}
	}
	for _, k := range ks {
		return fmt.Sprintf("states %.200q, which is not so in the document", k)
	}
	return ""
}

// runP32: the texts use the names and forms of the specification, judged without the library's own reader.
func runP32(c *kit.Ctx) {
	consts := append(consts32, []struct{ name, is, want string }{
		{"v2_1.Version", v2_1.Version, "SPDX-2.1"}, {"v2_1.DataLicense", v2_1.DataLicense, "CC0-1.0"},
		{"v2_2.Version", v2_2.Version, "SPDX-2.2"}, {"v2_2.DataLicense", v2_2.DataLicense, "CC0-1.0"},
		{"v2_3.Version", v2_3.Version, "SPDX-2.3"}, {"v2_3.DataLicense", v2_3.DataLicense, "CC0-1.0"},
		{"spdx.Version", spdx.Version, "SPDX-2.3"}, {"spdx.DataLicense", spdx.DataLicense, "CC0-1.0"},
	}...)
	c.Bound("%d constants that stand for names of the specification, and each name of them in documents of every version and format", len(consts))
	for _, k := range consts {
		c.Evals.Add(1)
		if k.is != k.want {
			c.Violate("const/"+k.name, fmt.Sprintf("the constant %s is %q, not %q", k.name, k.is, k.want), nil)
		}
		for _, v := range docs.Versions {
			d := docCase{v, "full1", k.name, docs.Full(v, 1)}
			put := func(typ, field string) {
				docs.Each(d.doc, typ, func(s reflect.Value) { s.FieldByName(field).SetString(k.want) })
			}
			var what, text string
			switch {
			case strings.Contains(k.name, "Relationship"):
				put("Relationship", "Relationship")
			case strings.Contains(k.name, "Category"):
				put("PackageExternalReference", "Category")
			case strings.Contains(k.name, "Security"), strings.Contains(k.name, "PackageManager"), strings.Contains(k.name, "PersistentI"):
				put("PackageExternalReference", "RefType")
			default:
				for _, a := range docs.Algorithms(v.Num) {
					if a == k.want {
						put("Checksum", "Algorithm")
					}
				}
			}
			if p, _ := kit.Guard(func() {
				if what, text = tv32(c, d); what == "" {
					what, text = schema32(c, d)
				}
				for _, f := range forms {
					if what == "" {
						what, text = roundTrip(f, v, docs.Clone(d.doc))
					}
				}
			}); p != nil {
				what = fmt.Sprint("panic: ", p)
			}
			if what != "" {
				c.Violate("const/"+v.Name+"/"+k.name, v.Name+" with "+k.want+": "+what, replayDoc(d, text))
			}
		}
	}
	for _, f := range []*form{formJSON, formTV} {
		o := docSpace(c, f.f)
		if f == formTV {
			o.deep = c.Thorough()
		}
		eachDoc(c, o, func(d docCase) {
			if !c.Seen(f.name + d.ver.Name + docs.Canon(d.doc)) {
				return
			}
			var what, text string
			if p, _ := kit.Guard(func() {
				if f == formTV {
					what, text = tv32(c, d)
				} else {
					what, text = schema32(c, d)
				}
			}); p != nil {
				what = fmt.Sprint("panic: ", p)
			}
			if what != "" {
				c.Violate(f.name+"/"+caseKey(d), d.ver.Name+" "+d.base+" "+d.label+": "+what, replayDoc(d, text))
			}
			c.Sample(d.ver.Name + " " + d.base + " " + d.label)
		})
	}
}

func tv32(c *kit.Ctx, d docCase) (what, text string) {
	c.Evals.Add(1)
	text, err := formTV.write(docs.Clone(d.doc))
	if err != nil {
		return "writing fails: " + err.Error(), ""
	}
	pairs, err := refPairs(text)
	if err != nil {
		return "not a tag-value text: " + err.Error(), text
	}
	var want, have []string
	for _, p := range pairs {
		if p.Value != "" {
			have = append(have, p.Tag+": "+p.Value)
		}
	}
	tags32(reflect.ValueOf(expectTV(d.ver, d.doc)), &want)
	if what := diff32(want, have); what != "" {
		return "the tag-value text " + what, text
	}
	return "", ""
}

func schema32(c *kit.Ctx, d docCase) (what, text string) {
	expect := expectJSON(d.ver, d.doc)
	mk := func() any { return json32(d.ver.Num, reflect.ValueOf(expect)) }
	// what is written
	want := prune32(mk())
	single := !strings.Contains(d.label, ", ")
	for _, f := range []*form{formJSON, formYAML} {
		if f == formYAML && !single && !c.Thorough() {
			break
		}
		c.Evals.Add(1)
		text, err := f.write(docs.Clone(d.doc))
		if err != nil {
			return f.name + ": writing fails: " + err.Error(), ""
		}
		js := []byte(text)
		if f == formYAML {
			if js, err = yaml.YAMLToJSON(js); err != nil {
				return "not YAML: " + err.Error(), text
			}
		}
		tree, err := asTree(js)
		if err != nil {
			return f.name + ": " + err.Error(), text
		}
		if d.ver.Num == 1 { // the schema gives filesAnalyzed no false in 2.1 documents
			none32(tree)
			none32(want)
		}
		if diff := treeDiff("", want, prune32(tree)); diff != "" {
			return f.name + ": written other than the specification has it: " + diff, text
		}
	}
	// what is read
	canon := docs.Canon(expect)
	for i, f := range []*form{formJSON, formJSON, formYAML} {
		if i > 0 && !single && !c.Thorough() {
			break
		}
		c.Evals.Add(1)
		var b bytes.Buffer
		jsonText32(&b, mk(), i == 1, i == 2, "")
		got := d.ver.New()
		if err := f.read(b.String(), got); err != nil {
			return f.name + ": a text of the specification's form is refused: " + err.Error(), b.String()
		}
		if have := docs.Canon(got); have != canon {
			return f.name + ": a text of the specification's form reads different: " + docs.Diff(canon, have), b.String()
		}
	}
	return "", ""
}

func none32(x any) {
	m, _ := x.(map[string]any)
	ps, _ := m["packages"].([]any)
	for _, p := range ps {
		if pm, ok := p.(map[string]any); ok && pm["filesAnalyzed"] == false {
			delete(pm, "filesAnalyzed")
		}
	}
}
