package docs

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/spdx/tools-golang/spdx/v2/common"
)

// Kind says what values a string field may hold, following the SPDX specification.
type Kind int

const (
	Single Kind = iota // one line of text
	Multi              // free-form text, any number of lines
	Token              // no white space
	Ident              // letters, digits, . and -
	Enum               // one of a fixed set
	Fixed              // never varied
)

type spec struct {
	Kind     Kind
	Required bool
	Values   []string // Enum
}

var relTypes = []string{"DESCRIBES", "DESCRIBED_BY", "CONTAINS", "CONTAINED_BY", "DEPENDS_ON", "GENERATED_FROM", "OTHER"}
var annTypes = []string{"REVIEW", "OTHER"}

// specs by struct and field name. Fields not listed are optional single lines.
var specs = map[string]spec{
	"Document.SPDXVersion":       {Kind: Fixed},
	"Document.DataLicense":       {Kind: Single},
	"Document.SPDXIdentifier":    {Kind: Ident, Required: true},
	"Document.DocumentName":      {Kind: Single},
	"Document.DocumentNamespace": {Kind: Single},
	"Document.DocumentComment":   {Kind: Multi},

	"ExternalDocumentRef.DocumentRefID": {Kind: Ident, Required: true},
	"ExternalDocumentRef.URI":           {Kind: Token, Required: true},

	"CreationInfo.CreatorComment": {Kind: Multi},

	"Package.PackageName":             {Kind: Single, Required: true},
	"Package.PackageSPDXIdentifier":   {Kind: Ident, Required: true},
	"Package.PackageSourceInfo":       {Kind: Multi},
	"Package.PackageLicenseComments":  {Kind: Multi},
	"Package.PackageCopyrightText":    {Kind: Multi},
	"Package.PackageSummary":          {Kind: Multi},
	"Package.PackageDescription":      {Kind: Multi},
	"Package.PackageComment":          {Kind: Multi},
	"Package.PackageAttributionTexts": {Kind: Multi, Required: true},

	"PackageExternalReference.Category":           {Kind: Enum, Required: true, Values: []string{"SECURITY", "PACKAGE-MANAGER", "PERSISTENT-ID", "OTHER"}},
	"PackageExternalReference.RefType":            {Kind: Token, Required: true},
	"PackageExternalReference.Locator":            {Kind: Token, Required: true},
	"PackageExternalReference.ExternalRefComment": {Kind: Multi},

	"File.FileName":             {Kind: Single, Required: true},
	"File.FileSPDXIdentifier":   {Kind: Ident, Required: true},
	"File.FileTypes":            {Kind: Single, Required: true},
	"File.LicenseComments":      {Kind: Multi},
	"File.FileCopyrightText":    {Kind: Multi},
	"File.FileComment":          {Kind: Multi},
	"File.FileNotice":           {Kind: Multi},
	"File.FileAttributionTexts": {Kind: Multi, Required: true},
	"ArtifactOfProject.Name":    {Kind: Single},

	"Snippet.SnippetSPDXIdentifier":         {Kind: Ident, Required: true},
	"Snippet.SnippetFromFileSPDXIdentifier": {Kind: Ident, Required: true},
	"Snippet.SnippetLicenseComments":        {Kind: Multi},
	"Snippet.SnippetCopyrightText":          {Kind: Multi},
	"Snippet.SnippetComment":                {Kind: Multi},
	"Snippet.SnippetAttributionTexts":       {Kind: Multi, Required: true},

	"OtherLicense.LicenseIdentifier": {Kind: Token, Required: true},
	"OtherLicense.ExtractedText":     {Kind: Multi},
	"OtherLicense.LicenseComment":    {Kind: Multi},

	"Relationship.Relationship":        {Kind: Enum, Required: true, Values: relTypes},
	"Relationship.RelationshipComment": {Kind: Multi},

	"Annotation.AnnotationType":    {Kind: Enum, Values: annTypes},
	"Annotation.AnnotationComment": {Kind: Multi},

	"Review.Reviewer":      {Kind: Single, Required: true},
	"Review.ReviewerType":  {Kind: Enum, Required: true, Values: []string{"Person", "Organization", "Tool"}},
	"Review.ReviewComment": {Kind: Multi},
}

// Algorithms a version knows, by the SPDX specification.
func Algorithms(ver int) []string {
	switch ver {
	case 1:
		return []string{"SHA1", "SHA256", "MD5"}
	case 2:
		return []string{"SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "MD2", "MD4", "MD5", "MD6"}
	}
	return []string{"SHA1", "SHA224", "SHA256", "SHA384", "SHA512", "MD2", "MD4", "MD5", "MD6",
		"SHA3-256", "SHA3-384", "SHA3-512", "BLAKE2b-256", "BLAKE2b-384", "BLAKE2b-512", "BLAKE3", "ADLER32"}
}

func specOf(structName, field string) spec {
	if s, ok := specs[structName+"."+field]; ok {
		return s
	}
	return spec{Kind: Single}
}

// filler populates a document so that every string is different from every other.
type filler struct {
	ver int
	n   int  // list lengths
	opt bool // optional fields too
	seq int
}

// Full gives a document of the version with every field of every element set and all lists of length n.
func Full(v *Version, n int) any {
	d := v.New()
	f := &filler{ver: v.Num, n: n, opt: true}
	f.fillStruct(reflect.ValueOf(d).Elem())
	reflect.ValueOf(d).Elem().FieldByName("SPDXVersion").SetString(v.Const)
	reflect.ValueOf(d).Elem().FieldByName("SPDXIdentifier").SetString("DOCUMENT")
	return d
}

// Sparse gives a document with n elements of each kind which have their required fields only.
func Sparse(v *Version, n int) any {
	d := v.New()
	f := &filler{ver: v.Num, n: n}
	f.fillStruct(reflect.ValueOf(d).Elem())
	reflect.ValueOf(d).Elem().FieldByName("SPDXVersion").SetString(v.Const)
	reflect.ValueOf(d).Elem().FieldByName("SPDXIdentifier").SetString("DOCUMENT")
	return d
}

// Other is like Full, or like Sparse, with strings of its own.
func Other(v *Version, n int, full bool) any {
	d := v.New()
	f := &filler{ver: v.Num, n: n, opt: full, seq: 1000}
	f.fillStruct(reflect.ValueOf(d).Elem())
	reflect.ValueOf(d).Elem().FieldByName("SPDXVersion").SetString(v.Const)
	reflect.ValueOf(d).Elem().FieldByName("SPDXIdentifier").SetString("DOCUMENT")
	return d
}

// Minimal gives a document without packages, files or anything else optional.
func Minimal(v *Version) any { return Sparse(v, 0) }

func (f *filler) next() int { f.seq++; return f.seq }

func (f *filler) str(structName, field string) string {
	sp := specOf(structName, field)
	if !f.opt && !sp.Required {
		return ""
	}
	i := f.next()
	switch sp.Kind {
	case Multi:
		return fmt.Sprintf("%s text %d", field, i)
	case Token:
		return fmt.Sprintf("%s-%d", field, i)
	case Ident:
		return fmt.Sprintf("Id-%04d", i)
	case Enum:
		return sp.Values[i%len(sp.Values)]
	}
	return fmt.Sprintf("%s %d", field, i)
}

var agentTypes = []string{"Person", "Organization", "Tool"}

func (f *filler) fillStruct(v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			f.fill(v.Field(i), t.Name(), t.Field(i).Name)
		}
	}
}

func (f *filler) fill(v reflect.Value, structName, field string) {
	switch x := v.Addr().Interface().(type) {
	case *common.DocElementID:
		if structName == "Annotation" && !f.opt {
			return
		}
		*x = common.DocElementID{ElementRefID: common.ElementID(fmt.Sprintf("Ref-%d", f.next()))}
		return
	case *common.Creator:
		i := f.next()
		*x = common.Creator{Creator: fmt.Sprintf("Creator %d", i), CreatorType: agentTypes[i%3]}
		return
	case *common.Annotator:
		i := f.next()
		*x = common.Annotator{Annotator: fmt.Sprintf("Annotator %d", i), AnnotatorType: agentTypes[i%3]}
		return
	case *common.Supplier:
		i := f.next()
		*x = common.Supplier{Supplier: fmt.Sprintf("Supplier %d", i), SupplierType: agentTypes[i%2]}
		return
	case *common.Originator:
		i := f.next()
		*x = common.Originator{Originator: fmt.Sprintf("Originator %d", i), OriginatorType: agentTypes[i%2]}
		return
	case *common.Checksum:
		i := f.next()
		a := Algorithms(f.ver)
		*x = common.Checksum{Algorithm: common.ChecksumAlgorithm(a[i%len(a)]), Value: fmt.Sprintf("%040x", i)}
		return
	case *common.PackageVerificationCode:
		if f.opt {
			*x = common.PackageVerificationCode{Value: fmt.Sprintf("%040x", f.next()), ExcludedFiles: []string{fmt.Sprintf("./excluded-%d.spdx", f.next())}}
		}
		return
	case *common.SnippetRange:
		i := f.next()
		id := common.ElementID(fmt.Sprintf("RangeFile-%d", i))
		if i%2 == 0 {
			*x = common.SnippetRange{StartPointer: common.SnippetRangePointer{Offset: i, FileSPDXIdentifier: id}, EndPointer: common.SnippetRangePointer{Offset: i + 7, FileSPDXIdentifier: id}}
		} else {
			*x = common.SnippetRange{StartPointer: common.SnippetRangePointer{LineNumber: i, FileSPDXIdentifier: id}, EndPointer: common.SnippetRangePointer{LineNumber: i + 7, FileSPDXIdentifier: id}}
		}
		return
	case *map[string]string:
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(f.str(structName, field))
	case reflect.Bool:
		v.SetBool(field == "FilesAnalyzed" || (f.opt && field == "IsFilesAnalyzedTagPresent"))
	case reflect.Ptr:
		tn := v.Type().Elem().Name()
		if !f.opt && (tn == "Supplier" || tn == "Originator" || tn == "PackageVerificationCode") {
			return
		}
		n := reflect.New(v.Type().Elem())
		f.fill(n.Elem(), structName, field)
		v.Set(n)
	case reflect.Struct:
		f.fillStruct(v)
	case reflect.Slice:
		n := f.n
		if field == "Creators" && n == 0 {
			n = 1
		}
		et := v.Type().Elem()
		if !f.opt && (et.Kind() == reflect.String || et.Name() == "Checksum" || et.Name() == "SnippetRange") {
			return
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			f.fill(s.Index(i), structName, field)
			// strings in lists are never empty
			if e := s.Index(i); e.Kind() == reflect.String && e.String() == "" {
				e.SetString(fmt.Sprintf("%s %d", field, f.next()))
			}
		}
		v.Set(s)
	case reflect.Map: // snippets of a file, by identifier
		m := reflect.MakeMap(v.Type())
		for i := 0; i < f.n; i++ {
			e := reflect.New(v.Type().Elem().Elem())
			f.fillStruct(e.Elem())
			m.SetMapIndex(reflect.ValueOf(common.ElementID(e.Elem().FieldByName("SnippetSPDXIdentifier").String())), e)
		}
		v.Set(m)
	}
}

// Format names what a value must be expressible in.
type Format int

const (
	TV Format = iota
	JSON
	YAML
	Any // conversion: everything goes
	RDF
)

// ----- values -----

var singles = []string{
	`with "quotes" and \backslash\`, `<angle> & ampersand`, `colon: inside:x`, `# not a comment`, `it's 100%d %s`,
	"accent é 漢字 😀", "NOASSERTION", "NONE", "tab\tinside", "x", "(MIT OR Apache-2.0) AND GPL-2.0+", "trailing:", ":leading",
	strings.Repeat("long ", 1200) + "end", "SPDXRef-x", "a, b, c", "\\u003c \\n", "Person: X", "two  blanks",
	"null", "true", "1e3", "2020-01-01T00:00:00Z", "{}", "</text> closing",
}
var hugeSingle = strings.Repeat("0123456789 ", 7000) + "end" // over 64 KiB on one line

// values that some YAML reader could take for something else
var yamlish = []string{"yes", "No", "~", "0x1F", "017", "0o17", "1_000", ".inf", ".nan", "12:30:45", "=", "<<", "- x", "? x", "[x]", "{x: y}", "&a", "*a", "!t", "%d", "@x", "`x`", "|", ">", "'", `"`, "---", "...", "a #b", "2001-12-14", "1.0", "-1", "+1", "off"}

// values only a quoting format can carry
var quoted = []string{" leading", "trailing ", "line\nbreak", "\nstart", "end\n", "a\n\n b\n", "cr\r\nlf", "\t", "\u0001", "\u007f", "\u0085", "\u2028 \u2029", "\ufeff", "\x00", "<text>x</text>", " \n ", "x\n  indented\ny", "\u00a0", "\u0080", "\u009f", "\ufffe\uffff", "\U0010ffff", "trail \nx", "\ttab\n\tstart"}

var multis = []string{
	"two\nlines", "ends in newline\n", "\nstarts with newline", "\n", "blank\n\nline", " leading blank", "trailing blank ", "\tleading tab\n",
	"# comment\n# lines", "Looks: like\nFileName: a tag\nSPDXID: SPDXRef-x", "<text>", "a <text> b", "<text>\nx", "x\n<text>", "\n\n\n", " ", "  \n  ", "a\n\n\n\n\n\nb", "\n\n\n\n\nx\n\n\n\n\n",
	"no newline", "</tex> almost", "<text", "unicode\u2028sep\u0085nel", "lone\rcr", strings.Repeat("line\n", 2000), "last line blank\n ",
}
var hugeMulti = "x\n" + strings.Repeat("0123456789", 7000) + "\ny"

var tokens = []string{"https://example.com/a?b=c&d=e#f", `quo"te\slash`, "<a>", "pkg:npm/%40scope/name@1.0", "a:b:c", "é", "x", "#x", "cpe:2.3:a:b:c:*", "(x)", "a,b", "SPDXRef-x"}
var idents = []string{"A", "a.b-c", "0", "DOCUMENT", "Package-x", "SPDX", "Ref-", "-", "zzz"}

func agentNames(f Format) []string {
	out := []string{`Quo"ted \ Name`, "J <j@x.org> & co", "colon: in name", "x", "NOASSERTION x", "é 漢", "Acme, Inc. (a@b.c)", "\\u003c", "Person: P", `"`, `\`, `a"`, `"b`, "trailing\\"}
	if f == JSON || f == YAML {
		out = append(out, "tab\tin", "nl\nin", "x\u2028in")
	}
	return out
}

// values RDF/XML carries
var rdfSingles = []string{`with "quotes" and \backslash\`, "AT&T <x> ]]>", "colon: inside:x", "# hash", "it's 100%d %s", "NOASSERTION", "NONE", "x",
	"accent é 漢字 😀", "a > b", "MIT", "SPDXRef-x", "http://example.org/x#y", "true", "&amp; &lt;", "two  blanks", strings.Repeat("long ", 300) + "end"}
var rdfMultis = []string{"two\nlines", "blank\n\nline", "Looks: like\nFileName: a tag", "a\ttab", "<text>x</text>", "x\n  indented\ny"}

func stringValues(sp spec, f Format, deep bool) []string {
	var out []string
	if f == RDF && (sp.Kind == Single || sp.Kind == Multi) {
		out = append(out, rdfSingles...)
		if sp.Kind == Multi {
			out = append(out, rdfMultis...)
		}
		if !sp.Required {
			out = append(out, "")
		}
		return out
	}
	switch sp.Kind {
	case Fixed:
		return nil
	case Single:
		out = append(out, singles...)
		if deep {
			out = append(out, hugeSingle)
		}
		if f != TV {
			out = append(out, quoted...)
			out = append(out, yamlish...)
		} else {
			out = append(out, yamlish[:4]...)
		}
	case Multi:
		out = append(out, multis...)
		if deep {
			out = append(out, hugeMulti)
		}
		for _, s := range singles {
			if f != TV || !strings.Contains(s, "</text>") {
				out = append(out, s)
			}
		}
		if f != TV {
			out = append(out, quoted...)
			out = append(out, yamlish...)
			out = append(out, "a </text> b")
		}
	case Token:
		out = append(out, tokens...)
	case Ident:
		out = append(out, idents...)
	case Enum:
		out = append(out, sp.Values...)
	}
	if !sp.Required {
		out = append(out, "")
	}
	return out
}

// ----- sites -----

type step struct {
	field int
	index int
	key   string
	kind  byte // 'f' field, 'i' index, 'k' map key, 'p' pointer
}

// Alt is one alternative content of a site.
type Alt struct {
	Label string
	Set   func(reflect.Value)
}

// Site is one place of a document that can be varied.
type Site struct {
	Label string
	steps []step
	Alts  []Alt
	Elem  string // the element it belongs to
	Core  []int  // indices of the alternatives used when sites are combined
}

func (s *Site) at(doc any) reflect.Value {
	v := reflect.ValueOf(doc)
	for _, st := range s.steps {
		switch st.kind {
		case 'p':
			if v.IsNil() {
				return reflect.Value{}
			}
			v = v.Elem()
		case 'f':
			v = v.Field(st.field)
		case 'i':
			if st.index >= v.Len() {
				return reflect.Value{}
			}
			v = v.Index(st.index)
		case 'k':
			v = v.MapIndex(reflect.ValueOf(common.ElementID(st.key)))
			if !v.IsValid() {
				return reflect.Value{}
			}
		}
	}
	return v
}

// Apply puts alternative i into doc; it tells whether the site still exists there.
func (s *Site) Apply(doc any, i int) bool {
	v := s.at(doc)
	if !v.IsValid() {
		return false
	}
	s.Alts[i].Set(v)
	return true
}

// Sites lists everything that can be varied in base within what format f can express.
// deep adds the very large values.
func Sites(ver *Version, base any, f Format, deep bool) []*Site {
	g := &siteGen{ver: ver.Num, f: f, deep: deep}
	v := reflect.ValueOf(base)
	g.walk(v, nil, "", "", "")
	return g.out
}

type siteGen struct {
	ver  int
	f    Format
	deep bool
	out  []*Site
	uniq int
}

func (g *siteGen) add(label string, steps []step, alts []Alt, core ...int) {
	if len(alts) == 0 {
		return
	}
	if len(core) == 0 {
		core = []int{0}
		if len(alts) > 1 {
			core = append(core, len(alts)-1)
		}
	}
	g.out = append(g.out, &Site{Label: label, Elem: elemOf(label), steps: append([]step(nil), steps...), Alts: alts, Core: core})
}

// elemOf cuts the field and what is inside it off a label.
func elemOf(label string) string {
	for i := len(label) - 1; i >= 0; i-- {
		if label[i] == '.' {
			return label[:i]
		}
	}
	return ""
}

func setTo(x any) func(reflect.Value) {
	return func(v reflect.Value) { v.Set(reflect.ValueOf(x)) }
}

func short(s string) string {
	if len(s) > 24 {
		s = fmt.Sprintf("%s~%d", s[:20], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func (g *siteGen) walk(v reflect.Value, steps []step, structName, field, label string) {
	if v.Kind() != reflect.Ptr && v.Kind() != reflect.Map && v.CanInterface() {
		if alts, core, ok := g.composite(v, structName, field); ok {
			g.add(label, steps, alts, core...)
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			// an absent optional struct: try putting one in
			if alts, ok := g.pointerAlts(v.Type()); ok {
				g.add(label+"(ptr)", steps, alts)
			}
			return
		}
		if _, ok := g.pointerAlts(v.Type()); ok && v.Type().Elem().Name() != "CreationInfo" {
			t := v.Type()
			g.add(label+"(ptr)", steps, []Alt{{"absent", func(v reflect.Value) { v.Set(reflect.Zero(t)) }}})
		}
		g.walk(v.Elem(), append(steps, step{kind: 'p'}), structName, field, label)
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).IsExported() {
				g.walk(v.Field(i), append(append([]step(nil), steps...), step{kind: 'f', field: i}), t.Name(), t.Field(i).Name, label+"."+t.Field(i).Name)
			}
		}
	case reflect.String:
		sp := specOf(structName, field)
		var alts []Alt
		core := []int{}
		values := stringValues(sp, g.f, g.deep)
		if g.f == TV && strings.Contains(label, "{") && field == "SnippetFromFileSPDXIdentifier" {
			values = append(values, "") // the file a snippet stands in is known without it
		}
		for i, s := range values {
			s := s
			alts = append(alts, Alt{short(s), func(v reflect.Value) { v.SetString(s) }})
			if i == 0 || s == "" {
				core = append(core, i)
			}
		}
		g.add(label, steps, alts, core...)
	case reflect.Bool:
		g.add(label, steps, []Alt{{"true", func(v reflect.Value) { v.SetBool(true) }}, {"false", func(v reflect.Value) { v.SetBool(false) }}})
	case reflect.Slice:
		t := v.Type()
		alts := []Alt{
			{"nil", func(v reflect.Value) { v.Set(reflect.Zero(t)) }},
			{"empty", func(v reflect.Value) { v.Set(reflect.MakeSlice(t, 0, 0)) }},
			{"reversed", func(v reflect.Value) {
				n := v.Len()
				s := reflect.MakeSlice(t, n, n)
				for i := 0; i < n; i++ {
					s.Index(i).Set(v.Index(n - 1 - i))
				}
				v.Set(s)
			}},
		}
		if field == "Creators" {
			alts = alts[2:]
		}
		core := []int{0}
		if v.Len() > 0 {
			for _, k := range []int{1, 3, 14, 40} {
				k := k
				if k == 40 && !g.deep {
					continue
				}
				alts = append(alts, Alt{fmt.Sprintf("len%d", k), func(v reflect.Value) { v.Set(grow(v, k)) }})
			}
			// equal neighbours must both survive
			if t.Elem().Kind() == reflect.String || t.Elem().Name() == "Checksum" {
				alts = append(alts, Alt{"twice", func(v reflect.Value) {
					if v.Len() > 0 {
						v.Set(reflect.Append(v, cloneValue(v.Index(0))))
					}
				}})
			}
		}
		g.add(label+"[]", steps, alts, core...)
		for i := 0; i < v.Len(); i++ {
			g.walk(v.Index(i), append(append([]step(nil), steps...), step{kind: 'i', index: i}), structName, field, fmt.Sprintf("%s[%d]", label, i))
		}
	case reflect.Map:
		t := v.Type()
		alts := []Alt{
			{"nil", func(v reflect.Value) { v.Set(reflect.Zero(t)) }},
			{"empty", func(v reflect.Value) { v.Set(reflect.MakeMap(t)) }},
		}
		if v.Len() > 0 {
			for _, k := range []int{1, 3, 12} {
				k := k
				alts = append(alts, Alt{fmt.Sprintf("len%d", k), func(v reflect.Value) { v.Set(growMap(v, k)) }})
			}
		}
		g.add(label+"{}", steps, alts, 0)
		keys := v.MapKeys()
		for _, k := range sortedKeys(keys) {
			g.walk(v.MapIndex(k), append(append([]step(nil), steps...), step{kind: 'k', key: k.String()}), structName, field, label+"{"+k.String()+"}")
		}
	}
}

func sortedKeys(ks []reflect.Value) []reflect.Value {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0 && ks[j].String() < ks[j-1].String(); j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

// grow gives a list of k elements that differ from each other, in an order that is not sorted.
func grow(v reflect.Value, k int) reflect.Value {
	s := reflect.MakeSlice(v.Type(), k, k)
	if v.Len() == 0 {
		return s.Slice(0, 0)
	}
	for i := 0; i < k; i++ {
		e := cloneValue(v.Index(i % v.Len()))
		relabel(e, fmt.Sprintf("g%d", (i*7+5)%k))
		s.Index(i).Set(e)
	}
	return s
}

func growMap(v reflect.Value, k int) reflect.Value {
	m := reflect.MakeMap(v.Type())
	keys := sortedKeys(v.MapKeys())
	if len(keys) == 0 {
		return m
	}
	for i := 0; i < k; i++ {
		e := cloneValue(v.MapIndex(keys[i%len(keys)]))
		relabel(e, fmt.Sprintf("g%d", (i*7+5)%k))
		m.SetMapIndex(reflect.ValueOf(common.ElementID(e.Elem().FieldByName("SnippetSPDXIdentifier").String())), e)
	}
	return m
}

// relabel makes an element distinct by changing its strings and identifiers.
func relabel(v reflect.Value, tag string) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			relabel(v.Elem(), tag)
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "." + tag)
		}
	case reflect.Struct:
		switch x := v.Addr().Interface().(type) {
		case *common.Checksum:
			x.Value += tag
			return
		case *common.Creator:
			x.Creator += tag
			return
		case *common.Annotator:
			x.Annotator += tag
			return
		case *common.DocElementID:
			if x.ElementRefID != "" {
				x.ElementRefID += common.ElementID(tag)
			}
			return
		case *common.Supplier, *common.Originator, *common.PackageVerificationCode:
			return
		case *common.SnippetRange:
			if x.StartPointer.Offset != 0 {
				x.EndPointer.Offset += len(tag)*100 + int(tag[len(tag)-1])
			} else {
				x.EndPointer.LineNumber += len(tag)*100 + int(tag[len(tag)-1])
			}
			return
		}
		t := v.Type()
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			fv := v.Field(i)
			if fv.Kind() == reflect.String {
				sp := specOf(t.Name(), t.Field(i).Name)
				if fv.String() != "" && sp.Kind != Enum && sp.Kind != Fixed {
					fv.SetString(fv.String() + "." + tag)
				}
			} else if fv.Kind() == reflect.Slice {
				for j := 0; j < fv.Len(); j++ {
					relabel(fv.Index(j), tag)
				}
			} else if fv.Kind() == reflect.Map {
				m := reflect.MakeMap(fv.Type())
				for _, k := range sortedKeys(fv.MapKeys()) {
					e := fv.MapIndex(k)
					relabel(e, tag)
					m.SetMapIndex(reflect.ValueOf(common.ElementID(e.Elem().FieldByName("SnippetSPDXIdentifier").String())), e)
				}
				if !fv.IsNil() {
					fv.Set(m)
				}
			} else if fv.Kind() == reflect.Ptr || fv.Kind() == reflect.Struct {
				relabel(fv, tag)
			}
		}
	}
}

func (g *siteGen) pointerAlts(t reflect.Type) ([]Alt, bool) {
	if t.Kind() != reflect.Ptr {
		return nil, false
	}
	switch t.Elem().Name() {
	case "Supplier":
		return []Alt{
			{"NOASSERTION", func(v reflect.Value) { v.Set(reflect.ValueOf(&common.Supplier{Supplier: "NOASSERTION"})) }},
			{"Person", func(v reflect.Value) {
				v.Set(reflect.ValueOf(&common.Supplier{Supplier: "Sup", SupplierType: "Person"}))
			}}}, true
	case "Originator":
		return []Alt{
			{"NOASSERTION", func(v reflect.Value) { v.Set(reflect.ValueOf(&common.Originator{Originator: "NOASSERTION"})) }},
			{"Person", func(v reflect.Value) {
				v.Set(reflect.ValueOf(&common.Originator{Originator: "Ori", OriginatorType: "Person"}))
			}}}, true
	case "PackageVerificationCode":
		return []Alt{{"code", func(v reflect.Value) {
			v.Set(reflect.ValueOf(&common.PackageVerificationCode{Value: "0123456789012345678901234567890123456789"}))
		}}}, true
	}
	return nil, false
}

// composite gives the alternatives of structs that are one value in every format.
func (g *siteGen) composite(v reflect.Value, structName, field string) (alts []Alt, core []int, ok bool) {
	add := func(label string, x any) { alts = append(alts, Alt{label, setTo(x)}) }
	switch v.Interface().(type) {
	case common.DocElementID:
		add("other", common.DocElementID{ElementRefID: "Other.x-1"})
		add("document", common.DocElementID{ElementRefID: "DOCUMENT"})
		add("foreign", common.DocElementID{DocumentRefID: "ext-1", ElementRefID: "Far"})
		add("foreign2", common.DocElementID{DocumentRefID: "spdx-tool-1.2", ElementRefID: "ToolsElement"})
		if field == "RefB" && (g.ver >= 2 || g.f == JSON || g.f == YAML || g.f == Any) {
			add("NONE", common.DocElementID{SpecialID: "NONE"})
			add("NOASSERTION", common.DocElementID{SpecialID: "NOASSERTION"})
		}
		if structName == "Annotation" {
			add("absent", common.DocElementID{})
		}
		return alts, []int{2, len(alts) - 1}, true
	case common.Creator:
		for _, t := range agentTypes {
			for _, n := range agentNames(g.f) {
				add(t+":"+short(n), common.Creator{Creator: n, CreatorType: t})
			}
		}
		return alts, []int{0, len(alts) - 1}, true
	case common.Annotator:
		for _, t := range agentTypes {
			for _, n := range agentNames(g.f) {
				add(t+":"+short(n), common.Annotator{Annotator: n, AnnotatorType: t})
			}
		}
		return alts, []int{0, len(alts) - 1}, true
	case common.Supplier:
		add("NOASSERTION", common.Supplier{Supplier: "NOASSERTION"})
		for _, t := range agentTypes[:2] {
			for _, n := range agentNames(g.f) {
				add(t+":"+short(n), common.Supplier{Supplier: n, SupplierType: t})
			}
		}
		return alts, []int{0, 1}, true
	case common.Originator:
		add("NOASSERTION", common.Originator{Originator: "NOASSERTION"})
		for _, t := range agentTypes[:2] {
			for _, n := range agentNames(g.f) {
				add(t+":"+short(n), common.Originator{Originator: n, OriginatorType: t})
			}
		}
		return alts, []int{0, 1}, true
	case common.Checksum:
		for _, a := range Algorithms(g.ver) {
			add(a, common.Checksum{Algorithm: common.ChecksumAlgorithm(a), Value: "624c1abb3664f4b35547e7c73864ad24"})
		}
		add("colon", common.Checksum{Algorithm: "SHA1", Value: "aa:bb:cc"})
		return alts, []int{0, len(alts) - 2}, true
	case common.PackageVerificationCode:
		add("code", common.PackageVerificationCode{Value: "0123456789012345678901234567890123456789"})
		for _, n := range []string{"./package.spdx", "./a b.txt", "./f(1).txt", "./x(y)z", "./a,b", "(", "./trailing)", "./excludes: x", `./q"uo\te`} {
			add("excl"+short(n), common.PackageVerificationCode{Value: "85ed0817af83a24ad8da68c2b5094de69833983c", ExcludedFiles: []string{n}})
		}
		add("excl2", common.PackageVerificationCode{Value: "85ed0817af83a24ad8da68c2b5094de69833983c", ExcludedFiles: []string{"./one.spdx", "./two.spdx"}})
		add("excl3", common.PackageVerificationCode{Value: "85ed0817af83a24ad8da68c2b5094de69833983c", ExcludedFiles: []string{"./z (1).spdx", "./two", "./a,b"}})
		add("absent", common.PackageVerificationCode{})
		return alts, []int{0, len(alts) - 1}, true
	case common.SnippetRange:
		p := func(off, line int) common.SnippetRangePointer {
			return common.SnippetRangePointer{Offset: off, LineNumber: line, FileSPDXIdentifier: "RangeFile.x"}
		}
		r := func(a, b, c, d int) common.SnippetRange {
			return common.SnippetRange{StartPointer: p(a, c), EndPointer: p(b, d)}
		}
		add("bytes", r(1, 1, 0, 0))
		add("bytes2", r(310, 420, 0, 0))
		add("big", r(1, 2147483648, 0, 0))
		add("lines", r(0, 0, 1, 23))
		add("lines2", r(0, 0, 5, 5))
		add("reversed", r(9, 3, 0, 0))
		add("lines reversed", r(0, 0, 9, 3))
		add("both", r(310, 420, 5, 23))
		if g.f != TV {
			add("two files", common.SnippetRange{StartPointer: p(4, 0), EndPointer: common.SnippetRangePointer{Offset: 9, FileSPDXIdentifier: "Other"}})
		}
		return alts, []int{1, 3}, true
	}
	return nil, nil, false
}

// SortedKeys are the keys of a map with string keys, in order.
func SortedKeys(m reflect.Value) []reflect.Value { return sortedKeys(m.MapKeys()) }
