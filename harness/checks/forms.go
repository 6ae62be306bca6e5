package checks

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"

	"verifharness/docs"
	"verifharness/kit"

	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/tagvalue"
	spdxyaml "github.com/spdx/tools-golang/yaml"
)

// form is a serialisation the tools can write and read.
type form struct {
	name  string
	f     docs.Format
	write func(doc any) (string, error)
	read  func(text string, into any) error
	// expect gives the document that is to come back, by the SPDX specification
	expect func(v *docs.Version, doc any) any
}

var formTV = &form{
	name: "tagvalue", f: docs.TV,
	write: func(doc any) (string, error) {
		var b bytes.Buffer
		err := tagvalue.Write(doc, &b)
		return b.String(), err
	},
	read:   func(t string, into any) error { return tagvalue.ReadInto(bytes.NewReader([]byte(t)), into) },
	expect: expectTV,
}

var formJSON = &form{
	name: "json", f: docs.JSON,
	write: func(doc any) (string, error) {
		var b bytes.Buffer
		err := spdxjson.Write(doc, &b)
		return b.String(), err
	},
	read:   func(t string, into any) error { return spdxjson.ReadInto(bytes.NewReader([]byte(t)), into) },
	expect: expectJSON,
}

var formYAML = &form{
	name: "yaml", f: docs.YAML,
	write: func(doc any) (string, error) {
		var b bytes.Buffer
		err := spdxyaml.Write(doc, &b)
		return b.String(), err
	},
	read:   func(t string, into any) error { return spdxyaml.ReadInto(bytes.NewReader([]byte(t)), into) },
	expect: expectJSON,
}

var forms = []*form{formTV, formJSON, formYAML}

// jsonWith is JSON written with the given options.
func jsonWith(name string, opts ...spdxjson.WriteOption) *form {
	f := *formJSON
	f.name = name
	f.write = func(doc any) (string, error) {
		var b bytes.Buffer
		err := spdxjson.Write(doc, &b, opts...)
		return b.String(), err
	}
	return &f
}

// sortList sorts a list of structs or pointers to structs by a string field, stably.
func sortList(v reflect.Value, field string) {
	if !v.IsValid() || v.Kind() != reflect.Slice {
		return
	}
	n := v.Len()
	tmp := make([]reflect.Value, n)
	for i := range tmp {
		c := reflect.New(v.Type().Elem()).Elem()
		c.Set(v.Index(i))
		tmp[i] = c
	}
	key := func(e reflect.Value) string {
		if e.Kind() == reflect.Ptr {
			e = e.Elem()
		}
		return e.FieldByName(field).String()
	}
	sort.SliceStable(tmp, func(a, b int) bool { return key(tmp[a]) < key(tmp[b]) })
	for i := range tmp {
		v.Index(i).Set(tmp[i])
	}
}

// expectTV is the part of a document that tag-value carries: lists sorted by identifier; the
// format has no place for annotations stated inside an element (it states all annotations at the
// document), for snippets outside files and for the file of a range pointer (the snippet states it).
func expectTV(v *docs.Version, doc any) any {
	d := docs.Clone(doc)
	rv := reflect.ValueOf(d).Elem()
	docs.Zero(rv, "Snippets")
	sortList(rv.FieldByName("ExternalDocumentReferences"), "DocumentRefID")
	sortList(rv.FieldByName("Files"), "FileSPDXIdentifier")
	sortList(rv.FieldByName("Packages"), "PackageSPDXIdentifier")
	docs.Each(d, "Package", func(p reflect.Value) {
		docs.Zero(p, "Annotations")
		docs.Zero(p, "IsUnpackaged")
		sortList(p.FieldByName("Files"), "FileSPDXIdentifier")
		if !p.FieldByName("FilesAnalyzed").Bool() {
			p.FieldByName("IsFilesAnalyzedTagPresent").SetBool(true)
			docs.Zero(p, "PackageVerificationCode")
			docs.Zero(p, "PackageLicenseInfoFromFiles")
		}
	})
	docs.Each(d, "PackageVerificationCode", func(c reflect.Value) {
		if c.FieldByName("Value").String() == "" {
			docs.Zero(c, "ExcludedFiles")
		}
	})
	docs.Each(d, "File", func(f reflect.Value) { docs.Zero(f, "Annotations") })
	docs.Each(d, "SnippetRangePointer", func(p reflect.Value) { docs.Zero(p, "FileSPDXIdentifier") })
	docs.Each(d, "Snippet", func(s reflect.Value) {
		// a range of bytes and of lines is stated as two
		rs := s.FieldByName("Ranges")
		var out []common.SnippetRange
		for i := 0; i < rs.Len(); i++ {
			r := rs.Index(i).Interface().(common.SnippetRange)
			lines := r
			if r.StartPointer.Offset != 0 && r.StartPointer.LineNumber != 0 {
				r.StartPointer.LineNumber, r.EndPointer.LineNumber = 0, 0
				lines.StartPointer.Offset, lines.EndPointer.Offset = 0, 0
				out = append(out, r)
			}
			out = append(out, lines)
		}
		if out != nil {
			rs.Set(reflect.ValueOf(out))
		}
	})
	return d
}

// expectJSON is the part of a document that SPDX JSON and YAML define: snippets stand at the
// document, not in files; annotations belong to the element they are in; reviews and the
// attribution texts of snippets have no place; nor have artifacts of projects (whose structure the
// schema does not define) and file dependencies in the models of 2.1 and 2.2.
func expectJSON(v *docs.Version, doc any) any {
	d := docs.Clone(doc)
	docs.Zero(reflect.ValueOf(d).Elem(), "Reviews")
	docs.Each(d, "Annotation", func(a reflect.Value) { docs.Zero(a, "AnnotationSPDXIdentifier") })
	docs.Each(d, "Snippet", func(s reflect.Value) { docs.Zero(s, "SnippetAttributionTexts") })
	docs.Each(d, "File", func(f reflect.Value) {
		docs.Zero(f, "Snippets")
		if v.Num < 3 {
			docs.Zero(f, "ArtifactOfProjects")
			docs.Zero(f, "FileDependencies")
		}
	})
	docs.Each(d, "Package", func(p reflect.Value) {
		docs.Zero(p, "IsUnpackaged")
		// the writer always states filesAnalyzed
		p.FieldByName("IsFilesAnalyzedTagPresent").SetBool(v.Num >= 2)
	})
	return d
}

func guardErr(f func() error) (err error, pan any) {
	p, _ := kit.Guard(func() { err = f() })
	return err, p
}

// roundTrip writes doc, reads it back into the same version and compares. It returns "" or what is wrong.
func roundTrip(f *form, v *docs.Version, doc any) (what string, text string) {
	var err error
	if p, _ := kit.Guard(func() { text, err = f.write(doc) }); p != nil {
		return fmt.Sprintf("writing panics: %v", p), ""
	}
	if err != nil {
		return "writing fails: " + err.Error(), ""
	}
	got := v.New()
	if p, _ := kit.Guard(func() { err = f.read(text, got) }); p != nil {
		return fmt.Sprintf("reading back panics: %v", p), text
	}
	if err != nil {
		return "reading back fails: " + err.Error(), text
	}
	want := docs.Canon(f.expect(v, doc))
	have := docs.Canon(got)
	if want != have {
		return "reads back different: " + docs.Diff(want, have), text
	}
	return "", text
}

var _ = common.SHA1

func spdxTVWrite(doc any, w io.Writer) error   { return tagvalue.Write(doc, w) }
func spdxYAMLWrite(doc any, w io.Writer) error { return spdxyaml.Write(doc, w) }

// Count is kit.Pick for numbers.
func Count(c *kit.Ctx, quick, thorough int) int { return kit.Pick(c, quick, thorough) }
