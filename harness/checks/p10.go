package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/convert"
	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/rdf"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"github.com/spdx/tools-golang/tagvalue"
	spdxyaml "github.com/spdx/tools-golang/yaml"
	"sigs.k8s.io/yaml"
)

func init() { register("P10", "exploration", runP10) }

// reader is one format's two ways of reading.
type docReader struct {
	name string
	read func(io.Reader) (*spdx.Document, error)
	into func(io.Reader, any) error
}

var readers = []docReader{
	{"tagvalue", tagvalue.Read, func(r io.Reader, d any) error { return tagvalue.ReadInto(r, d) }},
	{"json", spdxjson.Read, func(r io.Reader, d any) error { return spdxjson.ReadInto(r, d) }},
	{"yaml", spdxyaml.Read, func(r io.Reader, d any) error { return spdxyaml.ReadInto(r, d) }},
	{"rdf", rdf.Read, func(r io.Reader, d any) error { return rdf.ReadInto(r, d) }},
}

func readerOf(name string) docReader {
	for _, r := range readers {
		if r.name == name {
			return r
		}
	}
	panic(name)
}

// rdfSmall is a document in RDF with one blank node, so that the RDF library has nothing to mix up.
func rdfSmall(version string) string {
	return `<?xml version="1.0" encoding="UTF-8"?>
<rdf:RDF xmlns:rdf="http://www.w3.org/1999/02/22-rdf-syntax-ns#" xmlns:spdx="http://spdx.org/rdf/terms#" xmlns:rdfs="http://www.w3.org/2000/01/rdf-schema#">
<spdx:SpdxDocument rdf:about="http://x.org/d#SPDXRef-DOCUMENT">
` + version + `<spdx:name>N</spdx:name>
<spdx:dataLicense rdf:resource="http://spdx.org/licenses/CC0-1.0"/>
<rdfs:comment>C</rdfs:comment>
<spdx:creationInfo><spdx:CreationInfo><spdx:creator>Tool: t</spdx:creator><spdx:created>2020-01-01T00:00:00Z</spdx:created></spdx:CreationInfo></spdx:creationInfo>
</spdx:SpdxDocument>
</rdf:RDF>
`
}

// rdfExpect is what rdfSmall states, but for the SPDX identifier, which P17 decides.
func rdfExpect(v *docs.Version) any {
	t := `{"spdxVersion":"` + v.Const + `","dataLicense":"CC0-1.0","name":"N","documentNamespace":"http://x.org/d","comment":"C","creationInfo":{"created":"2020-01-01T00:00:00Z","creators":["Tool: t"]}}`
	d := v.New()
	if err := json.Unmarshal([]byte(t), d); err != nil {
		panic(err)
	}
	return d
}

func specVersion(s string) string { return "<spdx:specVersion>" + s + "</spdx:specVersion>\n" }

func dropID(canon string) string {
	var out []string
	for _, l := range strings.Split(canon, "\n") {
		if !strings.HasPrefix(l, ".SPDXIdentifier=") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}

func runP10(c *kit.Ctx) {
	p10Matrix(c)
	p10Versions(c)
	p10Content(c)
	p10Targets(c)
}

// refused reads text, which must fail and leave a filled target of every version as it was.
func (r docReader) refused(c *kit.Ctx, key, what, text string) {
	if c.Stop() {
		return
	}
	bad := func(s string) {
		c.Violate(r.name+"/"+key, r.name+": "+what+": "+s, map[string]any{"text": clip(text)})
	}
	for _, to := range docs.Versions {
		c.Evals.Add(1)
		target := docs.Full(to, 1)
		before := docs.Canon(target)
		err, p := guardErr(func() error { return r.into(strings.NewReader(text), target) })
		switch {
		case p != nil:
			bad(fmt.Sprint("panics: ", p))
		case err == nil:
			bad("is accepted into " + to.Name)
		case docs.Canon(target) != before:
			bad("fails but changes the caller's document: " + docs.Diff(before, docs.Canon(target)))
		}
	}
	c.Evals.Add(1)
	err, p := guardErr(func() error { _, e := r.read(strings.NewReader(text)); return e })
	if p != nil || err == nil {
		bad(fmt.Sprint("Read does not give an error but ", p))
	}
	c.Seen(r.name + text)
}

func clip(s string) string {
	if len(s) > 20000 {
		return s[:20000] + "..."
	}
	return s
}

// every document of the bounded space, in every format and version, into every version
func p10Matrix(c *kit.Ctx) {
	c.Bound("matrix: the documents of four bases with up to one deviation (quick: one alternative of each site), in tag-value, JSON and YAML of each version, read into each version, empty and filled, and with Read; RDF 2.2 and 2.3 of one document")
	o := spaceOpts{format: docs.TV, maxAlts: kit.Pick(c, 1, 4)}
	check := func(r docReader, v *docs.Version, label, text string, want any, norm func(string) string) {
		for _, to := range docs.Versions {
			exp := want
			if to != v {
				exp = expectConverted(want, to)
			}
			wantCanon := norm(docs.Canon(exp))
			for _, target := range []any{to.New(), docs.Full(to, 2)} {
				c.Evals.Add(1)
				err, p := guardErr(func() error { return r.into(strings.NewReader(text), target) })
				got := norm(docs.Canon(target))
				if err != nil || p != nil || got != wantCanon {
					c.Violate(fmt.Sprintf("matrix/%s/%s>%s/%s", r.name, v.Name, to.Name, label),
						fmt.Sprintf("%s %s read into %s: %v %v %s", r.name, v.Name, to.Name, err, p, docs.Diff(wantCanon, got)), map[string]any{"text": clip(text)})
					return
				}
			}
			if to.Num == 3 {
				c.Evals.Add(1)
				var got *spdx.Document
				err, p := guardErr(func() (e error) { got, e = r.read(strings.NewReader(text)); return })
				if err != nil || p != nil || norm(docs.Canon(got)) != wantCanon {
					c.Violate(fmt.Sprintf("matrix/%s/%s>latest/%s", r.name, v.Name, label),
						fmt.Sprintf("%s %s read: %v %v %s", r.name, v.Name, err, p, docs.Diff(wantCanon, norm(docs.Canon(got)))), map[string]any{"text": clip(text)})
				}
			}
		}
	}
	id := func(s string) string { return s }
	eachDoc(c, o, func(d docCase) {
		for _, f := range forms {
			text, err := "", error(nil)
			err, p := guardErr(func() (e error) { text, e = f.write(docs.Clone(d.doc)); return })
			if err != nil || p != nil {
				c.Violate("matrix/write/"+f.name+"/"+caseKey(d), fmt.Sprint("cannot be written: ", err, p), replayDoc(d, ""))
				return
			}
			if !c.Seen(f.name + text) {
				continue
			}
			check(readerOf(f.name), d.ver, d.base+"/"+d.label, text, f.expect(d.ver, d.doc), id)
		}
	})
	for _, v := range docs.Versions[1:] {
		check(readerOf("rdf"), v, "small", rdfSmall(specVersion(v.Const)), rdfExpect(v), dropID)
	}
}

// every stated version
func p10Versions(c *kit.Ctx) {
	c.Bound("versions: missing, ill-typed, unknown and near misses of each supported version, in each format, into filled documents of each version; and a version that is stated last")
	near := map[string]bool{"": true, "SPDX-2": true, "SPDX-": true, "2": true, "null": true}
	for _, v := range []string{"SPDX-2.1", "SPDX-2.2", "SPDX-2.3"} {
		for i := range v { // every deletion, doubling, change of case and of value
			near[v[:i]+v[i+1:]] = true
			near[v[:i]+string(v[i])+v[i:]] = true
			near[v[:i]+string(v[i]^0x20)+v[i+1:]] = true
			near[v[:i]+string(v[i]+1)+v[i+1:]] = true
			near[v[:i]+string(v[i]-1)+v[i+1:]] = true
		}
		for _, s := range []string{"%s ", " %s", "%s\n", "%s.0", "%s-rc1", "v%s", "%s,SPDX-2.2", `"%s"`, "http://spdx.org/rdf/terms#%s"} {
			near[fmt.Sprintf(s, v)] = true
		}
		near[v[5:]] = true
	}
	supported := map[string]bool{"SPDX-2.1": true, "SPDX-2.2": true, "SPDX-2.3": true}
	for s := range near {
		if supported[s] {
			continue
		}
		q, _ := json.Marshal(s)
		if !supported[strings.TrimSpace(s)] {
			readerOf("tagvalue").refused(c, "version/"+s, fmt.Sprintf("version %q", s), "SPDXVersion: "+s+"\nSPDXID: SPDXRef-DOCUMENT\nCreator: Tool: t\n")
			x := strings.NewReplacer("&", "&amp;", "<", "&lt;").Replace(s)
			readerOf("rdf").refused(c, "version/"+s, fmt.Sprintf("version %q", s), rdfSmall(specVersion(x)))
		}
		readerOf("json").refused(c, "version/"+s, fmt.Sprintf("version %q", s), `{"spdxVersion":`+string(q)+`,"SPDXID":"SPDXRef-DOCUMENT"}`)
		readerOf("yaml").refused(c, "version/"+s, fmt.Sprintf("version %q", s), `{"spdxVersion": `+string(q)+`, "SPDXID": "SPDXRef-DOCUMENT"}`)
	}
	readerOf("rdf").refused(c, "version/SPDX-2.1", "version 2.1, which has no RDF reader", rdfSmall(specVersion("SPDX-2.1")))
	for _, s := range []string{"null", "2.3", "2", "true", "[]", `["SPDX-2.3"]`, "{}", `{"a":"SPDX-2.3"}`} {
		readerOf("json").refused(c, "version/"+s, "version "+s, `{"spdxVersion":`+s+`,"SPDXID":"SPDXRef-DOCUMENT"}`)
		readerOf("yaml").refused(c, "version/"+s, "version "+s, "spdxVersion: "+s+"\nSPDXID: SPDXRef-DOCUMENT\n")
	}
	for _, name := range []string{"spdxversion", "SPDXVersion", "spdx_version", "SpdxVersion", "version", ""} {
		t := `{"` + name + `":"SPDX-2.3","SPDXID":"SPDXRef-DOCUMENT"}`
		readerOf("json").refused(c, "missing/"+name, "version stated as "+name, t)
		readerOf("yaml").refused(c, "missing/"+name, "version stated as "+name, t)
	}
	for _, name := range []string{"spdxVersion", "SpdxVersion", "SPDXversion", "Version", "X"} {
		readerOf("tagvalue").refused(c, "missing/"+name, "version stated as "+name, name+": SPDX-2.3\nSPDXID: SPDXRef-DOCUMENT\nCreator: Tool: t\n")
	}
	readerOf("tagvalue").refused(c, "missing/comment", "version in a comment", "# SPDXVersion: SPDX-2.3\nSPDXID: SPDXRef-DOCUMENT\nCreator: Tool: t\n")
	readerOf("tagvalue").refused(c, "missing/text", "version within a text", "DocumentComment: <text>\nSPDXVersion: SPDX-2.3\n</text>\nSPDXID: SPDXRef-DOCUMENT\nCreator: Tool: t\n")
	readerOf("rdf").refused(c, "missing/none", "no version", rdfSmall(""))
	// stated after everything else
	for _, v := range docs.Versions {
		want := v.New()
		json.Unmarshal([]byte(`{"spdxVersion":"`+v.Const+`","SPDXID":"SPDXRef-DOCUMENT","name":"nm"}`), want)
		for name, t := range map[string]string{
			"json": `{"name":"nm","SPDXID":"SPDXRef-DOCUMENT","spdxVersion":"` + v.Const + `"}`,
			"yaml": "name: nm\nSPDXID: SPDXRef-DOCUMENT\nspdxVersion: " + v.Const + "\n",
		} {
			got := v.New()
			c.Evals.Add(1)
			if err, p := guardErr(func() error { return readerOf(name).into(strings.NewReader(t), got) }); err != nil || p != nil || docs.Canon(got) != docs.Canon(want) {
				c.Violate("last/"+name+"/"+v.Name, fmt.Sprint(name, ": version stated last: ", err, p, docs.Diff(docs.Canon(want), docs.Canon(got))), map[string]any{"text": t})
			}
		}
		t := "SPDXID: SPDXRef-DOCUMENT\nDocumentName: n\nSPDXVersion: " + v.Const + "\nCreator: Tool: t\n"
		got := v.New()
		c.Evals.Add(1)
		if err, p := guardErr(func() error { return readerOf("tagvalue").into(strings.NewReader(t), got) }); err != nil || p != nil || reflect.ValueOf(got).Elem().FieldByName("SPDXVersion").String() != v.Const {
			c.Violate("last/tagvalue/"+v.Name, fmt.Sprint("tagvalue: version stated later: ", err, p), map[string]any{"text": t})
		}
	}
}

// content that is not a document of the format, or is ill-typed
func p10Content(c *kit.Ctx) {
	c.Bound("content: every format's text given to every other reader; top levels that are not objects; trailing and leading garbage; every value of a full JSON and YAML document of each version replaced by every other JSON type (null excepted)")
	for _, v := range docs.Versions {
		full := docs.Full(v, 2)
		texts := map[string]string{}
		for _, f := range forms {
			texts[f.name], _ = f.write(docs.Clone(full))
		}
		if v.Num > 1 {
			texts["rdf"] = rdfSmall(specVersion(v.Const))
		}
		for from, t := range texts {
			for _, r := range readers {
				if r.name == from || from == "json" && r.name == "yaml" {
					continue // JSON is YAML
				}
				r.refused(c, "other/"+from+"/"+v.Name, "a "+from+" document", t)
			}
		}
		for _, garbage := range []string{"x", "{}", "]", "}", `{"spdxVersion":"SPDX-2.3"}`, "null", ",", "\x00"} {
			readerOf("json").refused(c, "trailing/"+garbage, "trailing "+garbage, texts["json"]+garbage)
			if garbage != "{}" && garbage != `{"spdxVersion":"SPDX-2.3"}` {
				readerOf("json").refused(c, "leading/"+garbage, "leading "+garbage, garbage+texts["json"])
			}
		}
	}
	for _, t := range []string{"", " ", "\n", "null", "[]", `[{"spdxVersion":"SPDX-2.3"}]`, `"SPDX-2.3"`, "2.3", "true", "{", "}", "{}", `{"spdxVersion"}`, `{"spdxVersion":"SPDX-2.3"`, "---\n", "- spdxVersion: SPDX-2.3\n", "spdxVersion", "\xff\xfe", "\x00", "<a/>", "<rdf:RDF/>"} {
		for _, r := range readers {
			r.refused(c, "top/"+t, fmt.Sprintf("content %q", t), t)
		}
	}
	// ill-typed values
	type job struct {
		v    *docs.Version
		path string
		text string
		what string
	}
	var jobs []job
	for _, v := range docs.Versions {
		var tree any
		t, _ := formJSON.write(docs.Full(v, 1))
		if err := json.Unmarshal([]byte(t), &tree); err != nil {
			c.Violate("content/json", "what is written is not JSON: "+err.Error(), map[string]any{"text": t})
			continue
		}
		types := []any{"x", 7.0, true, []any{}, map[string]any{}, []any{"x"}, map[string]any{"x": "y"}}
		var walk func(path string, x any, put func(any) string)
		walk = func(path string, x any, put func(any) string) {
			for _, alt := range types {
				if jsonType(alt) == jsonType(x) {
					continue
				}
				if path == "" {
					continue
				}
				jobs = append(jobs, job{v, path, put(alt), fmt.Sprintf("%s of type %s", path, jsonType(alt))})
			}
			switch y := x.(type) {
			case map[string]any:
				for k := range y {
					walk(path+"."+k, y[k], func(alt any) string {
						old := y[k]
						y[k] = alt
						b, _ := json.Marshal(tree)
						y[k] = old
						return string(b)
					})
				}
			case []any:
				for i := range y {
					walk(fmt.Sprintf("%s[%d]", path, i), y[i], func(alt any) string {
						old := y[i]
						y[i] = alt
						b, _ := json.Marshal(tree)
						y[i] = old
						return string(b)
					})
				}
			}
		}
		walk("", tree, nil)
	}
	c.Add("illtyped", int64(len(jobs)))
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		readerOf("json").refused(c, "type/"+j.v.Name+j.what, j.v.Name+" "+j.what, j.text)
		if i%3 == 0 || c.Thorough() {
			y, err := yaml.JSONToYAML([]byte(j.text))
			if err == nil && !strings.Contains(j.what, "of type number") && !strings.Contains(j.what, "of type bool") {
				readerOf("yaml").refused(c, "type/"+j.v.Name+j.what, j.v.Name+" "+j.what, string(y))
			}
		}
	})
}

func jsonType(x any) string {
	switch x.(type) {
	case string:
		return "string"
	case float64:
		return "number"
	case bool:
		return "bool"
	case []any:
		return "list"
	case map[string]any:
		return "object"
	}
	return "null"
}

// targets that are no pointers to supported documents
func p10Targets(c *kit.Ctx) {
	c.Bound("targets: 24 kinds of values that are not pointers to a supported document, for each reader and for conversion")
	type own struct{ SPDXVersion, DocumentName string }
	type renamed v2_3.Document
	d3, d2, d1 := &v2_3.Document{}, &v2_2.Document{}, &v2_1.Document{}
	var anyValue any = "x"
	str, num, slice, m := "x", 1, []v2_3.Document{{}}, map[string]any{}
	targets := []struct {
		name string
		t    any
	}{
		{"nil", nil}, {"nil 2.3", (*v2_3.Document)(nil)}, {"nil 2.2", (*v2_2.Document)(nil)}, {"nil 2.1", (*v2_1.Document)(nil)},
		{"value 2.3", v2_3.Document{}}, {"value 2.2", v2_2.Document{}}, {"value 2.1", v2_1.Document{}},
		{"pointer to pointer 2.3", &d3}, {"pointer to pointer 2.2", &d2}, {"pointer to pointer 2.1", &d1},
		{"int", 1}, {"string", "x"}, {"pointer to int", &num}, {"pointer to string", &str}, {"pointer to any", &anyValue},
		{"pointer to map", &m}, {"map", m}, {"pointer to slice", &slice}, {"slice", slice}, {"own struct", &own{}}, {"pointer to package", &v2_3.Package{}},
		{"func", func() {}}, {"chan", make(chan int)}, {"renamed", &renamed{}},
	}
	for _, t := range targets {
		before := fmt.Sprintf("%#v", deref(t.t))
		try := func(who string, f func() error) {
			c.Evals.Add(1)
			c.Seen("target" + who + t.name)
			err, p := guardErr(f)
			key := "target/" + who + "/" + t.name
			if p != nil {
				c.Violate(key, fmt.Sprintf("%s into a %s panics: %v", who, t.name, p), nil)
			} else if err == nil {
				c.Violate(key, fmt.Sprintf("%s into a %s gives no error", who, t.name), nil)
			} else if after := fmt.Sprintf("%#v", deref(t.t)); after != before {
				c.Violate(key, fmt.Sprintf("%s into a %s fails but changes it", who, t.name), map[string]any{"before": before, "after": after})
			}
		}
		for _, v := range docs.Versions {
			doc := docs.Full(v, 1)
			for _, f := range forms {
				text, _ := f.write(docs.Clone(doc))
				try(f.name+" "+v.Name, func() error { return readerOf(f.name).into(bytes.NewReader([]byte(text)), t.t) })
			}
			if v.Num > 1 {
				try("rdf "+v.Name, func() error {
					return readerOf("rdf").into(strings.NewReader(rdfSmall(specVersion(v.Const))), t.t)
				})
			}
			try("convert "+v.Name, func() error { return convert.Document(doc, t.t) })
			try("convert value "+v.Name, func() error { return convert.Document(reflect.ValueOf(doc).Elem().Interface(), t.t) })
		}
	}
}

func deref(x any) any {
	v := reflect.ValueOf(x)
	for v.IsValid() && (v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface) && !v.IsNil() {
		v = v.Elem()
	}
	if !v.IsValid() || v.Kind() == reflect.Func || v.Kind() == reflect.Chan {
		return nil
	}
	return v.Interface()
}
