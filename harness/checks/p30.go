package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"sigs.k8s.io/yaml"
)

func init() { register("P30", "exploration", runP30) }

// asTree gives JSON text as values, numbers as they are written.
func asTree(text []byte) (any, error) {
	d := json.NewDecoder(bytes.NewReader(text))
	d.UseNumber()
	var x any
	if err := d.Decode(&x); err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return x, nil
}

// treeDiff gives the first difference of two JSON values, or "".
func treeDiff(path string, want, have any) string {
	switch w := want.(type) {
	case map[string]any:
		h, ok := have.(map[string]any)
		if !ok {
			break
		}
		var ks []string
		for k := range w {
			ks = append(ks, k)
		}
		for k := range h {
			if _, ok := w[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			a, okA := w[k]
			b, okB := h[k]
			switch {
			case !okA:
				return fmt.Sprintf("%s/%s: states %v, not expected", path, k, b)
			case !okB:
				return fmt.Sprintf("%s/%s: does not state %v", path, k, a)
			}
			if d := treeDiff(path+"/"+k, a, b); d != "" {
				return d
			}
		}
		return ""
	case []any:
		h, ok := have.([]any)
		if !ok {
			break
		}
		if len(w) != len(h) {
			return fmt.Sprintf("%s: %d elements, expected %d", path, len(h), len(w))
		}
		for i := range w {
			if d := treeDiff(path+"/"+strconv.Itoa(i), w[i], h[i]); d != "" {
				return d
			}
		}
		return ""
	}
	if !reflect.DeepEqual(want, have) {
		return fmt.Sprintf("%s: %v, expected %v", path, have, want)
	}
	return ""
}

// holders are the ways a value stands within what a program marshals.
func p30Holders(v reflect.Value) []struct {
	name string
	val  any
	out  func(tree any) any
} {
	type h = struct {
		name string
		val  any
		out  func(tree any) any
	}
	x := v.Interface()
	ptr := reflect.New(v.Type())
	ptr.Elem().Set(v)
	list := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
	list.Index(0).Set(v)
	array := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
	array.Index(0).Set(v)
	m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
	m.SetMapIndex(reflect.ValueOf("k"), v)
	field := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "Predicate", Type: v.Type(), Tag: `json:"k"`}})).Elem()
	field.Field(0).Set(v)
	first := func(t any) any { return t.([]any)[0] }
	k := func(t any) any { return t.(map[string]any)["k"] }
	self := func(t any) any { return t }
	return []h{
		{"by value", x, self},
		{"by pointer", ptr.Interface(), self},
		{"in a list", list.Interface(), first},
		{"in an array", array.Interface(), first},
		{"in a list of anything", []any{x}, first},
		{"in a map", m.Interface(), k},
		{"in a structure by value", field.Interface(), k},
		{"in a structure by pointer", field.Addr().Interface(), k},
		{"in a field of anything", struct {
			K any `json:"k"`
		}{x}, k},
	}
}

// p30Ways are the ways a program marshals.
var p30Ways = []struct {
	name string
	f    func(any) ([]byte, error)
}{
	{"Marshal", json.Marshal},
	{"MarshalIndent", func(x any) ([]byte, error) { return json.MarshalIndent(x, " ", "\t") }},
	{"Encoder", func(x any) ([]byte, error) {
		var b bytes.Buffer
		e := json.NewEncoder(&b)
		e.SetEscapeHTML(false)
		err := e.Encode(x)
		return b.Bytes(), err
	}},
	{"yaml.Marshal", func(x any) ([]byte, error) {
		b, err := yaml.Marshal(x)
		if err != nil {
			return nil, err
		}
		return yaml.YAMLToJSON(b)
	}},
}

// marshalled gives what a value states marshalled in one way within one holder.
func p30Marshalled(way int, val any, out func(any) any) (tree any, err error) {
	if p, _ := kit.Guard(func() {
		var b []byte
		if b, err = p30Ways[way].f(val); err != nil {
			return
		}
		if tree, err = asTree(b); err == nil {
			tree = out(tree)
		}
	}); p != nil {
		err = fmt.Errorf("panic: %v", p)
	}
	return tree, err
}

// part is a part of a document and what the document's JSON states of it.
type p30Part struct {
	path string
	v    reflect.Value
	tree any
	has  bool // false: the document's JSON has no place for it
}

// yamlPlain says whether the YAML library takes every character of a text as it stands; what it
// makes of control characters is its own business (the repository's writer escapes them: P07).
func yamlPlain(text string) bool {
	if strings.ContainsFunc(text, func(r rune) bool {
		return r < ' ' && r != '\n' && r != '\t' || r >= 0x7f && r < 0xa0 || r == 0x2028 || r == 0x2029 || r == 0xfeff || r == 0xfffe || r == 0xffff
	}) {
		return false
	}
	return !strings.Contains(text, `\u`) && !strings.Contains(text, `\x`)
}

// p30Parts gives the structures of a document and their places in its JSON.
func p30Parts(path string, v reflect.Value, tree any, has bool, out *[]p30Part) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			p30Parts(path, v.Elem(), tree, has, out)
		}
	case reflect.Struct:
		*out = append(*out, p30Part{path, v, tree, has})
		m, isMap := tree.(map[string]any)
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if !f.IsExported() {
				continue
			}
			name, _, _ := strings.Cut(f.Tag.Get("json"), ",")
			sub, ok := m[name]
			p30Parts(path+"."+f.Name, v.Field(i), sub, has && isMap && ok && name != "-" && name != "", out)
		}
	case reflect.Slice:
		l, isList := tree.([]any)
		for i := 0; i < v.Len(); i++ {
			var sub any
			ok := has && isList && i < len(l)
			if ok {
				sub = l[i]
			}
			p30Parts(path+"["+strconv.Itoa(i)+"]", v.Index(i), sub, ok, out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			p30Parts(path+"{}", v.MapIndex(k), nil, false, out)
		}
	case reflect.String:
		if v.Type().PkgPath() != "" {
			*out = append(*out, p30Part{path, v, tree, has})
		}
	}
}

// runP30: a document and every part of it state by encoding/json what the writer states of them.
func runP30(c *kit.Ctx) {
	o := docSpace(c, docs.JSON)
	if !c.Thorough() {
		o.pairsOn = nil
	}
	c.Bound("each document, marshalled by value and by pointer, alone and in a list, an array, a map, a structure and an interface (9 ways), and every distinct part of it likewise; by json.Marshal, MarshalIndent, an Encoder without HTML escaping and yaml.Marshal (quick: one of the four by turns; thorough: all); unmarshalled again alone, in a structure, a list and a map; every pair of texts of each value written as a text, one unmarshalled after the other")
	p30Texts(c)
	eachDoc(c, o, func(d docCase) {
		if !c.Seen(d.ver.Name + docs.Canon(d.doc)) {
			return
		}
		c.Evals.Add(1)
		c.Sample(d.ver.Name + " " + d.base + " " + d.label)
		bad := func(key, what, text string) {
			c.Violate(key+"/"+caseKey(d), d.ver.Name+" "+d.base+" "+d.label+": "+what, replayDoc(d, text))
		}
		text, err := formJSON.write(docs.Clone(d.doc))
		if err != nil {
			return // P05's business
		}
		want, err := asTree([]byte(text))
		if err != nil {
			bad("json", "the writer's JSON does not parse: "+err.Error(), text)
			return
		}
		turn := int(crc32.ChecksumIEEE([]byte(d.base+d.label)) % 64)
		plain := yamlPlain(text) && yamlPlain(docs.Canon(d.doc))
		ways := func(n int) []int {
			if c.Thorough() || d.label == "" {
				if plain {
					return []int{0, 1, 2, 3}
				}
				return []int{0, 1, 2}
			}
			if w := (turn + n) % 8; w < 3 {
				return []int{w}
			} else if w == 7 && n%8 == 0 && plain {
				return []int{3}
			}
			return []int{0}
		}
		var parts []p30Part
		p30Parts("document", reflect.ValueOf(docs.Clone(d.doc)), want, true, &parts)
		for n, p := range parts {
			if n > 0 && !c.Seen(p30Key(p)) {
				continue
			}
			var ref any
			refErr := error(nil)
			if p.has {
				ref = p.tree
			} else {
				ref, refErr = p30Marshalled(0, p.v.Interface(), func(t any) any { return t })
			}
			for h, ho := range p30Holders(p.v) {
				for _, w := range ways(h + n) {
					c.Transitions.Add(1)
					got, err := p30Marshalled(w, ho.val, ho.out)
					key := "marshal/" + p.path
					name := fmt.Sprintf("%s (%s) %s by %s", p.path, p.v.Type(), ho.name, p30Ways[w].name)
					switch {
					case (err == nil) != (refErr == nil):
						bad(key, fmt.Sprintf("%s: %v, otherwise %v", name, err, refErr), text)
						return
					case err != nil:
					default:
						if df := treeDiff("", ref, got); df != "" {
							bad(key, name+": "+df, text)
							return
						}
					}
				}
			}
		}
		if what := p30Unmarshal(c, d, text, turn, plain); what != "" {
			bad("unmarshal", what, text)
		}
	})
}

func p30Key(p p30Part) string {
	t, _ := json.Marshal(p.tree)
	return p.v.Type().String() + fmt.Sprint(p.has) + "\x00" + docs.Canon(p.v.Interface()) + "\x00" + string(t)
}

// p30Unmarshal unmarshals a document and its parts without the reader.
func p30Unmarshal(c *kit.Ctx, d docCase, text string, turn int, plain bool) string {
	want := d.ver.New()
	if err := formJSON.read(text, want); err != nil {
		return "" // P05's business
	}
	canon := docs.Canon(want)
	t := reflect.TypeOf(want).Elem()
	one := func(name, text string, t reflect.Type, canon string) string {
		wraps := []struct {
			name, text string
			typ        reflect.Type
			get        func(reflect.Value) reflect.Value
		}{
			{"alone", text, t, func(v reflect.Value) reflect.Value { return v }},
			{"in a structure", `{"k":` + text + `}`, reflect.StructOf([]reflect.StructField{{Name: "Predicate", Type: t, Tag: `json:"k"`}}), func(v reflect.Value) reflect.Value { return v.Field(0) }},
			{"by pointer in a structure", `{"k":` + text + `}`, reflect.StructOf([]reflect.StructField{{Name: "Predicate", Type: reflect.PointerTo(t), Tag: `json:"k"`}}), func(v reflect.Value) reflect.Value { return v.Field(0).Elem() }},
			{"in a list", `[` + text + `,` + text + `]`, reflect.SliceOf(t), func(v reflect.Value) reflect.Value { return v.Index(1) }},
			{"in a map", `{"k":` + text + `}`, reflect.MapOf(reflect.TypeOf(""), t), func(v reflect.Value) reflect.Value { return v.MapIndex(reflect.ValueOf("k")) }},
		}
		for i, w := range wraps {
			if !c.Thorough() && d.label != "" && i != turn%len(wraps) {
				continue
			}
			for _, y := range []bool{false, true} {
				if y && (!plain || !c.Thorough() && d.label != "" && turn != 0) {
					continue
				}
				c.Transitions.Add(1)
				got := reflect.New(w.typ)
				var err error
				if p, _ := kit.Guard(func() {
					if y {
						err = yaml.Unmarshal([]byte(w.text), got.Interface())
					} else {
						err = json.Unmarshal([]byte(w.text), got.Interface())
					}
				}); p != nil {
					return fmt.Sprintf("unmarshalling %s %s: panic: %v", name, w.name, p)
				}
				if err != nil {
					return fmt.Sprintf("unmarshalling %s %s: %v", name, w.name, err)
				}
				if have := docs.Canon(w.get(got.Elem()).Interface()); have != canon {
					return fmt.Sprintf("unmarshalling %s %s gives otherwise than the reader: %s", name, w.name, docs.Diff(canon, have))
				}
			}
		}
		return ""
	}
	if what := one("the document", text, t, canon); what != "" {
		return what
	}
	tree, err := asTree([]byte(text))
	if err != nil {
		return ""
	}
	var parts []p30Part
	p30Parts("document", reflect.ValueOf(want), tree, true, &parts)
	for _, p := range parts[1:] {
		if !p.has || !c.Seen("unmarshal"+p30Key(p)) {
			continue
		}
		b, err := json.Marshal(p.tree)
		if err != nil {
			continue
		}
		if what := one(p.path+" ("+p.v.Type().String()+")", string(b), p.v.Type(), docs.Canon(p.v.Interface())); what != "" {
			return what
		}
	}
	return ""
}

// p30Texts: a value written as a text holds, after unmarshalling, what the text states and nothing of what it held before.
func p30Texts(c *kit.Ctx) {
	agents := []string{"Person: Ann (a@b.c)", "Organization: x: y", "Tool: t-1", "Person: NOASSERTION", "NOASSERTION", ": y", "Person:", "Person: ", ":", "::", " : ", "", "Ann", "NONE", "Person:Ann", " Person : Ann "}
	els := []string{"SPDXRef-a", "SPDXRef-b.2", "DocumentRef-d:SPDXRef-a", "DocumentRef-e:SPDXRef-c", "NONE", "NOASSERTION", "DocumentRef-d",
		"", "SPDXRef-", "DocumentRef-", "DocumentRef-:SPDXRef-a", "DocumentRef-d:", "DocumentRef-d:SPDXRef-", "DocumentRef-d:NONE", "a", ":SPDXRef-a", "SPDXRef-SPDXRef-a", "SPDXRef-NONE"}
	type kind struct {
		t     reflect.Type
		texts []string
	}
	kinds := []kind{
		{reflect.TypeOf(common.Supplier{}), agents},
		{reflect.TypeOf(common.Originator{}), agents},
		{reflect.TypeOf(common.Annotator{}), agents},
		{reflect.TypeOf(common.Creator{}), agents},
		{reflect.TypeOf(common.ElementID("")), els},
		{reflect.TypeOf(common.DocumentID("")), els},
		{reflect.TypeOf(common.DocElementID{}), els},
	}
	read := func(into reflect.Value, text string) (err error) {
		q, _ := json.Marshal(text)
		if p, _ := kit.Guard(func() { err = json.Unmarshal(q, into.Interface()) }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		return err
	}
	for _, k := range kinds {
		for _, b := range k.texts {
			fresh := reflect.New(k.t)
			errFresh := read(fresh, b)
			for _, a := range k.texts {
				c.Evals.Add(1)
				used := reflect.New(k.t)
				if read(used, a) != nil {
					continue
				}
				err := read(used, b)
				if (err == nil) != (errFresh == nil) || err == nil && !reflect.DeepEqual(used.Interface(), fresh.Interface()) {
					c.Violate("reuse/"+k.t.String(), fmt.Sprintf("%s: %q unmarshalled into a value that held %q gives %#v (%v), into a new one %#v (%v)", k.t, b, a, used.Elem().Interface(), err, fresh.Elem().Interface(), errFresh), map[string]any{"text": b})
				}
			}
		}
	}
}
