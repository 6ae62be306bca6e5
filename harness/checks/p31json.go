//go:build maporder

package checks

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"sigs.k8s.io/yaml"
)

const num31 = 7654321

// jvalues31 are the JSON values a property is given; what has to be found of them in the document.
var jvalues31 = []struct {
	val    any
	marker string
}{
	{odd31, odd31}, {"odd: " + odd31, odd31}, {"Person: " + odd31, odd31}, {"SPDXRef-" + odd31, odd31}, {"DocumentRef-" + odd31 + ":SPDXRef-x", odd31}, {"DocumentRef-" + odd31, odd31}, {"NONE" + odd31, odd31}, {"NOASSERTION " + odd31, odd31},
	{json.Number(strconv.Itoa(num31)), strconv.Itoa(num31)}, {json.Number("-" + strconv.Itoa(num31)), strconv.Itoa(num31)}, {json.Number(strconv.Itoa(num31) + ".5"), strconv.Itoa(num31)}, {json.Number("1e99"), "1e99"},
	{true, ""}, {[]any{odd31}, odd31}, {[]any{[]any{odd31}}, odd31}, {[]any{json.Number(strconv.Itoa(num31))}, strconv.Itoa(num31)}, {map[string]any{odd31: odd31}, odd31}, {[]any{map[string]any{odd31: "x"}}, odd31},
	{"", ""}, {"true", ""},
}

// leaf31 is a place of a JSON tree.
type leaf31 struct {
	path string
	val  any
	set  func(x any)
}

func leaves31(path string, x any, set func(any), out *[]leaf31) {
	if path != "" {
		*out = append(*out, leaf31{path, x, set})
	}
	switch t := x.(type) {
	case map[string]any:
		for k, v := range t {
			leaves31(path+"/"+k, v, func(n any) { t[k] = n }, out)
		}
	case []any:
		for i, v := range t {
			leaves31(path+"/"+strconv.Itoa(i), v, func(n any) { t[i] = n }, out)
		}
	}
}

// p31JSON: the same of the properties JSON and YAML state; properties they do not know are not looked at.
func p31JSON(c *kit.Ctx) (jobs []func()) {
	c.Bound("JSON and YAML of 2.1, 2.2, 2.3: every value at every place of documents with one and with two of everything, also with documentDescribes and hasFiles, replaced by each of %d: texts, numbers, lists, objects", len(jvalues31))
	for _, v := range docs.Versions {
		for n := 1; n <= 2; n++ {
			text, err := formJSON.write(docs.Full(v, n))
			if err != nil {
				c.Violate(v.Name+"/json/base", err.Error(), nil)
				continue
			}
			tree, err := asTree([]byte(text))
			if err != nil {
				c.Violate(v.Name+"/json/base", err.Error(), text)
				continue
			}
			if v.Num >= 2 {
				m := tree.(map[string]any)
				m["documentDescribes"] = []any{"SPDXRef-described"}
				m["packages"].([]any)[0].(map[string]any)["hasFiles"] = []any{"SPDXRef-hasfile", "SPDXRef-other"}
			}
			base, _ := json.Marshal(tree)
			for _, f := range []*form{formJSON, formYAML} {
				jobs = append(jobs, func() { p31Tree(c, v, n, f, base) })
			}
		}
	}
	return jobs
}

func p31Tree(c *kit.Ctx, v *docs.Version, n int, f *form, base []byte) {
	tree, err := asTree(base)
	if err != nil {
		panic(err)
	}
	var leaves []leaf31
	leaves31("", tree, nil, &leaves)
	read := func() (doc any, text string, err error) {
		b, err := json.Marshal(tree)
		if err == nil && f == formYAML {
			b, err = yaml.JSONToYAML(b)
		}
		if err != nil {
			panic(err)
		}
		text = string(b)
		doc = v.New()
		err, p := guardErr(func() error { return f.read(text, doc) })
		if p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		return
	}
	ref, text, err := read()
	if err != nil {
		c.Violate(fmt.Sprintf("%s/%s/base%d", v.Name, f.name, n), "the document is not read: "+err.Error(), text)
		return
	}
	canon := docs.Canon(ref)
	for _, l := range leaves {
		for _, x := range jvalues31 {
			if c.Stop() {
				return
			}
			_, wasObj := l.val.(map[string]any)
			_, wasList := l.val.([]any)
			_, isObj := x.val.(map[string]any)
			list, isList := x.val.([]any)
			if wasObj && isObj {
				continue // a property that is not known
			}
			if isList && wasList {
				if _, ok := list[0].(map[string]any); ok {
					continue // likewise
				}
			}
			if num, ok := x.val.(json.Number); ok && f == formYAML && strings.ContainsAny(string(num), ".e") {
				continue // sigs.k8s.io/yaml, a dependency, turns these into texts in its own form
			}
			_, wasBool := l.val.(bool)
			_, isBool := x.val.(bool)
			_, wasText := l.val.(string)
			isText, ok := x.val.(string)
			if ok && wasText && !strings.Contains(isText, odd31) || wasBool && isBool {
				continue // hardly odd
			}
			c.Evals.Add(1)
			l.set(x.val)
			got, text, err := read()
			l.set(l.val)
			if err != nil && !strings.HasPrefix(err.Error(), "panic") {
				continue
			}
			val, _ := json.Marshal(x.val)
			key := fmt.Sprintf("%s/%s/full%d%s/%s", v.Name, f.name, n, l.path, val)
			what := ""
			switch {
			case err != nil:
				what = err.Error()
			case x.marker != "" && strings.Contains(docs.Canon(got), x.marker):
				continue
			case x.marker == "" && docs.Canon(got) != canon:
				continue
			default:
				what = "accepted, and the document does not hold it"
			}
			c.Violate(key, fmt.Sprintf("%s %s with %s at %s: %s", v.Name, f.name, val, l.path, what), text)
		}
	}
}
