package checks

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
	"sigs.k8s.io/yaml"
)

func init() { register("P06", "exploration", runP06) }

// rel6 is a relationship as JSON states it.
type rel6 struct{ a, typ, b, comment string }

func (r rel6) json() map[string]any {
	m := map[string]any{"spdxElementId": r.a, "relationshipType": r.typ, "relatedSpdxElement": r.b}
	if r.comment != "" {
		m["comment"] = r.comment
	}
	return m
}

// fact is what a relationship states whichever way round it is put.
func (r rel6) fact() rel6 {
	switch r.typ {
	case "DESCRIBED_BY":
		return rel6{r.b, "DESCRIBES", r.a, ""}
	case "CONTAINED_BY":
		return rel6{r.b, "CONTAINS", r.a, ""}
	}
	return rel6{r.a, r.typ, r.b, ""}
}

func idString(d common.DocElementID) string {
	switch {
	case d.SpecialID != "":
		return d.SpecialID
	case d.DocumentRefID != "":
		return "DocumentRef-" + string(d.DocumentRefID) + ":SPDXRef-" + string(d.ElementRefID)
	}
	return "SPDXRef-" + string(d.ElementRefID)
}

func relsOf(doc any) []rel6 {
	var out []rel6
	switch d := doc.(type) {
	case *v2_3.Document:
		for _, r := range d.Relationships {
			out = append(out, rel6{idString(r.RefA), r.Relationship, idString(r.RefB), r.RelationshipComment})
		}
	case *v2_2.Document:
		for _, r := range d.Relationships {
			out = append(out, rel6{idString(r.RefA), r.Relationship, idString(r.RefB), r.RelationshipComment})
		}
	}
	return out
}

type case6 struct {
	explicit  []rel6
	describes []string
	files     [][]string // of each package; nil: not stated
}

// expect gives the explicit relationships and the set of those the shorthands add.
func (k case6) expect(doc string, pkgs []string) (explicit []rel6, added map[rel6]bool) {
	stated := map[rel6]bool{}
	for _, r := range k.explicit {
		stated[r.fact()] = true
	}
	added = map[rel6]bool{}
	add := func(r rel6) {
		if !stated[r] {
			added[r] = true
		}
	}
	for _, d := range k.describes {
		add(rel6{doc, "DESCRIBES", d, ""})
	}
	for i, fs := range k.files {
		for _, f := range fs {
			add(rel6{pkgs[i], "CONTAINS", f, ""})
		}
	}
	return k.explicit, added
}

func seqs[T any](alphabet []T, max int) [][]T {
	out := [][]T{{}}
	level := [][]T{{}}
	for d := 0; d < max; d++ {
		var next [][]T
		for _, s := range level {
			for _, a := range alphabet {
				next = append(next, append(append([]T{}, s...), a))
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func runP06(c *kit.Ctx) {
	const D, p1, p2, f1, f2, x = "SPDXRef-DOCUMENT", "SPDXRef-p1", "SPDXRef-p2", "SPDXRef-f1", "SPDXRef-f2", "DocumentRef-x:SPDXRef-p1"
	pkgs := []string{p1, p2}
	explicit := seqs([]rel6{
		{D, "DESCRIBES", p1, ""}, {p1, "DESCRIBED_BY", D, "why"}, {p1, "CONTAINS", f1, ""}, {f1, "CONTAINED_BY", p1, ""},
		{p1, "DESCRIBES", D, ""}, {D, "CONTAINS", p1, ""}, {p1, "DEPENDS_ON", f1, ""}, {D, "DESCRIBES", x, ""}, {f1, "CONTAINED_BY", p2, "why"},
		{f1, "DESCRIBED_BY", p1, ""}, {p1, "CONTAINS", "NONE", ""},
	}, kit.Pick(c, 2, 3))
	describes := seqs([]string{p1, p2, x, f1}, 2)
	filesA := seqs([]string{f1, f2, "DocumentRef-x:SPDXRef-f1"}, kit.Pick(c, 2, 3))
	filesB := [][]string{nil, {}, {f1}, {f2, f1}}
	c.Bound("2.2 and 2.3, JSON and YAML: all sequences of up to %d explicit relationships out of 11 (both ways round, duplicates, foreign, NONE), of up to 2 described elements out of 4, of up to %d files of one package out of 3, and 4 file lists of another package", kit.Pick(c, 2, 3), kit.Pick(c, 2, 3))
	vers := docs.Versions[1:]
	fs := []*form{formJSON, formYAML}
	mk := func(v *docs.Version, k case6) map[string]any {
		m := map[string]any{"spdxVersion": v.Const, "SPDXID": D, "name": "n", "dataLicense": "CC0-1.0", "documentNamespace": "http://x",
			"creationInfo": map[string]any{"created": "2020-01-01T00:00:00Z", "creators": []string{"Tool: t"}}}
		if len(k.explicit) > 0 {
			var l []any
			for _, r := range k.explicit {
				l = append(l, r.json())
			}
			m["relationships"] = l
		}
		if len(k.describes) > 0 {
			m["documentDescribes"] = k.describes
		}
		var ps []any
		for i, p := range pkgs {
			pm := map[string]any{"SPDXID": p, "name": p[8:], "downloadLocation": "NONE"}
			if k.files[i] != nil {
				pm["hasFiles"] = k.files[i]
			}
			ps = append(ps, pm)
		}
		m["packages"] = ps
		m["files"] = []any{map[string]any{"SPDXID": f1, "fileName": "./f1"}, map[string]any{"SPDXID": f2, "fileName": "./f2"}}
		return m
	}
	text := func(f *form, m map[string]any) string {
		b, _ := json.Marshal(m)
		if f == formYAML {
			b, _ = yaml.JSONToYAML(b)
		}
		return string(b)
	}
	check := func(v *docs.Version, f *form, k case6, into *docs.Version) {
		c.Evals.Add(1)
		t := text(f, mk(v, k))
		got := into.New()
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%s/%s/%v/%v/%v", v.Name, f.name, k.explicit, k.describes, k.files), v.Name+" "+f.name+": "+what, map[string]any{"text": t, "into": into.Name})
		}
		if err, p := guardErr(func() error { return f.read(t, got) }); err != nil || p != nil {
			bad(fmt.Sprint("cannot be read: ", err, p))
			return
		}
		have := relsOf(got)
		exp, added := k.expect(D, pkgs)
		if len(have) < len(exp) || len(exp) > 0 && !reflect.DeepEqual(have[:len(exp)], exp) {
			bad(fmt.Sprintf("the explicit relationships are not kept: %v", have))
			return
		}
		rest := have[len(exp):]
		seen := map[rel6]bool{}
		for _, r := range rest {
			if !added[r] {
				bad(fmt.Sprintf("adds %v, which nothing states or which is stated already", r))
				return
			}
			if seen[r] {
				bad(fmt.Sprintf("adds %v twice", r))
				return
			}
			seen[r] = true
		}
		if len(seen) != len(added) {
			bad(fmt.Sprintf("%d relationships from shorthands instead of %d", len(seen), len(added)))
		}
	}
	c.Parallel(len(explicit), func(i int) {
		for di, d := range describes {
			for ai, a := range filesA {
				if c.Stop() {
					return
				}
				for bi, b := range filesB {
					k := case6{explicit[i], d, [][]string{a, b}}
					for _, v := range vers {
						for _, f := range fs {
							if f == formYAML && !c.Thorough() && (i+di+ai+bi)%5 != 0 && len(k.explicit) > 1 {
								continue
							}
							check(v, f, k, v)
						}
					}
					if len(k.explicit) <= 1 {
						check(vers[0], formJSON, k, vers[1])
						check(vers[1], formJSON, k, vers[0])
					}
				}
			}
		}
		c.Distinct.Add(int64(len(describes) * len(filesA) * len(filesB)))
	})
	c.Bound("quick: YAML for every case with up to one explicit relationship and every fifth other; and reading 2.2 into 2.3 and the reverse for those with up to one")
	// whether files were analysed, and categories
	c.Bound("filesAnalyzed omitted, null, true, false of two packages; every category spelled with - and with _; every order of the keys that matter")
	for _, v := range vers {
		for _, f := range fs {
			fa := []string{"", "null", "true", "false"}
			for _, a := range fa {
				for _, b := range fa {
					for _, first := range []bool{false, true} {
						c.Evals.Add(1)
						c.Distinct.Add(1)
						pk := func(id, fa string) string {
							s := `"SPDXID":"` + id + `","name":"n","downloadLocation":"NONE"`
							if fa != "" && first {
								s = `"filesAnalyzed":` + fa + "," + s
							} else if fa != "" {
								s += `,"filesAnalyzed":` + fa
							}
							return "{" + s + "}"
						}
						t := `{"spdxVersion":"` + v.Const + `","SPDXID":"SPDXRef-DOCUMENT","packages":[` + pk(p1, a) + "," + pk(p2, b) + `]}`
						if f == formYAML {
							y, _ := yaml.JSONToYAML([]byte(t))
							t = string(y)
						}
						got := v.New()
						err, p := guardErr(func() error { return f.read(t, got) })
						if err != nil || p != nil {
							c.Violate("analyzed/"+v.Name+f.name+a+b, fmt.Sprint("cannot be read: ", err, p), map[string]any{"text": t})
							continue
						}
						ps := reflect.ValueOf(got).Elem().FieldByName("Packages")
						for i, s := range []string{a, b} {
							if g := ps.Index(i).Elem().FieldByName("FilesAnalyzed").Bool(); g != (s != "false") {
								c.Violate("analyzed/"+v.Name+f.name+a+"/"+b, fmt.Sprintf("%s %s: filesAnalyzed stated as %q reads as %v", v.Name, f.name, s, g), map[string]any{"text": t})
							}
						}
					}
				}
			}
			for _, cat := range []string{"PACKAGE-MANAGER", "PACKAGE_MANAGER", "PERSISTENT-ID", "PERSISTENT_ID", "SECURITY", "OTHER"} {
				c.Evals.Add(1)
				c.Distinct.Add(1)
				t := `{"spdxVersion":"` + v.Const + `","SPDXID":"SPDXRef-DOCUMENT","packages":[{"SPDXID":"SPDXRef-p","name":"a_b-c","downloadLocation":"x_y-z",` +
					`"externalRefs":[{"referenceCategory":"` + cat + `","referenceType":"a_b-c","referenceLocator":"d_e-f","comment":"g_h-i"}]}]}`
				if f == formYAML {
					y, _ := yaml.JSONToYAML([]byte(t))
					t = string(y)
				}
				got := v.New()
				err, p := guardErr(func() error { return f.read(t, got) })
				if err != nil || p != nil {
					c.Violate("category/"+v.Name+f.name+cat, fmt.Sprint("cannot be read: ", err, p), map[string]any{"text": t})
					continue
				}
				pk := reflect.ValueOf(got).Elem().FieldByName("Packages").Index(0).Elem()
				r := pk.FieldByName("PackageExternalReferences").Index(0).Elem()
				var have []string
				for _, n := range []string{"Category", "RefType", "Locator", "ExternalRefComment"} {
					have = append(have, r.FieldByName(n).String())
				}
				want := []string{strings.ReplaceAll(cat, "_", "-"), "a_b-c", "d_e-f", "g_h-i"}
				if !reflect.DeepEqual(have, want) {
					c.Violate("category/"+v.Name+f.name+cat, fmt.Sprintf("%s %s: reference reads as %q instead of %q", v.Name, f.name, have, want), map[string]any{"text": t})
				}
			}
		}
	}
	// keys in any order: JSON objects have none
	keys := []string{"spdxVersion", "SPDXID", "packages", "relationships", "documentDescribes"}
	m := mk(vers[1], case6{[]rel6{{p1, "DESCRIBED_BY", D, ""}, {p2, "CONTAINS", f2, ""}}, []string{p1, p2}, [][]string{{f1}, {f2, f1}}})
	for _, v := range vers {
		m["spdxVersion"] = v.Const
		perms(keys, func(order []string) {
			c.Evals.Add(1)
			c.Distinct.Add(1)
			var b strings.Builder
			for i, k := range order {
				if i > 0 {
					b.WriteByte(',')
				}
				e, _ := json.Marshal(m[k])
				b.WriteString(`"` + k + `":` + string(e))
			}
			got := v.New()
			t := "{" + b.String() + "}"
			err, p := guardErr(func() error { return formJSON.read(t, got) })
			var have []string
			for _, r := range relsOf(got) {
				have = append(have, r.a[8:]+" "+r.typ+" "+r.b[8:])
			}
			sort.Strings(have)
			want := "DOCUMENT DESCRIBES p2,p1 CONTAINS f1,p1 DESCRIBED_BY DOCUMENT,p2 CONTAINS f1,p2 CONTAINS f2"
			if err != nil || p != nil || strings.Join(have, ",") != want {
				c.Violate("order/"+v.Name+strings.Join(order, ","), fmt.Sprintf("%s with keys in the order %v reads as %v (%v %v)", v.Name, order, have, err, p), map[string]any{"text": t})
			}
		})
	}
	c.Sample(text(formJSON, mk(vers[1], case6{explicit[13], describes[6], [][]string{filesA[5], filesB[3]}})))
}

// perms calls f with every order of l.
func perms(l []string, f func([]string)) {
	var rec func(i int)
	a := append([]string{}, l...)
	rec = func(i int) {
		if i == len(a) {
			f(a)
			return
		}
		for j := i; j < len(a); j++ {
			a[i], a[j] = a[j], a[i]
			rec(i + 1)
			a[i], a[j] = a[j], a[i]
		}
	}
	rec(0)
}
