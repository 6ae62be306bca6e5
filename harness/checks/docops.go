package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verifharness/docs"

	"github.com/spdx/tools-golang/convert"
	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

// freeMaps runs f with its map walks out of the explorer's control.
var freeMaps = func(f func()) { f() }

// op is something done to a document; it gives what came out of it.
type op struct {
	name   string
	latest bool // for documents of the latest version only
	do     func(doc any) string
}

func result(v any, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if s, ok := v.(string); ok {
		return s
	}
	var out string
	freeMaps(func() { out = docs.Canon(v) })
	return out
}

// p15Ops are the operations that are to leave their document alone.
func p15Ops() []op {
	var out []op
	for _, f := range forms {
		out = append(out, op{"write " + f.name, false, func(d any) string { s, err := f.write(d); return result(s, err) }})
	}
	f := jsonWith("json indented", spdxjson.Indent(" "), spdxjson.EscapeHTML(true))
	out = append(out, op{"write " + f.name, false, func(d any) string { s, err := f.write(d); return result(s, err) }})
	for _, v := range docs.Versions {
		out = append(out, op{"convert to " + v.Name, false, func(d any) string {
			n := v.New()
			err := convert.Document(d, n)
			return result(n, err)
		}})
	}
	out = append(out,
		op{"validate", true, func(d any) string { return fmt.Sprint(spdxlib.ValidateDocument(d.(*spdx.Document))) }},
		op{"described", true, func(d any) string {
			ids, err := spdxlib.GetDescribedPackageIDs(d.(*spdx.Document))
			return fmt.Sprint(ids, err)
		}},
		op{"filter", true, func(d any) string {
			ids, err := spdxlib.FilterRelationships(d.(*spdx.Document), func(r *spdx.Relationship) *common.ElementID {
				if strings.HasPrefix(r.Relationship, "D") {
					return &r.RefB.ElementRefID
				}
				return nil
			})
			return fmt.Sprint(ids, err)
		}},
		op{"compare", true, func(d any) string {
			var b strings.Builder
			pkgs := d.(*spdx.Document).Packages
			pkgs = pkgs[:min(len(pkgs), 8)]
			for _, p := range pkgs {
				for _, q := range pkgs {
					pairs, err := licensediff.MakePairs(p, q)
					fmt.Fprintln(&b, printMap(pairs), err)
					if r, err := licensediff.MakeResults(pairs); err != nil {
						fmt.Fprintln(&b, err)
					} else {
						fmt.Fprintln(&b, printMap(r.InBothChanged), printMap(r.InBothSame), printMap(r.InFirstOnly), printMap(r.InSecondOnly))
					}
				}
			}
			return b.String()
		}},
		op{"report", true, func(d any) string {
			var b bytes.Buffer
			for _, p := range d.(*spdx.Document).Packages {
				fmt.Fprintln(&b, reporter.Generate(p, &b))
			}
			return b.String()
		}},
		op{"verification code", true, func(d any) string {
			var b strings.Builder
			for _, p := range d.(*spdx.Document).Packages {
				for _, ex := range []string{"", "./f", "F1"} {
					c, err := utils.GetVerificationCode(p.Files, ex)
					fmt.Fprintln(&b, c, err)
				}
			}
			return b.String()
		}},
	)
	return out
}

// printMap prints a map with its keys sorted, without a walk that depends on the order.
func printMap[V any](m map[string]V) string {
	var l []string
	freeMaps(func() {
		for k, v := range m {
			l = append(l, fmt.Sprintf("%q:%v", k, v))
		}
		sort.Strings(l)
	})
	return strings.Join(l, " ")
}

// reverseLists reverses every list of a document whose order the writers may choose.
func reverseLists(doc any) {
	rev := func(v reflect.Value) {
		if v.IsValid() && v.Kind() == reflect.Slice {
			swap := reflect.Swapper(v.Interface())
			for i, j := 0, v.Len()-1; i < j; i, j = i+1, j-1 {
				swap(i, j)
			}
		}
	}
	rv := reflect.ValueOf(doc).Elem()
	for _, f := range []string{"Packages", "Files", "ExternalDocumentReferences", "Snippets", "OtherLicenses", "Relationships", "Annotations"} {
		rev(rv.FieldByName(f))
	}
	docs.Each(doc, "Package", func(p reflect.Value) { rev(p.FieldByName("Files")) })
}
