package rdfx

import (
	"reflect"
	"sort"
	"strconv"
	"strings"

	"verifharness/docs"
)

var licenseFields = map[string]bool{"PackageLicenseConcluded": true, "PackageLicenseDeclared": true, "PackageLicenseInfoFromFiles": true,
	"LicenseConcluded": true, "LicenseInfoInFiles": true, "SnippetLicenseConcluded": true, "LicenseInfoInSnippet": true, "DataLicense": true}

// Canon prints a document such that those that state the same print the same: lists in any order,
// license expressions by meaning, fields of all versions alike.
func Canon(doc any) string {
	c := canonOf(reflect.ValueOf(doc), "")
	return strings.Join(c, "\n")
}

// canonOf gives the lines of a value, without the path to it.
func canonOf(v reflect.Value, field string) []string {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return canonOf(v.Elem(), field)
	case reflect.Struct:
		t := v.Type()
		var out []string
		for i := 0; i < t.NumField(); i++ {
			if !t.Field(i).IsExported() {
				continue
			}
			for _, l := range canonOf(v.Field(i), t.Field(i).Name) {
				out = append(out, "."+t.Field(i).Name+l)
			}
		}
		sort.Strings(out)
		return out
	case reflect.Slice:
		items := make([]string, v.Len())
		for i := range items {
			items[i] = strings.Join(canonOf(v.Index(i), field), "\n")
		}
		sort.Strings(items)
		var out []string
		for i, it := range items {
			for _, l := range strings.Split(it, "\n") {
				out = append(out, "["+strconv.Itoa(i)+"]"+l)
			}
		}
		return out
	case reflect.Map:
		var out []string
		for _, k := range v.MapKeys() {
			out = append(out, "{"+k.String()+"}")
			for _, l := range canonOf(v.MapIndex(k), field) {
				out = append(out, "{"+k.String()+"}"+l)
			}
		}
		sort.Strings(out)
		return out
	case reflect.String:
		s := v.String()
		if s == "" {
			return nil
		}
		if licenseFields[field] {
			return []string{"=" + CanonLicense(s)}
		}
		return []string{"=" + strconv.Quote(s)}
	case reflect.Bool:
		if v.Bool() {
			return []string{"=true"}
		}
		return nil
	case reflect.Int:
		if v.Int() != 0 {
			return []string{"=" + strconv.FormatInt(v.Int(), 10)}
		}
		return nil
	}
	panic("canon: " + v.Kind().String())
}

// Diff shows where two canons differ.
func Diff(want, got string) string { return docs.Diff(want, got) }
