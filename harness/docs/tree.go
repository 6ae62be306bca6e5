// Package docs enumerates SPDX documents of every version and compares them
// without regard to Go types, nil-versus-empty lists and absent-versus-empty structs.
package docs

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// Clone copies any document deeply.
func Clone(v any) any {
	return cloneValue(reflect.ValueOf(v)).Interface()
}

func cloneValue(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(cloneValue(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v) // carries unexported fields
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(cloneValue(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(cloneValue(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		it := v.MapRange()
		for it.Next() {
			n.SetMapIndex(it.Key(), cloneValue(it.Value()))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(cloneValue(v.Elem()))
		return n
	}
	return v
}

// Canon prints every non-zero leaf of a document on a line of its own.
// Two documents state the same exactly when their canons are equal.
func Canon(v any) string {
	var b strings.Builder
	canon(&b, "", reflect.ValueOf(v))
	return b.String()
}

func canon(b *strings.Builder, path string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			canon(b, path, v.Elem())
		}
	case reflect.Struct:
		t := v.Type()
		if t.NumField() > 12 { // keep the line order independent of field order in big structs
			idx := fieldOrder(t)
			for _, i := range idx {
				canon(b, path+"."+t.Field(i).Name, v.Field(i))
			}
			return
		}
		for _, i := range fieldOrder(t) {
			canon(b, path+"."+t.Field(i).Name, v.Field(i))
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		b.WriteString(path)
		b.WriteString(" len ")
		b.WriteString(strconv.Itoa(v.Len()))
		b.WriteByte('\n')
		for i := 0; i < v.Len(); i++ {
			canon(b, path+"["+strconv.Itoa(i)+"]", v.Index(i))
		}
	case reflect.Map:
		if v.Len() == 0 {
			return
		}
		keys := make([]string, 0, v.Len())
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k.Interface())
			keys = append(keys, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(keys)
		b.WriteString(path + " keys " + strconv.Itoa(len(keys)) + "\n")
		for _, k := range keys {
			b.WriteString(path + "{" + strconv.Quote(k) + "}\n")
			canon(b, path+"{"+strconv.Quote(k)+"}", m[k])
		}
	case reflect.String:
		if s := v.String(); s != "" {
			b.WriteString(path)
			b.WriteByte('=')
			b.WriteString(strconv.Quote(s))
			b.WriteByte('\n')
		}
	case reflect.Bool:
		if v.Bool() {
			b.WriteString(path + "=true\n")
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if v.Int() != 0 {
			b.WriteString(path + "=" + strconv.FormatInt(v.Int(), 10) + "\n")
		}
	default:
		b.WriteString(path + "=" + fmt.Sprint(v) + "\n")
	}
}

var fieldOrders = map[reflect.Type][]int{}

func init() {
	for _, v := range Versions {
		registerTypes(reflect.TypeOf(v.New()))
	}
}

// registerTypes fixes the order of the exported fields of every struct type in t.
func registerTypes(t reflect.Type) {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		registerTypes(t.Elem())
	case reflect.Map:
		registerTypes(t.Key())
		registerTypes(t.Elem())
	case reflect.Struct:
		if _, ok := fieldOrders[t]; ok {
			return
		}
		fieldOrders[t] = computeOrder(t)
		for i := 0; i < t.NumField(); i++ {
			registerTypes(t.Field(i).Type)
		}
	}
}

func computeOrder(t reflect.Type) []int {
	var idx []int
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() {
			idx = append(idx, i)
		}
	}
	sort.Slice(idx, func(a, b int) bool { return t.Field(idx[a]).Name < t.Field(idx[b]).Name })
	return idx
}

func fieldOrder(t reflect.Type) []int {
	if o, ok := fieldOrders[t]; ok {
		return o
	}
	return computeOrder(t)
}

// Diff shows the first lines in which two canons differ.
func Diff(want, got string) string {
	w := strings.Split(want, "\n")
	g := strings.Split(got, "\n")
	ws, gs := map[string]int{}, map[string]int{}
	for _, l := range w {
		ws[l]++
	}
	for _, l := range g {
		gs[l]++
	}
	var out []string
	for _, l := range w {
		if gs[l] < ws[l] {
			out = append(out, "missing "+l)
			ws[l]--
		}
	}
	ws = map[string]int{}
	for _, l := range w {
		ws[l]++
	}
	for _, l := range g {
		if ws[l] < gs[l] {
			out = append(out, "unexpected "+l)
			gs[l]--
		}
	}
	if len(out) == 0 && want != got {
		out = append(out, "same lines in another order")
	}
	if len(out) > 6 {
		out = append(out[:6], "...")
	}
	s := strings.Join(out, "; ")
	if len(s) > 900 {
		s = s[:900] + "..."
	}
	return s
}

// Each calls f on every addressable struct of the named type within v.
func Each(v any, typeName string, f func(reflect.Value)) {
	each(reflect.ValueOf(v), typeName, f)
}

func each(v reflect.Value, typeName string, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			each(v.Elem(), typeName, f)
		}
	case reflect.Struct:
		if v.Type().Name() == typeName {
			f(v)
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				each(v.Field(i), typeName, f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			each(v.Index(i), typeName, f)
		}
	case reflect.Map:
		it := v.MapRange()
		for it.Next() {
			each(it.Value(), typeName, f)
		}
	}
}

// Normalize files every snippet of a file under its identifier.
func Normalize(doc any) {
	Each(doc, "File", func(f reflect.Value) {
		m := f.FieldByName("Snippets")
		if m.Len() == 0 {
			return
		}
		n := reflect.MakeMap(m.Type())
		for _, k := range sortedKeys(m.MapKeys()) {
			e := m.MapIndex(k)
			n.SetMapIndex(e.Elem().FieldByName("SnippetSPDXIdentifier"), e)
		}
		m.Set(n)
	})
}

// Zero clears the named field of a struct if it has one.
func Zero(s reflect.Value, field string) {
	if f := s.FieldByName(field); f.IsValid() && f.CanSet() {
		f.Set(reflect.Zero(f.Type()))
	}
}
