package checks

import (
	"fmt"
	"reflect"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/convert"
)

func init() { register("P09", "exploration", runP09) }

// copyByName is the reference: what of v a value of type t can hold, field by field name.
func copyByName(v reflect.Value, t reflect.Type) reflect.Value {
	out := reflect.New(t).Elem()
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return out
		}
		if t.Kind() != reflect.Ptr {
			return copyByName(v.Elem(), t)
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(copyByName(v.Elem(), t.Elem()))
		return p
	}
	if t.Kind() == reflect.Ptr {
		if v.IsZero() {
			return out // nothing stated: nothing to point to
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(copyByName(v, t.Elem()))
		return p
	}
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() {
				continue
			}
			if src := v.FieldByName(f.Name); src.IsValid() {
				out.Field(i).Set(copyByName(src, f.Type))
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		s := reflect.MakeSlice(t, v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			s.Index(i).Set(copyByName(v.Index(i), t.Elem()))
		}
		return s
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		m := reflect.MakeMap(t)
		for _, k := range v.MapKeys() {
			m.SetMapIndex(copyByName(k, t.Key()), copyByName(v.MapIndex(k), t.Elem()))
		}
		return m
	default:
		return v.Convert(t)
	}
	return out
}

func expectConverted(doc any, to *docs.Version) any {
	n := to.New()
	t := reflect.TypeOf(n).Elem()
	reflect.ValueOf(n).Elem().Set(copyByName(reflect.ValueOf(doc).Elem(), t))
	reflect.ValueOf(n).Elem().FieldByName("SPDXVersion").SetString(to.Const)
	return n
}

// scribble changes every string, number and flag reachable from a document in place.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
		// and what an append by its owner would overwrite
		if v.Cap() > v.Len() {
			full := v.Slice(0, v.Cap())
			for i := v.Len(); i < v.Cap(); i++ {
				scribble(full.Index(i))
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			if v.Type().Elem().Kind() == reflect.Ptr {
				v.SetMapIndex(k, reflect.Value{})
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~scribbled")
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(v.Int() + 1000003)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	}
}

// structSensitive tells absent optional structs from empty ones, which the canon does not.
func presence(v reflect.Value, path string, out map[string]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		out[path] = true
		presence(v.Elem(), path, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				presence(v.Field(i), path+"."+v.Type().Field(i).Name, out)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			presence(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			presence(v.MapIndex(k), fmt.Sprintf("%s{%v}", path, k), out)
		}
	}
}

func presenceDiff(want, got any) string {
	w, g := map[string]bool{}, map[string]bool{}
	presence(reflect.ValueOf(want).Elem(), "", w)
	presence(reflect.ValueOf(got).Elem(), "", g)
	for k := range g {
		if !w[k] {
			return "states an empty " + k + " the source does not have"
		}
	}
	for k := range w {
		if !g[k] {
			return "lacks " + k
		}
	}
	return ""
}

func runP09(c *kit.Ctx) {
	o := docSpace(c, docs.Any)
	o.deep = false
	if !c.Thorough() {
		o.maxAlts = 6
	}
	c.Bound("every conversion between two different versions and the way back, into an empty document and into one filled before, from a value and from a pointer")
	c.Bound("every field of every object of the base documents left out, and every object left with one of its fields only")
	c.Bound("every list element, map entry and object of the base documents replaced by one that holds nothing")
	eachDoc(c, o, func(d docCase) {
		p09Case(c, d)
		c.Sample(d.ver.Name + " " + d.base + " " + d.label)
	})
	var cases []docCase
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			n := emptied(reflect.ValueOf(docs.Clone(b.doc)).Elem(), -1)
			for i := 0; i < n; i++ {
				d := docs.Clone(b.doc)
				emptied(reflect.ValueOf(d).Elem(), i)
				cases = append(cases, docCase{v, b.name, fmt.Sprintf("object %d emptied", i), d})
			}
			for _, alone := range []bool{false, true} {
				name, n := thinned(reflect.ValueOf(docs.Clone(b.doc)).Elem(), -1, alone)
				for i := 0; i < n; i++ {
					d := docs.Clone(b.doc)
					name, _ = thinned(reflect.ValueOf(d).Elem(), i, alone)
					cases = append(cases, docCase{v, b.name, fmt.Sprintf("field %d, %s", i, name), d})
				}
			}
		}
	}
	c.Parallel(len(cases), func(i int) { p09Case(c, cases[i]) })
}

// thinned leaves out the k-th field of a document's objects, or (alone) all others of its object, and
// tells how many fields there are.
func thinned(v reflect.Value, k int, alone bool) (name string, n int) {
	var walk func(v reflect.Value, top bool)
	walk = func(v reflect.Value, top bool) {
		switch v.Kind() {
		case reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), false)
			}
		case reflect.Struct:
			chosen := -1
			for i := 0; i < v.NumField(); i++ {
				f := v.Type().Field(i)
				if !f.IsExported() || v.Field(i).IsZero() || top && f.Name == "SPDXVersion" {
					continue
				}
				if n++; n-1 == k {
					chosen = i
				}
			}
			if chosen >= 0 {
				name = v.Type().Name() + "." + v.Type().Field(chosen).Name + map[bool]string{false: " left out", true: " only"}[alone]
				for i := 0; i < v.NumField(); i++ {
					f := v.Type().Field(i)
					if f.IsExported() && (i == chosen) != alone && !(top && f.Name == "SPDXVersion") {
						v.Field(i).SetZero()
					}
				}
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), false)
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), false)
			}
		case reflect.Map:
			for _, key := range docs.SortedKeys(v) {
				e := reflect.New(v.Type().Elem()).Elem()
				e.Set(v.MapIndex(key))
				walk(e, false)
				v.SetMapIndex(key, e)
			}
		}
	}
	walk(v, true)
	return
}

// emptied replaces the k-th object of a document by one that holds nothing and tells how many there are.
func emptied(v reflect.Value, k int) int {
	n := 0
	var walk func(v reflect.Value, here bool)
	walk = func(v reflect.Value, here bool) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Elem().Kind() != reflect.Struct {
				return
			}
			if n++; n-1 == k {
				v.Set(reflect.New(v.Type().Elem()))
				return
			}
			walk(v.Elem(), false)
		case reflect.Struct:
			if here {
				if n++; n-1 == k {
					v.SetZero()
					return
				}
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					walk(v.Field(i), false)
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), true)
			}
		case reflect.Map:
			for _, key := range docs.SortedKeys(v) {
				e := reflect.New(v.Type().Elem()).Elem()
				e.Set(v.MapIndex(key))
				walk(e, true)
				v.SetMapIndex(key, e)
			}
		}
	}
	walk(v, false)
	return n
}

func p09Case(c *kit.Ctx, d docCase) {
	src := docs.Clone(d.doc)
	before := docs.Canon(src)
	if !c.Seen(d.ver.Name + before) {
		return
	}
	for _, to := range docs.Versions {
		if to == d.ver {
			continue
		}
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%s>%s/%s", d.ver.Name, to.Name, caseKey(d)), fmt.Sprintf("%s %s %s to %s: %s", d.ver.Name, d.base, d.label, to.Name, what), replayDoc(d, ""))
		}
		expected := expectConverted(src, to)
		want := docs.Canon(expected)
		var result any
		for variant := 0; variant < 2; variant++ {
			target := to.New()
			var from any = src
			if variant == 1 {
				from = reflect.ValueOf(src).Elem().Interface()
			}
			c.Evals.Add(1)
			if err, p := guardErr(func() error { return convert.Document(from, target) }); p != nil {
				bad(fmt.Sprint("panic: ", p))
				return
			} else if err != nil {
				bad("fails: " + err.Error())
				return
			}
			if got := docs.Canon(target); got != want {
				bad(docs.Diff(want, got))
				return
			}
			if s := presenceDiff(expected, target); s != "" {
				bad(s)
				return
			}
			if after := docs.Canon(src); after != before {
				bad("changes the source: " + docs.Diff(before, after))
				return
			}
			result = target
		}
		// a target with content of its own
		if d.label == "" || !c.Thorough() && len(d.label) < 40 || c.Thorough() {
			dirty := docs.Full(to, 2)
			c.Evals.Add(1)
			if err, p := guardErr(func() error { return convert.Document(src, dirty) }); err != nil || p != nil {
				bad(fmt.Sprint("into a filled document fails: ", err, p))
				return
			}
			if got := docs.Canon(dirty); got != want {
				bad("into a filled document: " + docs.Diff(want, got))
				return
			}
		}
		// the way back
		back := d.ver.New()
		c.Evals.Add(1)
		if err, p := guardErr(func() error { return convert.Document(result, back) }); err != nil || p != nil {
			bad(fmt.Sprint("the way back fails: ", err, p))
			return
		}
		wantBack := docs.Canon(expectConverted(expected, d.ver))
		if got := docs.Canon(back); got != wantBack {
			bad("the way back: " + docs.Diff(wantBack, got))
			return
		}
		if to.Num > d.ver.Num {
			if before != wantBack {
				bad("upgrading and downgrading back loses: " + docs.Diff(before, wantBack))
				return
			}
		}
		// connections
		scribble(reflect.ValueOf(result))
		if after := docs.Canon(src); after != before {
			bad("the result shares memory with the source: " + docs.Diff(before, after))
			return
		}
	}
}
