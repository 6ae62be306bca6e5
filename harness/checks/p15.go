//go:build maporder

package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/mapord"

	"github.com/spdx/tools-golang/spdx"
)

func init() {
	register("P15", "exploration", runP15)
	freeMaps = mapord.Free
}

// sortedByWriter is what the known findings about tag-value of 2.3 do to a document: the packages
// and the document's files are sorted in place.
func sortedByWriter(doc any) (pkgs, files, both any) {
	d := doc.(*spdx.Document)
	byPkg := func(d *spdx.Document) {
		sort.SliceStable(d.Packages, func(a, b int) bool {
			return d.Packages[a].PackageSPDXIdentifier < d.Packages[b].PackageSPDXIdentifier
		})
	}
	byFile := func(d *spdx.Document) {
		sort.SliceStable(d.Files, func(a, b int) bool { return d.Files[a].FileSPDXIdentifier < d.Files[b].FileSPDXIdentifier })
	}
	p, f, b := docs.Clone(d).(*spdx.Document), docs.Clone(d).(*spdx.Document), docs.Clone(d).(*spdx.Document)
	byPkg(p)
	byFile(f)
	byPkg(b)
	byFile(b)
	return p, f, b
}

// changed reports what an operation did to the document it was given; nil if nothing.
func changed(c *kit.Ctx, label, opName string, before, after any, replay any) bool {
	if reflect.DeepEqual(before, after) {
		return false
	}
	if _, ok := before.(*spdx.Document); ok && opName == "write tagvalue" {
		pkgs, files, both := sortedByWriter(before)
		switch {
		case reflect.DeepEqual(after, pkgs):
			c.Violate("tagvalue/2.3/sorts-packages", "writing sorts the packages of the caller's document", replay)
			return true
		case reflect.DeepEqual(after, files):
			c.Violate("tagvalue/2.3/sorts-files", "writing sorts the files of the caller's document", replay)
			return true
		case reflect.DeepEqual(after, both):
			c.Violate("tagvalue/2.3/sorts-packages", "writing sorts the packages of the caller's document", replay)
			c.Violate("tagvalue/2.3/sorts-files", "writing sorts the files of the caller's document", replay)
			return true
		}
	}
	diff := docs.Diff(docs.Canon(before), docs.Canon(after))
	if diff == "" {
		diff = "(an empty list or map in the place of none)"
	}
	c.Violate("changed/"+opName+"/"+label, fmt.Sprintf("%s of %s changes the document: %s", opName, label, diff), replay)
	return true
}

func runP15(c *kit.Ctx) {
	ops := p15Ops()
	one := func(d docCase, doc any) {
		_, isLatest := doc.(*spdx.Document)
		for _, o := range ops {
			if o.latest && !isLatest {
				continue
			}
			c.Evals.Add(1)
			before := docs.Clone(doc)
			var first, second string
			if p, _ := kit.Guard(func() { first = o.do(doc) }); p != nil {
				c.Violate("panic/"+o.name+"/"+caseKey(d), fmt.Sprintf("%s of %s %s %s: panic: %v", o.name, d.ver.Name, d.base, d.label, p), nil)
				continue
			}
			if changed(c, caseKey(d), o.name, before, doc, replayDoc(docCase{d.ver, d.base, d.label, before}, first)) {
				doc = before
			}
			if second = o.do(docs.Clone(before)); first != second {
				c.Violate("repeat/"+o.name+"/"+caseKey(d), fmt.Sprintf("%s of %s gives another output when repeated: %s", o.name, caseKey(d), docs.Diff(first, second)), replayDoc(d, first+"\n-----\n"+second))
			}
		}
	}
	// every document with one deviation, as it is and with its lists in reverse
	eachDoc(c, spaceOpts{format: docs.TV, maxAlts: Count(c, 2, 6)}, func(d docCase) {
		if !c.Seen(d.ver.Name + docs.Canon(d.doc)) {
			return
		}
		one(d, docs.Clone(d.doc))
		r := docs.Clone(d.doc)
		reverseLists(r)
		d.label += " reversed"
		one(d, r)
	})
	c.Bound("documents with one deviation in every site (2.1, 2.2, 2.3), in two list orders, each left unchanged by %d operations and with the same output twice", len(ops))
	p15Orders(c)
	p15Pairs(c, ops)
	p15Maps(c, ops)
}

// permsOf gives every permutation of n.
func permsOf(n int) [][]int {
	var out [][]int
	var gen func(p []int, used int)
	gen = func(p []int, used int) {
		if len(p) == n {
			out = append(out, append([]int(nil), p...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<i) == 0 {
				gen(append(p, i), used|1<<i)
			}
		}
	}
	gen(nil, 0)
	return out
}

func permute(v reflect.Value, p []int) {
	tmp := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
	for i, k := range p {
		tmp.Index(i).Set(v.Index(k))
	}
	reflect.Copy(v, tmp)
}

// alike gives the elements of every list or map of the document identifiers that differ in little:
// in case, in punctuation, in leading zeros, in length.
func alike(doc any) any {
	ids := []string{"Sn", "sn", "SN", "Sn.", "Sn-", "Sn-1", "Sn-01", "Sn-10"}
	set := func(list reflect.Value, field string) {
		for i := 0; list.IsValid() && i < list.Len() && i < len(ids); i++ {
			reflect.Indirect(list.Index(i)).FieldByName(field).SetString(ids[i])
		}
	}
	d := reflect.ValueOf(doc).Elem()
	set(d.FieldByName("Packages"), "PackageSPDXIdentifier")
	set(d.FieldByName("Files"), "FileSPDXIdentifier")
	set(d.FieldByName("ExternalDocumentReferences"), "DocumentRefID")
	docs.Each(doc, "Package", func(p reflect.Value) { set(p.FieldByName("Files"), "FileSPDXIdentifier") })
	docs.Each(doc, "File", func(f reflect.Value) {
		m := f.FieldByName("Snippets")
		if m.Kind() != reflect.Map || m.Len() == 0 {
			return
		}
		n := reflect.MakeMap(m.Type())
		keys := m.MapKeys()
		sort.Slice(keys, func(a, b int) bool { return keys[a].String() < keys[b].String() })
		for i, k := range keys {
			id := reflect.ValueOf(ids[i%len(ids)]).Convert(m.Type().Key())
			s := m.MapIndex(k)
			s.Elem().FieldByName("SnippetSPDXIdentifier").Set(id)
			n.SetMapIndex(id, s)
		}
		m.Set(n)
	})
	return doc
}

// p15Orders lists packages and files in every order: tag-value sorts them.
func p15Orders(c *kit.Ctx) {
	n := Count(c, 3, 4)
	ps := permsOf(n)
	c.Bound("every order of %d packages x %d document files x %d files of a package x %d document references written as tag-value", n, n, n, n)
	for _, v := range docs.Versions {
		for _, base := range []any{docs.Full(v, n), docs.Sparse(v, n), alike(docs.Sparse(v, n))} {
			want, err := formTV.write(docs.Clone(base))
			if err != nil {
				c.Violate("order/"+v.Name, "cannot be written: "+err.Error(), nil)
				continue
			}
			type list struct {
				name string
				of   func(d any) []reflect.Value
			}
			top := func(f string) func(d any) []reflect.Value {
				return func(d any) []reflect.Value { return []reflect.Value{reflect.ValueOf(d).Elem().FieldByName(f)} }
			}
			lists := []list{{"Packages", top("Packages")}, {"Files", top("Files")}, {"ExternalDocumentReferences", top("ExternalDocumentReferences")},
				{"package files", func(d any) (out []reflect.Value) {
					docs.Each(d, "Package", func(p reflect.Value) { out = append(out, p.FieldByName("Files")) })
					return
				}}}
			k := len(ps)
			c.Parallel(k*k*k*k, func(i int) {
				d := docs.Clone(base)
				var label []string
				for _, l := range lists {
					p := ps[i%k]
					i /= k
					for _, s := range l.of(d) {
						if s.IsValid() && s.Len() == n {
							permute(s, p)
						}
					}
					label = append(label, fmt.Sprint(l.name, p))
				}
				c.Evals.Add(1)
				got, err := formTV.write(d)
				if err != nil || got != want {
					c.Violate("order/"+v.Name, fmt.Sprintf("tag-value of %s depends on the order of its lists (%v): %v %s", v.Name, label, err, docs.Diff(want, got)), label)
				}
			})
		}
	}
}

// p15Pairs does every two operations one after the other: the second gives what it gives alone.
func p15Pairs(c *kit.Ctx, ops []op) {
	var ds []docCase
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			r := docs.Clone(b.doc)
			reverseLists(r)
			ds = append(ds, docCase{v, b.name, "", b.doc}, docCase{v, b.name, "reversed", r})
		}
	}
	depth := Count(c, 2, 3)
	total := len(ds) * len(ops) * len(ops)
	if depth == 3 {
		total *= len(ops)
	}
	c.Bound("all sequences of %d of %d operations on %d documents", depth, len(ops), len(ds))
	c.Parallel(total, func(i int) {
		d := ds[i%len(ds)]
		i /= len(ds)
		doc := docs.Clone(d.doc)
		_, isLatest := doc.(*spdx.Document)
		var names []string
		for k := 0; k < depth; k++ {
			o := ops[i%len(ops)]
			i /= len(ops)
			if o.latest && !isLatest {
				return
			}
			names = append(names, o.name)
			before := docs.Clone(doc)
			got := o.do(doc)
			want := o.do(docs.Clone(before))
			c.Evals.Add(1)
			if got != want {
				c.Violate("sequence/"+strings.Join(names, ",")+caseKey(d), fmt.Sprintf("%v of %s: the last gives another output than alone: %s", names, caseKey(d), docs.Diff(want, got)), names)
				return
			}
			if changed(c, caseKey(d), o.name, before, doc, names) {
				doc = before
			}
		}
	})
}

// p15Maps walks maps in every order the runtime has.
func p15Maps(c *kit.Ctx, ops []op) {
	type job struct {
		d  docCase
		op op
	}
	var jobs []job
	more := append([]op(nil), ops...)
	for _, f := range forms {
		for _, to := range docs.Versions {
			more = append(more, op{"write and read " + f.name + " into " + to.Name, false, func(d any) string {
				text, err := f.write(d)
				if err != nil {
					return "error: " + err.Error()
				}
				n := to.New()
				err = f.read(text, n)
				return result(n, err)
			}})
		}
	}
	for _, v := range docs.Versions {
		for _, n := range []int{1, 2, 3} {
			for bi, doc := range []any{docs.Full(v, n), docs.Sparse(v, n), alike(docs.Full(v, n))} {
				if bi == 2 && n < 2 {
					continue
				}
				for k, o := range more {
					if !c.Thorough() && k >= len(ops) && (bi == 2 || strings.Contains(o.name, "yaml") && n > 2 || !strings.HasSuffix(o.name, v.Name) && n > 1) {
						continue // the YAML library walks hundreds of maps
					}
					if _, isLatest := doc.(*spdx.Document); isLatest || !o.latest {
						jobs = append(jobs, job{docCase{v, fmt.Sprint("maps", n, "/", bi), o.name, doc}, o})
					}
				}
			}
		}
	}
	dev := Count(c, 1, 2)
	c.Bound("%d documents and operations under every start of every map walk, up to %d walks off the first", len(jobs), dev)
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		want, first := "", true
		before := docs.Clone(j.d.doc)
		runs, points := mapord.Explore(dev, nil, c.Stop, func(script []int) {
			c.Evals.Add(1)
			var doc any
			mapord.Free(func() { doc = docs.Clone(before) })
			got := j.op.do(doc)
			if first {
				want, first = got, false
			} else if got != want {
				c.Violate("maporder/"+caseKey(j.d), fmt.Sprintf("%s of %s depends on the order of a map: %s", j.op.name, caseKey(j.d), docs.Diff(want, got)), script)
			}
			mapord.Free(func() { changed(c, caseKey(j.d), j.op.name, before, doc, script) })
		})
		c.Add("map-order schedules", int64(runs))
		c.Add("map walks under control", int64(points))
	})
}
