package checks

import (
	"fmt"
	"reflect"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/spdx"
)

func init() { register("P24", "exploration", runP24) }

type namedLicense struct{ name, lic int }

// p24Lists gives every list of up to n files with distinct names, in every order.
func p24Lists(names, lics, n int) [][]namedLicense {
	out := [][]namedLicense{nil}
	var gen func(l []namedLicense, used int)
	gen = func(l []namedLicense, used int) {
		if len(l) == n {
			return
		}
		for k := 0; k < names; k++ {
			if used&(1<<k) != 0 {
				continue
			}
			for m := 0; m < lics; m++ {
				e := append(append([]namedLicense(nil), l...), namedLicense{k, m})
				out = append(out, e)
				gen(e, used|1<<k)
			}
		}
	}
	gen(nil, 0)
	return out
}

// implied gives the concluded license; that a file states none means NOASSERTION (SPDX 2.3, 8.5).
func implied(l string) string {
	if l == "" {
		return "NOASSERTION"
	}
	return l
}

// refDiff is the reference.
func refDiff(a, b map[string]string) *licensediff.LicenseDiff {
	d := &licensediff.LicenseDiff{InBothChanged: map[string]licensediff.LicensePair{}, InBothSame: map[string]string{},
		InFirstOnly: map[string]string{}, InSecondOnly: map[string]string{}}
	for n, la := range a {
		lb, both := b[n]
		switch {
		case !both:
			d.InFirstOnly[n] = implied(la)
		case implied(la) == implied(lb):
			d.InBothSame[n] = implied(la)
		default:
			d.InBothChanged[n] = licensediff.LicensePair{First: implied(la), Second: implied(lb)}
		}
	}
	for n, lb := range b {
		if _, both := a[n]; !both {
			d.InSecondOnly[n] = implied(lb)
		}
	}
	return d
}

func normDiff(d *licensediff.LicenseDiff) *licensediff.LicenseDiff {
	n := func(m map[string]string) map[string]string {
		o := map[string]string{}
		for k, v := range m {
			o[k] = implied(v)
		}
		return o
	}
	o := &licensediff.LicenseDiff{InBothChanged: map[string]licensediff.LicensePair{}, InBothSame: n(d.InBothSame), InFirstOnly: n(d.InFirstOnly), InSecondOnly: n(d.InSecondOnly)}
	for k, p := range d.InBothChanged {
		o.InBothChanged[k] = licensediff.LicensePair{First: implied(p.First), Second: implied(p.Second)}
	}
	return o
}

func runP24(c *kit.Ctx) {
	names := []string{"./a", "./A", "", "./a b/ü"}
	lics := []string{"MIT", "NOASSERTION", "", "mit", "(MIT AND ISC)", "NONE"}
	lists := p24Lists(Count(c, 3, 4), Count(c, 6, 6), Count(c, 3, 3))
	mk := func(l []namedLicense) (*spdx.Package, map[string]string) {
		p := &spdx.Package{PackageName: "p"}
		m := map[string]string{}
		for _, e := range l {
			p.Files = append(p.Files, &spdx.File{FileName: names[e.name], LicenseConcluded: lics[e.lic], LicenseInfoInFiles: []string{"X"}})
			m[names[e.name]] = lics[e.lic]
		}
		return p, m
	}
	check := func(pa, pb *spdx.Package, a, b map[string]string, key string) {
		c.Evals.Add(1)
		bad := func(what string) {
			c.Violate(key, fmt.Sprintf("diff of %v and %v: %s", a, b, what), map[string]any{"first": a, "second": b})
		}
		var got *licensediff.LicenseDiff
		var err error
		if p, _ := kit.Guard(func() {
			var pairs map[string]licensediff.LicensePair
			if pairs, err = licensediff.MakePairs(pa, pb); err == nil {
				got, err = licensediff.MakeResults(pairs)
			}
		}); p != nil {
			bad(fmt.Sprint("panic: ", p))
			return
		}
		if err != nil || got == nil {
			bad(fmt.Sprint("error: ", err))
			return
		}
		if want := refDiff(a, b); !reflect.DeepEqual(normDiff(got), want) {
			bad(fmt.Sprintf("is %+v instead of %+v", *got, *want))
		}
	}
	c.Parallel(len(lists), func(i int) {
		for k, l := range lists {
			if c.Stop() {
				return
			}
			pa, a := mk(lists[i])
			pb, b := mk(l)
			if k == 0 {
				c.Seen(fmt.Sprint(lists[i]))
			}
			check(pa, pb, a, b, fmt.Sprintf("%v/%v", lists[i], l))
			if k == i {
				before := docs.Canon(pa)
				check(pa, pa, a, a, fmt.Sprintf("%v/self", l))
				if docs.Canon(pa) != before {
					c.Violate(fmt.Sprintf("%v/mutated", l), "comparing changes the package: "+docs.Diff(before, docs.Canon(pa)), a)
				}
			}
		}
	})
	// many files, every class at once
	for _, n := range []int{9, 64, 1000} {
		var la, lb []*spdx.File
		a, b := map[string]string{}, map[string]string{}
		for i := 0; i < n; i++ {
			name := fmt.Sprint("./f", i)
			if i%4 != 0 {
				la = append(la, &spdx.File{FileName: name, LicenseConcluded: lics[i%6]})
				a[name] = lics[i%6]
			}
			if i%3 != 0 {
				lb = append([]*spdx.File{{FileName: name, LicenseConcluded: lics[i/2%6]}}, lb...)
				b[name] = lics[i/2%6]
			}
		}
		check(&spdx.Package{Files: la}, &spdx.Package{Files: lb}, a, b, fmt.Sprint("many/", n))
	}
	c.Bound("all ordered pairs of %d lists of up to 3 files with distinct names, %d licenses", len(lists), len(lics))
}
