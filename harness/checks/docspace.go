package checks

import (
	"fmt"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
)

// docCase is one document of the enumerated space: a base with some sites changed.
type docCase struct {
	ver   *docs.Version
	base  string
	label string
	doc   any
}

type baseDoc struct {
	name string
	doc  any
}

func bases(v *docs.Version) []baseDoc {
	return []baseDoc{
		{"minimal", docs.Minimal(v)},
		{"sparse2", docs.Sparse(v, 2)},
		{"full1", docs.Full(v, 1)},
		{"full2", docs.Full(v, 2)},
	}
}

type spaceOpts struct {
	format   docs.Format
	fix      func(v *docs.Version, doc any) // narrows a document to the domain, may be nil
	pairsOn  []string                       // bases on which pairs of deviations are enumerated too
	allPairs bool                           // any two sites, not only two of the same element
	deep     bool                           // very large values
	maxAlts  int                            // alternatives tried of a site; 0: all
	vers     func(v *docs.Version) bool     // which versions; nil: all
}

// eachDoc enumerates the documents with no, one and two deviations from the bases, of each version,
// and calls f on each. Deviation one takes every alternative of every site, deviation two every pair
// of sites with their core alternatives.
func eachDoc(c *kit.Ctx, o spaceOpts, f func(d docCase)) {
	type job struct {
		ver   *docs.Version
		base  baseDoc
		sites []*docs.Site
		i     int // first site; -1: the base itself
		pairs bool
	}
	var jobs []job
	for _, v := range docs.Versions {
		if o.vers != nil && !o.vers(v) {
			continue
		}
		for _, b := range bases(v) {
			if o.fix != nil {
				o.fix(v, b.doc)
			}
			sites := docs.Sites(v, b.doc, o.format, o.deep && (b.name == "full1" || c.Thorough()))
			jobs = append(jobs, job{v, b, sites, -1, false})
			pairs := false
			for _, p := range o.pairsOn {
				pairs = pairs || p == b.name
			}
			nAlts := 0
			for i := range sites {
				jobs = append(jobs, job{v, b, sites, i, pairs})
				nAlts += len(sites[i].Alts)
			}
			c.Add("sites", int64(len(sites)))
			c.Add("alternatives", int64(nAlts))
		}
	}
	run := func(j job, doc any, label string) {
		docs.Normalize(doc)
		if o.fix != nil {
			o.fix(j.ver, doc)
		}
		f(docCase{j.ver, j.base.name, label, doc})
	}
	c.Parallel(len(jobs), func(n int) {
		j := jobs[n]
		if j.i < 0 {
			run(j, docs.Clone(j.base.doc), "")
			return
		}
		s := j.sites[j.i]
		for a := range s.Alts {
			if c.Stop() {
				return
			}
			if !c.Thorough() && j.base.name != "full1" && len(s.Alts) > 24 && a > 2 {
				break // the whole alphabet of the big sites is tried on full1
			}
			if o.maxAlts > 0 && a >= o.maxAlts {
				break
			}
			d := docs.Clone(j.base.doc)
			s.Apply(d, a)
			run(j, d, s.Label+":="+s.Alts[a].Label)
		}
		if !j.pairs {
			return
		}
		for k := j.i + 1; k < len(j.sites); k++ {
			s2 := j.sites[k]
			if !o.allPairs && s.Elem != s2.Elem {
				continue
			}
			for _, a := range s.Core {
				for _, b := range s2.Core {
					if c.Stop() {
						return
					}
					d := docs.Clone(j.base.doc)
					// the outer site first, so that the inner one applies to what is left
					s.Apply(d, a)
					if !s2.Apply(d, b) {
						continue
					}
					run(j, d, s.Label+":="+s.Alts[a].Label+", "+s2.Label+":="+s2.Alts[b].Label)
				}
			}
		}
	})
}

// caseKey names a case for the known findings: version, site and alternative.
func caseKey(d docCase) string {
	l := d.label
	if len(l) > 160 {
		l = l[:160]
	}
	return fmt.Sprintf("%s/%s/%s", d.ver.Name, d.base, strings.ReplaceAll(l, " ", "_"))
}

func replayDoc(d docCase, text string) map[string]any {
	if len(text) > 20000 {
		text = text[:20000] + "..."
	}
	canon := docs.Canon(d.doc)
	if len(canon) > 20000 {
		canon = canon[:20000] + "..."
	}
	return map[string]any{"version": d.ver.Name, "base": d.base, "deviation": d.label, "document": canon, "written": text}
}
