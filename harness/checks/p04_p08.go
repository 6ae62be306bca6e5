package checks

import (
	"fmt"
	"hash/crc32"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	spdxjson "github.com/spdx/tools-golang/json"
)

func init() {
	register("P04", "exploration", func(c *kit.Ctx) { runRoundTrip(c, []*form{formTV}) })
	register("P07", "exploration", runP07)
	register("P08", "exploration", runP08)
	register("P05", "exploration", func(c *kit.Ctx) {
		runRoundTrip(c, []*form{
			formJSON,
			jsonWith("json indented", spdxjson.Indent("  ")),
			jsonWith("json unescaped", spdxjson.EscapeHTML(false)),
			jsonWith("json indented and unescaped", spdxjson.Indent("\t"), spdxjson.EscapeHTML(false)),
		})
	})
}

func runRoundTrip(c *kit.Ctx, fs []*form) {
	o := docSpace(c, fs[0].f)
	eachDoc(c, o, func(d docCase) {
		canon := docs.Canon(d.doc)
		if !c.Seen(d.ver.Name + canon) {
			return
		}
		for i, f := range fs {
			if i > 0 && (strings.Contains(d.label, ", ") || d.base != "full1") && !c.Thorough() {
				break // options change how a value is written, not which values meet
			}
			c.Evals.Add(1)
			if what, text := roundTrip(f, d.ver, docs.Clone(d.doc)); what != "" {
				c.Violate(f.name+"/"+caseKey(d), d.ver.Name+" "+d.base+" "+d.label+": "+f.name+": "+what, replayDoc(d, text))
			}
		}
		c.Sample(d.ver.Name + " " + d.base + " " + d.label)
	})
}

// docSpace is the space of documents for a format at the tier's bounds.
func docSpace(c *kit.Ctx, f docs.Format) spaceOpts {
	o := spaceOpts{format: f, pairsOn: []string{"full1"}, deep: true}
	which := "of the same element"
	if c.Thorough() {
		o.allPairs = true
		o.pairsOn = append(o.pairsOn, "sparse2", "full2")
		which = "of the document"
	}
	c.Bound("documents of 2.1, 2.2, 2.3: 4 base documents (minimal, required fields only, all fields with 1 and with 2 of everything), every alternative of every field and list (quick: of fields with large alphabets only on the third base), pairs of fields and lists %s with their core alternatives (on the third base; thorough: on all but the first; quick: none for YAML and cross-format); distinct by what the document states", which)
	return o
}

// runP07: YAML round trip, and YAML means what JSON means.
func runP07(c *kit.Ctx) {
	o := docSpace(c, docs.YAML)
	if !c.Thorough() {
		o.pairsOn = nil
	}
	c.Bound("each document also as YAML written in another way, the base documents (thorough: all) in each of %d: flow and block style, quoting, block scalars, comments, references, tabs in flow style, CRLF", len(yStyles))
	eachDoc(c, o, func(d docCase) {
		if !c.Seen(d.ver.Name + docs.Canon(d.doc)) {
			return
		}
		c.Evals.Add(1)
		what, text := roundTrip(formYAML, d.ver, docs.Clone(d.doc))
		if what == "" {
			// the JSON of the document, read as YAML (of which JSON is a part) and as JSON
			var js string
			var err error
			viaY, viaJ := d.ver.New(), d.ver.New()
			if p, _ := kit.Guard(func() {
				if js, err = formJSON.write(docs.Clone(d.doc)); err != nil {
					return
				}
				if err = formJSON.read(js, viaJ); err != nil {
					return
				}
				err = formYAML.read(text, viaY)
			}); p != nil {
				what = fmt.Sprint("panic: ", p)
			} else if err != nil {
				what = "reading JSON and YAML of the document: " + err.Error()
			} else if y, j := docs.Canon(viaY), docs.Canon(viaJ); y != j {
				what = "YAML reads other than JSON: " + docs.Diff(j, y)
			} else {
				what, text = yamlStyles(c, d, js, j)
			}
		}
		if what != "" {
			c.Violate("yaml/"+caseKey(d), d.ver.Name+" "+d.base+" "+d.label+": "+what, replayDoc(d, text))
		}
		c.Sample(d.ver.Name + " " + d.base + " " + d.label)
	})
}

// yamlStyles reads the document written as YAML in other ways than the library's.
func yamlStyles(c *kit.Ctx, d docCase, js, want string) (what, text string) {
	n, err := yParse(js)
	if err != nil {
		return err.Error(), js
	}
	turn := int(crc32.ChecksumIEEE([]byte(d.base+d.label)) % uint32(len(yStyles)))
	for i, st := range yStyles {
		if !c.Thorough() && d.label != "" && i != turn {
			continue
		}
		c.Evals.Add(1)
		text = yWrite(n, st)
		got := d.ver.New()
		var err error
		if p, _ := kit.Guard(func() { err = formYAML.read(text, got) }); p != nil {
			return fmt.Sprintf("%s: panic: %v", st.name, p), text
		} else if err != nil {
			return st.name + ": " + err.Error(), text
		} else if g := docs.Canon(got); g != want {
			return st.name + ": reads otherwise: " + docs.Diff(want, g), text
		}
	}
	return "", ""
}

// commonPart is what all three formats carry of a document.
func commonPart(v *docs.Version, doc any) any { return expectJSON(v, expectTV(v, doc)) }

// runP08: whatever chain of formats a document takes, what all formats carry of it stays the same.
func runP08(c *kit.Ctx) {
	o := docSpace(c, docs.TV)
	o.deep = false
	if !c.Thorough() {
		o.maxAlts = 8
		o.pairsOn = nil
	}
	c.Bound("every chain of 2 formats (quick) or 3 formats (thorough) of tag-value, JSON and YAML, written and read in turn")
	var chains [][]*form
	for _, a := range forms {
		for _, b := range forms {
			if a == b {
				continue
			}
			if !c.Thorough() {
				chains = append(chains, []*form{a, b})
				continue
			}
			for _, d := range forms {
				if d != b {
					chains = append(chains, []*form{a, b, d})
				}
			}
		}
	}
	eachDoc(c, o, func(d docCase) {
		if !c.Seen(d.ver.Name + docs.Canon(d.doc)) {
			return
		}
		want := docs.Canon(commonPart(d.ver, d.doc))
		for _, ch := range chains {
			c.Evals.Add(1)
			cur := docs.Clone(d.doc)
			path := ""
			what, text := "", ""
			for _, f := range ch {
				path += ">" + f.name
				var err error
				next := d.ver.New()
				if p, _ := kit.Guard(func() {
					if text, err = f.write(cur); err == nil {
						err = f.read(text, next)
					}
				}); p != nil {
					what = fmt.Sprint("panic: ", p)
				} else if err != nil {
					what = err.Error()
				}
				if what != "" {
					break
				}
				cur = next
			}
			if what == "" {
				if have := docs.Canon(commonPart(d.ver, cur)); have != want {
					what = docs.Diff(want, have)
				}
			}
			if what != "" {
				c.Violate(path+"/"+caseKey(d), d.ver.Name+" "+d.base+" "+d.label+" by way of "+path+": "+what, replayDoc(d, text))
				return
			}
		}
		c.Sample(d.ver.Name + " " + d.base + " " + d.label)
	})
}
