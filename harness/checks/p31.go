//go:build maporder

package checks

import (
	"fmt"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/mapord"
	"verifharness/rdfx"
)

func init() { register("P31", "exploration", runP31) }

const odd31 = "oddvalue"

// values31 are values hardly any property has; each names itself as odd.
var values31 = []rdfx.Prop{
	{Lit: odd31},
	{Lit: "odd: " + odd31},
	{Lit: "Person: " + odd31},
	{Lit: "SPDXRef-" + odd31},
	{Lit: "LicenseRef-" + odd31},
	{Lit: "-1 " + odd31},
	{Lit: "NONE" + odd31},
	{Lit: "NOASSERTION " + odd31},
	{Res: "http://spdx.org/rdf/terms#none" + odd31},
	{Lit: "true " + odd31},
	{Res: "http://x.org/" + odd31},
	{Res: "http://spdx.org/rdf/terms#" + odd31},
	{Res: "http://spdx.org/licenses/" + odd31},
	{Res: "http://spdx.org/rdf/terms#relationshipType_" + odd31},
	{Res: "http://spdx.org/rdf/terms#checksumAlgorithm_" + odd31},
	{Res: "http://spdx.org/rdf/terms#fileType_" + odd31},
	{Res: "http://spdx.org/rdf/terms#annotationType_" + odd31},
	{Res: "http://spdx.org/rdf/terms#referenceCategory_" + odd31},
	{Res: "http://x.org/a#SPDXRef-" + odd31},
}

// preds31 are properties no element has.
var preds31 = []string{"spdx:unknownThing", "spdx:Name", "spdx:names", "spdx:relationships", "rdfs:label", "rdfs:Comment", "doap:unknownThing", "ptr:unknownThing", "rdf:value"}

// listed31 says whether a node states a license of the SPDX list (or an exception), of which a document
// holds the identifier only.
func listed31(n *rdfx.Node) bool {
	return n.Type == "spdx:License" || n.Type == "spdx:ListedLicense" || n.Type == "spdx:LicenseException"
}

// multi31 are the properties that may be stated more than once.
var multi31 = map[string]bool{"spdx:creator": true, "spdx:fileType": true, "spdx:fileContributor": true, "spdx:packageVerificationCodeExcludedFile": true, "spdx:attributionText": true,
	"spdx:licenseInfoFromFiles": true, "spdx:licenseInfoInFile": true, "spdx:licenseInfoInSnippet": true, "spdx:fileDependency": true, "rdfs:seeAlso": true, "spdx:member": true}

// elements31 are the kinds of elements.
var elements31 = map[string]bool{"spdx:SpdxDocument": true, "spdx:Package": true, "spdx:File": true, "spdx:Snippet": true}

// open31 says what is left open: existing tests want odd purposes to be none at all.
func open31(pred string) bool { return pred == "spdx:primaryPackagePurpose" }

// case31 is a graph with one odd statement.
type case31 struct {
	what   string
	change func(g *rdfx.Graph)
	once   bool // one value is stated beside another of a property that has but one: either may be the one
}

func cases31(c *kit.Ctx, base *rdfx.Graph, way int) (out []case31) {
	preds := append([]string(nil), preds31...)
	known, objects := map[string]bool{}, map[string]bool{}
	for _, n := range base.Nodes {
		for _, p := range n.Props {
			objects[p.Pred] = objects[p.Pred] || p.Node != nil
			if !known[p.Pred] {
				known[p.Pred] = true
				preds = append(preds, p.Pred)
			}
		}
	}
	done := map[string]int{}
	for i, n := range base.Nodes {
		// nodes of a type with the same properties once or twice
		kind := n.Type
		for _, p := range n.Props {
			kind += " " + p.Pred
		}
		if done[kind]++; done[kind] > kit.Pick(c, 1, 3) {
			continue
		}
		name := fmt.Sprintf("%s %d", n.Type, i)
		add := func(what string, f func(n *rdfx.Node)) {
			out = append(out, case31{what: name + " " + what, change: func(g *rdfx.Graph) { f(g.Nodes[i]) }})
		}
		has := map[string]bool{}
		for k, p := range n.Props {
			has[p.Pred] = true
			if open31(p.Pred) || listed31(n) && p.Pred != "spdx:licenseId" || p.Node != nil {
				continue
			}
			for m, v := range values31 {
				v.Pred = p.Pred
				add(fmt.Sprintf("%s becomes %q%q", p.Pred, v.Lit, v.Res), func(n *rdfx.Node) { n.Props[k] = v })
				if !c.Thorough() && m > 0 && m%4 != len(p.Pred)%4 {
					continue
				}
				add(fmt.Sprintf("%s also %q%q", p.Pred, v.Lit, v.Res), func(n *rdfx.Node) { n.Props = append(n.Props, v) })
				out[len(out)-1].once = !multi31[p.Pred]
			}
		}
		for q, p := range preds {
			if objects[p] && elements31[n.Type] {
				continue // a reference to what nothing is stated of
			}
			if n.Type == "spdx:File" && (p == "spdx:name" || p == "spdx:licenseInfoFromFiles") {
				continue // the ontology has them of files, the data model has no place for them
			}
			if has[p] || open31(p) || listed31(n) && known[p] {
				continue
			}
			for x, v := range []rdfx.Prop{values31[0], values31[2], values31[7], values31[15]} {
				v.Pred = p
				if way > 0 && !c.Thorough() && (x+q+way)%4 != 0 {
					continue
				}
				add(fmt.Sprintf("has %s %q%q", p, v.Lit, v.Res), func(n *rdfx.Node) { n.Props = append(n.Props, v) })
				add(fmt.Sprintf("has first %s %q%q", p, v.Lit, v.Res), func(n *rdfx.Node) { n.Props = append([]rdfx.Prop{v}, n.Props...) })
			}
		}
		if ns, _, ok := strings.Cut(n.IRI, "#"); ok && !listed31(n) && n.Type != "spdx:ExtractedLicensingInfo" { // whose identifier is stated
			for _, frag := range []string{"#" + odd31, "#SPDXRef-a:" + odd31, "#SPDXRef-" + odd31 + ":b", "#spdxref-" + odd31, "#DocumentRef-" + odd31, "#DocumentRef-" + odd31 + ":SPDXRef-a", "#SPDXRef-" + odd31, "#LicenseRef-" + odd31, "#SPDXRef-a#" + odd31} {
				add("named "+frag, func(n *rdfx.Node) { n.IRI = ns + frag })
			}
		}
	}
	return out
}

// runP31: what a graph states of an element is taken or refused, never dropped in silence.
func runP31(c *kit.Ctx) {
	c.Bound("RDF of 2.2 and 2.3: documents with one and with two of every element, stated in %d ways; in each kind of node: every property with each of %d odd values, in its place, before and after the others; every property that stands anywhere in the graph and %d that stand nowhere; 9 odd names of nodes; quick: on all but the first way a quarter of those; each read under 2 (thorough: 16) starts of all map walks", len(rdfOpts), len(values31), len(preds31))
	type job struct {
		v     *docs.Version
		way   int
		doc   string
		base  *rdfx.Graph
		canon string // what is read of it
		cs    case31
	}
	var jobs []job
	for _, v := range docs.Versions {
		if !rdfVersion(v) {
			continue
		}
		for way, o := range rdfOpts {
			o.Spec = specName(v)
			for n := 1; n <= 2; n++ {
				if n == 2 && way > 0 && !c.Thorough() {
					continue
				}
				doc := smallRDF(v)
				if n == 2 {
					doc = rdfDoc(docs.Full(v, 2))
				}
				base := rdfx.Encode(doc, o)
				ref, err := readRDF(v, base.XML(rdfx.Shape{}))
				if err != nil {
					c.Violate(fmt.Sprintf("%s/base/%d/%d", v.Name, way, n), "the document is not read: "+err.Error(), base.XML(rdfx.Shape{}))
					continue
				}
				for _, cs := range cases31(c, base, way) {
					jobs = append(jobs, job{v, way, fmt.Sprintf("full%d", n), base, rdfx.Canon(ref), cs})
				}
			}
		}
	}
	more := append(p31JSON(c), p31TV(c)...)
	c.Parallel(len(jobs)+len(more), func(i int) {
		if i < len(more) {
			more[i]()
			return
		}
		i -= len(more)
		if c.Stop() {
			return
		}
		j := jobs[i]
		g := j.base.Clone()
		j.cs.change(g)
		text := g.XML(rdfx.Shape{})
		if !c.Seen(j.v.Name + text) {
			return
		}
		key := fmt.Sprintf("%s/%s/%d/%s", j.v.Name, j.doc, j.way, strings.ReplaceAll(j.cs.what, " ", "_"))
		label := fmt.Sprintf("%s %s (way %d) %s", j.v.Name, j.doc, j.way, j.cs.what)
		replay := map[string]any{"version": j.v.Name, "case": label, "rdf": text}
		c.Sample(label)
		first := ""
		for k := 0; k < kit.Pick(c, 2, 16); k++ {
			c.Evals.Add(1)
			var got string
			mapord.Under(&mapord.Run{All: k}, func() {
				x, err := readRDF(j.v, text)
				mapord.Free(func() {
					switch {
					case err == nil:
						got = rdfx.Canon(x)
					case strings.HasPrefix(err.Error(), "panic"):
						got = err.Error()
					default:
						got = "error"
					}
				})
			})
			if strings.HasPrefix(got, "panic") {
				c.Violate(key, label+": "+got, replay)
				return
			}
			if got != "error" && !(j.cs.once && got == j.canon) && !strings.Contains(strings.ToLower(got), odd31) {
				c.Violate(key, label+": accepted, and the document does not hold it", replay)
				return
			}
			if k == 0 {
				first = got
			} else if got != first {
				c.Violate(key+"/order", fmt.Sprintf("%s: read otherwise when maps are walked from start %d: %s", label, k, rdfx.Diff(first, got)), replay)
				return
			}
		}
	})
}
