//go:build maporder

package checks

import (
	"fmt"
	"strings"

	"verifharness/docs"
	"verifharness/kit"
)

// tvalues31 are the values a tag is given; %s stands for the value the tag has.
var tvalues31 = []string{
	odd31, "odd: " + odd31, "Person: " + odd31, "Person: x: " + odd31, "Person: (" + odd31 + ")", "SPDXRef-" + odd31, "DocumentRef-" + odd31 + ":SPDXRef-x", "DocumentRef-d:SPDXRef-" + odd31, "DocumentRef-" + odd31,
	"LicenseRef-" + odd31, "7654321", "-7654321", "7654321:7654322", "1: 7654321", "true " + odd31, "false " + odd31, "SHA1: " + odd31, "SHA1: a b " + odd31, "MD5 : a:" + odd31,
	"NONE " + odd31, "NOASSERTION " + odd31, "SPDXRef-a CONTAINS SPDXRef-" + odd31, "SPDXRef-a " + odd31 + " SPDXRef-b", "SPDXRef-" + odd31 + " CONTAINS NONE", "SPDXRef-a CONTAINS NONE " + odd31, "SPDXRef-a CONTAINS NOASSERTION:" + odd31,
	"SECURITY cpe23Type " + odd31, "OTHER a b " + odd31, odd31 + " a b", "OTHER " + odd31 + " b", "x (excludes: a, " + odd31 + ")", odd31 + " (excludes: a)", "x (excludes: " + odd31 + ", b)", "x (excludes: a (" + odd31 + "), b)", "x (excludes: a, (excludes: " + odd31 + "))",
	"<text>" + odd31 + "</text>", "<text>x\n" + odd31 + "</text>", "<text>x\n\n y: " + odd31 + "\n</text>", "<text>x: y # " + odd31 + "</text>", "a # " + odd31,
	"%s " + odd31, "%s:" + odd31, "%s: " + odd31, odd31 + " %s", odd31 + ": %s", "%s" + odd31, odd31 + "%s",
}

// p31TV: the same of tags: what follows a tag is taken or refused.
func p31TV(c *kit.Ctx) (jobs []func()) {
	c.Bound("tag-value of 2.1, 2.2, 2.3: every tag of documents with one and with two of everything with each of %d values, in its place and repeated after it", len(tvalues31))
	for _, v := range docs.Versions {
		for n := 1; n <= 2; n++ {
			text, err := formTV.write(docs.Full(v, n))
			if err != nil {
				c.Violate(v.Name+"/tagvalue/base", err.Error(), nil)
				continue
			}
			lines := strings.Split(text, "\n")
			for i, line := range lines {
				tag, value, ok := strings.Cut(line, ":")
				if !ok || strings.HasPrefix(line, "#") || strings.Contains(value, "<text>") && !strings.Contains(value, "</text>") {
					continue
				}
				value = strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(value), "<text>"), "</text>")
				jobs = append(jobs, func() { p31Tag(c, v, n, lines, i, tag, value) })
			}
		}
	}
	return jobs
}

func p31Tag(c *kit.Ctx, v *docs.Version, n int, lines []string, i int, tag, value string) {
	for _, x := range tvalues31 {
		for _, again := range []bool{false, true} {
			if c.Stop() {
				return
			}
			marker := odd31
			if !strings.Contains(x, odd31) {
				marker = "7654321"
			}
			odd := strings.ReplaceAll(x, "%s", value)
			all := append([]string(nil), lines[:i]...)
			if again {
				all = append(all, lines[i])
			}
			all = append(append(all, tag+": "+odd), lines[i+1:]...)
			text := strings.Join(all, "\n")
			if !c.Seen(v.Name + text) {
				continue
			}
			c.Evals.Add(1)
			doc := v.New()
			err, p := guardErr(func() error { return formTV.read(text, doc) })
			what, external := "", ""
			if tag == "SnippetFromFileSPDXID" && strings.HasPrefix(odd, "DocumentRef-") {
				external = v.Name + "/tagvalue/snippetfromfile/external" // see known-findings.txt
			}
			switch {
			case tag == "PackageVerificationCode" && err == nil && p == nil && strings.Contains(value, "(excludes:") && strings.HasPrefix(odd, value):
				continue // what follows the files in parentheses is left open
			case p != nil:
				what = fmt.Sprintf("panic: %v", p)
			case err != nil || strings.Contains(docs.Canon(doc), marker):
				continue
			default:
				what = "accepted, and the document does not hold it"
			}
			where := ""
			if again {
				where = " stated after the right value"
			}
			if external != "" && p == nil {
				c.Violate(external, what, text)
				continue
			}
			c.Violate(fmt.Sprintf("%s/tagvalue/full%d/%s/%s%s", v.Name, n, tag, strings.ReplaceAll(odd, " ", "_"), where), fmt.Sprintf("%s tag-value with %q as %s (line %d)%s: %s", v.Name, odd, tag, i+1, where, what), text)
		}
	}
}
