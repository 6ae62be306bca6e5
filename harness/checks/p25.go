//go:build maporder

package checks

import (
	"bytes"
	"fmt"
	"strings"

	"verifharness/kit"
	"verifharness/mapord"

	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
)

func init() { register("P25", "exploration", runP25) }

// parseReport takes a report apart: found, not found, total, per license in order, total found.
type report struct {
	found, notFound, total, totalFound int
	lics                               []string
	counts                             []int
}

func parseReport(s string) (report, string) {
	var r report
	lines := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if len(lines) < 5 {
		return r, "the report has too few lines"
	}
	num := func(l, label string) (int, bool) {
		l = strings.TrimLeft(l, " ")
		var n int
		var digits string
		for i := 0; i < len(l) && l[i] >= '0' && l[i] <= '9'; i++ {
			digits += l[i : i+1]
		}
		if digits == "" {
			return 0, false
		}
		fmt.Sscan(digits, &n)
		return n, strings.TrimLeft(l[len(digits):], " \t") == label
	}
	var ok [4]bool
	r.found, ok[0] = num(lines[0], "License found")
	r.notFound, ok[1] = num(lines[1], "License not found")
	r.total, ok[2] = num(lines[2], "TOTAL")
	r.totalFound, ok[3] = num(lines[len(lines)-1], "TOTAL FOUND")
	if ok != [4]bool{true, true, true, true} {
		return r, "the totals are not as expected"
	}
	if strings.TrimSpace(lines[3]) != "" {
		return r, "no blank line after the totals"
	}
	for _, l := range lines[4 : len(lines)-1] {
		l = strings.TrimLeft(l, " ")
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			return r, "a license line without a license: " + l
		}
		var n int
		fmt.Sscan(l[:i], &n)
		r.counts = append(r.counts, n)
		r.lics = append(r.lics, strings.TrimLeft(l[i:], " "))
	}
	return r, ""
}

// refReport is what the report must say.
func checkReport(s string, lics []string) string {
	r, what := parseReport(s)
	if what != "" {
		return what
	}
	counts := map[string]int{}
	found := 0
	for _, l := range lics {
		if l != "" && l != "NOASSERTION" {
			counts[l]++
			found++
		}
	}
	if r.found != found || r.notFound != len(lics)-found || r.total != len(lics) || r.totalFound != found {
		return fmt.Sprintf("found %d, not found %d, total %d, total found %d of %q", r.found, r.notFound, r.total, r.totalFound, lics)
	}
	if len(r.lics) != len(counts) {
		return fmt.Sprintf("lists %q of %q", r.lics, lics)
	}
	for i, l := range r.lics {
		if counts[l] != r.counts[i] || counts[l] == 0 {
			return fmt.Sprintf("counts %q %d times in %q", l, r.counts[i], lics)
		}
		delete(counts, l) // once each
		if i > 0 && r.counts[i-1] < r.counts[i] {
			return fmt.Sprintf("lists %q before %q, which is more frequent", r.lics[i-1], l)
		}
	}
	return ""
}

func runP25(c *kit.Ctx) {
	gen := func(lics []string) (string, error) {
		var b bytes.Buffer
		p := &spdx.Package{FilesAnalyzed: true, Files: []*spdx.File{}}
		for i, l := range lics {
			p.Files = append(p.Files, &spdx.File{FileName: fmt.Sprintf("f%d", i), FileSPDXIdentifier: common.ElementID(fmt.Sprint("F", i)), LicenseConcluded: l,
				LicenseInfoInFiles: []string{"X", "MIT"}})
		}
		err := reporter.Generate(p, &b)
		return b.String(), err
	}
	alphabet := []string{"MIT", "Apache-2.0", "NOASSERTION", "", "NONE", "MIT OR Apache-2.0", "mit"}
	if c.Thorough() {
		alphabet = append(alphabet, "LicenseRef-1")
	}
	n := Count(c, 6, 7)
	total := 1
	for d := 0; d <= n; d++ {
		d := d
		c.Parallel(total, func(x int) {
			lics := make([]string, d)
			for i := range lics {
				lics[i] = alphabet[x%len(alphabet)]
				x /= len(alphabet)
			}
			c.Seen(strings.Join(lics, "|"))
			bad := func(key, what string) {
				c.Violate(key+"/"+strings.Join(lics, ","), fmt.Sprintf("files concluded %q: %s", lics, what), lics)
			}
			var text string
			runs, _ := mapord.Explore(1, nil, c.Stop, func(script []int) {
				c.Evals.Add(1)
				got, err := gen(lics)
				if err != nil {
					bad("error", "error: "+err.Error())
				}
				if len(script) == 0 {
					text = got
				} else if got != text {
					bad("maporder", fmt.Sprintf("the report depends on the order of a map: %q and %q", text, got))
				}
			})
			c.Add("map-order schedules", int64(runs))
			if what := checkReport(text, lics); what != "" {
				bad("report", what)
			}
		})
		total *= len(alphabet)
	}
	c.Bound("all lists of up to %d files over %d licenses, all starts of the walk over the counts", n, len(alphabet))

	// many licenses: maps beyond one group, ties of every kind
	for _, k := range []int{7, 8, 9, 15, 16, 17, 40, 130} {
		for mod := 1; mod <= 4; mod++ {
			var lics []string
			for i := 0; i < k; i++ {
				for r := 0; r <= i%mod; r++ {
					lics = append(lics, fmt.Sprintf("L-%d", (i*7)%k))
				}
			}
			text := ""
			runs, _ := mapord.Explore(1, nil, c.Stop, func(script []int) {
				c.Evals.Add(1)
				got, err := gen(lics)
				if err != nil {
					c.Violate("many", "error: "+err.Error(), lics)
				}
				if len(script) == 0 {
					text = got
				} else if got != text {
					c.Violate(fmt.Sprint("many/", k), "the report depends on the order of a map", []string{text, got})
				}
			})
			c.Add("map-order schedules", int64(runs))
			if what := checkReport(text, lics); what != "" {
				c.Violate(fmt.Sprint("many/", k), what, text)
			}
		}
	}
	// files not analysed
	for _, lics := range [][]string{nil, {"MIT"}, {"", "MIT"}} {
		p := &spdx.Package{}
		for _, l := range lics {
			p.Files = append(p.Files, &spdx.File{LicenseConcluded: l})
		}
		c.Evals.Add(1)
		var b bytes.Buffer
		if err := reporter.Generate(p, &b); err == nil {
			c.Violate("not analysed", fmt.Sprintf("a package with %q whose files were not analysed gives the report %q", lics, b.String()), nil)
		}
		p.FilesAnalyzed = true
		p.IsFilesAnalyzedTagPresent = len(lics) == 1
		b.Reset()
		if err := reporter.Generate(p, &b); err != nil {
			c.Violate("analysed", "an analysed package gives the error "+err.Error(), nil)
		} else if what := checkReport(b.String(), lics); what != "" {
			c.Violate("analysed", what, nil)
		}
	}
}
