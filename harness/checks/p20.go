package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/utils"
)

func init() { register("P20", "exploration", runP20) }

// refIgnored is the reference: what a pattern says about a path. Both begin with / (the pattern
// after its **, if it has any); the path is split into components.
func refIgnored(path, pattern string) bool {
	any := strings.HasPrefix(pattern, "**/")
	if any {
		pattern = pattern[2:]
	}
	p := strings.Split(path[1:], "/")
	dir := strings.HasSuffix(pattern, "/")
	var want []string
	for _, w := range strings.Split(strings.Trim(pattern, "/"), "/") {
		if w != "" {
			want = append(want, w)
		}
	}
	match := func(at int) bool {
		if dir && at+len(want) > len(p)-1 { // something must be under the directory
			return false
		}
		if !dir && at+len(want) != len(p) {
			return false
		}
		for i, w := range want {
			if p[at+i] != w {
				return false
			}
		}
		return true
	}
	if !any {
		return match(0)
	}
	for at := range p {
		if match(at) {
			return true
		}
	}
	return false
}

func refIgnoredBy(path string, patterns []string) bool {
	for _, p := range patterns {
		if refIgnored(path, p) {
			return true
		}
	}
	return false
}

// paths gives all paths of 1 to n components over the names.
func paths(names []string, n int) []string {
	var out []string
	level := []string{""}
	for k := 0; k < n; k++ {
		var next []string
		for _, p := range level {
			for _, m := range names {
				next = append(next, p+"/"+m)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

func runP20(c *kit.Ctx) {
	names := []string{"a", "ab", "b", "a.b", "*", " a"}
	pnames := names
	ps := paths(names, 4)
	var pats []string
	for _, p := range append([]string{""}, paths(pnames, 3)...) {
		if p != "" {
			pats = append(pats, p, "**"+p)
		}
		pats = append(pats, p+"/", "**"+p+"/")
	}
	bad := func(path string, pats []string, want bool) {
		c.Violate(fmt.Sprintf("%q/%q", path, pats), fmt.Sprintf("path %q with patterns %q: ignored is %v", path, pats, !want), map[string]any{"path": path, "patterns": pats})
	}
	try := func(path string, pats []string, want bool) {
		c.Evals.Add(1)
		var got bool
		if p, _ := kit.Guard(func() { got = utils.ShouldIgnore(path, pats) }); p != nil {
			c.Violate(fmt.Sprintf("panic/%q/%q", path, pats), fmt.Sprint("panic: ", p), nil)
		} else if got != want {
			bad(path, pats, want)
		}
	}
	// one pattern
	ign := make([][]bool, len(pats)) // by the reference
	c.Parallel(len(pats), func(i int) {
		ign[i] = make([]bool, len(ps))
		for k, p := range ps {
			ign[i][k] = refIgnored(p, pats[i])
			try(p, pats[i:i+1:i+1], ign[i][k])
		}
		c.Seen(pats[i])
	})
	for _, p := range ps {
		try(p, nil, false)
		try(p, []string{}, false)
	}
	// sets of patterns, in every order, with repetition: the union
	var core []int
	for i, p := range pats {
		if strings.Count(strings.TrimPrefix(p, "**"), "/") <= 2 && !strings.ContainsAny(strings.TrimPrefix(p, "**"), "* .") || p == "**/a/b/a" || p == "/a/b/a/" {
			core = append(core, i)
		}
	}
	cps := paths([]string{"a", "ab", "b"}, 3)
	index := map[string]int{}
	for k, p := range ps {
		index[p] = k
	}
	c.Set("patterns", len(pats))
	c.Set("patterns in sets", len(core))
	c.Parallel(len(core)*len(core), func(n int) {
		i, j := core[n/len(core)], core[n%len(core)]
		c.Seen(fmt.Sprint(i, j))
		for _, p := range cps {
			k := index[p]
			two := ign[i][k] || ign[j][k]
			try(p, []string{pats[i], pats[j]}, two)
			if c.Stop() {
				return
			}
			for q, l := range core {
				if !c.Thorough() && q%2 != 0 {
					continue
				}
				try(p, []string{pats[i], pats[j], pats[l]}, two || ign[l][k])
			}
		}
	})
	p20Tree(c)
	c.Bound("all %d patterns of up to 3 components x all %d paths of up to 4 over names %q; all ordered pairs and triples of %d patterns; one tree of 39 files walked, built and searched with each of them and each pair", len(pats), len(ps), names, len(core))
}

// p20Tree asks builder, walk and searcher about a real tree.
func p20Tree(c *kit.Ctx) {
	root := filepath.Join(kit.Scratch, "p20")
	names := []string{"a", "ab", "b"}
	// directories are named with a suffix on disk only where a file has the name already, so files get .f
	var files []string
	var mk func(dir string, depth int)
	mk = func(dir string, depth int) {
		os.MkdirAll(filepath.Join(root, dir), 0o755)
		for _, n := range names {
			files = append(files, dir+"/"+n+".f")
			os.WriteFile(filepath.Join(root, dir, n+".f"), []byte("// SPDX-License-Identifier: MIT\n"), 0o644)
			if depth > 1 {
				mk(dir+"/"+n, depth-1)
			}
		}
	}
	mk("", 3)
	defer os.RemoveAll(root)
	sort.Strings(files)
	var pats []string
	for _, d := range append([]string{""}, paths(names, 2)...) {
		pats = append(pats, d+"/", "**"+d+"/")
		for _, f := range names[:2] {
			pats = append(pats, d+"/"+f+".f", "**"+d+"/"+f+".f")
		}
	}
	var sets [][]string
	sets = append(sets, nil)
	for i, p := range pats {
		sets = append(sets, []string{p})
		for j, q := range pats {
			if c.Thorough() || (i+j)%8 == 0 {
				sets = append(sets, []string{p, q})
			}
		}
	}
	c.Parallel(len(sets), func(n int) {
		set := sets[n]
		c.Seen(fmt.Sprintf("tree %q", set))
		var want []string
		for _, f := range files {
			if !refIgnoredBy(f, set) {
				want = append(want, "."+f)
			}
		}
		bad := func(who, what string) {
			c.Violate(fmt.Sprintf("tree/%s/%q", who, set), fmt.Sprintf("%s with patterns %q: %s", who, set, what), map[string]any{"files": files, "patterns": set})
		}
		compare := func(who string, got []string) {
			c.Evals.Add(1)
			sort.Strings(got)
			if fmt.Sprint(got) != fmt.Sprint(want) {
				bad(who, fmt.Sprintf("lists %d files instead of %d: %s", len(got), len(want), firstDiff(want, got)))
			}
		}
		walked, err := utils.GetAllFilePaths(root, set)
		if err != nil {
			bad("walk", err.Error())
		}
		for i := range walked {
			walked[i] = "." + walked[i]
		}
		compare("walk", walked)
		doc, err := builder.Build("p", root, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Person", Creator: "c", PathsIgnored: set})
		if err != nil {
			bad("builder", err.Error())
			return
		}
		var got []string
		for _, f := range doc.Packages[0].Files {
			got = append(got, f.FileName)
		}
		compare("builder", got)
		// the searcher: ignored files are listed but not searched
		doc, err = idsearcher.BuildIDsDocument("p", root, &idsearcher.Config{NamespacePrefix: "http://x.org/", SearcherPathsIgnored: set})
		if err != nil {
			bad("searcher", err.Error())
			return
		}
		got = nil
		if len(doc.Packages[0].Files) != len(files) {
			bad("searcher", "drops files it is not to search")
		}
		for _, f := range doc.Packages[0].Files {
			if f.LicenseConcluded == "MIT" {
				got = append(got, f.FileName)
			}
		}
		compare("searcher", got)
		if n%4 == 0 {
			doc, err = idsearcher.BuildIDsDocument("p", root, &idsearcher.Config{NamespacePrefix: "http://x.org/", BuilderPathsIgnored: set})
			if err != nil {
				bad("searcher's builder", err.Error())
				return
			}
			got = nil
			for _, f := range doc.Packages[0].Files {
				got = append(got, f.FileName)
			}
			compare("searcher's builder", got)
		}
	})
}

func firstDiff(want, got []string) string {
	m := map[string]int{}
	for _, w := range want {
		m[w]++
	}
	for _, g := range got {
		m[g]--
	}
	var keys []string
	for k, n := range m {
		if n != 0 {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	if len(keys) == 0 {
		return "order differs"
	}
	if m[keys[0]] > 0 {
		return keys[0] + " is missing"
	}
	return keys[0] + " is surplus"
}
