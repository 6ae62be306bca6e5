package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx"
)

func init() { register("P23", "exploration", runP23) }

const idTag = "SPDX-License-Identifier:"

// expr is a license expression as it stands in a line.
type expr struct {
	text  string
	comp  bool     // joined by AND or OR
	infos []string // the licenses and exceptions in it
}

// idLine is a line of a file and the expression it states, if any.
type idLine struct {
	text string
	e    *expr
}

var idExprs = []expr{
	{"MIT", false, []string{"MIT"}},
	{"Apache-2.0", false, []string{"Apache-2.0"}},
	{"GPL-2.0+", false, []string{"GPL-2.0"}},
	{"GPL-2.0-or-later", false, []string{"GPL-2.0-or-later"}},
	{"LicenseRef-x.1", false, []string{"LicenseRef-x.1"}},
	{"DocumentRef-d:LicenseRef-y", false, []string{"DocumentRef-d:LicenseRef-y"}},
	{"GPL-2.0-only WITH Classpath-exception-2.0", false, []string{"GPL-2.0-only", "Classpath-exception-2.0"}},
	{"GPL-2.0 with Bison-exception-2.2", false, []string{"GPL-2.0", "Bison-exception-2.2"}},
	{"MIT OR Apache-2.0", true, []string{"MIT", "Apache-2.0"}},
	{"MIT AND ISC", true, []string{"MIT", "ISC"}},
	{"MIT or ISC", true, []string{"MIT", "ISC"}},
	{"MIT\tAND\tZlib", true, []string{"MIT", "Zlib"}},
	{"MIT\tOR\tZlib", true, []string{"MIT", "Zlib"}},
	{"(MIT OR ISC)", true, []string{"MIT", "ISC"}},
	{"(MIT AND (ISC OR GPL-2.0+))", true, []string{"MIT", "ISC", "GPL-2.0"}},
	{"(GPL-2.0+ OR MIT) AND MIT", true, []string{"GPL-2.0", "MIT"}},
	{"MIT AND LicenseRef-OR", true, []string{"MIT", "LicenseRef-OR"}},
	{"ANDROID", false, []string{"ANDROID"}},
	{"FORWITH-ORAND", false, []string{"FORWITH-ORAND"}},
	{"NONE", false, []string{"NONE"}},
	{"(MIT)", false, []string{"MIT"}},
	{"", false, nil},
}

// prefixes of a line and whether the tag still counts as a short-form identifier
var idPrefixes = []struct {
	text string
	ok   bool
}{
	{"", true}, {"// ", true}, {"//", true}, {"# ", true}, {"/* ", true}, {" * ", true}, {"/**", true}, {"-- ", true}, {";; ", true}, {"% ", true},
	{"<!-- ", true}, {"(* ", true}, {"{- ", true}, {"dnl ", true}, {"REM ", true}, {"rem\t", true}, {"'", true}, {"\"", true}, {".. ", true}, {"! ", true},
	{"\xef\xbb\xbf// ", true}, {strings.Repeat(" ", 40), true}, {strings.Repeat("\t", 12) + "// ", true}, {"  \t # \t ", true},
	{"//////////////// ", true}, {"################", true}, {"****************", true}, {"=============== ", true},
	{"@", true}, {"$x = ", true}, {"\\\" ", true}, {"« ", true}, {"é", true},
	{"a", true}, {"ab", true}, {"abc", true}, {"abcd ", true}, {"abcde", true}, {"abcde ", true}, {"// abcde: ", true}, {"ab cd ", true},
	{"abcdef", false}, {"abcdef ", false}, {"abcdefg", false}, {"// abcdef: ", false}, {"abc def ", false}, {"the tag is ", false}, {"strings.Contains(line, \"", false},
	{"if line == '", false}, {strings.Repeat("x", 100), false}, {"# mentions the " + strings.Repeat(" ", 30), false}, {"mytext := \"// ", false},
}

var idSuffixes = []string{"", " ", "\t", "  \t ", " */", "*/", " **/", " -->", "-->", " *)", "*)", " -}", "\"", "'", ";", ",", " #", " /", " */ x", " --> </a>", " */ int abcdefgh;", "\"\"\"", "'''", "`", "\xc2\xa0", "!"}

func idSpaces(c *kit.Ctx) []string { return []string{" ", "", "\t", "   "} }

// lines gives prefix x expression x suffix.
func idLines(c *kit.Ctx) []idLine {
	var out []idLine
	add := func(p string, ok bool, sp string, e *expr, suf string) {
		l := idLine{p + idTag + sp + e.text + suf, e}
		if !ok || e.text == "" {
			l.e = nil
		}
		out = append(out, l)
	}
	for _, p := range idPrefixes {
		for i := range idExprs {
			for k, suf := range idSuffixes {
				for j, sp := range idSpaces(c) {
					if !c.Thorough() && j > 0 && k > 5 {
						continue
					}
					add(p.text, p.ok, sp, &idExprs[i], suf)
				}
			}
		}
	}
	for _, t := range []string{"", " ", "// a comment", "SPDX-License-Identifier MIT", "SPDX-License: MIT", "SPDX License Identifier: MIT", "spdx-license-identifier: MIT",
		"SPDX-FileCopyrightText: MIT", "SPDX-License-Identifier : MIT", "\x00\x01\xff", "SPDX-License-Identifier", "SPDX-LicenseInfoInFile: MIT", "License-Identifier: MIT"} {
		out = append(out, idLine{t, nil})
	}
	return out
}

// idFile is a file of lines.
type idFile struct {
	text string
	es   []*expr
	any  bool // the text ends the search somewhere; skip
}

func idFileOf(ls []idLine, eol string, last bool) idFile {
	var f idFile
	for i, l := range ls {
		f.text += l.text
		if i < len(ls)-1 || last {
			f.text += eol
		}
		if l.e != nil {
			f.es = append(f.es, l.e)
		}
	}
	return f
}

// infos gives the distinct expressions and the sorted licenses of a file.
func (f idFile) infos() (es []*expr, infos []string) {
	set := map[string]bool{}
	seen := map[string]bool{}
	for _, e := range f.es {
		if !seen[e.text] {
			seen[e.text] = true
			es = append(es, e)
		}
		for _, i := range e.infos {
			set[i] = true
		}
	}
	for i := range set {
		infos = append(infos, i)
	}
	sort.Strings(infos)
	return
}

func sortedEq(a, b []string) bool {
	a = append([]string(nil), a...)
	sort.Strings(a)
	return strings.Join(a, "\x00") == strings.Join(b, "\x00") && len(a) == len(b)
}

// conjunction tells whether s is the conjunction of the expressions, in any order.
func conjunction(s string, es []*expr) bool {
	var perm func(rest []*expr, s string) bool
	perm = func(rest []*expr, s string) bool {
		if len(rest) == 0 {
			return s == ""
		}
		for i, e := range rest {
			t := e.text
			if e.comp {
				t = "(" + t + ")"
			}
			tail, ok := strings.CutPrefix(s, t)
			if !ok {
				continue
			}
			left := append(append([]*expr(nil), rest[:i]...), rest[i+1:]...)
			if len(left) > 0 {
				if tail, ok = strings.CutPrefix(tail, " AND "); !ok {
					continue
				}
			}
			if perm(left, tail) {
				return true
			}
		}
		return false
	}
	if len(es) == 1 {
		return s == es[0].text
	}
	return perm(es, s)
}

// checkFound compares the license fields of a file.
func checkFound(got *spdx.File, f idFile, searched bool) string {
	es, infos := f.infos()
	if !searched || len(es) == 0 {
		if got.LicenseConcluded != "NOASSERTION" || len(got.LicenseInfoInFiles) != 1 || got.LicenseInfoInFiles[0] != "NOASSERTION" {
			return fmt.Sprintf("concluded %q, found %q instead of NOASSERTION", got.LicenseConcluded, got.LicenseInfoInFiles)
		}
		return ""
	}
	if !sortedEq(got.LicenseInfoInFiles, infos) {
		return fmt.Sprintf("found %q instead of %q", got.LicenseInfoInFiles, infos)
	}
	if !conjunction(got.LicenseConcluded, es) {
		var t []string
		for _, e := range es {
			t = append(t, e.text)
		}
		return fmt.Sprintf("concluded %q from %q", got.LicenseConcluded, t)
	}
	return ""
}

// checkSearched searches the tree at dir and compares everything.
func checkSearched(c *kit.Ctx, key, dir string, files map[string]idFile, buildIgn, searchIgn []string, compareBuild bool) {
	c.Evals.Add(1)
	var doc *spdx.Document
	var err error
	bad := func(name, what string) {
		c.Violate(key, fmt.Sprintf("file %q (%.200q): %s", name, files[name].text, what), map[string]any{"file": name, "text": files[name].text, "build_ignored": buildIgn, "search_ignored": searchIgn})
	}
	if p, stack := kit.Guard(func() {
		doc, err = idsearcher.BuildIDsDocument("pk", dir, &idsearcher.Config{NamespacePrefix: "http://x.org/", BuilderPathsIgnored: buildIgn, SearcherPathsIgnored: searchIgn})
	}); p != nil {
		bad("", fmt.Sprint("panic: ", p, " ", stack))
		return
	}
	if err != nil || doc == nil || len(doc.Packages) != 1 {
		bad("", fmt.Sprint("error: ", err))
		return
	}
	n := 0
	union := map[string]bool{}
	for name := range files {
		if !refIgnoredBy(name, buildIgn) {
			n++
		}
	}
	if len(doc.Packages[0].Files) != n {
		bad("", fmt.Sprintf("%d files instead of %d", len(doc.Packages[0].Files), n))
		return
	}
	for _, got := range doc.Packages[0].Files {
		name := strings.TrimPrefix(got.FileName, ".")
		f, ok := files[name]
		if !ok {
			bad(name, "is not in the tree")
			return
		}
		searched := !refIgnoredBy(name, searchIgn)
		if what := checkFound(got, f, searched); what != "" {
			bad(name, what)
			return
		}
		if _, infos := f.infos(); searched {
			for _, i := range infos {
				union[i] = true
			}
		}
	}
	var want []string
	for i := range union {
		want = append(want, i)
	}
	sort.Strings(want)
	if len(want) == 0 {
		want = []string{"NOASSERTION"}
	}
	if got := doc.Packages[0].PackageLicenseInfoFromFiles; strings.Join(got, "\x00") != strings.Join(want, "\x00") {
		bad("", fmt.Sprintf("package lists %q instead of %q", got, want))
		return
	}
	if !compareBuild {
		return
	}
	built, err := builder.Build("pk", dir, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Tool", Creator: "github.com/spdx/tools-golang/idsearcher", PathsIgnored: buildIgn})
	if err != nil {
		bad("", "build: "+err.Error())
		return
	}
	// everything but the licenses is as built
	doc.CreationInfo.Created, built.CreationInfo.Created = "", ""
	for _, d := range []*spdx.Document{doc, built} {
		d.Packages[0].PackageLicenseInfoFromFiles = nil
		for _, f := range d.Packages[0].Files {
			f.LicenseConcluded, f.LicenseInfoInFiles = "", nil
		}
	}
	if d := docs.Diff(docs.Canon(built), docs.Canon(doc)); d != "" {
		bad("", "differs from the built document in "+d)
	}
}

func runP23(c *kit.Ctx) {
	root := scratchDir(c, "p23")
	defer dropScratch()
	lines := idLines(c)
	c.Bound("single lines: %d prefixes x %d expressions x %d suffixes x spaces = %d", len(idPrefixes), len(idExprs), len(idSuffixes), len(lines))
	// batch runs many files in one tree: the searcher treats each file alone
	batch := func(key string, n int, file func(i int) idFile) {
		const per = 400
		c.Parallel((n+per-1)/per, func(b int) {
			dir := filepath.Join(root, fmt.Sprintf("%s-%d", key, b))
			os.MkdirAll(dir, 0o755)
			defer os.RemoveAll(dir)
			files := map[string]idFile{}
			for i := b * per; i < min((b+1)*per, n); i++ {
				f := file(i)
				name := fmt.Sprintf("/f%07d", i)
				files[name] = f
				os.WriteFile(dir+name, []byte(f.text), 0o644)
				c.Seen(f.text)
			}
			checkSearched(c, key, dir, files, nil, nil, false)
		})
	}
	eols := []string{"\n", "\r\n"}
	batch("line", 2*2*len(lines), func(i int) idFile {
		return idFileOf(lines[i/4:i/4+1], eols[i%2], i/2%2 == 0)
	})

	// sequences of lines of a core alphabet
	var core []idLine
	e := func(t string) *expr {
		for i := range idExprs {
			if idExprs[i].text == t {
				return &idExprs[i]
			}
		}
		panic(t)
	}
	for _, t := range []string{"MIT", "Apache-2.0", "GPL-2.0+", "MIT OR Apache-2.0", "(MIT OR ISC)", "MIT or ISC", "GPL-2.0 with Bison-exception-2.2", "DocumentRef-d:LicenseRef-y"} {
		core = append(core, idLine{"// " + idTag + " " + t, e(t)})
	}
	core = append(core, idLine{"/* " + idTag + " MIT */", e("MIT")}, idLine{"\t\t " + idTag + "MIT", e("MIT")}, idLine{"the tag is " + idTag + " ISC", nil}, idLine{"", nil}, idLine{"text", nil},
		idLine{"x" + strings.Repeat("y", 60000), nil}, idLine{"// " + idTag, nil})
	if c.Thorough() {
		for _, t := range idExprs {
			core = append(core, idLine{"# " + idTag + " " + t.text + " ", e(t.text)})
			if t.text == "" {
				core[len(core)-1].e = nil
			}
		}
	}
	// any two expressions in one file
	batch("exprs2", len(idExprs)*len(idExprs), func(i int) idFile {
		var ls []idLine
		for _, k := range []int{i % len(idExprs), i / len(idExprs)} {
			l := idLine{"# " + idTag + " " + idExprs[k].text, &idExprs[k]}
			if idExprs[k].text == "" {
				l.e = nil
			}
			ls = append(ls, l)
		}
		return idFileOf(ls, "\n", true)
	})
	depth := kit.Pick(c, 3, 4)
	if c.Thorough() {
		core = append(core[:13:13], core[14:]...) // without the long line at this depth
		core = core[:24]
	}
	n := 1
	for d := 1; d <= depth; d++ {
		n *= len(core)
		d, n := d, n
		batch(fmt.Sprintf("seq%d", d), n*2, func(i int) idFile {
			var ls []idLine
			for k, x := 0, i/2; k < d; k++ {
				ls = append(ls, core[x%len(core)])
				x /= len(core)
			}
			return idFileOf(ls, eols[(i/2)%2], i%2 == 0)
		})
	}
	c.Bound("all sequences of up to %d lines of %d core lines, LF and CRLF, with and without final line break", depth, len(core))

	// position of the line and size of the file around the buffer sizes
	var odd []idFile
	mit := idLine{"// " + idTag + " MIT", e("MIT")}
	for _, pad := range []int{1, 100, 4000, 4090, 4095, 4096, 4097, 8192, 32768, 65400, 65500, 65530} {
		long := idLine{strings.Repeat("x", pad), nil}
		for d := -2; d <= 2; d++ {
			if pad+d > 0 && pad+d < 65534 {
				odd = append(odd, idFileOf([]idLine{{strings.Repeat("x", pad+d), nil}, mit}, "\n", true), idFileOf([]idLine{mit, {strings.Repeat("z", pad+d), nil}}, "\n", false))
			}
		}
		odd = append(odd, idFileOf([]idLine{{strings.Repeat(" ", pad-1) + mit.text, mit.e}}, "\n", true))
		if pad > 100 {
			odd[len(odd)-1] = idFileOf([]idLine{{strings.Repeat(" ", pad-100) + mit.text, mit.e}}, "\n", true)
		}
		var many []idLine
		for i := 0; i < 200000/(pad+1)%2000; i++ {
			many = append(many, long)
		}
		odd = append(odd, idFileOf(append(many, mit), "\n", true), idFileOf(append([]idLine{mit}, many...), "\n", true))
	}
	// beyond 64 KiB: what stands before the line still counts
	odd = append(odd, idFileOf([]idLine{mit, {strings.Repeat("x", 70000), nil}}, "\n", true), idFileOf([]idLine{mit, {"a", nil}, {strings.Repeat("x", 1<<20), nil}}, "\n", true))
	var hundred []idLine
	for i := 0; i < 300; i++ {
		hundred = append(hundred, idLine{fmt.Sprintf("# %s LicenseRef-%03d", idTag, i), &expr{fmt.Sprintf("LicenseRef-%03d", i), false, []string{fmt.Sprintf("LicenseRef-%03d", i)}}})
	}
	odd = append(odd, idFileOf(hundred[:20], "\n", true), idFileOf(append(hundred[:20:20], hundred[:20]...), "\n", true))
	batch("odd", len(odd), func(i int) idFile { return odd[i] })
	c.Bound("%d files with lines and positions around the buffer sizes", len(odd))

	// trees of up to three files x patterns
	contents := []string{"", "// " + idTag + " MIT\n", "// " + idTag + " MIT OR ISC\n// " + idTag + " Zlib\n", "no id\n"}
	found := map[string]idFile{contents[0]: {}, contents[3]: {text: contents[3]}, contents[1]: {text: contents[1], es: []*expr{e("MIT")}},
		contents[2]: {text: contents[2], es: []*expr{{"MIT OR ISC", true, []string{"MIT", "ISC"}}, {"Zlib", false, []string{"Zlib"}}}}}
	leaf := func(n string) []entry {
		var out []entry
		for _, t := range contents {
			out = append(out, entry{name: n, kind: 'f', data: t})
		}
		return out
	}
	ts := trees([]string{"a", "b.c", "ab"}, leaf, 1, kit.Pick(c, 3, 4))
	pats := [][]string{nil, {"/a"}, {"/a/"}, {"**/a"}, {"**/a/"}, {"/a/b.c"}, {"**/b.c", "/ab"}, {"/a", "/a/"}, {"/a/ab", "**/b.c"}}
	c.Bound("%d trees with up to %d entries x %d search-ignore patterns x 3 build-ignore patterns", len(ts), kit.Pick(c, 3, 4), len(pats))
	c.Parallel(len(ts), func(i int) {
		dir := filepath.Join(root, fmt.Sprintf("tree-%d", i))
		if err := create(dir, ts[i], i%2 == 1); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		files := map[string]idFile{}
		for n, t := range treeFiles("", ts[i], nil) {
			files[n] = found[t]
		}
		for j, sp := range pats {
			if c.Stop() {
				return
			}
			spell := []string{dir, dir + "/", dir + "/.", filepath.Dir(dir) + "/./" + filepath.Base(dir)}[j%4]
			checkSearched(c, "tree", spell, files, [][]string{nil, {"/a/"}, {"**/ab"}}[(i+j)%3], sp, true)
		}
	})
	// odd names and links
	for _, n := range []string{"a b", "a:b", "é", "-x", "..x", "x.", "LICENSE", ".hidden", "a\nb", "%41", "a\\b"} {
		for _, sub := range []bool{false, true} {
			es := []entry{{name: n, kind: 'f', data: contents[1]}, {name: "link", kind: 'l', data: n}}
			if sub {
				es = []entry{{name: n, kind: 'd', sub: []entry{{name: n, kind: 'f', data: contents[2]}}}}
			}
			dir := filepath.Join(root, "odd")
			if err := create(dir, es, false); err != nil {
				panic(err)
			}
			files := map[string]idFile{}
			for n, t := range treeFiles("", es, nil) {
				files[n] = found[t]
			}
			checkSearched(c, "name", dir, files, nil, nil, true)
			os.RemoveAll(dir)
		}
	}
}
