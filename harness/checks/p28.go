package checks

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"unicode/utf8"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

func init() { register("P28", "exploration", runP28) }

// madeDoc is a document made from a tree.
type madeDoc struct {
	doc    *spdx.Document
	files  map[string]string // path under the root -> contents
	pkg    string
	normal string
	report string
}

// latest gives the document in the newest version, made anew.
func latest(doc any) (*spdx.Document, error) {
	if d, ok := doc.(*spdx.Document); ok {
		return docs.Clone(d).(*spdx.Document), nil
	}
	out := &spdx.Document{}
	err := convert.Document(doc, out)
	return out, err
}

// normal prints a made document up to what no format needs to keep.
func normalMade(d *spdx.Document) string {
	d = docs.Clone(d).(*spdx.Document)
	for _, p := range d.Packages {
		p.IsFilesAnalyzedTagPresent = true
		sort.SliceStable(p.Files, func(a, b int) bool { return p.Files[a].FileSPDXIdentifier < p.Files[b].FileSPDXIdentifier })
	}
	return docs.Canon(d)
}

func makeDoc(pkg, dir string, files map[string]string, search bool) (*spdx.Document, error) {
	if search {
		return idsearcher.BuildIDsDocument(pkg, dir, &idsearcher.Config{NamespacePrefix: "http://x.org/"})
	}
	return builder.Build(pkg, dir, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Person", Creator: "A (a@b.c)"})
}

// usable checks a document of any version in every way the tools offer; "" if all is well.
func (m *madeDoc) usable(doc any) string {
	d, err := latest(doc)
	if err != nil {
		return "cannot be converted to the latest version: " + err.Error()
	}
	if what := checkBuilt(d, m.pkg, "http://x.org/"+m.pkg, m.files); what != "" {
		return what
	}
	if n := normalMade(d); n != m.normal {
		return "differs from the document made: " + docs.Diff(m.normal, n)
	}
	if err := spdxlib.ValidateDocument(d); err != nil {
		return "is not valid: " + err.Error()
	}
	ids, err := spdxlib.GetDescribedPackageIDs(d)
	if err != nil || len(ids) != 1 || ids[0] != d.Packages[0].PackageSPDXIdentifier {
		return fmt.Sprintf("describes %v (%v)", ids, err)
	}
	code, err := utils.GetVerificationCode(d.Packages[0].Files, "")
	if err != nil || !reflect.DeepEqual(code.Value, d.Packages[0].PackageVerificationCode.Value) {
		return fmt.Sprintf("has verification code %v, its files have %v (%v)", d.Packages[0].PackageVerificationCode, code, err)
	}
	if what := m.same(d.Packages[0]); what != "" {
		return what
	}
	var b bytes.Buffer
	if err := reporter.Generate(d.Packages[0], &b); err != nil {
		return "cannot be reported on: " + err.Error()
	}
	if b.String() != m.report {
		return fmt.Sprintf("has the report %q instead of %q", b.String(), m.report)
	}
	return ""
}

// same compares a package with the made one.
func (m *madeDoc) same(p *spdx.Package) string {
	for _, pair := range [][2]*spdx.Package{{m.doc.Packages[0], p}, {p, m.doc.Packages[0]}, {p, p}} {
		pairs, err := licensediff.MakePairs(pair[0], pair[1])
		if err != nil {
			return "pairs: " + err.Error()
		}
		r, err := licensediff.MakeResults(pairs)
		if err != nil {
			return "results: " + err.Error()
		}
		if len(r.InBothChanged)+len(r.InFirstOnly)+len(r.InSecondOnly) > 0 || len(r.InBothSame) != len(m.files) {
			return fmt.Sprintf("comparison reports differences: %+v", r)
		}
	}
	return ""
}

// tvName tells whether tag-value can carry a name on one line; textName whether it is text at all.
func tvName(n string) bool {
	return !strings.ContainsAny(n, "\n\r") && strings.TrimSpace(n) == n && !strings.Contains(n, "<text>")
}

func runP28(c *kit.Ctx) {
	root := scratchDir(c, "p28")
	defer dropScratch()
	// every pipeline of saves and reads up to a depth, from the made document
	walk := func(key string, m *madeDoc, depth int, tv bool) {
		var step func(doc any, v *docs.Version, path string, left int)
		step = func(doc any, v *docs.Version, path string, left int) {
			if left == 0 || c.Stop() {
				return
			}
			for _, f := range forms {
				if f == formTV && !tv {
					continue
				}
				text, err := f.write(doc)
				if err != nil {
					c.Violate(key+path+"/"+f.name, fmt.Sprintf("files %.300q, %s: %s of %s cannot be written: %v", m.files, path, f.name, v.Name, err), path)
					return
				}
				for _, to := range docs.Versions {
					c.Evals.Add(1)
					p := path + "/" + f.name + "-" + to.Name
					next := to.New()
					if err := f.read(text, next); err != nil {
						c.Violate(key+p, fmt.Sprintf("files %.300q, %s: %s of %s cannot be read into %s: %v", m.files, p, f.name, v.Name, to.Name, err), text)
						return
					}
					if got := reflect.ValueOf(next).Elem().FieldByName("SPDXVersion").String(); got != to.Const {
						c.Violate(key+p, p+" states version "+got, text)
						return
					}
					if what := m.usable(next); what != "" {
						c.Violate(key+p, fmt.Sprintf("files %.300q, %s: the document %s", m.files, p, what), text)
						return
					}
					step(next, to, p, left-1)
				}
			}
		}
		step(m.doc, docs.Versions[2], "", depth)
		// converting alone
		for _, a := range docs.Versions {
			for _, b := range docs.Versions {
				c.Evals.Add(1)
				x, y := a.New(), b.New()
				if err := convert.Document(m.doc, x); err != nil {
					c.Violate(key+"/convert-"+a.Name, "convert: "+err.Error(), nil)
				} else if err := convert.Document(x, y); err != nil {
					c.Violate(key+"/convert-"+a.Name+"-"+b.Name, "convert: "+err.Error(), nil)
				} else if what := m.usable(y); what != "" {
					c.Violate(key+"/convert-"+a.Name+"-"+b.Name, fmt.Sprintf("files %.300q, converted to %s and %s: the document %s", m.files, a.Name, b.Name, what), nil)
				}
			}
		}
	}
	setup := func(key, pkg, dir string, files map[string]string, search bool) *madeDoc {
		var doc *spdx.Document
		var err error
		if p, _ := kit.Guard(func() { doc, err = makeDoc(pkg, dir, files, search) }); p != nil || err != nil {
			c.Violate(key, fmt.Sprintf("files %.300q: cannot be made: %v %v", files, err, p), nil)
			return nil
		}
		m := &madeDoc{doc: doc, files: files, pkg: pkg, normal: normalMade(doc)}
		var b bytes.Buffer
		if err := reporter.Generate(doc.Packages[0], &b); err != nil {
			c.Violate(key, "report: "+err.Error(), nil)
			return nil
		}
		m.report = b.String()
		if what := m.usable(doc); what != "" {
			c.Violate(key, fmt.Sprintf("files %.300q: the document made %s", files, what), nil)
			return nil
		}
		return m
	}

	texts := []string{"", "x", "// " + idTag + " MIT\n", "# " + idTag + " GPL-2.0+ WITH X\n# " + idTag + " MIT OR ISC\n"}
	leaf := func(n string) []entry {
		var out []entry
		for _, t := range texts {
			out = append(out, entry{name: n, kind: 'f', data: t})
		}
		return append(out, entry{name: n, kind: 'l', data: "a"})
	}
	ts := trees([]string{"a", "b c", "a.b"}, leaf, 1, Count(c, 3, 4))
	depth := Count(c, 2, 3)
	c.Bound("%d trees of up to %d entries, built and searched, then every pipeline of up to %d saves and reads over 3 formats and 3 versions, each stage checked by digest, verification code, validation, described package, report and comparison",
		len(ts), Count(c, 3, 4), depth)
	c.Parallel(len(ts), func(i int) {
		es := ts[i]
		dir := filepath.Join(root, fmt.Sprint("t", i))
		if err := create(dir, es, false); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		files := treeFiles("", es, nil)
		for k, search := range []bool{false, true} {
			c.Seen(fmt.Sprint(es, search))
			key := fmt.Sprintf("tree/%v/%v", es, search)
			m := setup(key, "pk", dir, files, search)
			if m == nil {
				return
			}
			d := depth
			if c.Thorough() && i%9 != k {
				d--
			}
			walk(key, m, d, true)
			again, err := makeDoc("pk", dir, files, search)
			if err != nil {
				c.Violate(key+"/again", "made again: "+err.Error(), nil)
				return
			}
			again.CreationInfo.Created = m.doc.CreationInfo.Created
			if n := normalMade(again); n != m.normal {
				c.Violate(key+"/again", fmt.Sprintf("files %q: made again it differs: %s", files, docs.Diff(m.normal, n)), nil)
			} else if what := m.same(again.Packages[0]); what != "" {
				c.Violate(key+"/again", fmt.Sprintf("files %q: made again, %s", files, what), nil)
			}
		}
	})
	// odd file and package names
	odd := []string{"é", "a:b", "#x", "%41", "-", "SPDXRef-x", "SPDXID: SPDXRef-y", "File0", "\"q\"", "'", "null", "1.0", "true", "a\\b", "&<>", "</text>", "[x]", "{y}", "a\tb", "🦊", "~", "a,b", "(a)", "x ", " x", "<text>", "a\nb", "\x01", "\u2028", "!tag", "*a", "a: b", "a #b", "@", "`", "2024-01-01", "NONE", "NOASSERTION", "DocumentRef-a"}
	deep := Count(c, 1, 2)
	c.Bound("%d odd names as file, directory and package name, pipelines of up to %d", len(odd), deep)
	c.Parallel(len(odd)*3*2, func(i int) {
		n, kind, search := odd[i/6], i/2%3, i%2 == 1
		es := []entry{{name: n, kind: 'f', data: texts[3]}, {name: "z", kind: 'f', data: n}}
		pkg := "pk"
		switch kind {
		case 1:
			es = []entry{{name: n, kind: 'd', sub: []entry{{name: n, kind: 'f', data: texts[2]}}}}
		case 2:
			es = []entry{{name: "a", kind: 'f', data: texts[2]}}
			pkg = n
		}
		dir := filepath.Join(root, fmt.Sprint("o", i))
		if err := create(dir, es, false); err != nil {
			if kind == 2 {
				panic(err)
			}
			os.RemoveAll(dir)
			return
		}
		defer os.RemoveAll(dir)
		c.Seen(fmt.Sprint(es, pkg, search))
		key := fmt.Sprintf("odd/%q/%d/%v", n, kind, search)
		if m := setup(key, pkg, dir, treeFiles("", es, nil), search); m != nil && utf8.ValidString(n) {
			tv := tvName("x" + n)
			if kind == 2 {
				tv = tvName(n) // the name of a package stands at the beginning of the value
			}
			walk(key, m, deep, tv)
		}
	})
	p28Edits(c, root)
}

// p28Edits follows every history of edits to a tree: what the documents say must follow.
func p28Edits(c *kit.Ctx, root string) {
	type edit struct {
		name string
		do   func(m map[string]string)
	}
	names := []string{"/a", "/b", "/d/a"}
	var edits []edit
	for _, n := range names {
		for _, t := range []string{"", "1", "// " + idTag + " MIT\n"} {
			edits = append(edits, edit{"write " + n, func(m map[string]string) { m[n] = t }})
		}
		edits = append(edits, edit{"remove " + n, func(m map[string]string) { delete(m, n) }})
		for _, o := range names {
			if o != n {
				edits = append(edits, edit{"move " + n + " " + o, func(m map[string]string) {
					if t, ok := m[n]; ok {
						m[o] = t
						delete(m, n)
					}
				}})
			}
		}
	}
	licOf := func(m map[string]string, search bool) map[string]string {
		out := map[string]string{}
		for n, t := range m {
			out["."+n] = "NOASSERTION"
			if search && strings.Contains(t, idTag) {
				out["."+n] = "MIT"
			}
		}
		return out
	}
	start := []map[string]string{{}, {"/a": "1", "/b": "1"}, {"/a": "", "/d/a": "// " + idTag + " MIT\n", "/b": "1"}}
	depth := Count(c, 2, 3)
	n := len(edits)
	total := n
	for i := 1; i < depth; i++ {
		total *= n
	}
	c.Bound("every history of %d edits (%d kinds) of %d trees: digests, verification code and license comparison before and after", depth, n, len(start))
	c.Parallel(total*len(start), func(i int) {
		before := start[i%len(start)]
		files := map[string]string{}
		for k, v := range before {
			files[k] = v
		}
		dir := filepath.Join(root, fmt.Sprint("e", i))
		defer os.RemoveAll(dir)
		write := func() {
			os.RemoveAll(dir)
			os.MkdirAll(dir+"/d", 0o755)
			for n, t := range files {
				os.WriteFile(dir+n, []byte(t), 0o644)
			}
		}
		search := i%2 == 1
		write()
		c.Evals.Add(1)
		first, err := makeDoc("pk", dir, files, search)
		if err != nil {
			c.Violate("edit", "cannot be made: "+err.Error(), nil)
			return
		}
		var hist []string
		for x, k := i/len(start), 0; k < depth; k++ {
			e := edits[x%n]
			hist = append(hist, e.name)
			e.do(files)
			x /= n
		}
		if !c.Seen(fmt.Sprint(before, files, search)) {
			return // the same two trees have been compared
		}
		write()
		second, err := makeDoc("pk", dir, files, search)
		if err != nil {
			c.Violate("edit", fmt.Sprint("after ", hist, ": cannot be made: ", err), nil)
			return
		}
		bad := func(what string) {
			c.Violate("edit/"+fmt.Sprint(before, files, search), fmt.Sprintf("%q edited to %q: %s", before, files, what), hist)
		}
		if what := checkBuilt(second, "pk", "http://x.org/pk", files); what != "" {
			bad(what)
			return
		}
		sums := func(m map[string]string) []string {
			var out []string
			for _, t := range m {
				out = append(out, fmt.Sprintf("%x", sha1.Sum([]byte(t))))
			}
			sort.Strings(out)
			return out
		}
		same := strings.Join(sums(before), "") == strings.Join(sums(files), "")
		v1, v2 := first.Packages[0].PackageVerificationCode.Value, second.Packages[0].PackageVerificationCode.Value
		if same != (v1 == v2) {
			bad(fmt.Sprintf("verification codes %s and %s", v1, v2))
		}
		pairs, err := licensediff.MakePairs(first.Packages[0], second.Packages[0])
		if err != nil {
			bad(err.Error())
			return
		}
		r, err := licensediff.MakeResults(pairs)
		if err != nil || !reflect.DeepEqual(r, refDiff(licOf(before, search), licOf(files, search))) {
			bad(fmt.Sprintf("comparison gives %+v", r))
		}
	})
}
