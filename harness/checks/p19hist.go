package checks

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/spdx/v2/common"
)

// treeOp changes a tree of files on disk and the map of what is in it.
type treeOp struct {
	name string
	do   func(dir string, fs map[string]string) error
}

func treeOps() (ops []treeOp) {
	old := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	write := func(name, data string) {
		ops = append(ops, treeOp{fmt.Sprintf("%s=%q", name, data), func(dir string, fs map[string]string) error {
			p := dir + name
			if err := os.MkdirAll(p[:strings.LastIndex(p, "/")], 0o755); err != nil {
				return err
			}
			if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
				return err
			}
			fs[name] = data
			return os.Chtimes(p, old, old)
		}})
	}
	for _, n := range []string{"/a", "/d/a"} {
		write(n, "one")
		write(n, "two") // as long, and no later
		write(n, "")
	}
	write("/d2/a", "one")
	ops = append(ops, treeOp{"remove /a", func(dir string, fs map[string]string) error {
		delete(fs, "/a")
		return os.RemoveAll(dir + "/a")
	}}, treeOp{"remove /d", func(dir string, fs map[string]string) error {
		delete(fs, "/d/a")
		return os.RemoveAll(dir + "/d")
	}}, treeOp{"exchange /a and /d/a", func(dir string, fs map[string]string) error {
		a, ok1 := fs["/a"]
		b, ok2 := fs["/d/a"]
		if !ok1 || !ok2 {
			return nil
		}
		fs["/a"], fs["/d/a"] = b, a
		for _, m := range [][2]string{{"/a", "/t"}, {"/d/a", "/a"}, {"/t", "/d/a"}} {
			if err := os.Rename(dir+m[0], dir+m[1]); err != nil {
				return err
			}
		}
		return nil
	}}, treeOp{"/a becomes a link", func(dir string, fs map[string]string) error {
		delete(fs, "/a")
		if err := os.RemoveAll(dir + "/a"); err != nil {
			return err
		}
		return os.Symlink("d/a", dir+"/a")
	}})
	return ops
}

// p19Histories: builds of a tree that changes in between, each of which is to show it as it is then,
// and the parts the builder offers one by one, which are to be what a build puts together.
func p19Histories(c *kit.Ctx, root string) {
	ops := treeOps()
	depth := Count(c, 4, 5)
	var seqs [][]int
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) == depth {
			seqs = append(seqs, append([]int(nil), s...))
			return
		}
		for i := range ops {
			rec(append(s, i))
		}
	}
	rec(nil)
	c.Bound("all %d histories of %d changes out of %d to a tree (contents of the same length and time, removals, exchanges, a link in the place of a file), built after each; the builder's parts one by one", len(seqs), depth, len(ops))
	c.Parallel(len(seqs), func(i int) {
		dir := fmt.Sprint(root, "/h", i)
		if err := os.MkdirAll(dir, 0o755); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		fs := map[string]string{}
		label := ""
		for k, o := range seqs[i] {
			name := ops[o].name
			if err := ops[o].do(dir, fs); err != nil {
				// a link stands where a file is to be written: the rest of this history is not made
				c.Add("histories cut short", 1)
				return
			}
			if label += "; " + name; k == 0 {
				label = name
			}
			if _, ok := fs["/a"]; ok && strings.Contains(label, "becomes a link") {
				if st, err := os.Lstat(dir + "/a"); err != nil || !st.Mode().IsRegular() {
					return // was written through the link
				}
			}
			if k < depth-1 && i%pow(len(ops), depth-1-k) != 0 {
				// this beginning has been judged, but it is built all the same: it is the history of what follows
				builder.Build("p", dir, &builder.Config{NamespacePrefix: "n", CreatorType: "Tool", Creator: "C"})
				continue
			}
			c.Evals.Add(1)
			var what string
			if p, _ := kit.Guard(func() { what = builtNow(dir, fs) }); p != nil {
				what = fmt.Sprint("panic: ", p)
			}
			if what != "" {
				c.Violate("history/"+label, fmt.Sprintf("a tree after %q: %s", label, what), map[string]any{"history": label, "tree": fs})
				return
			}
			c.Seen(label)
		}
	})
	for _, n := range []int{0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 1 << 30} {
		c.Evals.Add(1)
		dir := root + "/one"
		os.MkdirAll(dir, 0o755)
		os.WriteFile(dir+"/f", []byte("x"), 0o644)
		f, err := builder.BuildFileSection("./f", dir, n)
		if err != nil || f.FileSPDXIdentifier != common.ElementID(fmt.Sprint("File", n)) {
			c.Violate(fmt.Sprint("file/", n), fmt.Sprintf("BuildFileSection for file %d gives %+v, %v", n, f, err), nil)
		}
		if _, err := builder.BuildFileSection("./none", dir, n); err == nil {
			c.Violate(fmt.Sprint("file/none/", n), "BuildFileSection of a file that is not there gives no error", nil)
		}
	}
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}

// builtNow builds dir in every way the builder offers and compares with what is in it.
func builtNow(dir string, fs map[string]string) string {
	doc, err := builder.Build("p", dir, &builder.Config{NamespacePrefix: "n", CreatorType: "Tool", Creator: "C"})
	if err != nil {
		return "error: " + err.Error()
	}
	if what := checkBuilt(doc, "p", "n", fs); what != "" {
		return what
	}
	same := func(what string, a, b any) string {
		if x, y := docs.Canon(a), docs.Canon(b); x != y {
			return what + " alone is not what a build has: " + docs.Diff(x, y)
		}
		return ""
	}
	pkg, err := builder.BuildPackageSection("p", dir, nil)
	if err != nil {
		return "BuildPackageSection: " + err.Error()
	}
	if what := same("the package", doc.Packages[0], pkg); what != "" {
		return what
	}
	for i, f := range doc.Packages[0].Files {
		g, err := builder.BuildFileSection(f.FileName, dir, i)
		if err != nil {
			return "BuildFileSection: " + err.Error()
		}
		if what := same("a file", f, g); what != "" {
			return what
		}
	}
	rel, err := builder.BuildRelationshipSection("p")
	if err != nil {
		return "BuildRelationshipSection: " + err.Error()
	}
	if what := same("the relationship", doc.Relationships[0], rel); what != "" {
		return what
	}
	ci, err := builder.BuildCreationInfoSection("Tool", "C", map[string]string{"Created": doc.CreationInfo.Created})
	if err != nil {
		return "BuildCreationInfoSection: " + err.Error()
	}
	return same("the creation info", doc.CreationInfo, ci)
}
