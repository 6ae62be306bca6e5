package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
)

func init() { register("P19", "exploration", runP19) }

func contentOf(n, kind int) string {
	b := make([]byte, n)
	for i := range b {
		switch kind {
		case 1:
			b[i] = byte(i*7 + i>>8)
		case 2:
			b[i] = "\r\n \x1a\xef\xbb\xbf"[i%7]
		}
	}
	return string(b)
}

func runP19(c *kit.Ctx) {
	root := scratchDir(c, "p19")
	defer dropScratch()
	cfg := func(ign ...string) *builder.Config {
		return &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Organization", Creator: "C", PathsIgnored: ign}
	}
	build := func(key string, dir string, pkg string, es []entry, ign []string) string {
		c.Evals.Add(1)
		want := treeFiles("", es, nil)
		for n := range want {
			if refIgnoredBy(n, ign) {
				delete(want, n)
			}
		}
		bad := func(what string) {
			c.Violate(key, fmt.Sprintf("tree %v built as %q: %s", es, dir, what), map[string]any{"tree": fmt.Sprint(es), "root": dir, "ignored": ign})
		}
		order := ""
		done := make(chan struct{})
		go func() {
			defer close(done)
			var what string
			if p, _ := kit.Guard(func() {
				conf := cfg(ign...)
				doc, err := builder.Build(pkg, dir, conf)
				if err != nil {
					what = "error: " + err.Error()
					return
				}
				if what = checkBuilt(doc, pkg, "http://x.org/"+pkg, want); what == "" {
					order = fileOrder(doc)
					if cr := doc.CreationInfo.Creators; cr[0].CreatorType != "Tool" || cr[1].CreatorType != "Organization" || cr[1].Creator != "C" {
						what = fmt.Sprintf("creators are %v", cr)
					} else if t, err := time.Parse("2006-01-02T15:04:05Z", doc.CreationInfo.Created); err != nil || time.Since(t).Abs() > 24*time.Hour {
						what = "created is " + doc.CreationInfo.Created
					}
				}
			}); p != nil {
				what = fmt.Sprint("panic: ", p)
			}
			if what != "" {
				bad(what)
			}
		}()
		select {
		case <-done:
		case <-time.After(30 * time.Second):
			bad("the build does not end")
		}
		return order
	}
	// all small trees
	leaf := func(n string) []entry {
		return []entry{{name: n, kind: 'f', data: n}, {name: n, kind: 'f', data: ""}, {name: n, kind: 'l', data: "."}, {name: n, kind: 'l', data: "a"}, {name: n, kind: 'p'}}
	}
	ts := trees([]string{"a", "b", "a.b"}, leaf, 2, Count(c, 5, 6))
	c.Set("trees", len(ts))
	c.Parallel(len(ts), func(i int) {
		c.Seen(fmt.Sprint(ts[i]))
		dir := fmt.Sprint(root, "/t", i)
		order := ""
		for k, rev := range []bool{false, true} {
			if rev && len(treeFiles("", ts[i], nil)) < 2 {
				break
			}
			if err := create(dir, ts[i], rev); err != nil {
				panic(err)
			}
			o := build(fmt.Sprint(ts[i]), dir, "p", ts[i], nil)
			if k > 0 && o != order {
				c.Violate("order/"+fmt.Sprint(ts[i]), fmt.Sprintf("tree %v: the order of files depends on the order in which they were created", ts[i]), nil)
			}
			order = o
			os.RemoveAll(dir)
		}
	})
	// odd names, alone, in pairs and as directories; many entries; deep trees; contents at block boundaries
	odd := []string{"a b", " lead", "trail ", ".hidden", "...", "..a", "a:b", "-", "%d%s", "*", "**", "~", "#x", "new\nline", "\xff\xfe", "ü", "u\u0308", "A", "a",
		"File0", "SPDXRef-File0", "Package-p", strings.Repeat("n", 255), "a\\b", "a.b", "a-b", "a!", "!", "\x01", "<text>", "LICENSE"}
	type special struct {
		name string
		es   []entry
	}
	var sp []special
	for _, n := range odd {
		sp = append(sp, special{"odd", []entry{{name: n, kind: 'f', data: n}}}, special{"odd dir", []entry{{name: n, kind: 'd', sub: []entry{{name: n, kind: 'f', data: "x"}, {name: "z", kind: 'd'}}}}},
			special{"odd link", []entry{{name: n, kind: 'l', data: "t"}, {name: "t", kind: 'd', sub: []entry{{name: "f", kind: 'f'}}}}})
		for _, m := range odd {
			if m != n {
				sp = append(sp, special{"odd pair", []entry{{name: n, kind: 'f', data: "1"}, {name: m, kind: 'd', sub: []entry{{name: n, kind: 'f', data: "2"}, {name: m, kind: 'f', data: "3"}}}}})
			}
		}
	}
	var many []entry
	for i := 0; i < Count(c, 300, 1100); i++ {
		many = append(many, entry{name: fmt.Sprint(i), kind: 'f', data: fmt.Sprint(i % 7)})
	}
	sp = append(sp, special{"many", many}, special{"empty", nil})
	deep := []entry{{name: "f", kind: 'f', data: "f"}}
	for i := 0; i < 12; i++ {
		deep = []entry{{name: "d", kind: 'd', sub: deep}, {name: "f", kind: 'f', data: fmt.Sprint(i)}}
		sp = append(sp, special{"deep", deep})
	}
	var sized []entry
	for _, n := range []int{0, 1, 2, 3, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 511, 512, 513, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 98303, 98304, 131073, Count(c, 1<<20+1, 9<<20+7)} {
		for k := 0; k < 3; k++ {
			e := entry{name: fmt.Sprintf("s%d.%d", n, k), kind: 'f', data: contentOf(n, k)}
			sp = append(sp, special{"size", []entry{e}})
			if n < 1<<20 {
				sized = append(sized, e)
			}
		}
	}
	sp = append(sp, special{"sizes", sized})
	c.Parallel(len(sp), func(i int) {
		s := sp[i]
		c.Seen(s.name + fmt.Sprint(s.es))
		dir := fmt.Sprint(root, "/s", i)
		if err := create(dir, s.es, false); err != nil {
			c.Add("not creatable", 1)
			os.RemoveAll(dir)
			return
		}
		o := build(s.name+"/"+fmt.Sprint(s.es), dir, "p", s.es, nil)
		if s.name == "many" || s.name == "odd pair" && i%5 == 0 {
			if o2 := build(s.name+"/again/"+fmt.Sprint(s.es), dir, "p", s.es, nil); o2 != o {
				c.Violate(s.name+"/order", "the order of files differs between two builds", nil)
			}
			build(s.name+"/ignoring/"+fmt.Sprint(s.es), dir, "p", s.es, []string{"/1", "**/a", "/a/"})
		}
		os.RemoveAll(dir)
	})
	p19Histories(c, root)
	p19Roots(c, root, build)
	c.Bound("all trees of up to %d entries (files, links, pipes, directories to depth 2) over 3 names in two creation orders; %d trees of odd names, sizes and depths; every spelling of the root x %d roots; package names",
		Count(c, 5, 6), len(sp), 8)
}

// p19Roots tries every spelling of the root, some of them from another working directory.
func p19Roots(c *kit.Ctx, base string, build func(key, dir, pkg string, es []entry, ign []string) string) {
	es := []entry{{name: "a", kind: 'f', data: "1"}, {name: "b", kind: 'd', sub: []entry{{name: "a", kind: 'f', data: "2"}, {name: "r", kind: 'd', sub: []entry{{name: "r", kind: 'f', data: "3"}}}}},
		{name: "r", kind: 'd', sub: []entry{{name: "r", kind: 'd', sub: []entry{{name: "r", kind: 'f', data: "4"}}}}}, {name: "up", kind: 'l', data: ".."}}
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	for i, name := range []string{"r", "r r", "a*[b]", "..r", ".r", "%s", "ü", "r.d-x"} {
		parent := fmt.Sprint(base, "/roots", i)
		dir := parent + "/" + name
		if err := create(dir, es, false); err != nil {
			panic(err)
		}
		os.MkdirAll(parent+"/x/y", 0o755)
		os.Symlink(name, parent+"/link")
		os.Symlink("link", parent+"/link2")
		os.Symlink(dir, parent+"/x/abs")
		os.Symlink("..", parent+"/x/up")
		order := ""
		try := func(cwd, spell string) {
			if err := os.Chdir(cwd); err != nil {
				panic(err)
			}
			c.Seen(cwd + " " + spell)
			rel, _ := filepath.Rel(parent, cwd)
			o := build(fmt.Sprintf("root/%s/in %s/%s", name, rel, strings.ReplaceAll(spell, parent, "P")), spell, "p", es, nil)
			if order != "" && o != "" && o != order {
				c.Violate(fmt.Sprintf("rootorder/%s/%s", name, spell), "the order of files depends on how the root is spelled: "+spell, nil)
			}
			if o != "" {
				order = o
			}
		}
		for _, s := range []string{dir, dir + "/", dir + "//", dir + "/.", dir + "/./", parent + "//" + name, parent + "/./" + name, parent + "/x/../" + name, dir + "/b/..", dir + "/b/../",
			parent + "/link", parent + "/link/", parent + "/link/.", parent + "/link2", parent + "/x/abs", parent + "/x/up/" + name, parent + "/link/b/.."} {
			try("/", s)
			if c.Stop() {
				return
			}
			try("/", s[1:])
			try(parent, s)
		}
		for _, s := range []string{name, "./" + name, name + "/", "./" + name + "/.", "x/../" + name, "link", "./link/", "link2", "x/abs", "../" + filepath.Base(parent) + "/" + name} {
			try(parent, s)
		}
		for _, s := range []string{".", "./", "", "../" + name, "b/..", "b/r/../..", "../link"} {
			try(dir, s)
		}
		for _, s := range []string{"..", "../", "../../" + name} {
			try(dir+"/b", s)
		}
		os.Chdir(old)
	}
	// the tree has paths in it that are spelled like parts of the root
	for i, suffix := range []string{"", "/r", "/..r", "/r/r"} {
		dir := fmt.Sprint(base, "/inner", i, suffix)
		real, err := filepath.EvalSymlinks(base)
		if err != nil {
			panic(err)
		}
		path := strings.Split(strings.Trim(strings.Replace(dir, base, real, 1), "/"), "/")
		for from := range path {
			for to := from + 1; to <= len(path); to++ {
				leaf := entry{name: "f", kind: 'f', data: fmt.Sprint(from, to)}
				for k := to - 1; k >= from; k-- {
					leaf = entry{name: path[k], kind: 'd', sub: []entry{leaf, {name: "g", kind: 'f', data: fmt.Sprint(k)}}}
				}
				es := []entry{leaf, {name: "f", kind: 'f', data: "f"}}
				if err := create(dir, es, false); err != nil {
					panic(err)
				}
				for _, s := range []string{dir, dir + "/", dir + "/./"} {
					build(fmt.Sprintf("inner%d/%d-%d", i, from, to), s, "p", es, nil)
				}
				c.Seen(fmt.Sprint("inner", i, from, to))
				os.RemoveAll(dir)
			}
		}
	}
	// the name of the package is the caller's
	dir := fmt.Sprint(base, "/roots0/r")
	for _, p := range []string{"p", "P-1.0", "a b", "a:b", "ünï", "a/b", "%d", "SPDXRef-x", "", "x_y", "File0", strings.Repeat("n", 300)} {
		c.Seen("name " + p)
		build("name/"+p, dir, p, es, nil)
	}
	// kinds of creators
	for _, t := range []string{"Person", "Organization", "Tool", "Whatever", "", "person"} {
		c.Evals.Add(1)
		doc, err := builder.Build("p", dir, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: t, Creator: "C"})
		want := t
		if want != "Organization" && want != "Tool" {
			want = "Person"
		}
		if err != nil || len(doc.CreationInfo.Creators) != 2 || doc.CreationInfo.Creators[1].CreatorType != want || doc.CreationInfo.Creators[1].Creator != "C" ||
			doc.CreationInfo.Creators[0].CreatorType != "Tool" {
			c.Violate("creator/"+t, fmt.Sprintf("creator type %q: %v, error %v", t, doc.CreationInfo.Creators, err), nil)
		}
	}
	for _, created := range []string{"2020-01-01T00:00:00Z", ""} {
		c.Evals.Add(1)
		doc, err := builder.Build("p", dir, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Tool", Creator: "C", TestValues: map[string]string{"Created": created}})
		if err != nil || created != "" && doc.CreationInfo.Created != created {
			c.Violate("created/"+created, fmt.Sprintf("creation time %q: %v", created, err), nil)
		}
	}
}
