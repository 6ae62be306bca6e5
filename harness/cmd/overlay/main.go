// Command overlay writes the instrumented copies of sources that a check builds with, and the
// overlay file that puts them in place. It fails when a source is not as expected.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

var (
	dir     = flag.String("dir", "", "where to write")
	repo    = flag.String("repo", "/repo", "the tree under test")
	variant = flag.String("variant", "", "maporder, osfault or sched")
	replace = map[string]string{}
)

func fail(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "overlay: "+f+"\n", a...)
	os.Exit(1)
}

func check(err error) {
	if err != nil {
		fail("%v", err)
	}
}

func read(path string) string {
	b, err := os.ReadFile(path)
	check(err)
	return string(b)
}

func write(path, text string) {
	check(os.MkdirAll(filepath.Dir(path), 0o755))
	check(os.WriteFile(path, []byte(text), 0o644))
}

// sub replaces text that must occur exactly n times.
func sub(path, text, old, new string, n int) string {
	if got := strings.Count(text, old); got != n {
		fail("%s: %q occurs %d times instead of %d", path, old, got, n)
	}
	return strings.ReplaceAll(text, old, new)
}

// over puts text in the place of the file at path.
func over(path, text string) {
	p := filepath.Join(*dir, "over", strings.ReplaceAll(strings.TrimPrefix(path, "/"), "/", "_"))
	write(p, text)
	replace[path] = p
}

func goEnv(name string) string {
	out, err := exec.Command("go", "env", name).Output()
	check(err)
	return strings.TrimSpace(string(out))
}

func copyTree(from, to string) {
	check(filepath.WalkDir(from, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if d.IsDir() {
			return os.MkdirAll(filepath.Join(to, rel), 0o755)
		}
		if !strings.HasSuffix(p, ".go") && d.Name() != "go.mod" || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(filepath.Join(to, rel), b, 0o644)
	}))
}

func main() {
	flag.Parse()
	mod := read("go.mod")
	mod = sub("go.mod", mod, "replace github.com/spdx/tools-golang => /repo", "replace github.com/spdx/tools-golang => "+*repo, 1)
	switch *variant {
	case "maporder":
		mapOrder()
		gordf(&mod)
	case "osfault":
		osFault()
	case "sched":
		mapOrder()
		gordf(&mod)
		sched()
	default:
		fail("unknown variant %q", *variant)
	}
	write(filepath.Join(*dir, "go.mod"), mod)
	write(filepath.Join(*dir, "go.sum"), read("go.sum"))
	b, err := json.Marshal(map[string]any{"Replace": replace})
	check(err)
	write(filepath.Join(*dir, "overlay.json"), string(b))
}

// mapOrder lets a hook choose where the walk over a map starts, and fixes the seeds of maps.
func mapOrder() {
	maps := filepath.Join(goEnv("GOROOT"), "src/internal/runtime/maps")
	p := maps + "/table.go"
	t := read(p)
	t = sub(p, t, "\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n",
		"\tif h := VerifHook; h != nil && m.used > 1 {\n\t\tit.entryOffset, it.dirOffset = h(m.used)\n\t} else {\n\t\tit.entryOffset, it.dirOffset = 0, 0\n\t}\n", 1)
	t = sub(p, t, "// Init initializes Iter for iteration.\n", "//go:linkname VerifHook\nvar VerifHook func(used uint64) (uint64, uint64)\n\n// Init initializes Iter for iteration.\n", 1)
	over(p, t)
	p = maps + "/map.go"
	t = sub(p, read(p), "m.seed = uintptr(rand())", "m.seed = 1", 4)
	over(p, t)
	// the same hashes in every process
	p = maps + "/runtime_alg.go"
	t = sub(p, read(p), "uintptr(bootstrapRand())", "uintptr(uint64(i+1) * 0x9E3779B97F4A7C15)", 1)
	t = sub(p, t, "key[i] = bootstrapRand()", "key[i] = uint64(i+1) * 0xBF58476D1CE4E5B9", 1)
	over(p, t)
}

// gordf makes the RDF library read blocks in the order they stand in the file and lets a hook order
// what it takes out of maps: natively both are left to chance.
func gordf(mod *string) {
	out, err := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/spdx/gordf").Output()
	check(err)
	to := filepath.Join(*dir, "gordf")
	copyTree(strings.TrimSpace(string(out)), to)
	if _, err := os.Stat(to + "/go.mod"); err != nil {
		write(to+"/go.mod", "module github.com/spdx/gordf\n\ngo 1.13\n")
	}
	p := to + "/rdfloader/parser/parser.go"
	write(p, sub(p, read(p), "go parser.parseBlock(", "parser.parseBlock(", 2))
	// the keys of nodes and triples, made faster
	p = to + "/rdfloader/parser/node.go"
	write(p, sub(p, read(p), `return fmt.Sprintf("(%v, %v)", node.NodeType, node.ID)`, `return "(" + string(node.NodeType) + ", " + node.ID + ")"`, 1))
	p = to + "/rdfloader/parser/parser_utils.go"
	write(p, sub(p, read(p), `	return fmt.Sprintf("{%v; %v; %v}", triple.Subject, triple.Predicate, triple.Object)`, `	if triple.Subject == nil || triple.Predicate == nil || triple.Object == nil {
		return fmt.Sprintf("{%v; %v; %v}", triple.Subject, triple.Predicate, triple.Object)
	}
	return "{" + triple.Subject.String() + "; " + triple.Predicate.String() + "; " + triple.Object.String() + "}"`, 1))
	p = to + "/rdfwriter/utils.go"
	t := read(p)
	t = sub(p, t, "	for key := range set {\n		retList = append(retList, set[key])\n	}\n	return retList\n",
		`	seen := map[string]bool{}
	for _, triple := range triples {
		if key := triple.Hash(); !seen[key] {
			seen[key] = true
			retList = append(retList, set[key])
		}
	}
	if VerifOrder != nil && len(retList) > 1 {
		perm := VerifOrder("triples", len(retList))
		out := make([]*parser.Triple, len(retList))
		for i, k := range perm {
			out[i] = retList[k]
		}
		return out
	}
	return retList
`, 1)
	t = sub(p, t, "			rootNodes = append(rootNodes, node)\n		}\n	}\n	return rootNodes\n",
		`			rootNodes = append(rootNodes, node)
		}
	}
	sort.Slice(rootNodes, func(a, b int) bool { return rootNodes[a].String() < rootNodes[b].String() })
	if VerifOrder != nil && len(rootNodes) > 1 {
		perm := VerifOrder("roots", len(rootNodes))
		out := make([]*parser.Node, len(rootNodes))
		for i, k := range perm {
			out[i] = rootNodes[k]
		}
		return out
	}
	return rootNodes
`, 1)
	t = sub(p, t, "	\"strings\"\n)\n", "	\"sort\"\n	\"strings\"\n)\n\n// VerifOrder gives the order in which n things are taken out of a map.\nvar VerifOrder func(kind string, n int) []int\n", 1)
	write(p, t)
	*mod += "\nreplace github.com/spdx/gordf => " + to + "\n"
}

// osFault lets a hook fail, or do something before, every call of package os that looks at files.
func osFault() {
	base := filepath.Join(goEnv("GOROOT"), "src/os")
	edit := func(name string, pairs ...string) {
		p := base + "/" + name
		t := read(p)
		for i := 0; i < len(pairs); i += 2 {
			t = sub(p, t, pairs[i], pairs[i+1], 1)
		}
		over(p, t)
	}
	hook := func(op, name, ret string) string {
		return "\tif h := VerifHook; h != nil {\n\t\tif e := h(\"" + op + "\", " + name + "); e != nil {\n\t\t\treturn " + ret + "\n\t\t}\n\t}\n"
	}
	pe := func(op, name string) string { return "&PathError{Op: \"" + op + "\", Path: " + name + ", Err: e}" }
	const of, od = "func openFileNolog(name string, flag int, perm FileMode) (*File, error) {\n", "func openDirNolog(name string) (*File, error) {\n"
	edit("file_unix.go", of, of+hook("open", "name", "nil, "+pe("open", "name")), od, od+hook("open", "name", "nil, "+pe("open", "name")),
		"func readlink(name string) (string, error) {\n", "func readlink(name string) (string, error) {\n"+hook("readlink", "name", "\"\", "+pe("readlink", "name")),
		"func newFile(", "// VerifHook is called before every call that looks at a file.\nvar VerifHook func(op, name string) error\n\n// VerifRead may change what is read.\nvar VerifRead func(name string, b []byte) []byte\n\nfunc newFile(")
	const st, ls, fs = "func statNolog(name string) (FileInfo, error) {\n", "func lstatNolog(name string) (FileInfo, error) {\n", "func (f *File) Stat() (FileInfo, error) {\n\tif f == nil {\n\t\treturn nil, ErrInvalid\n\t}\n"
	edit("stat_unix.go", st, st+hook("stat", "name", "nil, "+pe("stat", "name")), ls, ls+hook("lstat", "name", "nil, "+pe("lstat", "name")),
		fs, fs+hook("fstat", "f.name", "nil, "+pe("stat", "f.name")))
	const rd, ra = "\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n\tn, e := f.read(b)\n", "func (f *File) pread(b []byte, off int64) (n int, err error) {\n"
	edit("file.go", rd, "\tif err := f.checkValid(\"read\"); err != nil {\n\t\treturn 0, err\n\t}\n"+hook("read", "f.name", "0, "+pe("read", "f.name"))+"\tif h := VerifRead; h != nil {\n\t\tb = h(f.name, b)\n\t}\n\tn, e := f.read(b)\n")
	edit("file_posix.go", ra, ra+hook("read", "f.name", "0, e"))
	edit("dir_unix.go", "\t\t\td.nbuf, errno = f.pfd.ReadDirent(*d.buf)\n", "\t\t\tif h := VerifHook; h != nil {\n\t\t\t\tif e := h(\"readdir\", f.name); e != nil {\n\t\t\t\t\treturn names, dirents, infos, &PathError{Op: \"readdirent\", Path: f.name, Err: e}\n\t\t\t\t}\n\t\t\t}\n\t\t\td.nbuf, errno = f.pfd.ReadDirent(*d.buf)\n")
}

// sched puts a scheduling point before every statement and at the entry of every function of the
// repository. The points call a hook of a package that exists in the overlay only.
func sched() {
	const pkg = "github.com/spdx/tools-golang/verifsched"
	n := 0
	check(filepath.WalkDir(*repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if d.IsDir() {
			switch d.Name() {
			case "example", "examples", "testdata", "docs", ".git":
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		if t, k := points(p, pkg); k > 0 {
			over(p, t)
			n += k
		}
		return nil
	}))
	if n < 500 {
		fail("only %d scheduling points", n)
	}
	// pools of the library must not order the threads
	p := filepath.Join(goEnv("GOROOT"), "src/sync/pool.go")
	over(p, sub(p, read(p), "		if runtime_randn(4) == 0 {", "		if true {", 1))
	over(*repo+"/verifsched/verifsched.go", `package verifsched

import "sync"

// Pool is a sync.Pool of the repository: what was put last is got first, by any thread.
type Pool struct {
	New   func() any
	items []*item
}

type item struct {
	m sync.Mutex // what is done before Put happens before what is done after Get
	x any
}

//go:norace
func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	i := &item{x: x}
	i.m.Lock()
	i.m.Unlock()
	p.items = append(p.items, i)
}

//go:norace
func (p *Pool) Get() any {
	if n := len(p.items); n > 0 {
		i := p.items[n-1]
		p.items = p.items[:n-1]
		i.m.Lock()
		i.m.Unlock()
		return i.x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Hook is set before anything runs.
var Hook func(kind int)

// Detach and Attach stand around the creation of a goroutine.
var Detach, Attach = func() {}, func() {}

//go:norace
func S() {
	if h := Hook; h != nil {
		h(0)
	}
}

//go:norace
func F() {
	if h := Hook; h != nil {
		h(1)
	}
}
`)
}

// points gives the text of a file with its scheduling points, and how many there are.
func points(path, pkg string) (string, int) {
	text := read(path)
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, text, parser.SkipObjectResolution)
	check(err)
	type ins struct {
		at   int
		text string
	}
	var all []ins
	at := func(p token.Pos) int { return fset.Position(p).Offset }
	put := func(p token.Pos, t string) { all = append(all, ins{at(p), t}) }
	entries := map[*ast.BlockStmt]bool{}
	n, pools := 0, 0
	replaced := map[int]int{} // from an offset to another
	syncImported := false
	for _, i := range file.Imports {
		if i.Path.Value == `"sync"` && i.Name == nil {
			syncImported = true
		}
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			n++
			put(s.Pos(), "verifsched.S();")
			if g, ok := s.(*ast.GoStmt); ok {
				put(g.Pos(), "verifsched.Detach();")
				put(g.End(), ";verifsched.Attach()")
			}
		}
	}
	ast.Inspect(file, func(m ast.Node) bool {
		switch m := m.(type) {
		case *ast.FuncDecl:
			if m.Body != nil {
				entries[m.Body] = true
			}
		case *ast.FuncLit:
			entries[m.Body] = true
		case *ast.SelectorExpr:
			if x, ok := m.X.(*ast.Ident); ok && x.Name == "sync" && m.Sel.Name == "Pool" && syncImported {
				pools++
				replaced[at(m.Pos())] = at(m.End())
				put(m.Pos(), "verifsched.Pool")
			}
		case *ast.BlockStmt:
			if entries[m] {
				put(m.Lbrace+1, "verifsched.F();")
				if defers(m) {
					// after what was deferred and before the caller has the results
					put(m.Lbrace+1, "defer verifsched.F();")
				}
			}
			clauses := false
			for _, s := range m.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					clauses = true
				}
			}
			if !clauses {
				stmts(m.List)
			}
		case *ast.CaseClause:
			stmts(m.Body)
		case *ast.CommClause:
			stmts(m.Body)
		}
		return true
	})
	if n+pools == 0 {
		return text, 0
	}
	if pools > 0 {
		all = append(all, ins{len(text), "\nvar _ sync.Locker\n"})
	}
	put(file.Name.End(), `; import verifsched "`+pkg+`"`)
	sort.SliceStable(all, func(a, b int) bool { return all[a].at < all[b].at })
	var b strings.Builder
	last := 0
	for _, i := range all {
		b.WriteString(text[last:i.at])
		b.WriteString(i.text)
		last = i.at
		if end, ok := replaced[i.at]; ok && i.text == "verifsched.Pool" {
			last = end
		}
	}
	b.WriteString(text[last:])
	return b.String(), n + pools
}

// defers tells whether a function has a defer statement.
func defers(body *ast.BlockStmt) (found bool) {
	ast.Inspect(body, func(m ast.Node) bool {
		switch m.(type) {
		case *ast.FuncLit:
			return false
		case *ast.DeferStmt:
			found = true
		}
		return !found
	})
	return found
}
