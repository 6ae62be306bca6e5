//go:build osfault

package checks

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"

	"verifharness/kit"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"
)

func init() { register("P22", "fault_enumeration", runP22) }

// fsCall is one call of the build that looks at the tree.
type fsCall struct{ op, path string } // path under the root

// fsRun watches the calls under one root and interferes with them.
type fsRun struct {
	root   string
	mu     sync.Mutex
	off    atomic.Bool // the harness itself is at work
	calls  []fsCall
	before func(i int, c fsCall) error // called before each call
	read   func(c fsCall, b []byte) []byte
}

var fsRuns sync.Map // root -> *fsRun

func init() {
	find := func(path string) (*fsRun, string) {
		// roots are /X/p22.N; find the run a path belongs to
		i := strings.Index(path, "/p22.")
		if i < 0 {
			return nil, ""
		}
		j := strings.IndexByte(path[i+1:], '/')
		root := path
		if j >= 0 {
			root = path[:i+1+j]
		}
		r, ok := fsRuns.Load(root)
		if !ok {
			return nil, ""
		}
		return r.(*fsRun), path[len(root):]
	}
	os.VerifHook = func(op, path string) error {
		r, rel := find(path)
		if r == nil || r.off.Load() {
			return nil
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.before == nil {
			return nil
		}
		c := fsCall{op, filepath.Clean("/" + rel)}
		r.calls = append(r.calls, c)
		return r.before(len(r.calls)-1, c)
	}
	os.VerifRead = func(path string, b []byte) []byte {
		r, rel := find(path)
		if r == nil || r.off.Load() || r.read == nil {
			return b
		}
		return r.read(fsCall{"read", filepath.Clean("/" + rel)}, b)
	}
}

// what is built
type buildKind struct {
	name string
	do   func(root string, ign []string) (*spdx.Document, []string, error)
}

var buildKinds = []buildKind{
	{"build", func(root string, ign []string) (*spdx.Document, []string, error) {
		d, err := builder.Build("pk", root, &builder.Config{NamespacePrefix: "http://x.org/", CreatorType: "Person", Creator: "A", PathsIgnored: ign})
		return d, nil, err
	}},
	{"search", func(root string, ign []string) (*spdx.Document, []string, error) {
		d, err := idsearcher.BuildIDsDocument("pk", root, &idsearcher.Config{NamespacePrefix: "http://x.org/", BuilderPathsIgnored: ign})
		return d, nil, err
	}},
	{"package", func(root string, ign []string) (*spdx.Document, []string, error) {
		p, err := builder.BuildPackageSection("pk", root, ign)
		if p == nil {
			return nil, nil, err
		}
		return &spdx.Document{Packages: []*spdx.Package{p}}, nil, err
	}},
	{"walk", func(root string, ign []string) (*spdx.Document, []string, error) {
		l, err := utils.GetAllFilePaths(root, ign)
		return nil, l, err
	}},
}

// fileVersions is what a path may rightly be reported with: its contents at some time; absent if it
// may be left out.
type fileVersions struct {
	contents []string
	absent   bool
}

// checkFaulty compares the outcome of a build that was interfered with; mustFail if only an error is right.
func checkFaulty(kind string, doc *spdx.Document, list []string, err error, want map[string]fileVersions, mustFail bool) string {
	if err != nil {
		if doc != nil {
			return "an error and a document"
		}
		return ""
	}
	if mustFail {
		if doc != nil {
			return fmt.Sprintf("no error, and a document of %d files", len(doc.Packages[0].Files))
		}
		return fmt.Sprintf("no error, and the files %q", list)
	}
	got := map[string]bool{}
	if kind == "walk" {
		for _, l := range list {
			if got[l] {
				return "lists " + l + " twice"
			}
			got[l] = true
		}
	} else {
		if doc == nil || len(doc.Packages) != 1 {
			return "neither error nor document"
		}
		var sums []string
		for _, f := range doc.Packages[0].Files {
			n := strings.TrimPrefix(f.FileName, ".")
			if got[n] {
				return "lists " + n + " twice"
			}
			got[n] = true
			right := false
			for _, t := range want[n].contents {
				data := []byte(t)
				m := map[common.ChecksumAlgorithm]string{common.SHA1: fmt.Sprintf("%x", sha1.Sum(data)), common.SHA256: fmt.Sprintf("%x", sha256.Sum256(data)), common.MD5: fmt.Sprintf("%x", md5.Sum(data))}
				ok := len(f.Checksums) == 3
				for _, s := range f.Checksums {
					ok = ok && m[s.Algorithm] == s.Value
				}
				right = right || ok
			}
			if !right {
				return fmt.Sprintf("%s has checksums %v, which are not those of its contents", n, f.Checksums)
			}
			for _, s := range f.Checksums {
				if s.Algorithm == common.SHA1 {
					sums = append(sums, s.Value)
				}
			}
		}
		if c := doc.Packages[0].PackageVerificationCode; c == nil || c.Value != refCode(sums) {
			return fmt.Sprintf("the verification code %v is not that of the listed files", c)
		}
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if !got[n] && !want[n].absent {
			return "leaves out " + n
		}
		delete(got, n)
	}
	for n := range got {
		return "lists " + n + ", which is not there"
	}
	return ""
}

func runP22(c *kit.Ctx) {
	base := scratchDir(c, "faults")
	defer dropScratch()
	big := strings.Repeat("0123456789abcdef", 4200) // more than one read
	leaf := func(n string) []entry {
		switch n {
		case "b":
			return []entry{{name: n, kind: 'f', data: ""}, {name: n, kind: 'f', data: big}}
		}
		return []entry{{name: n, kind: 'f', data: n}}
	}
	budget := Count(c, 3, 5)
	ts := trees([]string{"a", "b", "d"}, leaf, 2, budget)
	ignores := [][]string{nil, {"/a"}, {"**/d/"}}
	c.Bound("%d trees of up to %d entries x %d ignore lists x %d ways to build: at every file-system call of the build each of the faults below; %s",
		len(ts), budget, len(ignores), len(buildKinds), "error once or for good (EACCES, EIO, ENOENT), error in mid-listing, short reads, and before the call: the path or a directory above removed, replaced by other contents, a directory or a link, moved away, or a file added")
	errs := []syscall.Errno{syscall.EACCES, syscall.EIO, syscall.ENOENT}
	c.Parallel(len(ts), func(ti int) {
		es := ts[ti]
		root := fmt.Sprintf("%s/p22.%d", base, ti)
		files := treeFiles("", es, nil)
		c.Seen(fmt.Sprint(es))
		reset := func() {
			os.RemoveAll(root)
			if err := create(root, es, false); err != nil {
				panic(err)
			}
		}
		reset()
		run := &fsRun{root: root}
		fsRuns.Store(root, run)
		defer fsRuns.Delete(root)
		defer os.RemoveAll(root)
		harness := func(f func()) { // file operations of the harness, from within a hook
			run.off.Store(true)
			f()
			run.off.Store(false)
		}
		// build runs one build under interference
		build := func(k buildKind, ign []string, before func(i int, c fsCall) error) (doc *spdx.Document, list []string, err error, p any) {
			run.calls, run.before = nil, before
			c.Evals.Add(1)
			p, _ = kit.Guard(func() { doc, list, err = k.do(root, ign) })
			run.before = nil
			return
		}
		for ki, k := range buildKinds {
			for ii, ign := range ignores {
				if ii > 0 && ki > 1 && !c.Thorough() {
					continue
				}
				want := map[string]fileVersions{}
				for n, t := range files {
					if !refIgnoredBy(n, ign) {
						want[n] = fileVersions{contents: []string{t}}
					}
				}
				ignoredPath := func(p string) bool { // nothing that is listed is at or under p
					for n := range want {
						if p == "/" || n == p || strings.HasPrefix(n, p+"/") {
							return false
						}
					}
					if _, ok := files[p]; ok {
						return true
					}
					// a directory none of whose files count: ignored if a pattern says so
					return refIgnoredBy(p+"/x", ign)
				}
				report := func(fault string, what string) {
					c.Violate(fmt.Sprintf("%s/%v/%v/%s", k.name, es, ign, fault), fmt.Sprintf("tree %v, ignoring %q, %s: %s: %s", es, ign, k.name, fault, what),
						map[string]any{"tree": fmt.Sprint(es), "ignored": ign, "operation": k.name, "fault": fault, "calls": fmt.Sprint(run.calls)})
				}
				outcome2 := func(fault string, right func() (want map[string]fileVersions, mustFail bool), before func(i int, c fsCall) error) {
					doc, list, err, p := build(k, ign, before)
					want, mustFail := right()
					if p != nil {
						report(fault, fmt.Sprint("panic: ", p))
					} else if what := checkFaulty(k.name, doc, list, err, want, mustFail); what != "" {
						report(fault, what)
					}
				}
				outcome := func(fault string, want map[string]fileVersions, mustFail bool, before func(i int, c fsCall) error) {
					outcome2(fault, func() (map[string]fileVersions, bool) { return want, mustFail }, before)
				}
				// undisturbed
				doc, list, err, p := build(k, ign, func(int, fsCall) error { return nil })
				if p != nil || err != nil {
					report("none", fmt.Sprint(p, err))
					continue
				} else if what := checkFaulty(k.name, doc, list, err, want, false); what != "" {
					report("none", what)
					continue
				}
				calls := append([]fsCall(nil), run.calls...)
				c.Add("file-system calls interfered with", int64(len(calls)))
				// short reads are no faults
				for _, n := range []int{1, 7, 4096} {
					if len(files["/b"]) > 0 && n == 1 && !c.Thorough() {
						continue
					}
					run.read = func(_ fsCall, b []byte) []byte { return b[:min(n, len(b))] }
					outcome(fmt.Sprintf("reads of %d bytes", n), want, false, func(int, fsCall) error { return nil })
					run.read = nil
				}
				seen := map[string]bool{}
				for i, call := range calls {
					if c.Stop() {
						return
					}
					for _, e := range errs {
						outcome(fmt.Sprintf("%v once at call %d, %s of %s", e, i, call.op, call.path), want, false, func(j int, _ fsCall) error {
							if j == i {
								return e
							}
							return nil
						})
						if seen[call.path+call.op+e.Error()] {
							continue
						}
						seen[call.path+call.op+e.Error()] = true
						must := !ignoredPath(call.path) && (call.op == "open" && k.name != "walk" || call.op == "readdir" || call.op == "read" && k.name != "walk")
						if _, isFile := files[call.path]; !isFile && call.op == "open" {
							must = !ignoredPath(call.path)
						}
						outcome(fmt.Sprintf("%v at every %s of %s", e, call.op, call.path), want, must, func(_ int, x fsCall) error {
							if x.op == call.op && x.path == call.path {
								return e
							}
							return nil
						})
						if !seen[call.path+e.Error()] {
							seen[call.path+e.Error()] = true
							_, isFile := files[call.path]
							outcome(fmt.Sprintf("%v at every call on %s", e, call.path), want, !ignoredPath(call.path) && (!isFile || k.name != "walk"), func(_ int, x fsCall) error {
								if x.path == call.path {
									return e
								}
								return nil
							})
						}
					}
				}
				// the tree changes while it is being read
				var paths []string
				var collect func(pre string, es []entry)
				dirs := map[string]bool{}
				collect = func(pre string, es []entry) {
					for _, e := range es {
						paths = append(paths, pre+"/"+e.name)
						if e.kind == 'd' {
							dirs[pre+"/"+e.name] = true
							collect(pre+"/"+e.name, e.sub)
						}
					}
				}
				collect("", es)
				type change struct {
					name  string
					do    func(p string)
					gone  bool   // the path (and all under it) is no more
					to    string // contents it has afterwards
					file  bool   // for files only
					other bool   // there is something there afterwards that is no file
				}
				changes := []change{
					{"removed", func(p string) { os.RemoveAll(p) }, true, "", false, false},
					{"moved away", func(p string) { os.Rename(p, filepath.Dir(root)+"/gone."+filepath.Base(root)) }, true, "", false, false},
					{"replaced by a directory", func(p string) { os.Remove(p); os.Mkdir(p, 0o755) }, true, "", true, true},
					{"replaced by a link", func(p string) { os.Remove(p); os.Symlink("nowhere", p) }, true, "", true, true},
					{"replaced by a file", func(p string) { os.RemoveAll(p); os.WriteFile(p, []byte("new"), 0o644) }, false, "new", false, false},
					{"rewritten", func(p string) { os.WriteFile(p+"~", []byte("new"), 0o644); os.Rename(p+"~", p) }, false, "new", true, false},
				}
				for i := range calls {
					for _, p := range paths {
						for _, ch := range changes {
							if c.Stop() {
								return
							}
							if ch.file && dirs[p] {
								continue
							}
							if !c.Thorough() && (ki > 1 || ii > 0) && ch.name != "removed" {
								continue
							}
							right := func() (map[string]fileVersions, bool) {
								// what the build has seen before the change tells what it may say
								w := map[string]fileVersions{}
								must := false
								listed := map[string]bool{} // directories whose entries have been asked for
								opened := map[string]bool{}
								looked := map[string]bool{} // paths whose kind has been asked for
								before := run.calls[:min(i, len(run.calls))]
								for n, x := range before {
									switch x.op {
									case "readdir":
										// all that is in it is known once something else is done
										listed[x.path] = n+1 < len(run.calls) && (n+1 < i || i < len(run.calls)) && run.calls[n+1] != x
									case "open":
										opened[x.path] = true
									case "lstat", "stat":
										looked[x.path] = true
									}
								}
								for n, v := range want {
									if n != p && !strings.HasPrefix(n, p+"/") {
										w[n] = v
										continue
									}
									nv := fileVersions{contents: v.contents}
									if !listed[filepath.Dir(n)] {
										// not known yet: it may be as if it had never been
										nv.absent = true
									}
									if !ch.gone && n == p {
										nv.contents = append([]string{ch.to}, v.contents...)
									}
									if (ch.gone || n != p) && listed[filepath.Dir(n)] && !opened[n] && k.name != "walk" {
										must = true // known, and cannot be read any more
									}
									if k.name == "walk" {
										nv.absent = true
									}
									if ch.other && !looked[n] {
										// its kind may be asked for now only, and then it is no file
										must, nv.absent = false, true
									}
									w[n] = nv
								}
								if !ch.gone && dirs[p] && !refIgnoredBy(p, ign) {
									w[p] = fileVersions{contents: []string{ch.to}, absent: true}
								}
								return w, must
							}
							outcome2(fmt.Sprintf("%s %s before call %d, %s of %s", p, ch.name, i, calls[i].op, calls[i].path), right, func(j int, _ fsCall) error {
								if j == i {
									harness(func() { ch.do(root + p) })
								}
								return nil
							})
							os.RemoveAll(filepath.Dir(root) + "/gone." + filepath.Base(root))
							reset()
						}
					}
				}
				// two errors in one build
				if c.Thorough() && ii == 0 {
					for i := range calls {
						for j := i + 1; j < len(calls)+2; j++ {
							outcome(fmt.Sprintf("EIO at calls %d and %d", i, j), want, false, func(n int, _ fsCall) error {
								if n == i || n == j {
									return syscall.EIO
								}
								return nil
							})
						}
					}
				}
			}
		}
	})
	// no such root, and roots that are not directories
	for _, k := range buildKinds {
		for _, r := range []string{base + "/nothing", base + "/nothing/x", "", base + "/file/x", base + "/loop", base + "/dangling", "/dev/null/x"} {
			os.WriteFile(base+"/file", []byte("x"), 0o644)
			os.Symlink("loop", base+"/loop")
			os.Symlink("nothing", base+"/dangling")
			if r == "" {
				continue
			}
			c.Evals.Add(1)
			var doc *spdx.Document
			var err error
			p, _ := kit.Guard(func() { doc, _, err = k.do(r, nil) })
			if p != nil || err == nil || doc != nil {
				c.Violate("root/"+k.name+"/"+filepath.Base(r), fmt.Sprintf("%s of %s: document %v, error %v, panic %v", k.name, r, doc != nil, err, p), nil)
			}
		}
	}
}
