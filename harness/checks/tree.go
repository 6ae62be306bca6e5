package checks

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"

	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
)

// entry is a directory entry of an enumerated tree.
type entry struct {
	name string
	kind byte // f file, d directory, l link, p named pipe, h hard link to an earlier file
	data string
	sub  []entry
}

func (e entry) String() string {
	switch e.kind {
	case 'd':
		return fmt.Sprintf("%q%v", e.name+"/", e.sub)
	case 'f':
		if len(e.data) > 20 {
			return fmt.Sprintf("%q(%d bytes)", e.name, len(e.data))
		}
		return fmt.Sprintf("%q=%q", e.name, e.data)
	}
	return fmt.Sprintf("%q%c%s", e.name, e.kind, e.data)
}

// create makes the entries in dir, in the order given or in reverse.
func create(dir string, es []entry, reverse bool) error {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	for i := range es {
		e := es[i]
		if reverse {
			e = es[len(es)-1-i]
		}
		p := dir + "/" + e.name
		var err error
		switch e.kind {
		case 'f':
			err = os.WriteFile(p, []byte(e.data), 0o644)
		case 'd':
			err = create(p, e.sub, reverse)
		case 'l':
			err = os.Symlink(e.data, p)
		case 'p':
			err = syscall.Mkfifo(p, 0o644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// files gives the regular files of a tree by their path under the root.
func treeFiles(prefix string, es []entry, out map[string]string) map[string]string {
	if out == nil {
		out = map[string]string{}
	}
	for _, e := range es {
		switch e.kind {
		case 'f':
			out[prefix+"/"+e.name] = e.data
		case 'd':
			treeFiles(prefix+"/"+e.name, e.sub, out)
		}
	}
	return out
}

// trees enumerates the trees with at most budget entries over the names, in directories up to a depth.
// leaf gives the entries other than directories that a name may be.
func trees(names []string, leaf func(string) []entry, depth, budget int) [][]entry {
	type part struct {
		es   []entry
		left int
	}
	var dir func(depth, budget int) []part
	dir = func(depth, budget int) []part {
		parts := []part{{nil, budget}}
		for _, n := range names {
			var next []part
			for _, p := range parts {
				next = append(next, p) // the name is not there
				if p.left == 0 {
					continue
				}
				for _, l := range leaf(n) {
					next = append(next, part{append(append([]entry(nil), p.es...), l), p.left - 1})
				}
				if depth > 0 {
					for _, s := range dir(depth-1, p.left-1) {
						next = append(next, part{append(append([]entry(nil), p.es...), entry{name: n, kind: 'd', sub: s.es}), s.left})
					}
				}
			}
			parts = next
		}
		return parts
	}
	var out [][]entry
	for _, p := range dir(depth, budget) {
		out = append(out, p.es)
	}
	return out
}

var idChars = regexp.MustCompile(`^[A-Za-z0-9.-]+$`)

// checkBuilt compares a built document with the tree; it gives "" or what is wrong.
func checkBuilt(doc *spdx.Document, packageName, nsPrefix string, want map[string]string) string {
	if doc == nil {
		return "no document"
	}
	if doc.SPDXVersion != "SPDX-2.3" || doc.DataLicense != "CC0-1.0" || doc.SPDXIdentifier != "DOCUMENT" || doc.DocumentName != packageName {
		return fmt.Sprintf("document states version %q, data license %q, identifier %q, name %q", doc.SPDXVersion, doc.DataLicense, doc.SPDXIdentifier, doc.DocumentName)
	}
	if !strings.HasPrefix(doc.DocumentNamespace, nsPrefix) {
		return "namespace is " + doc.DocumentNamespace
	}
	if doc.CreationInfo == nil || len(doc.CreationInfo.Creators) != 2 {
		return "creation info is incomplete"
	}
	if len(doc.Packages) != 1 || doc.Packages[0] == nil || len(doc.Files) != 0 {
		return fmt.Sprintf("%d packages, %d files outside", len(doc.Packages), len(doc.Files))
	}
	pkg := doc.Packages[0]
	if pkg.PackageName != packageName || !pkg.FilesAnalyzed {
		return fmt.Sprintf("package is %q, analysed %v", pkg.PackageName, pkg.FilesAnalyzed)
	}
	ids := map[common.ElementID]bool{"DOCUMENT": true}
	id := func(i common.ElementID) string {
		if ids[i] {
			return fmt.Sprintf("identifier %q is not unique", i)
		}
		ids[i] = true
		if !idChars.MatchString(string(i)) {
			return fmt.Sprintf("identifier %q has characters that are not allowed", i)
		}
		return ""
	}
	if s := id(pkg.PackageSPDXIdentifier); s != "" {
		return s
	}
	if len(doc.Relationships) != 1 || doc.Relationships[0].Relationship != "DESCRIBES" ||
		doc.Relationships[0].RefA != (common.DocElementID{ElementRefID: "DOCUMENT"}) ||
		doc.Relationships[0].RefB != (common.DocElementID{ElementRefID: pkg.PackageSPDXIdentifier}) {
		return "the document does not state that it describes the package"
	}
	var names, wantNames, sha1s []string
	for _, f := range pkg.Files {
		names = append(names, f.FileName)
	}
	for n := range want {
		wantNames = append(wantNames, "."+n)
	}
	sort.Strings(wantNames)
	sort.Strings(names)
	if len(names) != len(wantNames) || strings.Join(names, "\x00") != strings.Join(wantNames, "\x00") {
		return fmt.Sprintf("%d files instead of %d: %q", len(names), len(wantNames), firstDiff(wantNames, names))
	}
	for _, f := range pkg.Files {
		if s := id(f.FileSPDXIdentifier); s != "" {
			return s
		}
		data := []byte(want[f.FileName[1:]])
		sums := map[common.ChecksumAlgorithm]string{
			common.SHA1: fmt.Sprintf("%x", sha1.Sum(data)), common.SHA256: fmt.Sprintf("%x", sha256.Sum256(data)), common.MD5: fmt.Sprintf("%x", md5.Sum(data))}
		sha1s = append(sha1s, sums[common.SHA1])
		if len(f.Checksums) != len(sums) {
			return fmt.Sprintf("%q has %d checksums", f.FileName, len(f.Checksums))
		}
		for _, s := range f.Checksums {
			if sums[s.Algorithm] != s.Value {
				return fmt.Sprintf("%q has %s %s instead of %s", f.FileName, s.Algorithm, s.Value, sums[s.Algorithm])
			}
			delete(sums, s.Algorithm)
		}
	}
	if pkg.PackageVerificationCode == nil || pkg.PackageVerificationCode.Value != refCode(sha1s) || len(pkg.PackageVerificationCode.ExcludedFiles) != 0 {
		return fmt.Sprintf("verification code is %+v instead of %s", pkg.PackageVerificationCode, refCode(sha1s))
	}
	return ""
}

func fileOrder(doc *spdx.Document) string {
	var out []string
	for _, f := range doc.Packages[0].Files {
		out = append(out, f.FileName)
	}
	return strings.Join(out, "\x00")
}

// scratchDir gives an empty directory under the scratch space; in memory if possible, where
// directories list their entries in the order of creation.
func scratchDir(c *kit.Ctx, name string) string {
	base := kit.Scratch
	if d, err := os.MkdirTemp("/dev/shm", "verif."); err == nil {
		base = d
		shmDirs = append(shmDirs, d)
	}
	d := filepath.Join(base, name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

var shmDirs []string

func dropScratch() {
	for _, d := range shmDirs {
		os.RemoveAll(d)
	}
	shmDirs = nil
}
