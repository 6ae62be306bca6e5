package checks

import (
	"crypto/sha1"
	"fmt"
	"sort"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/utils"
)

func init() { register("P21", "exploration", runP21) }

func refCode(digests []string) string {
	d := append([]string(nil), digests...)
	sort.Strings(d)
	return fmt.Sprintf("%x", sha1.Sum([]byte(strings.Join(d, ""))))
}

func runP21(c *kit.Ctx) {
	// digests that differ at the front, in the middle and at the end, and sort differently from their files
	digests := []string{
		"0000000000000000000000000000000000000000", "ffffffffffffffffffffffffffffffffffffffff",
		"000000000000000000000000000000000000000a", "a94a8fe5ccb19ba61c4c0873d391e987982fbbd3", "a94a8fe5ccb19ba61c4d0873d391e987982fbbd3",
	}
	names := []string{"./a", "./b", "a", "", "./a/b"}
	other := []common.Checksum{{Algorithm: common.SHA256, Value: strings.Repeat("1", 64)}, {Algorithm: common.MD5, Value: digests[1][:32]},
		{Algorithm: common.SHA224, Value: digests[0]}, {Algorithm: common.SHA512, Value: digests[3]}}
	type fileSpec struct{ name, digest, layout int }
	layouts := [][]int{{-1}, {0, -1}, {-1, 1}, {0, -1, 1}, {2, 3, -1}, {-1, 2, 1, 0, 3}} // -1: the SHA1
	var specs []fileSpec
	for n := range names {
		for d := range digests {
			for l := range layouts {
				if l < 2 || (n+d)%3 == 0 || c.Thorough() && l < 4 {
					specs = append(specs, fileSpec{n, d, l})
				}
			}
		}
	}
	mk := func(s fileSpec) *spdx.File {
		f := &spdx.File{FileName: names[s.name], FileSPDXIdentifier: "F", LicenseConcluded: "MIT"}
		for _, l := range layouts[s.layout] {
			if l < 0 {
				f.Checksums = append(f.Checksums, common.Checksum{Algorithm: common.SHA1, Value: digests[s.digest]})
			} else {
				f.Checksums = append(f.Checksums, other[l])
			}
		}
		return f
	}
	excluded := append([]string{"./not there", "./A"}, names...)
	check := func(files []*spdx.File, list []fileSpec, ex string) {
		c.Evals.Add(1)
		var left []string
		for _, s := range list {
			if ex == "" || names[s.name] != ex {
				left = append(left, digests[s.digest])
			}
		}
		key := fmt.Sprintf("%v/%q", list, ex)
		bad := func(what string) {
			c.Violate(key, fmt.Sprintf("files %v, excluding %q: %s", describeFiles(files), ex, what), map[string]any{"files": describeFiles(files), "exclude": ex})
		}
		before := docs.Canon(files)
		code, err := utils.GetVerificationCode(files, ex)
		if err != nil {
			bad("error: " + err.Error())
			return
		}
		if want := refCode(left); code.Value != want {
			bad("code is " + code.Value + " instead of " + want)
		}
		if ex == "" && len(code.ExcludedFiles) != 0 || ex != "" && (len(code.ExcludedFiles) != 1 || code.ExcludedFiles[0] != ex) {
			bad(fmt.Sprintf("excluded files are %q", code.ExcludedFiles))
		}
		if docs.Canon(files) != before {
			bad("the files are changed: " + docs.Diff(before, docs.Canon(files)))
		}
	}
	check(nil, nil, "")
	check([]*spdx.File{}, nil, "./a")
	// every list of one and two files, in both orders
	c.Parallel(len(specs), func(i int) {
		a := specs[i]
		for _, ex := range excluded {
			check([]*spdx.File{mk(a)}, []fileSpec{a}, ex)
		}
		for _, b := range specs {
			if c.Stop() {
				return
			}
			c.Seen(fmt.Sprint(a, b))
			for _, ex := range excluded {
				check([]*spdx.File{mk(a), mk(b)}, []fileSpec{a, b}, ex)
			}
		}
	})
	// longer lists: every sequence of digests (so every permutation) up to a length
	maxLen := Count(c, 6, 8)
	d := Count(c, 4, 5)
	var lists [][]int
	var gen func(l []int)
	gen = func(l []int) {
		if len(l) >= 3 {
			lists = append(lists, append([]int(nil), l...))
		}
		if len(l) == maxLen {
			return
		}
		for k := 0; k < d; k++ {
			gen(append(l, k))
		}
	}
	gen(nil)
	c.Parallel(len(lists), func(i int) {
		l := lists[i]
		c.Seen(fmt.Sprint(l))
		var files []*spdx.File
		var list []fileSpec
		for k, dg := range l {
			s := fileSpec{k % len(names), dg, (k + i) % len(layouts)}
			files = append(files, mk(s))
			list = append(list, s)
		}
		check(files, list, excluded[i%len(excluded)])
		check(files, list, "")
		// a missing entry at every position is an error
		if i%7 == 0 {
			for k := range files {
				c.Evals.Add(1)
				fs := append([]*spdx.File(nil), files...)
				fs[k] = nil
				code, err := utils.GetVerificationCode(fs, excluded[i%len(excluded)])
				if err == nil || code.Value != "" {
					c.Violate(fmt.Sprintf("nil/%d/%d", k, len(l)), fmt.Sprintf("missing entry %d of %d: code %q, error %v", k, len(l), code.Value, err), l)
				}
			}
		}
	})
	for n := 1; n <= 3; n++ { // and in short lists
		for k := 0; k < n; k++ {
			fs := make([]*spdx.File, n)
			for i := range fs {
				if i != k {
					fs[i] = mk(specs[i])
				}
			}
			c.Evals.Add(1)
			if _, err := utils.GetVerificationCode(fs, ""); err == nil {
				c.Violate(fmt.Sprintf("nil/%d/%d", k, n), fmt.Sprintf("missing entry %d of %d is no error", k, n), nil)
			}
		}
	}
	// many files: hashing in blocks
	for _, n := range []int{63, 64, 65, 1000, 1001} {
		var files []*spdx.File
		var ds []string
		for i := 0; i < n; i++ {
			d := fmt.Sprintf("%x", sha1.Sum([]byte(fmt.Sprint(i))))
			ds = append(ds, d)
			files = append(files, &spdx.File{FileName: fmt.Sprint("./", i), Checksums: []common.Checksum{{Algorithm: common.SHA1, Value: d}}})
		}
		c.Evals.Add(1)
		code, err := utils.GetVerificationCode(files, "./0")
		if err != nil || code.Value != refCode(ds[1:]) {
			c.Violate(fmt.Sprintf("many/%d", n), fmt.Sprintf("%d files: code %s, error %v", n, code.Value, err), nil)
		}
	}
	c.Bound("all lists of up to 2 of %d files (names, digests, checksum layouts) x %d excluded names; all sequences of %d digests up to length %d; a missing entry at every position", len(specs), len(excluded), d, maxLen)
}

func describeFiles(files []*spdx.File) []string {
	var out []string
	for _, f := range files {
		if f == nil {
			out = append(out, "nil")
			continue
		}
		out = append(out, fmt.Sprintf("%q %v", f.FileName, f.Checksums))
	}
	return out
}
