package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifharness/docs"
	"verifharness/kit"
	"verifharness/rdfx"

	"github.com/spdx/tools-golang/builder"
	"github.com/spdx/tools-golang/convert"
	"github.com/spdx/tools-golang/idsearcher"
	"github.com/spdx/tools-golang/licensediff"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/spdx/v2/common"
	"github.com/spdx/tools-golang/spdxlib"
	"github.com/spdx/tools-golang/utils"
)

func init() { register("P33", "exploration", runP33) }

// step33 is one operation on what it is given in one state. What stands there before is changed in
// place into that state. It gives what came out, and, if that is to stay what it is, a way to look at it again.
type step33 struct {
	name string
	run  func() (out string, again func() string)
}

// assign33 makes dst what src is, keeping the pointers, maps and lists of dst wherever it can.
func assign33(dst, src reflect.Value) {
	switch dst.Kind() {
	case reflect.Ptr:
		if !dst.IsNil() && !src.IsNil() {
			assign33(dst.Elem(), src.Elem())
			return
		}
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			if dst.Type().Field(i).IsExported() {
				assign33(dst.Field(i), src.Field(i))
			}
		}
		return
	case reflect.Slice:
		if dst.Len() == src.Len() && !dst.IsNil() && !src.IsNil() {
			for i := 0; i < dst.Len(); i++ {
				assign33(dst.Index(i), src.Index(i))
			}
			return
		}
	case reflect.Map:
		if !dst.IsNil() && !src.IsNil() {
			for _, k := range dst.MapKeys() {
				if !src.MapIndex(k).IsValid() {
					dst.SetMapIndex(k, reflect.Value{})
				}
			}
			for _, k := range src.MapKeys() {
				if old := dst.MapIndex(k); old.IsValid() && old.Kind() == reflect.Ptr {
					assign33(old, src.MapIndex(k))
				} else {
					dst.SetMapIndex(k, src.MapIndex(k))
				}
			}
			return
		}
	}
	dst.Set(src)
}

const states33 = 9

// state33 is a document in one of its states.
func state33(v *docs.Version, k int) any {
	if k == 1 {
		return docs.Full(v, 2)
	}
	if k == 7 {
		return docs.Sparse(v, 2)
	}
	d := docs.Full(v, 1)
	set := func(typ, field string, f func(string) string) {
		docs.Each(d, typ, func(s reflect.Value) {
			if x := s.FieldByName(field); x.IsValid() {
				x.SetString(f(x.String()))
			}
		})
	}
	turned := func(s string) string { // as long as before
		b := []byte(s)
		for i := range b {
			switch {
			case b[i] >= 'a' && b[i] < 'z' || b[i] >= '0' && b[i] < '9':
				b[i]++
			}
		}
		return string(b)
	}
	switch k {
	case 2:
		set("Checksum", "Value", turned)
		set("PackageVerificationCode", "Value", turned)
	case 3:
		for _, f := range []string{"PackageLicenseConcluded", "PackageLicenseDeclared"} {
			set("Package", f, func(string) string { return "ISC" })
		}
		set("File", "LicenseConcluded", func(string) string { return "MIT OR ISC" })
	case 4:
		set("Package", "PackageName", turned)
		set("File", "FileName", func(s string) string { return s + "x" })
		set("Document", "DocumentName", turned)
	case 5:
		set("Relationship", "Relationship", func(string) string { return "DEPENDS_ON" })
		set("Relationship", "RelationshipComment", turned)
	case 6:
		for _, t := range []string{"Document", "Package", "File", "Snippet", "Annotation"} {
			for _, f := range []string{"DocumentComment", "PackageComment", "FileComment", "SnippetComment", "AnnotationComment"} {
				set(t, f, func(s string) string { return turned(s) + "\nand <more> & \"more\"" })
			}
		}
	case 8:
		set("Package", "PackageSPDXIdentifier", func(s string) string { return s + ".n" })
		set("File", "FileSPDXIdentifier", func(s string) string { return s + ".n" })
		set("Document", "DocumentNamespace", func(s string) string { return s + "/n" })
	}
	return d
}

// steps33 are all operations in all states; dir is a directory for those on directories.
func steps33(dir string) (out []step33) {
	for _, v := range docs.Versions {
		slot := docs.Full(v, 1)
		buf := make([]byte, 0, 1<<20)
		for k := 0; k < states33; k++ {
			set := func() any {
				docs.Normalize(slot)
				s := state33(v, k)
				docs.Normalize(s)
				assign33(reflect.ValueOf(slot).Elem(), reflect.ValueOf(s).Elem())
				return slot
			}
			for _, o := range p15Ops() {
				if o.latest && v.Num < 3 {
					continue
				}
				do := o.do
				out = append(out, step33{fmt.Sprintf("%s %s/%d", o.name, v.Name, k), func() (string, func() string) { return do(set()), nil }})
			}
			if v.Num == 3 {
				// what these give is looked at again after the next step
				kept := func(name string, do func(*spdx.Document) (any, error)) {
					out = append(out, step33{fmt.Sprintf("%s, kept %s/%d", name, v.Name, k), func() (string, func() string) {
						r, err := do(set().(*spdx.Document))
						look := func() string { return fmt.Sprint(docs.Canon(r), err) }
						return look(), look
					}})
				}
				kept("described", func(d *spdx.Document) (any, error) { return spdxlib.GetDescribedPackageIDs(d) })
				kept("filter", func(d *spdx.Document) (any, error) {
					return spdxlib.FilterRelationships(d, func(r *spdx.Relationship) *common.ElementID {
						id := r.RefA.ElementRefID
						return &id
					})
				})
				kept("pairs", func(d *spdx.Document) (any, error) {
					return licensediff.MakePairs(d.Packages[0], d.Packages[len(d.Packages)-1])
				})
				kept("differences", func(d *spdx.Document) (any, error) {
					pairs, err := licensediff.MakePairs(d.Packages[0], &spdx.Package{})
					if err != nil {
						return nil, err
					}
					return licensediff.MakeResults(pairs)
				})
				kept("verification code", func(d *spdx.Document) (any, error) {
					return utils.GetVerificationCode(d.Packages[0].Files, "./f")
				})
			}
			for _, to := range docs.Versions {
				if to == v {
					continue
				}
				out = append(out, step33{fmt.Sprintf("converted to %s %s/%d", to.Name, v.Name, k), func() (string, func() string) {
					n := to.New()
					if err := convert.Document(set(), n); err != nil {
						return "error: " + err.Error(), nil
					}
					return docs.Canon(n), nil
				}})
			}
			// reading, from one buffer whose content changes
			read := func(name, text string, into func([]byte) (any, error), canon func(any) string) {
				out = append(out, step33{fmt.Sprintf("%s %s/%d", name, v.Name, k), func() (string, func() string) {
					buf = append(buf[:0], text...)
					d, err := into(buf)
					if err != nil {
						return "error: " + err.Error(), nil
					}
					return canon(d), func() string { return canon(d) }
				}})
			}
			for _, f := range forms {
				t, err := f.write(state33(v, k))
				if err != nil {
					panic(err)
				}
				rd := readerOf(f.name)
				read("read "+f.name, t, func(b []byte) (any, error) {
					n := v.New()
					return n, rd.into(bytes.NewReader(b), n)
				}, docs.Canon)
				if v.Num < 3 {
					read("read "+f.name+" as the latest", t, func(b []byte) (any, error) { return rd.read(bytes.NewReader(b)) }, docs.Canon)
				}
			}
			if v.Num > 1 {
				if up := rdfx.Up(state33(v, k)); rdfx.Fix(up) {
					rd := readerOf("rdf")
					read("read rdf", rdfx.Encode(up, rdfx.Opts{Spec: v.Const, Describe: true}).XML(rdfx.Shape{}), func(b []byte) (any, error) {
						n := v.New()
						return n, rd.into(bytes.NewReader(b), n)
					}, func(d any) string { return rdfx.Canon(d) })
				}
			}
		}
	}
	// a directory whose files change, keeping their lengths and times where they can
	old := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	for k, fs := range []map[string]string{
		{"a": "SPDX-License-Identifier: MIT\n", "d/b": "SPDX-License-Identifier: ISC\n"},
		{"a": "SPDX-License-Identifier: ISC\n", "d/b": "SPDX-License-Identifier: MIT\n"},
		{"a": "SPDX-License-Identifier: MIT\n", "d/c": "SPDX-License-Identifier: ISC\n"},
		{"a": "x", "d/b": "SPDX-License-Identifier: ISC OR MIT\n", "e": ""},
	} {
		set := func() {
			if err := os.RemoveAll(dir); err != nil {
				panic(err)
			}
			for n, t := range fs {
				p := filepath.Join(dir, n)
				os.MkdirAll(filepath.Dir(p), 0o755)
				if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
					panic(err)
				}
				os.Chtimes(p, old, old)
				os.Chtimes(filepath.Dir(p), old, old)
			}
		}
		add := func(name string, f func() (any, error)) {
			out = append(out, step33{fmt.Sprintf("%s /%d", name, k), func() (string, func() string) {
				set()
				d, err := f()
				if err != nil {
					return strings.ReplaceAll("error: "+err.Error(), dir, "DIR"), nil
				}
				look := func() string { return strings.ReplaceAll(docs.Canon(d), dir, "DIR") }
				return look(), look
			}})
		}
		add("build", func() (any, error) {
			return builder.Build("p", dir, &builder.Config{NamespacePrefix: "http://x/", CreatorType: "Person", Creator: "c", PathsIgnored: []string{"/e"}, TestValues: map[string]string{"Created": "2020-01-01T00:00:00Z"}})
		})
		add("search", func() (any, error) {
			d, err := idsearcher.BuildIDsDocument("p", dir, &idsearcher.Config{NamespacePrefix: "http://x/", BuilderPathsIgnored: []string{"/e"}})
			if d != nil && d.CreationInfo != nil {
				d.CreationInfo.Created = ""
			}
			return d, err
		})
		add("paths", func() (any, error) { return utils.GetAllFilePaths(dir, []string{"**/c"}) })
		add("hashes", func() (any, error) {
			a, b, c, err := utils.GetHashesForFilePath(filepath.Join(dir, "a"))
			return []string{a, b, c}, err
		})
	}
	return out
}

func (s step33) guarded() (out string, again func() string) {
	if p, _ := kit.Guard(func() { out, again = s.run() }); p != nil {
		return fmt.Sprint("panic: ", p), nil
	}
	return strings.ToValidUTF8(out, "?"), again
}

type found33 struct{ Key, What string }

type shard33 struct {
	Pairs, Triples int64
	Cut            bool
	Found          []found33
}

// runP33: what an operation gives depends on what it is given, not on what was done before. The
// reference of a step is its result as the first thing a process does.
func runP33(c *kit.Ctx) {
	if k := os.Getenv("VERIF_P33"); k != "" {
		child33(c, k)
		os.Exit(0)
	}
	scratch := scratchDir(c, "p33")
	defer dropScratch()
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	child := func(k, dir string, in any, into any) {
		if in != nil {
			b, _ := json.Marshal(in)
			if err := os.WriteFile(dir+".in", b, 0o644); err != nil {
				panic(err)
			}
		}
		cmd := exec.Command(self, "-prop", "P33", "-tier", c.Tier, "-root", kit.Root, "-scratch", kit.Scratch)
		cmd.Env = append(os.Environ(), "VERIF_P33="+k, "VERIF_P33_DIR="+dir)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		b, err := cmd.Output()
		if err == nil {
			err = json.Unmarshal(b, into)
		}
		if err != nil {
			e := stderr.String()
			c.Violate("process/"+k, fmt.Sprintf("the process for %s ends: %v: %.300s", k, err, e), e)
		}
	}
	steps := steps33(scratch + "/none")
	ref := make([]string, len(steps))
	c.Parallel(len(steps), func(i int) {
		child("ref "+strconv.Itoa(i), fmt.Sprintf("%s/r%d", scratch, i), nil, &ref[i])
		os.RemoveAll(fmt.Sprintf("%s/r%d", scratch, i))
		c.Evals.Add(1)
	})
	c.Set("steps", len(steps))
	const shards = 8
	c.Bound("all ordered pairs of %d steps: each operation (reading, writing, converting, validating, comparing, reporting, building, searching) in each of %d states of what it is given, which is changed in place from one state to the next; all triples of states of each operation; each result compared with that of a process that did nothing before, and what was read, built or found looked at again after the next step", len(steps), states33)
	if c.Stop() {
		return
	}
	c.ParallelW(shards, func(_, i int) {
		var r shard33
		child(fmt.Sprintf("shard %d %d", i, shards), fmt.Sprintf("%s/s%d", scratch, i), ref, &r)
		mu.Lock()
		defer mu.Unlock()
		c.Evals.Add(r.Pairs + r.Triples)
		c.Distinct.Add(r.Pairs + r.Triples)
		c.Add("pairs", r.Pairs)
		c.Add("triples", r.Triples)
		if r.Cut {
			c.Add("shards cut short", 1)
		}
		for _, f := range r.Found {
			c.Violate(f.Key, f.What, f)
		}
	})
	c.Sample(steps[0].name + ", then " + steps[len(steps)-1].name)
}

// child33 is what a process started by runP33 does: one step, or a share of the pairs and triples.
func child33(c *kit.Ctx, what string) {
	dir := os.Getenv("VERIF_P33_DIR")
	steps := steps33(dir)
	put := func(x any) {
		b, err := json.Marshal(x)
		if err != nil {
			panic(err)
		}
		os.Stdout.Write(b)
	}
	if n, ok := strings.CutPrefix(what, "ref "); ok {
		i, _ := strconv.Atoi(n)
		out, _ := steps[i].guarded()
		put(out)
		return
	}
	var me, shards int
	fmt.Sscanf(what, "shard %d %d", &me, &shards)
	var ref []string
	b, err := os.ReadFile(dir + ".in")
	if err == nil {
		err = json.Unmarshal(b, &ref)
	}
	if err != nil {
		panic(err)
	}
	var r shard33
	history := func(is ...int) {
		var looks []func() string
		var names []string
		for n, i := range is {
			out, again := steps[i].guarded()
			names = append(names, steps[i].name)
			if out != ref[i] {
				r.Found = append(r.Found, found33{strings.Join(names, ", "), fmt.Sprintf("%q gives another result than on its own: %s", names, diff33(ref[i], out))})
			}
			for k, look := range looks {
				if look == nil {
					continue
				}
				if now := strings.ToValidUTF8(look(), "?"); now != ref[is[k]] {
					r.Found = append(r.Found, found33{strings.Join(names, ", ") + " kept", fmt.Sprintf("what %q gave is another thing after %q: %s", names[k], names[n], diff33(ref[is[k]], now))})
				}
			}
			if again != nil && len(is) == 2 {
				looks = append(looks, again)
			} else {
				looks = append(looks, nil)
			}
		}
	}
	byOp := map[string][]int{}
	for i, s := range steps {
		n := s.name[:strings.LastIndex(s.name, "/")]
		byOp[n] = append(byOp[n], i)
	}
	for i := range steps {
		if i%shards != me {
			continue
		}
		mine := byOp[steps[i].name[:strings.LastIndex(steps[i].name, "/")]]
		for _, j := range mine {
			for _, k := range mine {
				if c.Expired() || len(r.Found) > 5 {
					r.Cut = c.Expired()
					put(r)
					return
				}
				r.Triples++
				history(i, j, k)
			}
		}
		for j := range steps {
			if c.Expired() || len(r.Found) > 5 {
				r.Cut = c.Expired()
				put(r)
				return
			}
			r.Pairs++
			history(i, j)
		}
	}
	put(r)
}

func diff33(want, have string) string {
	if !strings.Contains(want, "\n") || !strings.Contains(have, "\n") {
		return fmt.Sprintf("%.200q instead of %.200q", have, want)
	}
	return docs.Diff(want, have)
}
