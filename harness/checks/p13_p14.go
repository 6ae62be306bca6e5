package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"

	"verifharness/docs"
	"verifharness/kit"

	spdxjson "github.com/spdx/tools-golang/json"
	"github.com/spdx/tools-golang/reporter"
	"github.com/spdx/tools-golang/spdx"
	"github.com/spdx/tools-golang/tagvalue/reader"
)

func init() {
	register("P13", "fault_enumeration", runP13)
	register("P14", "fault_enumeration", runP14)
}

// source is a document in some format, with what reading it gives.
type source struct {
	name string
	rd   docReader
	ver  *docs.Version
	text string
	// cut tells whether the text cut after n bytes is recognisably incomplete
	cut func(n int) bool
}

func sources(c *kit.Ctx) []source {
	var out []source
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			if b.name == "full2" && !c.Thorough() || b.name == "full1" && v.Num < 3 && !c.Thorough() {
				continue
			}
			for _, f := range forms {
				var text string
				var err error
				if p, _ := kit.Guard(func() { text, err = f.write(b.doc) }); p != nil || err != nil {
					c.Violate("write/"+f.name+v.Name+b.name, fmt.Sprintf("%s: cannot write the %s document of %s: %v %v", f.name, b.name, v.Name, p, err), nil)
					continue
				}
				s := source{f.name + "/" + v.Name + "/" + b.name, readerOf(f.name), v, text, nil}
				switch f.name {
				case "tagvalue":
					s.cut = func(n int) bool { _, err := refPairs(text[:n]); return err != nil }
				case "json":
					end := len(strings.TrimRight(text, " \n"))
					s.cut = func(n int) bool { return n < end }
				default:
					s.cut = func(n int) bool { return false }
				}
				out = append(out, s)
			}
		}
	}
	for _, v := range docs.Versions[1:] {
		text := rdfSmall(specVersion(v.Const))
		end := strings.LastIndex(text, ">") + 1
		out = append(out, source{"rdf/" + v.Name, readerOf("rdf"), v, text, func(n int) bool { return n < end }})
	}
	return out
}

// stutter delivers nothing every now and then, and at most n bytes at a time.
type stutter struct {
	r     io.Reader
	n     int
	empty int // empty reads before each other
	left  int
}

func (s *stutter) Read(p []byte) (int, error) {
	if s.left > 0 {
		s.left--
		return 0, nil
	}
	s.left = s.empty
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

var errSource = errors.New("source failed")

func runP13(c *kit.Ctx) {
	srcs := sources(c)
	type job struct {
		s     source
		from  int
		to    int
		whole string // result of reading the whole
	}
	var jobs []job
	for _, s := range srcs {
		whole := s.ver.New()
		err, p := guardErr(func() error { return s.rd.into(strings.NewReader(s.text), whole) })
		if err != nil || p != nil {
			c.Violate(s.name+"/whole", fmt.Sprintf("%s: cannot be read: %v %v", s.name, err, p), clip(s.text))
			continue
		}
		c.Seen(s.name)
		w := docs.Canon(whole)
		for i := 0; i <= len(s.text); i += 256 {
			jobs = append(jobs, job{s, i, min(i+256, len(s.text)+1), w})
		}
	}
	// a fault after n bytes: the text up to there, then the error
	fault := func(s source, n int, kind string, r io.Reader, must bool, whole string) {
		c.Evals.Add(1)
		// a target of another version, filled; now and then of the same
		to := docs.Versions[(s.ver.Num+n)%3]
		target := docs.Sparse(to, 2)
		before := docs.Canon(target)
		err, p := guardErr(func() error { return s.rd.into(r, target) })
		after := docs.Canon(target)
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%s/%s/%d", s.name, kind, n), fmt.Sprintf("%s: %s after %d of %d bytes: %s", s.name, kind, n, len(s.text), what),
				map[string]any{"text": clip(s.text), "offset": n, "fault": kind})
		}
		switch {
		case p != nil:
			bad(fmt.Sprint("panic: ", p))
		case err == nil && must:
			bad("no error")
		case err != nil && after != before:
			bad("the caller's document is changed: " + docs.Diff(before, after))
		}
	}
	benign := func(s source, n int, kind string, r io.Reader, whole string) {
		c.Evals.Add(1)
		target := s.ver.New()
		err, p := guardErr(func() error { return s.rd.into(r, target) })
		bad := func(what string) {
			c.Violate(fmt.Sprintf("%s/%s/%d", s.name, kind, n), fmt.Sprintf("%s: %s at %d of %d: %s", s.name, kind, n, len(s.text), what),
				map[string]any{"text": clip(s.text), "offset": n, "delivery": kind})
		}
		switch {
		case p != nil:
			bad(fmt.Sprint("panic: ", p))
		case err != nil:
			bad("error: " + err.Error())
		default:
			if d := docs.Canon(target); d != whole {
				bad("reads different: " + docs.Diff(whole, d))
			}
		}
	}
	wrapped := fmt.Errorf("broken: %w", io.EOF)
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		b := []byte(j.s.text)
		for n := j.from; n < j.to; n++ {
			if c.Stop() {
				return
			}
			c.Seen(fmt.Sprint(j.s.name, n))
			fault(j.s, n, "failure", &chunkReader{pieces: cutAt(b[:n:n]), err: errSource}, true, j.whole)
			fault(j.s, n, "failure with data", &chunkReader{pieces: cutAt(b[:n:n]), withEOF: true, err: errSource}, true, j.whole)
			switch n % 3 {
			case 0:
				fault(j.s, n, "unexpected end", &chunkReader{pieces: cutAt(b[:n:n]), err: io.ErrUnexpectedEOF}, true, j.whole)
			case 1:
				fault(j.s, n, "wrapped end", &chunkReader{pieces: cutAt(b[:n:n]), err: wrapped}, true, j.whole)
			default:
				fault(j.s, n, "closed pipe", &chunkReader{pieces: cutAt(b[:n:n]), err: io.ErrClosedPipe}, true, j.whole)
			}
			if n < len(b) && j.s.cut(n) {
				fault(j.s, n, "cut", bytes.NewReader(b[:n:n]), true, j.whole)
			} else if n < len(b) {
				fault(j.s, n, "cut", bytes.NewReader(b[:n:n]), false, j.whole)
			}
			if n <= len(b) {
				benign(j.s, n, "split", &chunkReader{pieces: cutAt(b, n)}, j.whole)
				benign(j.s, n, "split, end with data", &chunkReader{pieces: cutAt(b, n), withEOF: true}, j.whole)
			}
		}
		if j.from == 0 {
			for _, k := range []int{1, 2, 3, 7, 16, 511, 512, 513, 4095, 4096, 4097} {
				for _, e := range []int{0, 1, 2} {
					benign(j.s, k, fmt.Sprintf("pieces with %d empty reads between", e), &stutter{r: bytes.NewReader(b), n: k, empty: e}, j.whole)
				}
			}
		}
	})
	// the line machine of tag-value under failure: pairs are never given
	texts := []string{"A: b", "A: b\n", "A: <text>b", "A: <text>b\n", "A: <text>b</text>", "# c", "\n", "", "A: b\nC: d", "A: b\nC"}
	for _, t := range texts {
		for n := 0; n <= len(t); n++ {
			for _, with := range []bool{false, true} {
				c.Evals.Add(1)
				var pairs []reader.TagValuePair
				err, p := guardErr(func() (e error) {
					pairs, e = reader.ReadTagValues(&chunkReader{pieces: cutAt([]byte(t[:n])), withEOF: with, err: errSource})
					return
				})
				if p != nil || err == nil || len(pairs) > 0 {
					c.Violate(fmt.Sprintf("pairs/%q/%d", t, n), fmt.Sprintf("tag-value pairs of %q failing after %d bytes: %v, error %v, panic %v", t, n, pairs, err, p), t)
				}
			}
		}
	}
	c.Bound("every byte offset of %d documents in four formats x five kinds of failure, truncation, split and end delivery; piece sizes around the buffer sizes with empty reads", len(srcs))
}

// faultWriter fails in one of several ways and keeps what it accepted.
type faultWriter struct {
	limit int    // accepts that many bytes before it fails
	kind  string // permanent, once, short, full
	got   []byte
	hit   bool
}

var errDest = errors.New("destination failed")

func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit && w.kind != "permanent" {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	room := w.limit - len(w.got)
	if w.hit {
		room = 0
	}
	if len(p) <= room && !w.hit {
		w.got = append(w.got, p...)
		return len(p), nil
	}
	w.hit = true
	switch w.kind {
	case "full": // takes all of it, but says that it failed
		w.got = append(w.got, p...)
		return len(p), errDest
	case "short": // takes less without saying so
		w.got = append(w.got, p[:room]...)
		return room, nil
	case "nothing": // refuses the whole write once
		return 0, errDest
	}
	w.got = append(w.got, p[:room]...)
	return room, errDest
}

func runP14(c *kit.Ctx) {
	type out struct {
		name  string
		write func(io.Writer) error
		big   bool
	}
	var outs []out
	for _, v := range docs.Versions {
		for _, b := range bases(v) {
			doc := b.doc
			big := strings.HasPrefix(b.name, "full")
			if b.name == "full2" && !c.Thorough() {
				continue
			}
			for _, r := range []out{
				{"tagvalue", func(w io.Writer) error { return spdxTVWrite(doc, w) }, big},
				{"json", func(w io.Writer) error { return spdxjson.Write(doc, w) }, big},
				{"json indented", func(w io.Writer) error {
					return spdxjson.Write(doc, w, spdxjson.Indent("  "), spdxjson.EscapeHTML(false))
				}, big},
				{"yaml", func(w io.Writer) error { return spdxYAMLWrite(doc, w) }, big},
			} {
				outs = append(outs, out{r.name + "/" + v.Name + "/" + b.name, r.write, r.big})
				if b.name == "minimal" { // the document itself instead of a pointer to it
					val := reflect.ValueOf(doc).Elem().Interface()
					switch r.name {
					case "tagvalue":
						outs = append(outs, out{r.name + "/" + v.Name + "/value", func(w io.Writer) error { return spdxTVWrite(val, w) }, false})
					case "yaml":
						outs = append(outs, out{r.name + "/" + v.Name + "/value", func(w io.Writer) error { return spdxYAMLWrite(val, w) }, false})
					}
				}
			}
		}
	}
	for _, n := range []int{0, 1, 2, 3, 40, Count(c, 400, 2000)} {
		pkg := &spdx.Package{FilesAnalyzed: true}
		for i := 0; i < n; i++ {
			pkg.Files = append(pkg.Files, &spdx.File{FileName: fmt.Sprint("./f", i), LicenseConcluded: fmt.Sprintf("LicenseRef-%d", i*7%97%(n+1))})
		}
		outs = append(outs, out{fmt.Sprintf("report/%d", n), func(w io.Writer) error { return reporter.Generate(pkg, w) }, n > 40})
	}
	type job struct {
		o        out
		whole    []byte
		from, to int
	}
	var jobs []job
	for _, o := range outs {
		var b bytes.Buffer
		if err, p := guardErr(func() error { return o.write(&b) }); err != nil || p != nil {
			c.Violate(o.name+"/whole", fmt.Sprintf("%s: fails although everything is accepted: %v %v", o.name, err, p), nil)
			continue
		}
		c.Seen(o.name)
		for i := 0; i < b.Len(); i += 128 {
			jobs = append(jobs, job{o, b.Bytes(), i, min(i+128, b.Len())})
		}
	}
	c.Parallel(len(jobs), func(i int) {
		j := jobs[i]
		for n := j.from; n < j.to; n++ {
			c.Seen(fmt.Sprint(j.o.name, n))
			for k, kind := range []string{"permanent", "once", "short", "full", "nothing"} {
				if c.Stop() {
					return
				}
				if j.o.big && !c.Thorough() && (n+k)%5 != 0 {
					continue // one kind at each byte of the big ones
				}
				c.Evals.Add(1)
				w := &faultWriter{limit: n, kind: kind}
				err, p := guardErr(func() error { return j.o.write(w) })
				bad := func(what string) {
					c.Violate(fmt.Sprintf("%s/%s/%d", j.o.name, kind, n), fmt.Sprintf("%s: failure (%s) after %d of %d bytes: %s", j.o.name, kind, n, len(j.whole), what),
						map[string]any{"output": clip(string(j.whole)), "offset": n, "fault": kind})
				}
				switch {
				case p != nil:
					bad(fmt.Sprint("panic: ", p))
				case !w.hit:
					bad("less is written than to a destination that does not fail")
				case err == nil:
					bad("no error")
				case !bytes.HasPrefix(j.whole, w.got[:min(n, len(w.got))]):
					bad("what was accepted is not the beginning of the output")
				}
			}
		}
	})
	c.Bound("a failure at every byte of %d outputs x permanent, once, silently short, failing though complete, refusing one write", len(outs))
}
