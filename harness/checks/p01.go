package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"unicode"

	"verifharness/kit"

	"github.com/spdx/tools-golang/tagvalue/reader"
)

func init() { register("P01", "exploration", runP01) }

// refPairs is the reference: what the lines of a text state.
func refPairs(text string) ([]reader.TagValuePair, error) {
	var out []reader.TagValuePair
	inText := false
	var tag string
	var val strings.Builder
	for text != "" {
		var line string
		if i := strings.IndexByte(text, '\n'); i >= 0 {
			line, text = text[:i], text[i+1:]
		} else {
			line, text = text, ""
		}
		line = strings.TrimSuffix(line, "\r") // either line ending
		if !inText {
			t := strings.TrimFunc(line, unicode.IsSpace)
			if t == "" || t[0] == '#' {
				continue
			}
			c := strings.IndexByte(t, ':')
			if c < 0 {
				return nil, errors.New("no colon")
			}
			tag = strings.TrimFunc(t[:c], unicode.IsSpace)
			// the text of the value is taken from the line itself, whose outer white space counts inside <text>
			line = line[strings.IndexByte(line, ':')+1:]
			o := strings.Index(line, "<text>")
			if o < 0 {
				out = append(out, reader.TagValuePair{Tag: tag, Value: strings.TrimFunc(line, unicode.IsSpace)})
				continue
			}
			line = line[o+len("<text>"):]
			inText = true
			val.Reset()
		}
		if e := strings.Index(line, "</text>"); e >= 0 {
			val.WriteString(line[:e])
			out = append(out, reader.TagValuePair{Tag: tag, Value: val.String()})
			inText = false
			continue
		}
		val.WriteString(line)
		val.WriteByte('\n')
	}
	if inText {
		return nil, errors.New("unterminated text")
	}
	return out, nil
}

// chunkReader delivers the pieces one at a time.
type chunkReader struct {
	pieces  [][]byte
	withEOF bool // the last piece comes together with the end
	err     error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.pieces) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p, r.pieces[0])
	if n == len(r.pieces[0]) {
		r.pieces = r.pieces[1:]
	} else {
		r.pieces[0] = r.pieces[0][n:]
	}
	if len(r.pieces) == 0 && r.withEOF {
		if r.err != nil {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

func cutAt(b []byte, at ...int) [][]byte {
	var out [][]byte
	prev := 0
	for _, a := range at {
		out = append(out, b[prev:a:a])
		prev = a
	}
	return append(out, b[prev:])
}

func pairsDiff(want, got []reader.TagValuePair) string {
	if len(want) != len(got) {
		return fmt.Sprintf("%d pairs instead of %d", len(got), len(want))
	}
	for i := range want {
		if want[i] != got[i] {
			w, g := fmt.Sprintf("%q", want[i]), fmt.Sprintf("%q", got[i])
			return fmt.Sprintf("pair %d is %.200s instead of %.200s", i, g, w)
		}
	}
	return ""
}

func runP01(c *kit.Ctx) {
	lines := []string{
		"", " \t ", "# c: x", "  # <text>", "T: v", "\t Tag two :\u00a0 v: x # no comment \t", "T:", ": v", "no colon",
		"T: <text>one</text>", "T: <text>", "T: <text> open: #1 ", "T: <text> a </text> after </text>", "T: before<text>x</text>",
		"</text>", " last </text>", "x: </text> more: <text>", "#</text>", "T: a <TEXT>b</TEXT>", "U:<text></text>", "V: </text>",
		"\u2003W\u2003:\u2003\xff\x00 ", " : <text># c\r", "T: # v", "<text>: x", "plain <text> words",
	}
	bad := func(kind, text, what string) {
		t := text
		if len(t) > 300 {
			t = t[:300]
		}
		c.Violate(fmt.Sprintf("%s/%.120q", kind, t), kind+": "+what, map[string]any{"text": t})
	}
	read := func(r io.Reader) (pairs []reader.TagValuePair, err error, pan any) {
		pan, _ = kit.Guard(func() { pairs, err = reader.ReadTagValues(r) })
		return
	}
	check := func(kind, text string, r io.Reader) {
		c.Evals.Add(1)
		want, werr := refPairs(text)
		got, err, pan := read(r)
		switch {
		case pan != nil:
			bad(kind, text, fmt.Sprint("panic: ", pan))
		case (werr == nil) != (err == nil):
			bad(kind, text, fmt.Sprintf("error is %v, not %v", err, werr))
		case err != nil && len(got) != 0:
			bad(kind, text, "an error and pairs as well")
		case err == nil:
			if d := pairsDiff(want, got); d != "" {
				bad(kind, text, d)
			}
		}
	}
	// 1. all sequences of lines
	depth := kit.Pick(c, 4, 5)
	n := len(lines)
	total := 0
	for d, p := 0, 1; d <= depth; d, p = d+1, p*n {
		total += p
	}
	c.Bound("all sequences of up to %d lines out of %d kinds, with LF and CRLF endings, with and without a final line end", depth, n)
	first := n * n
	c.Set("line_sequences", total)
	seqOf := func(prefix []int) {
		var rec func(seq []int)
		rec = func(seq []int) {
			if c.Stop() {
				return
			}
			var b strings.Builder
			for _, i := range seq {
				b.WriteString(lines[i])
				b.WriteByte('\n')
			}
			t := b.String()
			if c.Seen(t) {
				check("lines", t, strings.NewReader(t))
				check("lines without final line end", t[:max(0, len(t)-1)], strings.NewReader(t[:max(0, len(t)-1)]))
				crlf := strings.ReplaceAll(t, "\n", "\r\n")
				check("CRLF lines", crlf, strings.NewReader(crlf))
			}
			if len(seq) == depth {
				return
			}
			for i := range lines {
				rec(append(seq[:len(seq):len(seq)], i))
			}
		}
		rec(prefix)
	}
	check("empty", "", strings.NewReader(""))
	for i := range lines {
		t := lines[i] + "\n"
		check("one line", t, strings.NewReader(t))
		check("one line", lines[i], strings.NewReader(lines[i]))
	}
	c.Parallel(first, func(i int) { seqOf([]int{i / n, i % n}) })
	// one line many times over, before and inside a text, between every two lines
	c.Bound("every kind of line 5 to 12 times in a row, after every kind of line and before every kind of line")
	c.Parallel(n*n, func(i int) {
		for k := 5; k <= 12; k++ {
			for _, last := range lines {
				t := lines[i/n] + "\n" + strings.Repeat(lines[i%n]+"\n", k) + last + "\nT: z</text>\n"
				check("repeated line", t, strings.NewReader(t))
			}
		}
		c.Seen(fmt.Sprint("repeated", i))
	})
	// every text of a few symbols
	symbols := []string{"A", "1", ":", "#", " ", "\n", "<text>", "</text>"}
	slen := kit.Pick(c, 8, 9)
	c.Bound("all texts of up to %d symbols out of %q", slen, symbols)
	sn := len(symbols)
	c.Parallel(sn*sn*sn, func(i int) {
		var rec func(t string, d int)
		rec = func(t string, d int) {
			if c.Stop() {
				return
			}
			check("symbols", t, strings.NewReader(t))
			if d == slen {
				return
			}
			for _, s := range symbols {
				rec(t+s, d+1)
			}
		}
		rec(symbols[i/sn/sn]+symbols[i/sn%sn]+symbols[i%sn], 3)
		c.Seen(fmt.Sprint("symbols", i))
	})
	// 2. all ways of delivering the bytes
	short := []string{"A: b\nC:<text>d\ne</text>\n", "A:b\r\nC:d", "#x\n\nA: \u00a0b\u2003\n", "T:<text>é\n</text>x\nU:v", "A:<text>\r\n\r\n</text>\r\n", "bad\nA:b", "A:<text>x"}
	c.Bound("%d texts delivered in every way of cutting them into up to 4 pieces (thorough: 5), in all 2^(n-1) ways for those of up to 14 bytes (thorough: 18), with empty reads between, the end alone or together with the last piece", len(short))
	cuts := kit.Pick(c, 3, 4)
	c.Parallel(len(short)*2, func(i int) {
		text := short[i/2]
		withEOF := i%2 == 1
		b := []byte(text)
		var rec func(at []int, from int)
		rec = func(at []int, from int) {
			check("cut", text, &chunkReader{pieces: cutAt(b, at...), withEOF: withEOF})
			pieces := cutAt(b, at...)
			gaps := [][]byte{{}}
			for _, p := range pieces {
				gaps = append(gaps, p, nil)
			}
			check("cut with empty reads", text, &chunkReader{pieces: gaps, withEOF: withEOF})
			if len(at) == cuts {
				return
			}
			for a := from; a < len(b); a++ {
				rec(append(at[:len(at):len(at)], a), a+1)
			}
		}
		rec(nil, 1)
		if len(b) <= kit.Pick(c, 14, 18) {
			for m := 0; m < 1<<(len(b)-1); m++ {
				var at []int
				for k := 1; k < len(b); k++ {
					if m>>(k-1)&1 == 1 {
						at = append(at, k)
					}
				}
				check("cut everywhere", text, &chunkReader{pieces: cutAt(b, at...), withEOF: withEOF})
			}
		}
		var ones [][]byte
		for k := range b {
			ones = append(ones, b[k:k+1])
		}
		check("byte by byte", text, &chunkReader{pieces: ones, withEOF: withEOF})
		c.Seen(fmt.Sprintf("%q %v", text, withEOF))
	})
	// 3. long lines and many lines, around every buffer size
	var sizes []int
	for _, s := range []int{4096, 8192, 16384, 32768, 65536, 131072, 1 << 20} {
		for d := -3; d <= 3; d++ {
			sizes = append(sizes, s+d)
		}
	}
	c.Bound("lines, <text> blocks and sequences of lines whose ends lie up to 3 bytes around the sizes 4 KiB ... 1 MiB")
	c.Parallel(len(sizes), func(i int) {
		s := sizes[i]
		x := strings.Repeat("x", s)
		for _, t := range []string{
			"A:" + x + "\nB: c\n", "A:" + x, "A: <text>" + x + "</text>\nB:c", "A: <text>" + x + "\n" + x + "</text>\nB:c\n", "#" + x + "\nB:c\n",
			"A:b\r\n" + "B:" + x[:s-7] + "\r\nC:d\r\n", "A: <text>" + x, x, strings.Repeat("A:b\n", s/4) + x[:s%4] + ":z\nC:d",
		} {
			check("long", t, strings.NewReader(t))
			check("long, end with data", t, &chunkReader{pieces: [][]byte{[]byte(t)}, withEOF: true})
			check("long in halves", t, &chunkReader{pieces: cutAt([]byte(t), len(t)/2)})
		}
		c.Seen(fmt.Sprint("size", s))
	})
	c.Sample(short[0])
	c.Sample(strings.Join([]string{lines[11], lines[16], lines[4]}, "\n"))
	_ = bytes.MinRead
}
