package checks

import (
	"fmt"
	"reflect"
	"sync/atomic"
	"time"

	"verifharness/docs"
	"verifharness/kit"
)

func init() { register("P29", "exploration", runP29) }

// runP29: whatever a reader accepted, every operation on documents ends without a panic.
func runP29(c *kit.Ctx) {
	c.Bound("the texts of P12 (quick: without those damaged byte by byte and the longest ones) that a reader accepts, read into every version; each distinct document is written in 4 ways, converted to 3 versions and, in the latest, validated, compared, reported, its described packages, relationships and verification codes taken")
	c.Flights("exploration", 60*time.Second)
	var accepted, distinct atomic.Int64
	ops := p15Ops()
	var skip []string
	turn := kit.Pick(c, 1, 0)
	if turn > 0 {
		skip = []string{"bytes"}
	}
	inputs(c, skip, func(w int, in input) {
		if turn > 0 && len(in.text) > 100000 || !c.Seen(in.rd.name+"\x00"+in.text) {
			return
		}
		for i := len(docs.Versions) - 1; i >= 0; i-- {
			v := docs.Versions[i]
			c.Evals.Add(1)
			d := v.New()
			err, p, _ := p12Read(in.rd, in.text, d)
			if err != nil || p != nil {
				return // the other versions are converted to from what was read
			}
			accepted.Add(1)
			canon := docs.Canon(d)
			if !c.Seen("doc\x00" + v.Name + canon) {
				if turn > 0 && v.Num == 3 {
					break // quick: what reads alike into the latest version is taken as alike
				}
				continue
			}
			if turn > 0 && v.Num < 3 && !in.shape {
				return
			}
			if distinct.Add(1) < 4 {
				c.Sample(in.label)
			}
			if what := nilElement(reflect.ValueOf(d), ""); what != "" {
				c.Violate("nil/"+in.rd.name+"/"+v.Name+what, fmt.Sprintf("what is read from %s into %s has no element at %s", in.label, v.Name, what), map[string]any{"text": in.text})
			}
			for _, o := range ops {
				if o.latest && v.Num != 3 {
					continue
				}
				c.Transitions.Add(1)
				c.Begin(w, o.name+" after "+in.label, in.text)
				p, stack := kit.Guard(func() { o.do(d) })
				c.End(w)
				if p != nil {
					c.Violate(panicKey(o.name, v, p, stack), fmt.Sprintf("%s of what was read from %s into %s: panic: %v", o.name, in.label, v.Name, p), map[string]any{"text": in.text, "stack": stack})
				}
			}
		}
	})
	c.Set("accepted", accepted.Load())
	c.Set("distinct", distinct.Load())
}

// nilElement finds a list element or map entry that is nil.
func nilElement(v reflect.Value, path string) string {
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if !v.IsValid() {
		return ""
	}
	sub := func(e reflect.Value, at string, in bool) string {
		if in && e.Kind() == reflect.Ptr && e.IsNil() {
			return at
		}
		return nilElement(e, at)
	}
	what := ""
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField() && what == ""; i++ {
			what = sub(v.Field(i), path+"."+v.Type().Field(i).Name, false)
		}
	case reflect.Slice:
		if k := v.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.Struct {
			return ""
		}
		for i := 0; i < v.Len() && what == ""; i++ {
			what = sub(v.Index(i), path+"[]", true)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if what == "" {
				what = sub(v.MapIndex(k), path+"{}", true)
			}
		}
	}
	return what
}
