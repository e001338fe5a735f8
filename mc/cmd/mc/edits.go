package main

import (
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

const editRule = "state = one (document, addressed position) pair; transition = one edit performed by the library and compared byte for byte with the model; trace = all edits of one document"

func init() {
	reg(&eng.Check{ID: "C04", Gens: stdSpaces(1), Unit: docUnit(c04), Rule: editRule, Assume: docAssume, Need: []string{"set", "refused", "typed"}})
	reg(&eng.Check{ID: "C05", Gens: stdSpaces(1), Unit: docUnit(c05), Rule: editRule, Assume: docAssume, Need: []string{"added", "key exists", "refused", "typed"}})
	reg(&eng.Check{ID: "C06", Gens: stdSpaces(1), Unit: docUnit(c06), Rule: editRule, Assume: docAssume, Need: []string{"added", "inserted", "refused", "typed"}})
	reg(&eng.Check{ID: "C07", Gens: stdSpaces(1), Unit: docUnit(c07), Rule: editRule, Assume: docAssume, Need: []string{"deleted", "refused"}})
	reg(&eng.Check{ID: "C08", Gens: stdSpaces(1), Unit: docUnit(c08), Rule: editRule, Assume: docAssume, Need: []string{"renamed", "refused", "key exists"}})
	reg(&eng.Check{ID: "C09", Gens: stdSpaces(1), Unit: docUnit(c09), Rule: editRule, Assume: docAssume, Need: []string{"set", "added", "refused", "typed"}})
}

var values = []string{`1`, `"x"`, `{"n":[1]}`, `[]`, `null`, `"],}"`, `-2.5`, `"\""`, `{}`, `""`, "{ \"a\" :\n[ {\"a\":1} , \"]\" ] }"}

var sizedValues, sizedKeys = append(gen.SizedValues(4097, 257), gen.SpecialValues()...), append(gen.SizedKeys(1025), gen.SpecialKeys()...)

// values lists the values given to edits.
func (d *D) values() []string {
	if d.args {
		return append(append([]string{}, values...), sizedValues...)
	}
	return values
}

// refused: the call must fail and hand the given document back.
func (d *D) refused(w *eng.W, out []byte, err error, why string) {
	if err == nil {
		w.Fail("%s: must fail, but succeeds with %q", why, out)
	} else if string(out) != d.S {
		w.Fail("%s: fails with %v but returns %q", why, err, out)
	}
}

// sameText: the call must succeed with exactly this text.
func sameText(w *eng.W, out []byte, err error, want string) bool {
	if err != nil || string(out) != want {
		w.Fail("want %q, got %q, error %v", want, out, err)
		return false
	}
	return true
}

// edited: the result is the document with the container at c (found by path) now holding exactly the members want
// (raw texts), everything outside the container unchanged, and the compact text that of the model.
func (d *D) edited(w *eng.W, out []byte, err error, path []string, c *ref.Node, keys, vals []string) bool {
	if err != nil {
		w.Fail("must succeed, but error %v", err)
		return false
	}
	pre, suf := d.S[:c.Start], d.S[c.End:]
	o := string(out)
	if !strings.HasPrefix(o, pre) || !strings.HasSuffix(o, suf) || len(o) < len(pre)+len(suf)+2 {
		w.Fail("bytes outside the container changed: %q", o)
		return false
	}
	mid := out[len(pre) : len(o)-len(suf)]
	n, perr := ref.Parse(mid)
	if perr != nil {
		w.Fail("result is malformed: %q", o)
		return false
	}
	if n.Kind != c.Kind || n.Start != 0 || n.End != len(mid) {
		w.Fail("container changed its kind or place: %q", o)
		return false
	}
	var gk, gv []string
	for i, k := range n.Kids {
		if n.Kind == ref.Obj {
			gk = append(gk, n.Key(mid, i))
		}
		gv = append(gv, k.Full(mid))
	}
	if !eqStrs(gk, keys) || !eqStrs(gv, vals) {
		w.Fail("members must be %q %q, result is %q", keys, vals, o)
		return false
	}
	return true
}

func (d *D) members(n *ref.Node) (keys, vals []string) {
	for i, k := range n.Kids {
		if n.Kind == ref.Obj {
			keys = append(keys, n.Key(d.src, i))
		}
		vals = append(vals, d.Full(k))
	}
	return
}

func (d *D) splice(start, end int, v string) string { return d.S[:start] + v + d.S[end:] }

// sameAs compares a typed variant with the base call on the canonical text.
func sameAs(w *eng.W, out []byte, err error, bout []byte, berr error) {
	w.Out("typed")
	if (err == nil) != (berr == nil) || string(out) != string(bout) {
		w.Fail("variant gives %q, error %v; the base function with the canonical text gives %q, error %v", out, err, bout, berr)
	}
}

func c04(w *eng.W, d *D) {
	for _, p := range d.Pos {
		w.State(1)
		if len(p.Path) == 0 {
			w.At("Set", nil, "1")
			w.Guarded(func() {
				out, err := jin.Set(d.B, []byte("1"))
				d.refused(w, out, err, "no path")
			})
			continue
		}
		for _, v := range d.values() {
			w.At("Set", p.Path, v)
			w.Guarded(func() {
				out, err := jin.Set(d.B, []byte(v), p.Path...)
				if sameText(w, out, err, d.splice(p.Node.Start, p.Node.End, v)) {
					w.Out("set")
				}
			})
		}
	}
	for _, f := range d.FailsShort() {
		w.State(1)
		w.At("Set", f.Path, "1")
		w.Guarded(func() {
			out, err := jin.Set(d.B, []byte("1"), f.Path...)
			d.refused(w, out, err, "path does not resolve")
			w.Out("refused")
		})
	}
	if len(d.S) > 40 {
		return
	}
	paths := [][]string{nil}
	for _, p := range d.Pos[1:] {
		paths = append(paths, p.Path)
	}
	for i, f := range d.FailsShort() {
		if i%7 == 0 {
			paths = append(paths, f.Path)
		}
	}
	for _, p := range paths {
		for _, t := range pick(d, setVariants, bigSet) {
			w.At(t.name, p, t.text)
			w.Guarded(func() {
				out, err := t.f(d.B, p)
				bout, berr := jin.Set(d.B, []byte(t.text), p...)
				sameAs(w, out, err, bout, berr)
			})
		}
	}
}

type variant struct {
	name, text string
	f          func(b []byte, p []string) ([]byte, error)
}

var setVariants = []variant{
	{"SetString", `"some text"`, func(b []byte, p []string) ([]byte, error) { return jin.SetString(b, "some text", p...) }},
	{"SetString", `"a,b"`, func(b []byte, p []string) ([]byte, error) { return jin.SetString(b, "a,b", p...) }},
	{"SetInt", `-42`, func(b []byte, p []string) ([]byte, error) { return jin.SetInt(b, -42, p...) }},
	{"SetInt", `9223372036854775807`, func(b []byte, p []string) ([]byte, error) { return jin.SetInt(b, 9223372036854775807, p...) }},
	{"SetFloat", `1.25`, func(b []byte, p []string) ([]byte, error) { return jin.SetFloat(b, 1.25, p...) }},
	{"SetFloat", `100`, func(b []byte, p []string) ([]byte, error) { return jin.SetFloat(b, 100, p...) }},
	{"SetBool", `true`, func(b []byte, p []string) ([]byte, error) { return jin.SetBool(b, true, p...) }},
	{"SetBool", `false`, func(b []byte, p []string) ([]byte, error) { return jin.SetBool(b, false, p...) }},
}

// newKeys lists candidate keys for the object n, present and absent ones.
func (d *D) newKeys(n *ref.Node) []string {
	out := []string{"new", "a", "b"}
	seen := map[string]bool{"new": true, "a": true, "b": true, "": true}
	add := func(k string) {
		if !seen[k] && len(out) < 16 && ref.IsStringBody(k) {
			seen[k] = true
			out = append(out, k)
		}
	}
	for i := range n.Keys {
		if i > 2 && i < len(n.Keys)-1 {
			continue
		}
		k := n.Key(d.src, i)
		add(k)
		add(k + "x")
		if len(k) > 0 {
			add(k[:len(k)-1])
		}
	}
	for _, c := range d.words() {
		add(c)
	}
	add("0")
	add(`q\"w`)
	add("}")
	add(" ")
	if d.args {
		out = append(out, sizedKeys...)
	}
	return out
}

func c05(w *eng.W, d *D) {
	do := func(path []string, n *ref.Node, key, val string) {
		w.At("AddKeyValue", path, key, val)
		w.Guarded(func() {
			out, err := jin.AddKeyValue(d.B, key, []byte(val), path...)
			if n == nil || n.Kind != ref.Obj {
				d.refused(w, out, err, "path does not denote an object")
				w.Out("refused")
				return
			}
			keys, vals := d.members(n)
			for _, k := range keys {
				if k == key {
					d.refused(w, out, err, "key exists")
					if err != nil && !jin.ErrEqual(err, jin.ErrCodeKeyAlreadyExist) {
						w.Fail("key exists, error must say so: %v", err)
					}
					w.Out("key exists")
					return
				}
			}
			if d.edited(w, out, err, path, n, append(keys, key), append(vals, val)) {
				w.Out("added")
			}
		})
	}
	for i, p := range d.Pos {
		w.State(1)
		if p.Node.Kind != ref.Obj {
			do(p.Path, p.Node, "new", values[0])
			do(p.Path, p.Node, "0", values[1])
			continue
		}
		for j, k := range d.newKeys(p.Node) {
			do(p.Path, p.Node, k, values[(i+j)%len(values)])
		}
		for _, v := range d.values() {
			do(p.Path, p.Node, "new", v)
		}
	}
	for _, f := range d.FailsShort() {
		w.State(1)
		do(f.Path, nil, "new", "1")
	}
	if len(d.S) > 40 {
		return
	}
	for _, p := range d.samplePaths() {
		for _, k := range []string{"new", "a"} {
			for _, t := range pick(d, addKVVariants, bigKV) {
				w.At(t.name, p, k, t.text)
				w.Guarded(func() {
					out, err := t.f(d.B, k, p)
					bout, berr := jin.AddKeyValue(d.B, k, []byte(t.text), p...)
					sameAs(w, out, err, bout, berr)
				})
			}
		}
		for _, t := range addKVVariants {
			w.At(t.name, p, "", t.text)
			w.Guarded(func() {
				out, err := t.f(d.B, "", p)
				if err == nil {
					w.Fail("empty key accepted")
				}
				d.refused(w, out, err, "empty key")
			})
		}
	}
}

// samplePaths: every position and every seventh failing path.
func (d *D) samplePaths() [][]string {
	var paths [][]string
	for _, p := range d.Pos {
		paths = append(paths, p.Path)
	}
	for i, f := range d.FailsShort() {
		if i%7 == 0 {
			paths = append(paths, f.Path)
		}
	}
	return paths
}

type kvVariant struct {
	name, text string
	f          func(b []byte, k string, p []string) ([]byte, error)
}

var addKVVariants = []kvVariant{
	{"AddKeyValueString", `"some text"`, func(b []byte, k string, p []string) ([]byte, error) {
		return jin.AddKeyValueString(b, k, "some text", p...)
	}},
	{"AddKeyValueInt", `-42`, func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueInt(b, k, -42, p...) }},
	{"AddKeyValueUint", `4200`, func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueUint(b, k, 4200, p...) }},
	{"AddKeyValueInt32", `-2147483648`, func(b []byte, k string, p []string) ([]byte, error) {
		return jin.AddKeyValueInt32(b, k, -2147483648, p...)
	}},
	{"AddKeyValueInt64", `-9223372036854775808`, func(b []byte, k string, p []string) ([]byte, error) {
		return jin.AddKeyValueInt64(b, k, -9223372036854775808, p...)
	}},
	{"AddKeyValueUint32", `4294967295`, func(b []byte, k string, p []string) ([]byte, error) {
		return jin.AddKeyValueUint32(b, k, 4294967295, p...)
	}},
	{"AddKeyValueUint64", `18446744073709551615`, func(b []byte, k string, p []string) ([]byte, error) {
		return jin.AddKeyValueUint64(b, k, 18446744073709551615, p...)
	}},
	{"AddKeyValueFloat", `1.25`, func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueFloat(b, k, 1.25, p...) }},
	{"AddKeyValueBool", `true`, func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueBool(b, k, true, p...) }},
	{"AddKeyValueBool", `false`, func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueBool(b, k, false, p...) }},
}

var addVariants = []variant{
	{"AddString", `"some text"`, func(b []byte, p []string) ([]byte, error) { return jin.AddString(b, "some text", p...) }},
	{"AddInt", `-42`, func(b []byte, p []string) ([]byte, error) { return jin.AddInt(b, -42, p...) }},
	{"AddInt32", `-2147483648`, func(b []byte, p []string) ([]byte, error) { return jin.AddInt32(b, -2147483648, p...) }},
	{"AddInt64", `-9223372036854775808`, func(b []byte, p []string) ([]byte, error) { return jin.AddInt64(b, -9223372036854775808, p...) }},
	{"AddUint", `4200`, func(b []byte, p []string) ([]byte, error) { return jin.AddUint(b, 4200, p...) }},
	{"AddUint32", `4294967295`, func(b []byte, p []string) ([]byte, error) { return jin.AddUint32(b, 4294967295, p...) }},
	{"AddUint64", `18446744073709551615`, func(b []byte, p []string) ([]byte, error) { return jin.AddUint64(b, 18446744073709551615, p...) }},
	{"AddFloat", `1.25`, func(b []byte, p []string) ([]byte, error) { return jin.AddFloat(b, 1.25, p...) }},
	{"AddBool", `true`, func(b []byte, p []string) ([]byte, error) { return jin.AddBool(b, true, p...) }},
	{"AddBool", `false`, func(b []byte, p []string) ([]byte, error) { return jin.AddBool(b, false, p...) }},
}

type insVariant struct {
	name, text string
	f          func(b []byte, i int, p []string) ([]byte, error)
}

var insVariants = []insVariant{
	{"InsertString", `"some text"`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertString(b, i, "some text", p...) }},
	{"InsertInt", `-42`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertInt(b, i, -42, p...) }},
	{"InsertInt32", `-2147483648`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertInt32(b, i, -2147483648, p...) }},
	{"InsertInt64", `-9223372036854775808`, func(b []byte, i int, p []string) ([]byte, error) {
		return jin.InsertInt64(b, i, -9223372036854775808, p...)
	}},
	{"InsertUint", `4200`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertUint(b, i, 4200, p...) }},
	{"InsertUint32", `4294967295`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertUint32(b, i, 4294967295, p...) }},
	{"InsertUint64", `18446744073709551615`, func(b []byte, i int, p []string) ([]byte, error) {
		return jin.InsertUint64(b, i, 18446744073709551615, p...)
	}},
	{"InsertFloat", `1.25`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertFloat(b, i, 1.25, p...) }},
	{"InsertBool", `true`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertBool(b, i, true, p...) }},
	{"InsertBool", `false`, func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertBool(b, i, false, p...) }},
}

func insAt(vals []string, i int, v string) []string {
	out := append([]string(nil), vals[:i]...)
	out = append(out, v)
	return append(out, vals[i:]...)
}

func c06(w *eng.W, d *D) {
	add := func(path []string, n *ref.Node, val string) {
		w.At("Add", path, val)
		w.Guarded(func() {
			out, err := jin.Add(d.B, []byte(val), path...)
			if n == nil || n.Kind != ref.Arr {
				d.refused(w, out, err, "path does not denote an array")
				w.Out("refused")
				return
			}
			_, vals := d.members(n)
			if d.edited(w, out, err, path, n, nil, append(vals, val)) {
				w.Out("added")
			}
		})
	}
	ins := func(path []string, n *ref.Node, i int, val string) {
		w.At("Insert", path, strconv.Itoa(i), val)
		w.Guarded(func() {
			out, err := jin.Insert(d.B, i, []byte(val), path...)
			if n == nil || n.Kind != ref.Arr || i < 0 || i >= len(n.Kids) {
				d.refused(w, out, err, "not an array or no such position")
				w.Out("refused")
				return
			}
			_, vals := d.members(n)
			if d.edited(w, out, err, path, n, nil, insAt(vals, i, val)) {
				w.Out("inserted")
			}
		})
	}
	for pi, p := range d.Pos {
		w.State(1)
		n := p.Node
		if n.Kind != ref.Arr {
			add(p.Path, n, "1")
			ins(p.Path, n, 0, "1")
			ins(p.Path, n, 1, `"x"`)
			continue
		}
		for _, v := range d.values() {
			add(p.Path, n, v)
		}
		for i := -2; i < len(n.Kids)+3; i++ {
			if i > 6 && i < len(n.Kids)-3 && !gen.Near(i, len(n.Kids)) {
				continue
			}
			ins(p.Path, n, i, values[(pi+i+2)%len(values)])
			ins(p.Path, n, i, "1")
			ins(p.Path, n, i, `"x"`)
		}
		ins(p.Path, n, len(n.Kids)+100, "1")
	}
	for _, f := range d.FailsShort() {
		w.State(1)
		add(f.Path, nil, "1")
		ins(f.Path, nil, 0, "1")
	}
	if len(d.S) > 40 {
		return
	}
	for _, p := range d.samplePaths() {
		for _, t := range pick(d, addVariants, bigAdd) {
			w.At(t.name, p, t.text)
			w.Guarded(func() {
				out, err := t.f(d.B, p)
				bout, berr := jin.Add(d.B, []byte(t.text), p...)
				sameAs(w, out, err, bout, berr)
			})
		}
		for _, t := range pick(d, insVariants, bigIns) {
			for _, i := range []int{-1, 0, 1} {
				w.At(t.name, p, strconv.Itoa(i), t.text)
				w.Guarded(func() {
					out, err := t.f(d.B, i, p)
					bout, berr := jin.Insert(d.B, i, []byte(t.text), p...)
					sameAs(w, out, err, bout, berr)
				})
			}
		}
	}
}

func drop(s []string, i int) []string {
	if s == nil {
		return nil
	}
	return append(append([]string(nil), s[:i]...), s[i+1:]...)
}

func c07(w *eng.W, d *D) {
	for _, p := range d.Pos {
		w.State(1)
		w.At("Delete", p.Path)
		w.Guarded(func() {
			out, err := jin.Delete(d.B, p.Path...)
			if len(p.Path) == 0 {
				d.refused(w, out, err, "no path")
				w.Out("refused")
				return
			}
			keys, vals := d.members(p.Par)
			if d.edited(w, out, err, p.Path, p.Par, drop(keys, p.Idx), drop(vals, p.Idx)) {
				w.Out("deleted")
			}
		})
	}
	for _, f := range d.Fails() {
		w.State(1)
		w.At("Delete", f.Path)
		w.Guarded(func() {
			out, err := jin.Delete(d.B, f.Path...)
			d.refused(w, out, err, "path does not resolve")
			w.Out("refused")
		})
	}
}

func c08(w *eng.W, d *D) {
	for _, p := range d.Pos {
		w.State(1)
		var cands []string
		if p.Par != nil {
			cands = d.newKeys(p.Par)
		} else {
			cands = d.newKeys(p.Node)[:3]
		}
		cands = append(cands, "")
		for _, k := range cands {
			w.At("SetKey", p.Path, k)
			w.Guarded(func() {
				out, err := jin.SetKey(d.B, k, p.Path...)
				switch {
				case len(p.Path) == 0, k == "", p.Par.Kind != ref.Obj:
					d.refused(w, out, err, "no path, empty key or not an object member")
					w.Out("refused")
				default:
					if _, i := p.Par.Step(d.src, k); i >= 0 {
						d.refused(w, out, err, "key exists")
						w.Out("key exists")
						return
					}
					s := p.Par.Keys[p.Idx]
					if sameText(w, out, err, d.splice(s.Start, s.End, k)) {
						w.Out("renamed")
					}
				}
			})
		}
	}
	for _, f := range d.FailsShort() {
		w.State(1)
		for _, k := range []string{"new", "a", "0", ""} {
			w.At("SetKey", f.Path, k)
			w.Guarded(func() {
				out, err := jin.SetKey(d.B, k, f.Path...)
				d.refused(w, out, err, "path does not resolve")
				w.Out("refused")
			})
		}
	}
}

var storeVariants = []kvVariant{
	{"StoreString", `"some text"`, func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreString(b, k, "some text", p...) }},
	{"StoreInt", `-42`, func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreInt(b, k, -42, p...) }},
	{"StoreFloat", `1.25`, func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreFloat(b, k, 1.25, p...) }},
	{"StoreBool", `true`, func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreBool(b, k, true, p...) }},
	{"StoreBool", `false`, func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreBool(b, k, false, p...) }},
	{"JO.StoreString", `"some text"`, func(b []byte, k string, p []string) ([]byte, error) {
		j := jin.New(b)
		err := j.StoreString(k, "some text", p...)
		return j.JSON(), err
	}},
	{"JO.StoreInt", `-42`, func(b []byte, k string, p []string) ([]byte, error) {
		j := jin.New(b)
		err := j.StoreInt(k, -42, p...)
		return j.JSON(), err
	}},
	{"JO.StoreFloat", `1.25`, func(b []byte, k string, p []string) ([]byte, error) {
		j := jin.New(b)
		err := j.StoreFloat(k, 1.25, p...)
		return j.JSON(), err
	}},
	{"JO.StoreBool", `true`, func(b []byte, k string, p []string) ([]byte, error) {
		j := jin.New(b)
		err := j.StoreBool(k, true, p...)
		return j.JSON(), err
	}},
	{"JO.StoreBool", `false`, func(b []byte, k string, p []string) ([]byte, error) {
		j := jin.New(b)
		err := j.StoreBool(k, false, p...)
		return j.JSON(), err
	}},
}

func c09(w *eng.W, d *D) {
	if len(d.All) > 10000 {
		w.Out("skipped: too wide")
		return
	}
	store := func(path []string, n *ref.Node, key, val string) {
		for _, jo := range []bool{false, true} {
			op := "Store"
			if jo {
				op = "JO.Store"
			}
			w.At(op, path, key, val)
			w.Guarded(func() {
				var out []byte
				var err error
				if jo {
					j := jin.New(d.B)
					err = j.Store(key, []byte(val), path...)
					out = j.JSON()
				} else {
					out, err = jin.Store(d.B, key, []byte(val), path...)
				}
				if n == nil || !n.IsContainer() {
					d.refused(w, out, err, "path does not denote an object")
					w.Out("refused")
					return
				}
				k, i := n.Step(d.src, key)
				if i >= 0 {
					if sameText(w, out, err, d.splice(k.Start, k.End, val)) {
						w.Out("set")
					}
				} else if n.Kind == ref.Arr {
					d.refused(w, out, err, "an array cannot hold the key")
					w.Out("refused")
					return
				} else {
					keys, vals := d.members(n)
					if !d.edited(w, out, err, path, n, append(keys, key), append(vals, val)) {
						return
					}
					w.Out("added")
				}
				if err == nil && !jo {
					again, err := jin.Store(out, key, []byte(val), path...)
					if err != nil || string(again) != string(out) {
						w.Fail("storing again gives %q, error %v", again, err)
					}
					v, err := jin.Get(out, join(path, key)...)
					want := val
					if val[0] == '"' {
						want = val[1 : len(val)-1]
					}
					if err != nil || string(v) != want {
						w.Fail("reads back as %q, error %v", v, err)
					}
				}
			})
		}
	}
	for i, p := range d.Pos {
		w.State(1)
		n := p.Node
		switch n.Kind {
		case ref.Obj:
			for j, k := range d.newKeys(n) {
				store(p.Path, n, k, values[(i+j)%len(values)])
			}
			for _, v := range d.values() {
				store(p.Path, n, "new", v)
			}
			for _, k := range n.Keys {
				store(p.Path, n, d.S[k.Start:k.End], values[i%len(values)])
			}
		case ref.Arr:
			for j := range n.Kids {
				if j < 5 {
					store(p.Path, n, strconv.Itoa(j), values[(i+j)%len(values)])
				}
			}
			store(p.Path, n, strconv.Itoa(len(n.Kids)), "1")
			store(p.Path, n, "a", "1")
			store(p.Path, n, "-1", "1")
		default:
			store(p.Path, n, "a", "1")
			store(p.Path, n, "0", "1")
		}
	}
	for _, f := range d.FailsShort() {
		w.State(1)
		store(f.Path, nil, "new", "1")
		store(f.Path, nil, "0", "1")
	}
	if len(d.S) > 40 {
		return
	}
	for _, p := range d.samplePaths() {
		for _, k := range []string{"new", "a", "0"} {
			for _, t := range pick(d, storeVariants, bigStore) {
				w.At(t.name, p, k, t.text)
				w.Guarded(func() {
					out, err := t.f(d.B, k, p)
					bout, berr := jin.Store(d.B, k, []byte(t.text), p...)
					sameAs(w, out, err, bout, berr)
				})
			}
		}
	}
}
