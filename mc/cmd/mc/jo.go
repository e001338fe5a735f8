package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C16", Gens: c16Gens, Unit: c16,
		Rule:   "state = one JO after a history of method calls; transition = one JO method call compared with the package function of the same name on the current text; trace = one complete history on one JO",
		Assume: []string{"histories beyond the stated length, alphabet and documents are not explored", "files are read from a scratch directory on the local file system"},
		Need:   []string{"edit ok", "edit refused", "query ok", "query refused", "file ok", "file refused", "long history", "edit in a callback"}})
}

func c16Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	sc := docsGen("scenario documents", scenarioDocs...)
	small := docsGen("small documents", `{}`, `[]`, `{"a":1}`, `["x"]`, `{"a":[]}`, `[{}]`, "{ \"a\" : \"b\" }\n")
	gs := []eng.Gen{
		{Name: "files", Each: func(y func([]byte) bool) { y([]byte("files|")) }},
		histGen(1, 2, 1, space(gen.Space{Nodes: 4, Labels: lbBoth})),
		histGen(1, 2, 4, sc),
		histGen(1, 2, 1, space(gen.Space{Nodes: 2, Dev: 1, Labels: lb})),
		histGen(2, 1, 8, small),
		histGen(2, 0, 1, space(gen.Space{Nodes: 3, Labels: lb})),
		histGen(3, 0, 16, docsGen("tiny documents", `{}`, `[]`, `{"a":1}`)),
		pumpGen(2, 36, `{}`, `["x",1]`),
		longGen(1030, 260, `{"a":1}`, `["x",[]]`),
		histGen(1, 0, 1, scale(gen.Scale{Depth: 8, Width: 10, Len: 8})),
		histGen(1, 0, 1, sizes(4)),
		histGen(2, 4, 8, wideDocs(17, 65)),
		histGen(1, 3, 8, docsGen("documents for sized arguments", argDocs...)),
	}
	if tier == "thorough" {
		gs = append(gs, pumpGen(3, 40, `{}`, `[]`), histGen(2, 2, 8, small), histGen(1, 2, 1, space(gen.Space{Nodes: 5, Labels: lb})), histGen(2, 1, 8, sc), histGen(3, 1, 32, docsGen("tiny documents", `{}`, `[]`)), histGen(3, 0, 16, small))
	}
	return gs
}

// joOp is one JO method with arguments, next to the package function.
type joOp struct {
	name string
	args string
	path []string
	jo   func(j *jin.JO) error
	free func(b []byte) ([]byte, error)
}

// joOps: the base edits of the alphabet plus, for each position, every typed variant.
func joOps(t *ref.Tree, rich int) []joOp {
	var out []joOp
	for _, e := range alphabet(t, rich, true, false) {
		e := e
		out = append(out, joOp{e.Op, e.Key + " " + e.Val, e.Path, e.jo, e.free})
	}
	add := func(name, args string, p []string, jo func(j *jin.JO) error, free func(b []byte) ([]byte, error)) {
		out = append(out, joOp{name, args, p, jo, free})
	}
	var paths [][]string
	for _, x := range positions(t) {
		paths = append(paths, x.path)
	}
	if rich == 4 {
		rich = 0
	}
	if rich > 0 {
		paths = append(paths, []string{"z~"}, []string{"0", "z~"})
	} else if len(paths) > 2 {
		paths = paths[:2]
	}
	for i := range paths {
		p := paths[i]
		add("SetString", "str", p, func(j *jin.JO) error { return j.SetString("str", p...) }, func(b []byte) ([]byte, error) { return jin.SetString(b, "str", p...) })
		add("AddKeyValueInt", "nk 5", p, func(j *jin.JO) error { return j.AddKeyValueInt("nk", 5, p...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueInt(b, "nk", 5, p...) })
		add("AddString", "s,t", p, func(j *jin.JO) error { return j.AddString("s,t", p...) }, func(b []byte) ([]byte, error) { return jin.AddString(b, "s,t", p...) })
		add("StoreBool", "a true", p, func(j *jin.JO) error { return j.StoreBool("a", true, p...) }, func(b []byte) ([]byte, error) { return jin.StoreBool(b, "a", true, p...) })
		add("InsertFloat", "0 1.5", p, func(j *jin.JO) error { return j.InsertFloat(0, 1.5, p...) }, func(b []byte) ([]byte, error) { return jin.InsertFloat(b, 0, 1.5, p...) })
		if rich == 0 {
			continue
		}
		add("SetInt", "-3", p, func(j *jin.JO) error { return j.SetInt(-3, p...) }, func(b []byte) ([]byte, error) { return jin.SetInt(b, -3, p...) })
		add("SetFloat", "2.5", p, func(j *jin.JO) error { return j.SetFloat(2.5, p...) }, func(b []byte) ([]byte, error) { return jin.SetFloat(b, 2.5, p...) })
		add("SetBool", "false", p, func(j *jin.JO) error { return j.SetBool(false, p...) }, func(b []byte) ([]byte, error) { return jin.SetBool(b, false, p...) })
		add("AddInt", "-3", p, func(j *jin.JO) error { return j.AddInt(-3, p...) }, func(b []byte) ([]byte, error) { return jin.AddInt(b, -3, p...) })
		add("AddFloat", "2.5", p, func(j *jin.JO) error { return j.AddFloat(2.5, p...) }, func(b []byte) ([]byte, error) { return jin.AddFloat(b, 2.5, p...) })
		add("AddBool", "false", p, func(j *jin.JO) error { return j.AddBool(false, p...) }, func(b []byte) ([]byte, error) { return jin.AddBool(b, false, p...) })
		for _, k := range []string{"nk", "a", ""} {
			k := k
			add("AddKeyValueString", k+" str", p, func(j *jin.JO) error { return j.AddKeyValueString(k, "str", p...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueString(b, k, "str", p...) })
			add("AddKeyValueFloat", k+" 2.5", p, func(j *jin.JO) error { return j.AddKeyValueFloat(k, 2.5, p...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueFloat(b, k, 2.5, p...) })
			add("AddKeyValueBool", k+" true", p, func(j *jin.JO) error { return j.AddKeyValueBool(k, true, p...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueBool(b, k, true, p...) })
			add("StoreString", k+" str", p, func(j *jin.JO) error { return j.StoreString(k, "str", p...) }, func(b []byte) ([]byte, error) { return jin.StoreString(b, k, "str", p...) })
			add("StoreString", k+" 12", p, func(j *jin.JO) error { return j.StoreString(k, "12", p...) }, func(b []byte) ([]byte, error) { return jin.StoreString(b, k, "12", p...) })
			add("StoreInt", k+" 7", p, func(j *jin.JO) error { return j.StoreInt(k, 7, p...) }, func(b []byte) ([]byte, error) { return jin.StoreInt(b, k, 7, p...) })
			add("StoreFloat", k+" 2.5", p, func(j *jin.JO) error { return j.StoreFloat(k, 2.5, p...) }, func(b []byte) ([]byte, error) { return jin.StoreFloat(b, k, 2.5, p...) })
			add("SetKey", k, p, func(j *jin.JO) error { return j.SetKey(k, p...) }, func(b []byte) ([]byte, error) { return jin.SetKey(b, k, p...) })
		}
		for _, x := range []int{-1, 0, 1, 5} {
			x := x
			add("InsertString", itoa(x), p, func(j *jin.JO) error { return j.InsertString(x, "str", p...) }, func(b []byte) ([]byte, error) { return jin.InsertString(b, x, "str", p...) })
			add("InsertInt", itoa(x), p, func(j *jin.JO) error { return j.InsertInt(x, 7, p...) }, func(b []byte) ([]byte, error) { return jin.InsertInt(b, x, 7, p...) })
			add("InsertBool", itoa(x), p, func(j *jin.JO) error { return j.InsertBool(x, true, p...) }, func(b []byte) ([]byte, error) { return jin.InsertBool(b, x, true, p...) })
		}
	}
	return out
}

type joQuery struct {
	name string
	jo   func(j *jin.JO, p []string) (string, error)
	free func(b []byte, p []string) (string, error)
}

func sv(v interface{}, err error) (string, error) { return fmt.Sprintf("%q", v), err }

var joQueries = []joQuery{
	{"Get", func(j *jin.JO, p []string) (string, error) { v, e := j.Get(p...); return string(v), e }, func(b []byte, p []string) (string, error) { v, e := jin.Get(b, p...); return string(v), e }},
	{"GetString", func(j *jin.JO, p []string) (string, error) { return j.GetString(p...) }, func(b []byte, p []string) (string, error) { return jin.GetString(b, p...) }},
	{"GetInt", func(j *jin.JO, p []string) (string, error) { return sv(j.GetInt(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetInt(b, p...)) }},
	{"GetFloat", func(j *jin.JO, p []string) (string, error) { return sv(j.GetFloat(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetFloat(b, p...)) }},
	{"GetBool", func(j *jin.JO, p []string) (string, error) { return sv(j.GetBool(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetBool(b, p...)) }},
	{"GetType", func(j *jin.JO, p []string) (string, error) { return j.GetType(p...) }, func(b []byte, p []string) (string, error) { return jin.GetType(b, p...) }},
	{"GetStringArray", func(j *jin.JO, p []string) (string, error) { return sv(j.GetStringArray(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetStringArray(b, p...)) }},
	{"GetIntArray", func(j *jin.JO, p []string) (string, error) { return sv(j.GetIntArray(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetIntArray(b, p...)) }},
	{"GetFloatArray", func(j *jin.JO, p []string) (string, error) { return sv(j.GetFloatArray(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetFloatArray(b, p...)) }},
	{"GetBoolArray", func(j *jin.JO, p []string) (string, error) { return sv(j.GetBoolArray(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetBoolArray(b, p...)) }},
	{"GetAll", func(j *jin.JO, p []string) (string, error) { return sv(j.GetAll([]string{"a", "nk"}, p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetAll(b, []string{"a", "nk"}, p...)) }},
	{"GetAll1", func(j *jin.JO, p []string) (string, error) { return sv(j.GetAll([]string{"a"}, p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetAll(b, []string{"a"}, p...)) }},
	{"GetAllMap", func(j *jin.JO, p []string) (string, error) { return sv(j.GetAllMap([]string{"a"}, p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetAllMap(b, []string{"a"}, p...)) }},
	{"GetKeys", func(j *jin.JO, p []string) (string, error) { return sv(j.GetKeys(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetKeys(b, p...)) }},
	{"GetValues", func(j *jin.JO, p []string) (string, error) { return sv(j.GetValues(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetValues(b, p...)) }},
	{"GetKeysValues", func(j *jin.JO, p []string) (string, error) {
		k, v, e := j.GetKeysValues(p...)
		return fmt.Sprintf("%q %q", k, v), e
	}, func(b []byte, p []string) (string, error) {
		k, v, e := jin.GetKeysValues(b, p...)
		return fmt.Sprintf("%q %q", k, v), e
	}},
	{"GetMap", func(j *jin.JO, p []string) (string, error) { return sv(j.GetMap(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.GetMap(b, p...)) }},
	{"IsObject", func(j *jin.JO, p []string) (string, error) { return sv(j.IsObject(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.IsObject(b, p...)) }},
	{"IsArray", func(j *jin.JO, p []string) (string, error) { return sv(j.IsArray(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.IsArray(b, p...)) }},
	{"IsValue", func(j *jin.JO, p []string) (string, error) { return sv(j.IsValue(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.IsValue(b, p...)) }},
	{"IsEmpty", func(j *jin.JO, p []string) (string, error) { return sv(j.IsEmpty(p...)) }, func(b []byte, p []string) (string, error) { return sv(jin.IsEmpty(b, p...)) }},
	{"IterateArray", func(j *jin.JO, p []string) (string, error) {
		l := ""
		e := j.IterateArray(func(v []byte) (bool, error) { l += q(v); return true, nil }, p...)
		return l, e
	}, func(b []byte, p []string) (string, error) {
		l := ""
		e := jin.IterateArray(b, func(v []byte) (bool, error) { l += q(v); return true, nil }, p...)
		return l, e
	}},
	{"IterateKeyValue", func(j *jin.JO, p []string) (string, error) {
		l := ""
		e := j.IterateKeyValue(func(k, v []byte) (bool, error) { l += q(k) + q(v); return true, nil }, p...)
		return l, e
	}, func(b []byte, p []string) (string, error) {
		l := ""
		e := jin.IterateKeyValue(b, func(k, v []byte) (bool, error) { l += q(k) + q(v); return true, nil }, p...)
		return l, e
	}},
	{"IterateArray stop", func(j *jin.JO, p []string) (string, error) {
		l := ""
		e := j.IterateArray(func(v []byte) (bool, error) { l += q(v); return false, nil }, p...)
		return l, e
	}, func(b []byte, p []string) (string, error) {
		l := ""
		e := jin.IterateArray(b, func(v []byte) (bool, error) { l += q(v); return false, nil }, p...)
		return l, e
	}},
	{"IterateKeyValue error", func(j *jin.JO, p []string) (string, error) {
		l := ""
		e := j.IterateKeyValue(func(k, v []byte) (bool, error) { l += q(k) + q(v); return true, errStop }, p...)
		return l, e
	}, func(b []byte, p []string) (string, error) {
		l := ""
		e := jin.IterateKeyValue(b, func(k, v []byte) (bool, error) { l += q(k) + q(v); return true, errStop }, p...)
		return l, e
	}},
	{"Walk", func(j *jin.JO, p []string) (string, error) { return walkLog(j.Walk, p, -1, nil) }, func(b []byte, p []string) (string, error) { return walkLog(walkOf(b), p, -1, nil) }},
	{"Walk stop", func(j *jin.JO, p []string) (string, error) { return walkLog(j.Walk, p, 2, nil) }, func(b []byte, p []string) (string, error) { return walkLog(walkOf(b), p, 2, nil) }},
	{"Walk error", func(j *jin.JO, p []string) (string, error) { return walkLog(j.Walk, p, 2, errStop) }, func(b []byte, p []string) (string, error) { return walkLog(walkOf(b), p, 2, errStop) }},
}

type walkCb func(k string, v []byte, p []string) (bool, error)

func walkOf(b []byte) func(cb func(k string, v []byte, p []string) (bool, error)) error {
	return func(cb func(k string, v []byte, p []string) (bool, error)) error { return jin.Walk(b, cb) }
}

// walkLog walks once per document (Walk takes no path), ending at the given call.
func walkLog(walk func(func(k string, v []byte, p []string) (bool, error)) error, p []string, at int, end error) (string, error) {
	if len(p) > 0 {
		return "", nil
	}
	var l strings.Builder
	n := 0
	e := walk(func(k string, v []byte, p []string) (bool, error) {
		fmt.Fprintf(&l, "%q %q %q;", k, v, p)
		n++
		if n == at {
			return false, end
		}
		return true, nil
	})
	return l.String(), e
}

// joInside: what a callback does to its JO does not change the iteration under way, and happens.
func joInside(w *eng.W, doc []byte, t *ref.Tree) {
	ops := joOps(t, 0)
	for _, x := range positions(t) {
		kinds := []string{"Walk"}
		if len(x.path) > 0 {
			kinds = nil
		}
		switch x.n.Kind {
		case ref.Obj:
			kinds = append(kinds, "IterateKeyValue")
		case ref.Arr:
			kinds = append(kinds, "IterateArray")
		}
		for _, kind := range kinds {
			for oi := range ops {
				o := &ops[oi]
				w.State(1)
				w.Trace(1)
				w.At("JO."+kind+" with edits inside", x.path)
				w.Args(func() []string { return []string{o.name, o.args, fmt.Sprintf("%q", o.path)} })
				w.Guarded(func() {
					run := func(j *jin.JO, b []byte, each func()) (string, error) {
						l := ""
						var e error
						n := 0
						// no iteration makes more calls than the document has bytes
						more := func() bool { n++; return n <= len(doc) }
						switch kind {
						case "Walk":
							cb := func(k string, v []byte, p []string) (bool, error) {
								l += fmt.Sprintf("%q %q %q;", k, v, p)
								each()
								return more(), nil
							}
							if j != nil {
								e = j.Walk(cb)
							} else {
								e = jin.Walk(b, cb)
							}
						case "IterateKeyValue":
							cb := func(k, v []byte) (bool, error) { l += q(k) + q(v); each(); return more(), nil }
							if j != nil {
								e = j.IterateKeyValue(cb, x.path...)
							} else {
								e = jin.IterateKeyValue(b, cb, x.path...)
							}
						default:
							cb := func(v []byte) (bool, error) { l += q(v); each(); return more(), nil }
							if j != nil {
								e = j.IterateArray(cb, x.path...)
							} else {
								e = jin.IterateArray(b, cb, x.path...)
							}
						}
						return l, e
					}
					j := jin.New(append([]byte(nil), doc...))
					cur := string(doc)
					w.Tick()
					w.Trans++
					got, err := run(j, nil, func() {
						out, ferr := o.free([]byte(cur))
						e := o.jo(j)
						if errStr(e) != errStr(ferr) {
							w.Fail("text %q, inside the callback: %s gives error %v, the function gives %v", cur, o.name, e, ferr)
						}
						if ferr == nil {
							cur = string(out)
						}
						if g := string(j.JSON()); g != cur || j.String() != cur {
							w.Fail("inside the callback the text is %q, expected %q", g, cur)
						}
						w.Out("edit in a callback")
					})
					want, werr := run(nil, append([]byte(nil), doc...), func() {})
					if got != want || errStr(err) != errStr(werr) {
						w.Fail("the iteration sees %s and returns %v; over the text it started on %s and %v", got, err, want, werr)
					}
					if g := j.String(); g != cur {
						w.Fail("afterwards the text is %q, expected %q", g, cur)
					}
				})
			}
		}
	}
}

func c16(w *eng.W, key []byte) {
	if string(key) == "files|" {
		c16files(w)
		return
	}
	if key[0] == 'w' {
		c16pump(w, string(key))
		return
	}
	h := parseUnit(key)
	root, err := ref.Parse(h.doc)
	if err != nil {
		panic("ref.bad document")
	}
	if !root.NoDupKeys(h.doc) {
		return
	}
	var rec func(text string, hist []joOp)
	rec = func(text string, hist []joOp) {
		b := []byte(text)
		n, err := ref.Parse(b)
		if err != nil {
			return // a malformed result is another property's business; the comparison with the function was made
		}
		t := ref.ToTree(b, n)
		for i, o := range joOps(t, h.rich) {
			if len(hist) == 0 && i%h.parts != h.part {
				continue
			}
			next := append(hist[:len(hist):len(hist)], o)
			after, good := joHistory(w, h.doc, next)
			if good && len(next) < h.depth {
				rec(after, next)
			}
		}
	}
	rec(string(h.doc), nil)
	if h.part == 0 && h.rich == 2 && len(h.doc) < 100 {
		joInside(w, h.doc, ref.ToTree(h.doc, root))
	}
}

func joHistStr(hist []joOp) string {
	var s []string
	for _, o := range hist {
		s = append(s, fmt.Sprintf("%s(%s)%q", o.name, o.args, o.path))
	}
	return strings.Join(s, " ")
}

// joHistory replays the calls on one JO with all queries in between, and judges the last step.
func joHistory(w *eng.W, doc []byte, hist []joOp) (after string, good bool) {
	w.Trace(1)
	w.State(1)
	before := w.Failures()
	w.At("JO history", nil)
	w.Args(func() []string { return []string{joHistStr(hist)} })
	w.Guarded(func() {
		j := jin.New(append([]byte(nil), doc...))
		cur := string(doc)
		joAsk(w, j, cur, len(hist) == 1)
		for i, o := range hist {
			w.Tick()
			w.Trans++
			last := i == len(hist)-1
			fout, ferr := o.free([]byte(cur))
			err := o.jo(j)
			want := cur
			if ferr == nil {
				want = string(fout)
			}
			if last {
				if errStr(err) != errStr(ferr) {
					w.Fail("text %q: %s gives error %v, the function gives %v", cur, o.name, err, ferr)
					return
				}
				if ferr == nil {
					w.Out("edit ok")
				} else {
					w.Out("edit refused")
				}
			}
			cur = want
			joAsk(w, j, cur, last)
		}
		after = cur
	})
	return after, w.Failures() == before
}

func joAsk(w *eng.W, j *jin.JO, cur string, judge bool) {
	if g := string(j.JSON()); g != cur {
		w.Fail("JSON gives %q, the text is %q", g, cur)
		return
	}
	if g := j.String(); g != cur {
		w.Fail("String gives %q, the text is %q", g, cur)
		return
	}
	b := []byte(cur)
	n, err := ref.Parse(b)
	if err != nil {
		return
	}
	paths := [][]string{{"z~"}, {"0", "z~"}}
	for _, x := range positions(ref.ToTree(b, n)) {
		paths = append(paths, x.path)
	}
	for _, p := range paths {
		for i := range joQueries {
			qy := &joQueries[i]
			w.Tick()
			w.Trans++
			v, err := qy.jo(j, p)
			if !judge {
				continue
			}
			fv, ferr := qy.free(b, p)
			if v != fv || errStr(err) != errStr(ferr) {
				w.Fail("text %q: JO.%s(%q) gives %s, %v; the function gives %s, %v", cur, qy.name, p, v, err, fv, ferr)
				return
			}
			if err == nil {
				w.Out("query ok")
			} else {
				w.Out("query refused")
			}
		}
	}
	if g := string(j.JSON()); g != cur {
		w.Fail("queries changed the text from %q to %q", cur, g)
	}
}

func c16files(w *eng.W) {
	dir, err := os.MkdirTemp("", "mc-jo-")
	if err != nil {
		panic("ref." + err.Error())
	}
	defer os.RemoveAll(dir)
	w.At("NewJSON", nil)
	w.Guarded(func() {
		if j := jin.NewJSON(); j == nil || string(j.JSON()) != "{}" || j.String() != "{}" {
			w.Fail("NewJSON is not {}")
		}
		j, k := jin.NewJSON(), jin.NewJSON()
		if err := j.AddKeyValueInt("a", 1); err != nil || k.String() != "{}" || j.String() != `{"a":1}` {
			w.Fail("two NewJSON share their text: %q %q %v", j.String(), k.String(), err)
		}
	})
	contents := append([]string{"", " ", "\x00", "{", "not json", "\xef\xbb\xbf{}", "{}\r\n", "{}\n\n", strings.Repeat(" ", 5000) + "[]", `{"a":"` + strings.Repeat("x", 1<<20) + `"}`}, scenarioDocs...)
	var all []byte
	for c := 0; c < 256; c++ {
		all = append(all, byte(c))
		contents = append(contents, string([]byte{'"', byte(c), '"', byte(c)}))
	}
	contents = append(contents, string(all))
	for n := 500; n < 8200; n += 511 {
		contents = append(contents, strings.Repeat("z", n), strings.Repeat("z", n+1))
	}
	for i, c := range contents {
		for _, nm := range []string{"f.json", "noext", "sp ace.txt"} {
			name := filepath.Join(dir, fmt.Sprintf("%d-%s", i, nm))
			if err := os.WriteFile(name, []byte(c), 0o600); err != nil {
				panic("ref." + err.Error())
			}
			for _, f := range []struct {
				n string
				f func(string) (*jin.JO, error)
			}{{"ReadFile", jin.ReadFile}, {"ReadJSONFile", jin.ReadJSONFile}} {
				w.State(1)
				show := c
				if len(show) > 40 {
					show = show[:40]
				}
				w.At(f.n, nil, nm, show)
				w.Guarded(func() {
					j, err := f.f(name)
					if err != nil || j == nil {
						w.Fail("error %v", err)
						return
					}
					if string(j.JSON()) != c || j.String() != c {
						w.Fail("text is not the content of the file (%d bytes instead of %d)", len(j.JSON()), len(c))
					}
					w.Out("file ok")
				})
			}
			os.Remove(name)
		}
	}
	for _, name := range []string{filepath.Join(dir, "absent.json"), filepath.Join(dir, "no", "dir.json"), dir, "", filepath.Join(dir, "a\x00b")} {
		for _, f := range []struct {
			n string
			f func(string) (*jin.JO, error)
		}{{"ReadFile", jin.ReadFile}, {"ReadJSONFile", jin.ReadJSONFile}} {
			w.State(1)
			w.At(f.n, nil, strings.Replace(name, dir, "SCRATCH", 1))
			w.Guarded(func() {
				j, err := f.f(name)
				if err == nil || j != nil {
					w.Fail("unreadable file gives JO %v, error %v", j, err)
				}
				w.Out("file refused")
			})
		}
	}
}
