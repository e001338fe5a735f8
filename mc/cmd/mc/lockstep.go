package main

import (
	"fmt"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C27", Gens: c27Gens, Unit: c27,
		Rule:   "state = one Parser after a history of edits, next to the text the package functions produce; transition = one Parser edit and the function of the same name on the current text, compared byte for byte and failure by failure; trace = one complete history",
		Assume: []string{"histories beyond the stated length, alphabet and documents are not explored", "values given to edits are well formed; Parser.SetString is compared on texts that are not look-alikes of JSON values"},
		Need:   []string{"applied", "refused", "typed", "depth 2"}})
}

func c27Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	sc := docsGen("scenario documents", scenarioDocs...)
	gs := []eng.Gen{
		histGen(1, 2, 1, space(gen.Space{Nodes: 5, Labels: lbAll})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 4, Labels: lbBoth, AllGaps: " \n"})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 3, Labels: lbBoth, AllGaps: "\r\n\t"})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lb})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 2, Dev: 2, Labels: lb})),
		histGen(1, 2, 1, scale(scQuick)),
		histGen(1, 1, 1, sizes(2)),
		histGen(2, 4, 8, wideDocs(9, 17, 33, 65, 129, 257)),
		histGen(3, 4, 64, wideDocs(9, 17, 33, 65)),
		histGen(1, 3, 8, docsGen("documents for sized arguments", argDocs...)),
		histGen(2, 2, 1, space(gen.Space{Nodes: 3, Labels: lbBoth, AllGaps: " "})),
		histGen(2, 2, 1, space(gen.Space{Nodes: 2, Dev: 1, Labels: lb})),
		histGen(2, 2, 8, sc),
		histGen(3, 1, 16, docsGen("small documents", `{}`, `[]`, `{ "a" : 1 }`, "[\n\t1\n]", `{"a":[]}`, "[ {\r} ]", `{"a":{"b":1}}`)),
		pumpGen(2, 40, `{}`, `[]`, "{\n\t\"a\" : [ { } ]\n}", " [ [ 1 ] , 2 ] "),
		longGen(1030, 260, `{"a":1}`, `["x",[]]`),
	}
	if tier == "thorough" {
		gs = append(gs,
			histGen(1, 2, 1, space(gen.Space{MinNodes: 6, Nodes: 6, Labels: lbBoth})),
			histGen(1, 2, 1, space(gen.Space{Nodes: 4, Dev: 1, Labels: lb})),
			histGen(1, 2, 1, space(gen.Space{Nodes: 3, Dev: 2, Labels: lb})),
			histGen(2, 2, 1, space(gen.Space{Nodes: 4, Labels: lb, AllGaps: "\n "})),
			histGen(2, 2, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lb})),
			histGen(3, 2, 16, docsGen("small documents", `{}`, `[]`, `{ "a" : 1 }`, "[\n\t1\n]", `{"a":[]}`)),
			histGen(3, 1, 16, sc),
			pumpGen(3, 60, `{}`, `[]`, "{\n\t\"a\" : [ { } ]\n}"))
	}
	return gs
}

// pairOp is one Parser edit next to the package function.
type pairOp struct {
	name   string
	parser func(p *jin.Parser) error
	free   func(b []byte) ([]byte, error)
}

// typedPairs: every typed Parser edit at one path.
func typedPairs(path []string, key string, i int) []pairOp {
	var out []pairOp
	add := func(name string, args interface{}, p func(p *jin.Parser) error, f func(b []byte) ([]byte, error)) {
		out = append(out, pairOp{fmt.Sprintf("%s(%v)%q", name, args, path), p, f})
	}
	for _, s := range []string{"some text", "x]", "é,"} {
		s := s
		add("SetString", s, func(p *jin.Parser) error { return p.SetString(s, path...) }, func(b []byte) ([]byte, error) { return jin.SetString(b, s, path...) })
	}
	for _, s := range []string{"some text", "12", "true", `[1,"x"]`, `"q"`, "", "1e5", "null"} {
		s := s
		add("AddKeyValueString", key+" "+s, func(p *jin.Parser) error { return p.AddKeyValueString(key, s, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueString(b, key, s, path...) })
		add("AddString", s, func(p *jin.Parser) error { return p.AddString(s, path...) }, func(b []byte) ([]byte, error) { return jin.AddString(b, s, path...) })
		add("InsertString", fmt.Sprint(i, s), func(p *jin.Parser) error { return p.InsertString(i, s, path...) }, func(b []byte) ([]byte, error) { return jin.InsertString(b, i, s, path...) })
	}
	for _, v := range []int{0, -42, 1 << 62} {
		v := v
		add("SetInt", v, func(p *jin.Parser) error { return p.SetInt(v, path...) }, func(b []byte) ([]byte, error) { return jin.SetInt(b, v, path...) })
		add("AddKeyValueInt", fmt.Sprint(key, v), func(p *jin.Parser) error { return p.AddKeyValueInt(key, v, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueInt(b, key, v, path...) })
		add("AddInt", v, func(p *jin.Parser) error { return p.AddInt(v, path...) }, func(b []byte) ([]byte, error) { return jin.AddInt(b, v, path...) })
		add("InsertInt", fmt.Sprint(i, v), func(p *jin.Parser) error { return p.InsertInt(i, v, path...) }, func(b []byte) ([]byte, error) { return jin.InsertInt(b, i, v, path...) })
	}
	for _, v := range []float64{1.25, 100, 1e21, 0.1, 1e-7, 1.0 / 3} {
		v := v
		add("SetFloat", v, func(p *jin.Parser) error { return p.SetFloat(v, path...) }, func(b []byte) ([]byte, error) { return jin.SetFloat(b, v, path...) })
		add("AddKeyValueFloat", fmt.Sprint(key, v), func(p *jin.Parser) error { return p.AddKeyValueFloat(key, v, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueFloat(b, key, v, path...) })
		add("AddFloat", v, func(p *jin.Parser) error { return p.AddFloat(v, path...) }, func(b []byte) ([]byte, error) { return jin.AddFloat(b, v, path...) })
		add("InsertFloat", fmt.Sprint(i, v), func(p *jin.Parser) error { return p.InsertFloat(i, v, path...) }, func(b []byte) ([]byte, error) { return jin.InsertFloat(b, i, v, path...) })
	}
	for _, v := range []bool{true, false} {
		v := v
		add("SetBool", v, func(p *jin.Parser) error { return p.SetBool(v, path...) }, func(b []byte) ([]byte, error) { return jin.SetBool(b, v, path...) })
		add("AddKeyValueBool", fmt.Sprint(key, v), func(p *jin.Parser) error { return p.AddKeyValueBool(key, v, path...) }, func(b []byte) ([]byte, error) { return jin.AddKeyValueBool(b, key, v, path...) })
		add("AddBool", v, func(p *jin.Parser) error { return p.AddBool(v, path...) }, func(b []byte) ([]byte, error) { return jin.AddBool(b, v, path...) })
		add("InsertBool", fmt.Sprint(i, v), func(p *jin.Parser) error { return p.InsertBool(i, v, path...) }, func(b []byte) ([]byte, error) { return jin.InsertBool(b, i, v, path...) })
	}
	return out
}

func c27(w *eng.W, key []byte) {
	if key[0] == 'w' {
		c27pump(w, string(key))
		return
	}
	h := parseUnit(key)
	root, err := ref.Parse(h.doc)
	if err != nil {
		panic("ref.bad document")
	}
	if !root.NoDupKeys(h.doc) {
		return
	}
	var rec func(t *ref.Tree, hist []Edit)
	rec = func(t *ref.Tree, hist []Edit) {
		for i, e := range alphabet(t, h.rich, false, false) {
			if len(hist) == 0 && i%h.parts != h.part {
				continue
			}
			m := t.Clone()
			ok := e.model(m)
			next := append(hist[:len(hist):len(hist)], e)
			w.Trace(1)
			w.State(1)
			before := w.Failures()
			w.At("Parser history", nil)
			w.Args(func() []string { return []string{histStr(next)} })
			w.Guarded(func() { lockstep(w, h.doc, next, nil) })
			if w.Failures() != before {
				continue
			}
			if len(next) == 2 {
				w.Out("depth 2")
			}
			if ok {
				w.Out("applied")
			} else {
				w.Out("refused")
			}
			if len(next) < h.depth {
				rec(m, next)
			}
		}
	}
	t0 := ref.ToTree(h.doc, root)
	rec(t0, nil)
	if h.part != 0 || h.depth != 1 || len(h.doc) > 14 {
		return
	}
	for pi, x := range positions(t0) {
		if pi > 6 {
			break
		}
		for _, path := range [][]string{x.path, join(x.path, "z~")} {
			i := 0
			if n := len(x.n.Kids); n > 0 {
				i = pi % n
			}
			for _, k := range []string{"nk", "a"} {
				for _, o := range typedPairs(path, k, i) {
					o := o
					w.State(1)
					w.At("Parser typed edit", nil)
					w.Args(func() []string { return []string{o.name} })
					w.Guarded(func() { lockstep(w, h.doc, nil, &o) })
					w.Out("typed")
				}
			}
		}
	}
}

// lockstep replays the edits on a Parser and on a text with the package functions, comparing after every step.
func lockstep(w *eng.W, doc []byte, hist []Edit, o *pairOp) {
	p, err := jin.Parse(append([]byte(nil), doc...))
	if err != nil {
		w.Fail("Parse fails: %v", err)
		return
	}
	text := append([]byte(nil), doc...)
	step := func(name string, perr error, out []byte, ferr error) bool {
		w.Tick()
		w.Trans++
		if (perr == nil) != (ferr == nil) {
			w.Fail("text %q: Parser.%s gives error %v, the function gives %v", text, name, perr, ferr)
			return false
		}
		if ferr == nil {
			text = append([]byte(nil), out...)
		}
		if g := string(p.JSON()); g != string(text) {
			w.Fail("Parser.%s makes the text %q, the function makes it %q", name, g, text)
			return false
		}
		return true
	}
	for _, e := range hist {
		out, ferr := e.free(append([]byte(nil), text...))
		if !step(e.String(), e.parser(p), out, ferr) {
			return
		}
	}
	if o != nil {
		out, ferr := o.free(append([]byte(nil), text...))
		step(o.name, o.parser(p), out, ferr)
	}
}

func c27pump(w *eng.W, unit string) {
	var p *jin.Parser
	var text []byte
	pump(w, unit, func(s string) {
		text = []byte(s)
		w.At("Parse", nil)
		w.Guarded(func() {
			var err error
			if p, err = jin.Parse([]byte(s)); err != nil {
				w.Fail("Parse fails: %v", err)
				p = nil
			}
		})
	}, func(e Edit, m *ref.Tree, ok bool, hist func() []string, last bool) bool {
		if p == nil {
			return false
		}
		before := w.Failures()
		w.At("Parser long history", nil)
		w.Args(hist)
		w.Guarded(func() {
			out, ferr := e.free(append([]byte(nil), text...))
			perr := e.parser(p)
			if (perr == nil) != (ferr == nil) {
				w.Fail("text %q: Parser.%v gives error %v, the function gives %v", text, e, perr, ferr)
				return
			}
			if ferr == nil {
				text = out
			}
			if g := string(p.JSON()); g != string(text) {
				w.Fail("Parser.%v makes the text %q, the function makes it %q", e, g, text)
			}
		})
		return w.Failures() == before
	})
}
