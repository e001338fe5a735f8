package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C24", Gens: c24Gens, Unit: c24,
		Rule:   "state = one document text reached by a history (closure units: one state of the complete reachable graph of the model within the node bound); transition = one edit performed by the library on the text and by the model on the tree, compared by reparsing and by reading every path; trace = one complete history of real calls",
		Assume: []string{"histories beyond the stated length, alphabet, node bound and documents are not explored", "values given to edits are well formed, keys need no escaping"},
		Need:   []string{"applied", "refused", "emptied", "layout", "closure transition", "depth 3", "long history"}})
}

// closureGen: the complete graph of documents of at most n nodes reachable from the given ones.
func closureGen(n, rich, parts int, layout bool, docs ...string) eng.Gen {
	return eng.Gen{Name: fmt.Sprintf("complete reachable graph, <=%d nodes, alphabet %d, layout edits %v, from %q", n, rich, layout, docs), Each: func(y func([]byte) bool) {
		l := 0
		if layout {
			l = 1
		}
		for i := 0; i < parts; i++ {
			if !y([]byte(fmt.Sprintf("c%d r%d l%d p%d/%d|%s", n, rich, l, i, parts, strings.Join(docs, "|")))) {
				return
			}
		}
	}}
}

func c24Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	lb2 := []gen.Labels{gen.LabelsUnique, gen.LabelsIndex}
	sc := docsGen("scenario documents", scenarioDocs...)
	gs := []eng.Gen{
		histGen(1, 2, 1, space(gen.Space{Nodes: 5, Labels: lbBoth})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lbAll})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 2, Dev: 2, Labels: lb})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 4, Labels: lbBoth, AllGaps: " \n"})),
		histGen(2, 2, 1, space(gen.Space{Nodes: 4, Labels: append(lb2, lb...)})),
		histGen(2, 2, 1, space(gen.Space{Nodes: 2, Dev: 1, Labels: lb})),
		histGen(2, 2, 8, sc),
		histGen(3, 2, 16, docsGen("small documents", `{}`, `[]`, `{"a":1}`, `[1]`, `{"a":[]}`, `[{}]`)),
		histGen(3, 1, 1, space(gen.Space{Nodes: 3, Labels: lb})),
		histGen(4, 0, 16, docsGen("tiny documents", `{}`, `[]`, `[1]`, `{"a":1}`, `[[]]`, `[{}]`)),
		closureGen(5, 1, 16, false, `{}`, `[]`),
		closureGen(4, 2, 16, true, `{}`, `[]`),
		pumpGen(2, 40, `{}`, `[]`, `{"a":[{}]}`, `[[1],2]`),
		longGen(1030, 260, `{"a":1}`, `["x",[]]`),
		histGen(1, 0, 1, scale(scSmall)),
		histGen(1, 0, 1, sizes(4)),
		histGen(2, 4, 8, wideDocs(9, 17, 33, 65, 129, 257)),
		histGen(3, 4, 64, wideDocs(9, 17, 33, 65)),
		histGen(1, 3, 8, docsGen("documents for sized arguments", argDocs...)),
	}
	if tier == "thorough" {
		gs = append(gs,
			histGen(2, 2, 1, space(gen.Space{Nodes: 5, Labels: lb})),
			histGen(2, 2, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lb})),
			histGen(3, 1, 16, sc),
			histGen(3, 2, 4, space(gen.Space{Nodes: 3, Labels: lb})),
			pumpGen(3, 70, `{}`, `[]`, `{"a":[{}]}`, `[[1],2]`),
			closureGen(6, 1, 64, false, `{}`, `[]`),
			closureGen(5, 2, 64, true, `{}`, `[]`),
			histGen(5, 0, 64, docsGen("tiny documents", `{}`, `[]`, `[1]`, `{"a":1}`)),
			histGen(4, 1, 64, docsGen("tiny documents", `{}`, `[]`)),
		)
	}
	return gs
}

func c24(w *eng.W, key []byte) {
	if key[0] == 'w' {
		c24pump(w, string(key))
		return
	}
	if key[0] == 'c' {
		c24closure(w, string(key))
		return
	}
	h := parseUnit(key)
	root, err := ref.Parse(h.doc)
	if err != nil {
		panic("ref.bad document")
	}
	if !root.NoDupKeys(h.doc) {
		return
	}
	var rec func(text []byte, t *ref.Tree, hist []Edit)
	rec = func(text []byte, t *ref.Tree, hist []Edit) {
		for i, e := range alphabet(t, h.rich, true, true) {
			if len(hist) == 0 && i%h.parts != h.part {
				continue
			}
			m := t.Clone()
			ok := e.model(m)
			next := append(hist[:len(hist):len(hist)], e)
			w.Trace(1)
			w.State(1)
			out, good := editStep(w, text, e, m, ok, func() []string { return []string{histStr(next)} })
			if !good {
				continue
			}
			if len(next) == 3 {
				w.Out("depth 3")
			}
			if len(next) < h.depth {
				rec(out, m, next)
			}
		}
	}
	rec(append([]byte(nil), h.doc...), ref.ToTree(h.doc, root), nil)
}

// editStep performs one edit with the package function and compares the result with the model.
func editStep(w *eng.W, text []byte, e Edit, m *ref.Tree, ok bool, args func() []string) (out []byte, good bool) {
	before := w.Failures()
	w.At("history", nil)
	w.Args(args)
	w.Guarded(func() {
		was := string(text)
		var err error
		out, err = e.free(text)
		if (err == nil) != ok {
			w.Fail("on %q: %v: error %v, but the model says applies=%v", was, e, err, ok)
			return
		}
		if !ok {
			w.Out("refused")
			if string(out) != was {
				w.Fail("on %q: refused %v changed the text to %q", was, e, out)
			}
			return
		}
		src := []byte(string(out))
		root, perr := ref.Parse(src)
		if perr != nil {
			w.Fail("on %q: %v gives malformed text %q", was, e, out)
			return
		}
		if got := ref.ToTree(src, root).String(); got != m.String() {
			w.Fail("on %q: %v gives %q, model %q", was, e, out, m.String())
			return
		}
		w.Out("applied")
		if len(m.Kids) == 0 {
			w.Out("emptied")
		}
		if e.Op == "Flatten" || e.Op == "Indent" {
			w.Out("layout")
		}
		for _, x := range positions(m) {
			if len(x.path) == 0 {
				continue
			}
			w.Tick()
			w.Trans++
			want := x.n.Leaf
			if x.n.IsContainer() {
				want = x.n.String()
			} else if x.n.Kind == ref.Str {
				want = want[1 : len(want)-1]
			}
			v, err := jin.Get(out, x.path...)
			if err != nil || !same(x.n, v, want) {
				w.Fail("on %q: after %v (text %q) Get(%q) gives %q, error %v; model %q", was, e, out, x.path, v, err, want)
				return
			}
		}
		for _, bad := range badFor(m) {
			if v, err := jin.Get(out, bad); err == nil {
				w.Fail("on %q: after %v (text %q) Get(%q) gives %q, the path does not resolve", was, e, out, bad, v)
				return
			}
		}
	})
	return out, w.Failures() == before
}

// c24closure explores the complete model graph and replays every transition of this part's states on the library.
func c24closure(w *eng.W, unit string) {
	var n, rich, lay, part, parts int
	i := strings.IndexByte(unit, '|')
	if _, err := fmt.Sscanf(unit[:i], "c%d r%d l%d p%d/%d", &n, &rich, &lay, &part, &parts); err != nil {
		panic("ref.unit " + unit)
	}
	type st struct {
		t    *ref.Tree
		text string
	}
	seen := map[string]bool{}
	var queue []st
	push := func(t *ref.Tree, text string) {
		if !seen[text] {
			seen[text] = true
			queue = append(queue, st{t, text})
		}
	}
	for _, d := range strings.Split(unit[i+1:], "|") {
		t := ref.MustTree([]byte(d))
		push(t, t.String())
	}
	for q := 0; q < len(queue); q++ {
		s := queue[q]
		queue[q].t = nil
		w.Tick()
		h := fnv.New32a()
		h.Write([]byte(s.text))
		mine := int(h.Sum32()>>3)%parts == part
		if mine {
			w.State(1)
		}
		// a state is given to the library in compact form and, with layout edits, indented
		texts := []string{s.text}
		if mine && lay == 1 {
			texts = append(texts, indentModel(s.t))
		}
		for _, e := range alphabet(s.t, rich, true, lay == 1) {
			m := s.t.Clone()
			ok := e.model(m)
			if mine {
				for _, tx := range texts {
					w.Trace(1)
					w.Out("closure transition")
					editStep(w, []byte(tx), e, m, ok, func() []string { return []string{tx, e.String()} })
				}
			}
			if ok && countNodes(m) <= n {
				push(m, m.String())
			}
		}
	}
}

func countNodes(t *ref.Tree) int {
	n := 1
	for _, k := range t.Kids {
		n += countNodes(k)
	}
	return n
}

// indentModel renders a tree over several lines.
func indentModel(t *ref.Tree) string {
	var b strings.Builder
	var rec func(t *ref.Tree, d int)
	nl := func(d int) { b.WriteString("\n" + strings.Repeat("\t", d)) }
	rec = func(t *ref.Tree, d int) {
		switch t.Kind {
		case ref.Obj:
			b.WriteByte('{')
			for i, k := range t.Kids {
				if i > 0 {
					b.WriteString(" ,")
				}
				nl(d + 1)
				b.WriteString(`"` + t.Keys[i] + `" : `)
				rec(k, d+1)
			}
			nl(d)
			b.WriteByte('}')
		case ref.Arr:
			b.WriteByte('[')
			for i, k := range t.Kids {
				if i > 0 {
					b.WriteString(" ,")
				}
				nl(d + 1)
				rec(k, d+1)
			}
			nl(d)
			b.WriteByte(']')
		default:
			b.WriteString(t.Leaf)
		}
	}
	rec(t, 0)
	return b.String()
}
