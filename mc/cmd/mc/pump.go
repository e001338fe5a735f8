package main

import (
	"fmt"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// Long histories: a word of symbolic edits is repeated until the history has the stated length.  Each symbol is
// resolved against the model state it meets, so the space is all periodic histories of the given periods.
const pumpSyms = "aimdDsSrnNxe"

func pumpEdit(sym byte, t *ref.Tree, step int) (Edit, bool) {
	n := len(t.Kids)
	comp := func(i int) string {
		if t.Kind == ref.Obj {
			return t.Keys[i]
		}
		return itoa(i)
	}
	val := []string{`7`, `"x]"`, `{"k":[8]}`, `[]`, `null`}[step%5]
	key := fmt.Sprintf("n%d", step)
	switch sym {
	case 'a': // append at the root
		if t.Kind == ref.Obj {
			return Edit{Op: "AddKeyValue", Key: key, Val: val}, true
		}
		return Edit{Op: "Add", Val: val}, true
	case 'i': // insert first
		if t.Kind == ref.Obj {
			return Edit{Op: "AddKeyValue", Key: key, Val: `{}`}, true
		}
		return Edit{Op: "Insert", Idx: 0, Val: val}, true
	case 'm': // insert in the middle
		if t.Kind == ref.Obj {
			return Edit{}, false
		}
		return Edit{Op: "Insert", Idx: n / 2, Val: val}, true
	case 'd': // delete the first
		if n == 0 {
			return Edit{Op: "Delete", Path: []string{"0"}}, true
		}
		return Edit{Op: "Delete", Path: []string{comp(0)}}, true
	case 'D': // delete the last
		if n == 0 {
			return Edit{}, false
		}
		return Edit{Op: "Delete", Path: []string{comp(n - 1)}}, true
	case 's':
		if n == 0 {
			return Edit{}, false
		}
		return Edit{Op: "Set", Path: []string{comp(0)}, Val: val}, true
	case 'S':
		if n == 0 {
			return Edit{}, false
		}
		return Edit{Op: "Set", Path: []string{comp(n - 1)}, Val: val}, true
	case 'r':
		if n == 0 || t.Kind != ref.Obj {
			return Edit{}, false
		}
		return Edit{Op: "SetKey", Path: []string{comp(n / 2)}, Key: "r" + itoa(step)}, true
	case 'n': // nest: wrap one level deeper at the end
		p, c := lastLeafContainer(t)
		if c.Kind == ref.Obj {
			return Edit{Op: "AddKeyValue", Path: p, Key: "d", Val: `[]`}, true
		}
		return Edit{Op: "Add", Path: p, Val: `{}`}, true
	case 'N': // grow the last container
		p, c := lastLeafContainer(t)
		if c.Kind == ref.Obj {
			return Edit{Op: "AddKeyValue", Path: p, Key: key, Val: `1`}, true
		}
		return Edit{Op: "Add", Path: p, Val: `"s"`}, true
	case 'x': // fails
		return Edit{Op: "Set", Path: []string{"zz", "y"}, Val: val}, true
	case 'e': // grow a value in size
		if n == 0 {
			return Edit{}, false
		}
		return Edit{Op: "Set", Path: []string{comp(n - 1)}, Val: `"` + strings.Repeat("g", 3*step) + `"`}, true
	}
	panic("ref.symbol")
}

// lastLeafContainer is the last container in preorder.
func lastLeafContainer(t *ref.Tree) ([]string, *ref.Tree) {
	var p []string
	c := t
	for _, x := range positions(t) {
		if x.n.IsContainer() {
			p, c = x.path, x.n
		}
	}
	return p, c
}

func pumpGen(period, length int, docs ...string) eng.Gen {
	return eng.Gen{Name: fmt.Sprintf("periodic histories: all words of <=%d of %d symbolic edits repeated to length %d, on %q", period, len(pumpSyms), length, docs), Each: func(y func([]byte) bool) {
		var rec func(word string) bool
		rec = func(word string) bool {
			if word != "" {
				for _, d := range docs {
					if !y([]byte(fmt.Sprintf("w%d %s|%s", length, word, d))) {
						return false
					}
				}
			}
			if len(word) == period {
				return true
			}
			for _, c := range pumpSyms {
				if !rec(word + string(c)) {
					return false
				}
			}
			return true
		}
		rec("")
	}}
}

// longWords are the words of at most two edits whose repetition keeps the document small.
func longWords() []string {
	out := []string{"s", "S", "r", "x", "ar", "ed"}
	for _, a := range "sSrx" {
		for _, b := range "sSrx" {
			if a != b {
				out = append(out, string(a)+string(b))
			}
		}
	}
	for _, a := range "aim" {
		for _, d := range "dD" {
			out = append(out, string(a)+string(d), string(d)+string(a))
		}
	}
	return out
}

// longGen: long periodic histories, and histories that only append.
func longGen(length, grow int, docs ...string) eng.Gen {
	return eng.Gen{Name: fmt.Sprintf("periodic histories of words that keep the document small, repeated to length %d, and of growing ones to length %d, on %q", length, grow, docs), Each: func(y func([]byte) bool) {
		for _, d := range docs {
			for _, word := range longWords() {
				n := length
				if word == "ar" || word == "ed" {
					n = grow
				}
				if !y([]byte(fmt.Sprintf("w%d %s|%s", n, word, d))) {
					return
				}
			}
			for _, word := range []string{"a", "i", "m", "N", "aN"} {
				if !y([]byte(fmt.Sprintf("w%d %s|%s", grow, word, d))) {
					return
				}
			}
		}
	}}
}

// probe tells whether the state after k edits is looked at in full: every small one, of the larger ones those next to
// powers of two.
func probe(k int, text string) bool {
	return k < 44 || len(text) < 60 || gen.Near(k, 1<<30)
}

// pump runs one periodic history: step performs the edit on the library and reports whether to go on.
func pump(w *eng.W, unit string, doc func(text string), step func(e Edit, m *ref.Tree, ok bool, hist func() []string, last bool) bool) {
	var n int
	var word string
	i := strings.IndexByte(unit, '|')
	if _, err := fmt.Sscanf(unit[:i], "w%d %s", &n, &word); err != nil {
		panic("ref.unit " + unit)
	}
	t := ref.MustTree([]byte(unit[i+1:]))
	doc(unit[i+1:])
	w.Trace(1)
	var hist []Edit
	for s := 0; s < n; s++ {
		e, has := pumpEdit(word[s%len(word)], t, s)
		if !has {
			continue
		}
		m := t.Clone()
		ok := e.model(m)
		hist = append(hist, e)
		w.State(1)
		if !step(e, m, ok, func() []string { return []string{fmt.Sprintf("%d edits, the last %v", len(hist), e)} }, s == n-1) {
			return
		}
		if s >= 20 {
			w.Out("long history")
		}
		t = m
	}
}

func c24pump(w *eng.W, unit string) {
	var text []byte
	pump(w, unit, func(s string) { text = []byte(s) }, func(e Edit, m *ref.Tree, ok bool, hist func() []string, _ bool) bool {
		out, good := editStep(w, text, e, m, ok, hist)
		text = out
		return good
	})
}

func c15pump(w *eng.W, unit string) {
	for _, every := range []int{1, 7} {
		var p *jin.Parser
		k := 0
		pump(w, unit, func(s string) {
			w.At("Parse", nil)
			w.Guarded(func() {
				var err error
				if p, err = jin.Parse([]byte(s)); err != nil {
					w.Fail("Parse fails: %v", err)
					p = nil
				}
			})
		}, func(e Edit, m *ref.Tree, ok bool, hist func() []string, last bool) bool {
			if p == nil {
				return false
			}
			before := w.Failures()
			w.At("Parser long history", nil)
			w.Args(hist)
			k++
			w.Guarded(func() {
				prev := string(p.JSON())
				err := e.parser(p)
				if (err == nil) != ok {
					w.Fail("on %q: %v: error %v, but the model says applies=%v", prev, e, err, ok)
					return
				}
				text := string(p.JSON())
				if !ok && text != prev {
					w.Fail("failed edit changed the text from %q to %q", prev, text)
					return
				}
				if probe(k, text) && k%every == 0 || last {
					compareParser(w, p, text, m)
				}
			})
			return w.Failures() == before
		})
	}
}

func c16pump(w *eng.W, unit string) {
	var j *jin.JO
	var cur string
	k := 0
	pump(w, unit, func(s string) { j = jin.New([]byte(s)); cur = s }, func(e Edit, m *ref.Tree, ok bool, hist func() []string, last bool) bool {
		before := w.Failures()
		w.At("JO long history", nil)
		w.Args(hist)
		k++
		w.Guarded(func() {
			fout, ferr := e.free([]byte(cur))
			err := e.jo(j)
			if errStr(err) != errStr(ferr) {
				w.Fail("on %q: %v gives error %v, the function gives %v", cur, e, err, ferr)
				return
			}
			if ferr == nil {
				cur = string(fout)
			}
			if g := string(j.JSON()); g != cur {
				w.Fail("JSON gives %q, the text is %q", g, cur)
			}
			if g := j.String(); g != cur {
				w.Fail("String gives %q, the text is %q", g, cur)
			}
			if k == 2 || last || (k%16 == 0 || gen.Near(k, 1<<30)) && len(cur) < 300 {
				joAsk(w, j, cur, true)
			}
		})
		return w.Failures() == before
	})
}
