package main

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C14", Gens: stdSpaces(1), Unit: docUnit(c14), Rule: readRule, Assume: docAssume, Need: []string{"value", "refused", "tree"}})
	reg(&eng.Check{ID: "C15", Gens: c15Gens, Unit: c15,
		Rule:   "state = one history prefix (the Parser after that sequence of edits); transition = one edit applied to Parser and model tree, or one comparison query; trace = one complete history replayed on the real Parser from a fresh Parse",
		Assume: []string{"histories beyond the stated length, alphabet and documents are not explored", "values given to edits are well formed, keys need no escaping"},
		Need:   []string{"applied", "refused", "emptied", "depth 3", "long history"}})
}

// checkTree compares Parser.Tree with the document.
func checkTree(w *eng.W, got string, root *ref.Node, src []byte, what string) {
	if got != "" && !strings.HasSuffix(got, "\n") {
		w.Fail("%s: Tree text does not end with a newline: %q", what, got)
		return
	}
	var lines []string
	if got != "" {
		lines = strings.Split(got[:len(got)-1], "\n")
	}
	i := 0
	var rec func(n *ref.Node, depth int) bool
	rec = func(n *ref.Node, depth int) bool {
		for k, kid := range n.Kids {
			label := n.Comp(src, k)
			if i >= len(lines) {
				w.Fail("%s: Tree misses member %q at depth %d: %q", what, label, depth, got)
				return false
			}
			l := lines[i]
			i++
			t := strings.TrimLeft(l, "\t")
			_, rl := utf8.DecodeRuneInString(t)
			ok := len(l)-len(t) == depth && len(t) > rl
			if ok {
				rest := t[rl:]
				ok = rest == " "+label || rest == "  "+label
			}
			if !ok {
				w.Fail("%s: Tree line %q should list %q at depth %d: %q", what, l, label, depth, got)
				return false
			}
			if !rec(kid, depth+1) {
				return false
			}
		}
		return true
	}
	if rec(root, 0) && i != len(lines) {
		w.Fail("%s: Tree lists %d lines for %d members: %q", what, len(lines), i, got)
	}
}

// checkTreeFull compares Parser.TreeFull with the document: the members of Tree, each with its value.
func checkTreeFull(w *eng.W, got string, root *ref.Node, src []byte, what string) {
	rest := got
	var rec func(n *ref.Node, depth int) bool
	rec = func(n *ref.Node, depth int) bool {
		for k, kid := range n.Kids {
			label := n.Comp(src, k)
			t := strings.TrimLeft(rest, "\t")
			_, rl := utf8.DecodeRuneInString(t)
			ok := len(rest)-len(t) == depth && len(t) > rl
			if ok {
				t = strings.TrimLeft(t[rl:], " ")
				l := strings.TrimLeft(label, " ")
				ok = strings.HasPrefix(t, l)
				if ok {
					t = strings.TrimLeft(t[len(l):], " ")
					ok = strings.HasPrefix(t, ": ")
				}
			}
			if ok {
				t = t[2:]
				ok = false
				full := kid.Full(src)
				a, b := kid.Start, kid.End
				for a > 0 && ref.IsSpace(src[a-1]) {
					a--
				}
				for b < len(src) && ref.IsSpace(src[b]) {
					b++
				}
				// the blanks around and inside the value are free
				for _, v := range []string{string(src[a:b]), string(src[a:kid.End]), string(src[kid.Start:b]), full, kid.Text(src), ref.Compact([]byte(full))} {
					if strings.HasPrefix(t, v+"\n") {
						rest, ok = t[len(v)+1:], true
						break
					}
				}
			}
			if !ok {
				w.Fail("%s: TreeFull should list %q with its value at depth %d: at %q of %q", what, label, depth, rest, got)
				return false
			}
			if !rec(kid, depth+1) {
				return false
			}
		}
		return true
	}
	if rec(root, 0) && rest != "" {
		w.Fail("%s: TreeFull ends with %q beyond the members: %q", what, rest, got)
	}
}

// content of a returned text: containers up to layout, strings and scalars exact.
func content(s string) string {
	if len(s) > 0 && (s[0] == '{' || s[0] == '[' || ref.IsSpace(s[0])) {
		b := []byte(s)
		if n, err := ref.Parse(b); err == nil && n.IsContainer() {
			return ref.Compact(b)
		}
	}
	return s
}

func c14(w *eng.W, d *D) {
	var p *jin.Parser
	var err error
	w.At("Parse", nil)
	if !w.Guarded(func() { p, err = jin.Parse(d.B) }) {
		return
	}
	if err != nil || p == nil {
		w.Fail("Parse of a well-formed document fails: %v", err)
		return
	}
	w.At("Parser.JSON", nil)
	w.Guarded(func() {
		if string(p.JSON()) != d.S {
			w.Fail("JSON is %q", p.JSON())
		}
	})
	paths := make([][]string, 0, 64)
	for _, x := range d.Pos {
		paths = append(paths, x.Path)
	}
	nOk := len(paths)
	for _, f := range d.FailsShort() {
		paths = append(paths, f.Path)
	}
	ig, pg := interp(d), parserGetter(p)
	for i, path := range paths {
		w.State(1)
		want, isStr := "", false
		if i < nOk {
			want = d.Text(d.Pos[i].Node)
			isStr = d.Pos[i].Node.Kind == ref.Str
		}
		w.At("Parser.Get", path)
		w.Guarded(func() {
			v, err := p.Get(path...)
			iv, ierr := jin.Get(d.B, path...)
			switch {
			case i == 0:
				if err != nil || string(v) != d.S {
					w.Fail("want the document, got %q, error %v", v, err)
				}
			case i < nOk:
				if err != nil || string(v) != want {
					w.Fail("want %q, got %q, error %v", want, v, err)
				}
				w.Out("value")
			default:
				if err == nil {
					w.Fail("path does not resolve, yet Parser.Get gives %q", v)
				}
				w.Out("refused")
			}
			if (err == nil) != (ierr == nil) || err == nil && string(v) != string(iv) {
				w.Fail("Parser.Get gives %q, %v; Get gives %q, %v", v, err, iv, ierr)
			}
		})
		if i < nOk {
			w.At("Parser.GetNew", path)
			w.Guarded(func() {
				g := string(p.GetNew(path...))
				if isStr && g != want || !isStr && ref.Compact([]byte(g)) != ref.Compact([]byte(want)) {
					w.Fail("GetNew gives %q for %q", g, want)
				}
			})
		}
		typedAgree(w, ig, pg, path, i >= nOk)
	}
	for _, x := range d.All {
		if len(x.Path) > 1100 {
			return // Tree takes time cubic in the depth
		}
	}
	w.At("Parser.Tree", nil)
	w.Guarded(func() {
		checkTree(w, p.Tree(), d.Root, d.src, "parsed")
		w.Out("tree")
	})
	w.At("Parser.TreeFull", nil)
	w.Guarded(func() { checkTreeFull(w, p.TreeFull(), d.Root, d.src, "parsed") })
}

// typedAgree compares every typed getter of two sources on one path.
func typedAgree(w *eng.W, a, b *getter, path []string, must bool) {
	agree := func(name string, x, y interface{}, ex, ey error) {
		if must && ey == nil {
			w.Fail("path does not resolve, yet %s gives %v", name, y)
			return
		}
		if (ex == nil) != (ey == nil) || ex == nil && q(x) != q(y) {
			w.Fail("%s: %v, error %v; interpreter: %v, error %v", name, y, ey, x, ex)
		}
	}
	w.At(b.name+"GetInt", path)
	w.Guarded(func() {
		x, ex := a.int(path...)
		y, ey := b.int(path...)
		agree("GetInt", x, y, ex, ey)
	})
	w.At(b.name+"GetString", path)
	w.Guarded(func() {
		x, ex := a.str(path...)
		y, ey := b.str(path...)
		agree("GetString", x, y, ex, ey)
	})
	w.At(b.name+"GetFloat", path)
	w.Guarded(func() {
		x, ex := a.float(path...)
		y, ey := b.float(path...)
		agree("GetFloat", x, y, ex, ey)
	})
	w.At(b.name+"GetBool", path)
	w.Guarded(func() {
		x, ex := a.bool(path...)
		y, ey := b.bool(path...)
		agree("GetBool", x, y, ex, ey)
	})
	w.At(b.name+"GetStringArray", path)
	w.Guarded(func() {
		x, ex := a.strs(path...)
		y, ey := b.strs(path...)
		agree("GetStringArray", x, y, ex, ey)
	})
	w.At(b.name+"GetIntArray", path)
	w.Guarded(func() {
		x, ex := a.ints(path...)
		y, ey := b.ints(path...)
		agree("GetIntArray", x, y, ex, ey)
	})
	w.At(b.name+"GetFloatArray", path)
	w.Guarded(func() {
		x, ex := a.floats(path...)
		y, ey := b.floats(path...)
		agree("GetFloatArray", x, y, ex, ey)
	})
	w.At(b.name+"GetBoolArray", path)
	w.Guarded(func() {
		x, ex := a.bools(path...)
		y, ey := b.bools(path...)
		agree("GetBoolArray", x, y, ex, ey)
	})
}

// ---- C15 ----

func c15Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	lb2 := []gen.Labels{gen.LabelsUnique, gen.LabelsIndex}
	sc := docsGen("scenario documents", scenarioDocs...)
	gs := []eng.Gen{
		histGen(1, 2, 1, space(gen.Space{Nodes: 5, Labels: lbBoth})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lb})),
		histGen(1, 2, 1, space(gen.Space{Nodes: 4, Labels: lbBoth, AllGaps: " \n"})),
		histGen(2, 2, 1, space(gen.Space{Nodes: 3, Labels: append(lb2, lb...)})),
		histGen(2, 2, 8, sc),
		histGen(2, 1, 1, space(gen.Space{Nodes: 4, Labels: lb})),
		histGen(3, 1, 16, docsGen("small documents", `{}`, `[]`, `{"a":1}`, `[1]`, `{"a":[]}`, `[{}]`, `[[1],2]`, `{"a":{"b":1}}`, `[{"a":1}]`, `{"a":[1,2]}`)),
		histGen(4, 0, 16, docsGen("tiny documents", `{}`, `[]`, `[1]`, `{"a":1}`, `[[]]`, `[{}]`)),
		pumpGen(2, 40, `{}`, `[]`, `{"a":[{}]}`, `[[1],2]`),
		longGen(1030, 260, `{"a":1}`, `["x",[]]`),
		histGen(1, 0, 1, scale(gen.Scale{Depth: 8, Width: 10, Len: 8})),
		histGen(1, 0, 1, sizes(4)),
		histGen(2, 4, 8, wideDocs(9, 17, 33, 65, 129)),
		histGen(3, 4, 32, wideDocs(9)),
		histGen(1, 3, 8, docsGen("documents for sized arguments", argDocs...)),
	}
	if tier == "thorough" {
		gs = append(gs,
			histGen(2, 2, 1, space(gen.Space{Nodes: 4, Labels: lb2})),
			pumpGen(3, 60, `{}`, `[]`, `{"a":[{}]}`, `[[1],2]`),
			histGen(2, 1, 1, space(gen.Space{Nodes: 3, Dev: 1, Labels: lb})),
			histGen(2, 1, 1, space(gen.Space{Nodes: 5, Labels: lb})),
			histGen(3, 2, 16, docsGen("small documents", `{}`, `[]`, `{"a":1}`, `[1]`, `{"a":[]}`, `[{}]`)),
			histGen(3, 1, 16, sc),
			histGen(3, 1, 8, space(gen.Space{Nodes: 3, Labels: lb})),
			histGen(4, 1, 64, docsGen("tiny documents", `{}`, `[]`)),
			histGen(5, 0, 64, docsGen("tiny documents", `{}`, `[]`, `[1]`, `{"a":1}`)),
		)
	}
	return gs
}

// c15 explores every edit history of the unit on a real Parser; each prefix is a history of its own, and the
// comparison with the model happens after its last edit.
func c15(w *eng.W, key []byte) {
	if key[0] == 'w' {
		c15pump(w, string(key))
		return
	}
	h := parseUnit(key)
	root, err := ref.Parse(h.doc)
	if err != nil {
		panic("ref.bad document")
	}
	if !root.NoDupKeys(h.doc) {
		return
	}
	t0 := ref.ToTree(h.doc, root)
	var rec func(t *ref.Tree, hist []Edit)
	rec = func(t *ref.Tree, hist []Edit) {
		rich := h.rich
		for i, e := range alphabet(t, rich, false, false) {
			if len(hist) == 0 && i%h.parts != h.part {
				continue
			}
			m := t.Clone()
			ok := e.model(m)
			next := append(hist[:len(hist):len(hist)], e)
			w.Trace(1)
			w.State(1)
			if !parserHistory(w, h.doc, next, m, ok, cold, nil) {
				continue
			}
			// the same history with reads in between: everything read before each edit, then each path in turn as the
			// last thing read before and the first read after the last edit
			if !parserHistory(w, h.doc, next, m, ok, readAll, t) {
				continue
			}
			if len(next) < 2 && len(h.doc) < 60 || len(next) == 2 && len(h.doc) < 16 {
				pos := positions(t)
				for i := range pos {
					if i > 9 && i < len(pos)-1 {
						continue
					}
					if !parserHistory(w, h.doc, next, m, ok, i, t) {
						break
					}
				}
			}
			if len(next) == 3 {
				w.Out("depth 3")
			}
			if ok {
				w.Out("applied")
				if len(m.Kids) == 0 {
					w.Out("emptied")
				}
			} else {
				w.Out("refused")
			}
			if len(next) < h.depth {
				rec(m, next)
			}
		}
	}
	rec(t0, nil)
}

// Which reads precede the edits: none, all, or (>= 0) one position, directly before and directly after the last edit.
const (
	cold    = -1
	readAll = -2
)

// parserHistory replays the edits on a fresh Parser and compares it with the model after the last one.
func parserHistory(w *eng.W, doc []byte, hist []Edit, m *ref.Tree, lastOk bool, warm int, t *ref.Tree) bool {
	before := w.Failures()
	buf := append([]byte(nil), doc...)
	w.At("Parser history", nil)
	var pos []tpos
	if t != nil {
		pos = positions(t)
	}
	w.Args(func() []string {
		h := histStr(hist)
		switch {
		case warm == readAll:
			h += " (all paths read before each edit)"
		case warm >= 0:
			h += fmt.Sprintf(" (%q read just before and after the last edit)", pos[warm].path)
		}
		return []string{h}
	})
	w.Guarded(func() {
		p, err := jin.Parse(buf)
		if err != nil {
			w.Fail("Parse fails: %v", err)
			return
		}
		var prev string
		for i, e := range hist {
			if i == len(hist)-1 {
				prev = string(p.JSON())
			}
			w.Tick()
			w.Trans++
			if warm == readAll {
				for _, x := range pos {
					p.Get(x.path...)
					p.GetString(x.path...)
				}
				for i := len(pos) - 1; i >= 0; i-- {
					p.Get(pos[i].path...)
					p.GetNew(pos[i].path...)
				}
				p.Tree()
			} else if warm >= 0 && i == len(hist)-1 {
				p.Get(pos[warm].path...)
				p.GetNew(pos[warm].path...)
			}
			err = e.parser(p)
		}
		last := hist[len(hist)-1]
		if warm >= 0 {
			path := pos[warm].path
			v, verr := p.Get(path...)
			n := m.Find(path)
			if n == nil {
				if verr == nil {
					w.Fail("Get(%q) gives %q, the path does not resolve any more", path, v)
					return
				}
			} else if verr != nil || !same(n, v, leafText(n)) {
				w.Fail("Get(%q) gives %q, error %v; model %q", path, v, verr, leafText(n))
				return
			}
		}
		if (err == nil) != lastOk {
			w.Fail("%v: error %v, but the model says applies=%v", last, err, lastOk)
			return
		}
		text := string(p.JSON())
		if !lastOk && text != prev {
			w.Fail("failed edit changed the text from %q to %q", prev, text)
			return
		}
		compareParser(w, p, text, m)
	})
	return w.Failures() == before
}

// compareParser: the text is the model's, and every read answers as the model and as a fresh Parse of the text.
func compareParser(w *eng.W, p *jin.Parser, text string, m *ref.Tree) {
	src := []byte(text)
	root, perr := ref.Parse(src)
	if perr != nil {
		w.Fail("text is malformed: %q", text)
		return
	}
	if got := ref.ToTree(src, root).String(); got != m.String() {
		w.Fail("text is %q, model %q", text, m.String())
		return
	}
	fresh, err := jin.Parse(src)
	if err != nil {
		w.Fail("fresh Parse of %q fails: %v", text, err)
		return
	}
	for _, x := range positions(m) {
		w.Tick()
		w.Trans += 2
		want := leafText(x.n)
		v, err := p.Get(x.path...)
		fv, ferr := fresh.Get(x.path...)
		if err != nil || !same(x.n, v, want) || ferr != nil || !sameTxt(x.n, v, fv) {
			w.Fail("text %q: Get(%q) gives %q, error %v; fresh Parse gives %q, error %v; model %q", text, x.path, v, err, fv, ferr, want)
			return
		}
		g, fg := p.GetNew(x.path...), fresh.GetNew(x.path...)
		if !same(x.n, g, want) || !sameTxt(x.n, g, fg) {
			w.Fail("text %q: GetNew(%q) gives %q; fresh Parse gives %q; model %q", text, x.path, g, fg, want)
			return
		}
		for _, bad := range badFor(x.n) {
			path := join(x.path, bad)
			if v, err := p.Get(path...); err == nil {
				w.Fail("text %q: Get(%q) gives %q, the path does not resolve", text, path, v)
				return
			}
		}
	}
	if a, b := p.Tree(), fresh.Tree(); a != b {
		w.Fail("text %q: Tree is %q; of a fresh Parse %q", text, a, b)
		return
	}
	checkTree(w, p.Tree(), root, src, text)
	if hasBlanks(src) {
		return // the layout of values kept from before an edit is free
	}
	if a, b := p.TreeFull(), fresh.TreeFull(); a != b {
		w.Fail("text %q: TreeFull is %q; of a fresh Parse %q", text, a, b)
	}
}

// hasBlanks: there is a blank outside strings.
func hasBlanks(src []byte) bool { return len(ref.Compact(src)) != len(src) }

// leafText is what a read of the value gives: containers as compact text, strings without quotes.
func leafText(n *ref.Tree) string {
	if n.IsContainer() {
		return n.String()
	}
	if n.Kind == ref.Str {
		return n.Leaf[1 : len(n.Leaf)-1]
	}
	return n.Leaf
}

func badFor(n *ref.Tree) []string {
	switch n.Kind {
	case ref.Obj:
		bad := []string{"z~", "0"}
		if n.Index("0") >= 0 {
			bad = bad[:1]
		}
		return bad
	case ref.Arr:
		return []string{itoa(len(n.Kids)), itoa(len(n.Kids) + 1), "-1", "a"}
	}
	return []string{"0", "a"}
}

// same: the returned text denotes the wanted value; containers up to layout.
func same(n *ref.Tree, got []byte, want string) bool {
	if n.IsContainer() {
		return ref.Compact(got) == want
	}
	return string(got) == want
}

func sameTxt(n *ref.Tree, a, b []byte) bool {
	if n.IsContainer() {
		return ref.Compact(a) == ref.Compact(b)
	}
	return string(a) == string(b)
}
