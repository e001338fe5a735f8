package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C26", Gens: c26Gens, Unit: c26,
		Rule:   "state = one (document, position) pair, or one edit history; transition = one call whose argument buffers are overwritten after it returns (or held other contents for an earlier call), its results and the later answers compared with those of a twin whose buffers are left alone; trace = all calls of one document, or one history on one twin pair",
		Assume: append([]string{"results that are documented views of the document (Get's bytes, JSON, the text behind Parse and New) are outside; so is overwriting a document while a Parser or JO made from it is in use and unedited"}, docAssume...),
		Need:   []string{"results kept", "edit kept", "buffer reused", "path reused", "parser twin", "jo twin", "refused", "scheme twin", "builders"}})
}

func c26Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	gs := []eng.Gen{
		docsGen("schemes and builders", "scheme|"),
		space(gen.Space{Nodes: 4, Labels: lbAll}),
		space(gen.Space{Nodes: 2, Dev: 1, Labels: lb}),
		space(gen.Space{Nodes: 3, Labels: lbBoth, AllGaps: "\n "}),
		docsGen("scenario documents", scenarioDocs...),
		short(40, scale(gen.Scale{Depth: 8, Width: 10, Len: 8})),
		sizes(4),
	}
	if tier == "thorough" {
		gs = append(gs, space(gen.Space{MinNodes: 5, Nodes: 5, Labels: lbBoth}), space(gen.Space{Nodes: 3, Dev: 1, Labels: lbBoth}), space(gen.Space{Nodes: 4, Labels: lbBoth, AllGaps: "\n "}), scale(scSmall))
	}
	return gs
}

// keepShow renders what must stay: everything but the byte slices that view the document.
func keepShow(r []interface{}, edit bool) string {
	var b strings.Builder
	for i, v := range r {
		switch t := v.(type) {
		case error:
			b.WriteString("error:" + t.Error() + ";")
		case nil:
			b.WriteString("nil;")
		case []byte:
			if edit && i == 0 {
				fmt.Fprintf(&b, "%q;", t)
			}
		default:
			fmt.Fprintf(&b, "%q;", t)
		}
	}
	return b.String()
}

// recycled buffers of one call.
type bufs struct {
	doc, val   []byte
	path, keys []string
}

func (b *bufs) scribble() {
	for i := range b.doc {
		b.doc[i] = "#[,9"[i%4]
	}
	for i := range b.val {
		b.val[i] = '@'
	}
	for i := range b.path {
		b.path[i] = "scribbled"
	}
	for i := range b.keys {
		b.keys[i] = "scribbled"
	}
}

// sameLength lists documents of the same length as s: other leaves, other keys, members in reverse, an empty container.
func sameLength(s string, root *ref.Node, src []byte) []string {
	rot := func(c byte) byte {
		switch {
		case c >= '0' && c <= '9':
			return '1' + (c-'0'+1)%9
		case c >= 'a' && c <= 'y' || c >= 'A' && c <= 'Y':
			return c + 1
		case c == 'z' || c == 'Z':
			return c - 25
		}
		return c
	}
	turn := func(b []byte, from, to int) {
		for i := from; i < to; i++ {
			if b[i] == '\\' {
				i++
				if i < to && b[i] == 'u' {
					i += 4
				}
				continue
			}
			b[i] = rot(b[i])
		}
	}
	leaves, keys, both := []byte(s), []byte(s), []byte(s)
	var rec func(n *ref.Node)
	rec = func(n *ref.Node) {
		for i, k := range n.Kids {
			if n.Kind == ref.Obj {
				turn(keys, n.Keys[i].Start, n.Keys[i].End)
				turn(both, n.Keys[i].Start, n.Keys[i].End)
			}
			rec(k)
		}
		switch n.Kind {
		case ref.Str:
			turn(leaves, n.Start+1, n.End-1)
			turn(both, n.Start+1, n.End-1)
		case ref.Num:
			turn(leaves, n.Start, n.End)
			turn(both, n.Start, n.End)
		}
	}
	rec(root)
	out := []string{string(leaves), string(keys), string(both)}
	if len(s) >= 2 {
		out = append(out, "["+strings.Repeat(" ", len(s)-2)+"]", "{}"+strings.Repeat("\n", len(s)-2))
	}
	if len(root.Kids) > 1 { // members of the root in reverse, same layout
		var parts []string
		for i, k := range root.Kids {
			p := s[k.Start:k.End]
			if root.Kind == ref.Obj {
				p = s[root.Keys[i].Start-1 : k.End]
			}
			parts = append([]string{p}, parts...)
		}
		first, last := root.Kids[0].Start, root.Kids[len(root.Kids)-1].End
		if root.Kind == ref.Obj {
			first = root.Keys[0].Start - 1
		}
		mid := strings.Join(parts, ",")
		if pad := last - first - len(mid); pad >= 0 {
			out = append(out, s[:first]+mid+strings.Repeat(" ", pad)+s[last:])
		}
	}
	var uniq []string
	for _, x := range out {
		if x != s && len(x) == len(s) && !has(uniq, x) {
			uniq = append(uniq, x)
		}
	}
	return uniq
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func c26(w *eng.W, key []byte) {
	if string(key) == "scheme|" {
		c26Scheme(w)
		c26Builders(w)
		return
	}
	docUnit(c26Doc)(w, key)
}

func c26Doc(w *eng.W, d *D) {
	var paths [][]string
	for _, p := range d.Pos {
		paths = append(paths, p.Path)
	}
	for i, f := range d.FailsShort() {
		if i%9 == 0 {
			paths = append(paths, f.Path)
		}
	}
	if len(paths) > 24 {
		paths = append(paths[:16:16], paths[len(paths)-8:]...)
	}
	if len(d.S) > 200 && len(paths) > 8 {
		paths = append(paths[:4:4], paths[len(paths)-4:]...)
	}
	twins := sameLength(d.S, d.Root, d.src)
	ops := allOps()
	free := len(freeOps)
	keys := d.keyList()
	mk := func(s, v string, p []string) *bufs {
		return &bufs{[]byte(s), []byte(v), join(p), join(keys)}
	}
	in := func(b *bufs, k string, i int) *In { return &In{b.doc, b.val, k, i, b.path, b.keys, false} }
	for pi, p := range paths {
		w.State(1)
		for oi := range ops {
			o := &ops[oi]
			if pi > 0 && !o.uses('p') {
				continue
			}
			vals, ks := []string{`7`}, []string{"nk"}
			if o.uses('v') {
				vals = []string{`{"q":[1,"r"]}`}
			}
			if o.uses('k') {
				ks = []string{"nk", "a"}
			}
			for _, v := range vals {
				for _, k := range ks {
					// what the call gives on buffers of its own
					var want string
					w.At(o.Name, p, v, k)
					if !w.Guarded(func() { want = show(o.F(in(mk(d.S, v, p), k, 0))) }) {
						continue
					}
					// results after the buffers are overwritten
					w.At(o.Name, p, v, k)
					w.Guarded(func() {
						b := mk(d.S, v, p)
						r := o.F(in(b, k, 0))
						edit := oi < free && o.Mut && (len(r) < 2 || len(r) == 2 && r[1] == nil)
						was := keepShow(r, edit)
						if now := show(r); now != want {
							w.Fail("gives %s; on other buffers %s", now, want)
							return
						}
						b.scribble()
						if now := keepShow(r, edit); now != was {
							w.Fail("result changed when the argument buffers were overwritten after the call, from %s to %s", was, now)
							return
						}
						w.Out("results kept")
						if edit {
							w.Out("edit kept")
						}
					})
					// the same buffers held something else before
					for ti := 0; ti <= len(twins); ti++ {
						for qi := 0; qi < len(paths); qi++ {
							if ti == len(twins) && (len(p) == 0 || len(paths[qi]) != len(p) || qi == pi || !o.uses('p')) || ti < len(twins) && qi > 0 || len(paths) > 12 && ti == len(twins) && qi != pi+1 && qi != pi-1 {
								continue
							}
							first, other := d.S, p
							if ti < len(twins) {
								first = twins[ti]
							} else {
								other = paths[qi]
							}
							w.At(o.Name, p, v, k)
							w.Args(func() []string {
								return []string{v, k, fmt.Sprintf("after a call with document %q, path %q in the same memory", first, other)}
							})
							w.Guarded(func() {
								b := mk(first, v, other)
								o.F(in(b, k, 0))
								w.Tick()
								w.Trans++
								copy(b.doc, d.S)
								copy(b.val, v)
								copy(b.path, p)
								copy(b.keys, keys)
								if now := show(o.F(in(b, k, 0))); now != want {
									w.Fail("gives %s; in memory of its own %s", now, want)
								}
								if ti < len(twins) {
									w.Out("buffer reused")
								} else {
									w.Out("path reused")
								}
							})
						}
					}
				}
			}
		}
	}
	c26Twins(w, d)
}

// apply performs the edit on a Parser or JO with the given value and path memory.
func applyTo(e Edit, p *jin.Parser, j *jin.JO, val []byte, path []string) error {
	if p != nil {
		switch e.Op {
		case "Set":
			return p.Set(val, path...)
		case "Delete":
			return p.Delete(path...)
		case "SetKey":
			return p.SetKey(e.Key, path...)
		case "AddKeyValue":
			return p.AddKeyValue(e.Key, val, path...)
		case "Add":
			return p.Add(val, path...)
		case "Insert":
			return p.Insert(e.Idx, val, path...)
		}
		panic("ref.edit " + e.Op)
	}
	switch e.Op {
	case "Set":
		return j.Set(val, path...)
	case "Delete":
		return j.Delete(path...)
	case "SetKey":
		return j.SetKey(e.Key, path...)
	case "AddKeyValue":
		return j.AddKeyValue(e.Key, val, path...)
	case "Add":
		return j.Add(val, path...)
	case "Insert":
		return j.Insert(e.Idx, val, path...)
	case "Store":
		return j.Store(e.Key, val, path...)
	}
	panic("ref.edit " + e.Op)
}

// parserAll renders what a Parser answers; with buf every path is given in that buffer, otherwise in memory of its own.
func parserAll(p *jin.Parser, paths [][]string, buf []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "JSON %q Tree %q TreeFull %q GetNew %q; ", p.JSON(), p.Tree(), p.TreeFull(), p.GetNew())
	for _, x := range paths {
		x = inBuf(x, buf)
		v, err := p.Get(x...)
		s, err2 := p.GetString(x...)
		fmt.Fprintf(&b, "%q: %q %s %q %s %q; ", x, v, errStr(err), s, errStr(err2), p.GetNew(x...))
	}
	return b.String()
}

func joAll(j *jin.JO, paths [][]string, buf []string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "JSON %q String %q; ", j.JSON(), j.String())
	for _, x := range paths {
		x = inBuf(x, buf)
		v, err := j.Get(x...)
		s, err2 := j.GetString(x...)
		t, err3 := j.GetType(x...)
		fmt.Fprintf(&b, "%q: %q %s %q %s %s %s; ", x, v, errStr(err), s, errStr(err2), t, errStr(err3))
	}
	return b.String()
}

func inBuf(x, buf []string) []string {
	if buf == nil {
		return join(x)
	}
	if len(x) > len(buf) {
		panic("ref.path buffer too small")
	}
	return buf[:copy(buf, x)]
}

// c26Twins: histories on a pair of Parsers and a pair of JOs; one of each pair is given its values and paths in two
// buffers that are overwritten after every call and reused for the next.
func c26Twins(w *eng.W, d *D) {
	t0 := ref.ToTree(d.src, d.Root)
	size := len(positions(t0))
	depth, rich := 2, 1
	if size > 3 {
		rich = 0
	}
	if size > 6 {
		depth, rich = 1, 1
	}
	if size > 12 {
		rich = 0
	}
	for kind := 0; kind < 2; kind++ {
		var rec func(t *ref.Tree, hist []Edit)
		rec = func(t *ref.Tree, hist []Edit) {
			for _, e := range alphabet(t, rich, kind == 1, false) {
				m := t.Clone()
				ok := e.model(m)
				next := append(hist[:len(hist):len(hist)], e)
				w.Trace(1)
				w.State(1)
				before := w.Failures()
				w.At([]string{"Parser history", "JO history"}[kind], nil)
				w.Args(func() []string { return []string{histStr(next)} })
				w.Guarded(func() { twinRun(w, d.S, next, m, kind == 1, ok) })
				if w.Failures() == before && len(next) < depth {
					rec(m, next)
				}
			}
		}
		rec(t0, nil)
	}
}

func twinRun(w *eng.W, doc string, hist []Edit, m *ref.Tree, jo, ok bool) {
	longest := 16
	for _, e := range hist {
		longest = max(longest, len(e.Path))
	}
	for _, x := range positions(m) {
		longest = max(longest, len(x.path))
	}
	val, path := make([]byte, 64), make([]string, longest)
	orig := []byte(doc)
	var p1, p2 *jin.Parser
	var j1, j2 *jin.JO
	if jo {
		j1, j2 = jin.New([]byte(doc)), jin.New(orig)
	} else {
		var err error
		if p1, err = jin.Parse([]byte(doc)); err != nil {
			return
		}
		if p2, err = jin.Parse(orig); err != nil {
			return
		}
	}
	var paths [][]string
	for _, x := range positions(m) {
		paths = append(paths, x.path)
	}
	paths = append(paths, []string{"z~"})
	// as many paths of one length in a row as possible
	sort.SliceStable(paths, func(a, b int) bool { return len(paths[a]) < len(paths[b]) })
	for _, e := range hist {
		w.Tick()
		w.Trans += 2
		err1 := applyTo(e, p1, j1, []byte(e.Val), join(e.Path))
		v, pp := val[:copy(val, e.Val)], path[:copy(path, e.Path)]
		if len(v) != len(e.Val) || len(pp) != len(e.Path) {
			panic("ref.twin buffers too small")
		}
		err2 := applyTo(e, p2, j2, v, pp)
		for i := range val {
			val[i] = '@'
		}
		for i := range path {
			path[i] = "scribbled"
		}
		if errStr(err1) != errStr(err2) {
			w.Fail("%v: error %v; twin %v", e, err2, err1)
			return
		}
		if jo && err2 == nil {
			for i := range orig {
				orig[i] = '#'
			}
		}
		if err2 != nil {
			w.Out("refused")
		}
	}
	var a, b string
	if jo {
		a, b = joAll(j1, paths, nil), joAll(j2, paths, path)
		w.Out("jo twin")
	} else {
		a, b = parserAll(p1, paths, nil), parserAll(p2, paths, path)
		w.Out("parser twin")
	}
	if a != b {
		w.Fail("answers differ once the argument buffers are overwritten: %s; twin: %s", b, a)
		return
	}
	if !jo {
		// the texts handed out stay when the document the Parser was made from goes away
		s1, t, tf := make([]string, 0, len(paths)), p2.Tree(), p2.TreeFull()
		for _, x := range paths {
			s, _ := p2.GetString(x...)
			l, _ := p2.GetStringArray(x...)
			s1 = append(append(s1, s), l...)
		}
		was := fmt.Sprintf("%q %q %q", s1, t, tf)
		for i := range orig {
			orig[i] = '#'
		}
		if now := fmt.Sprintf("%q %q %q", s1, t, tf); now != was {
			w.Fail("texts handed out changed from %s to %s when the document was overwritten", was, now)
		}
	}
}

// c26Scheme: all short Scheme histories, one Scheme of a pair being given and handing out lists that are overwritten.
func c26Scheme(w *eng.W) {
	for _, init := range []string{"", "a", "ab", "cab"} {
		c26SchemeFrom(w, split(init), 3)
	}
	for _, n := range []int{4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129} {
		c26SchemeFrom(w, append(wideNames(n-1), "a"), 1)
	}
	c26SchemeFrom(w, append(wideNames(16), "b"), 2)
}

// wideNames are n different keys.
func wideNames(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("k%d", i)
	}
	return out
}

// c26SchemeFrom explores every history of up to depth calls on two Schemes of the given keys.
func c26SchemeFrom(w *eng.W, init []string, depth int) {
	var rec func(hist string)
	rec = func(hist string) {
		w.At("Scheme history", nil, strings.Join(init, ","), hist)
		w.Guarded(func() {
			w.Trace(1)
			w.State(1)
			ks := append([]string(nil), init...)
			s1, s2 := jin.MakeScheme(append([]string(nil), init...)...), jin.MakeScheme(ks...)
			bad := func(l []string) {
				for i := range l[:cap(l)] {
					l[:cap(l)][i] = "scribbled"
				}
			}
			bad(ks)
			for _, c := range hist {
				w.Tick()
				for i, s := range []*jin.Scheme{s1, s2} {
					switch c {
					case 'a', 'b', 'c':
						s.Add(string(c))
					case 'A', 'B', 'C':
						s.Remove(strings.ToLower(string(c)))
					case 'S':
						s.Save()
					case 'R':
						s.Restore()
					case 'g':
						if l := s.GetCurrentKeys(); i == 1 {
							bad(l)
						}
					case 'o':
						if l := s.GetOriginalKeys(); i == 1 {
							bad(l)
						}
					}
				}
			}
			doc := []byte(`{"a":1,"b":"x","c":[2],"k0":3,"k1":"y","k9":{"z":[]}}`)
			snap := func(s *jin.Scheme) string {
				var vs []string
				var vi []interface{}
				for i := range s.GetCurrentKeys() {
					v := []string{"1", "two", "[3]"}[i%3]
					vs, vi = append(vs, v), append(vi, v)
				}
				d := append([]byte(nil), doc...)
				mj, e1 := s.MutateJson(d)
				ma, e2 := s.MutateJsonAbs(d)
				a, b := s.MakeJson(vi...), s.MakeJsonString(vs...)
				chk, abs := s.Check(d), s.CheckAbs(d)
				for i := range d {
					d[i] = '#'
				}
				bad(vs)
				return fmt.Sprintf("%q %q %q %v %q %v %q %q %v %v", s.GetCurrentKeys(), s.GetOriginalKeys(), mj, e1, ma, e2, a, b, chk, abs)
			}
			if a, b := snap(s1), snap(s2); a != b {
				w.Fail("answers %s once the lists given and handed out are overwritten; twin %s", b, a)
			}
			w.Out("scheme twin")
		})
		if len(hist) < depth {
			for _, c := range "abcABCSRgo" {
				rec(hist + string(c))
			}
		}
	}
	rec("")
}

func c26Builders(w *eng.W) {
	try := func(name string, f func() (out []byte, scribble func())) {
		w.At(name, nil)
		w.Guarded(func() {
			out, scribble := f()
			was := string(out)
			scribble()
			if string(out) != was {
				w.Fail("result changed from %q to %q when the inputs were overwritten", was, out)
			}
			// a second, equal call must not be disturbed by, or disturb, the first result
			out2, _ := f()
			if string(out2) != was {
				w.Fail("a second call gives %q, the first gave %q", out2, was)
			}
			for i := range out2[:cap(out2)] {
				out2[:cap(out2)][i] = '#'
			}
			if string(out) != was {
				w.Fail("result changed from %q to %q when the result of a second call was overwritten", was, out)
			}
			out3, _ := f()
			if string(out3) != was {
				w.Fail("a call gives %q after an earlier result was overwritten, before it gave %q", out3, was)
			}
			w.State(1)
			w.Out("builders")
		})
	}
	for _, n := range []int{0, 1, 2, 3, 8, 9, 17, 33, 65, 100, 129} {
		n := n
		at := func(i int) int { return i % 3 }
		strs := func() []string {
			l := make([]string, n)
			for i := range l {
				l[i] = []string{"a", "12", "x y"}[at(i)]
			}
			return l
		}
		wipe := func(l []string) {
			for i := range l {
				l[i] = "scribbled"
			}
		}
		try("MakeEmptyArray", func() ([]byte, func()) { return jin.MakeEmptyArray(), func() {} })
		try("MakeEmptyJson", func() ([]byte, func()) { return jin.MakeEmptyJson(), func() {} })
		try("MakeArray", func() ([]byte, func()) {
			v := make([]interface{}, n)
			for i := range v {
				v[i] = []interface{}{1, "s", 2.5}[at(i)]
			}
			return jin.MakeArray(v...), func() {
				for i := range v {
					v[i] = nil
				}
			}
		})
		try("MakeArrayString", func() ([]byte, func()) { v := strs(); return jin.MakeArrayString(v), func() { wipe(v) } })
		try("MakeArrayInt", func() ([]byte, func()) {
			v := make([]int, n)
			for i := range v {
				v[i] = []int{1, -2, 3}[at(i)]
			}
			return jin.MakeArrayInt(v), func() {
				for i := range v {
					v[i] = 7
				}
			}
		})
		try("MakeArrayBool", func() ([]byte, func()) {
			v := make([]bool, n)
			for i := range v {
				v[i] = i%2 == 0
			}
			return jin.MakeArrayBool(v), func() {
				for i := range v {
					v[i] = !v[i]
				}
			}
		})
		try("MakeArrayFloat", func() ([]byte, func()) {
			v := make([]float64, n)
			for i := range v {
				v[i] = []float64{1.5, 2, -3}[at(i)]
			}
			return jin.MakeArrayFloat(v), func() {
				for i := range v {
					v[i] = 7
				}
			}
		})
		try("MakeArrayBytes", func() ([]byte, func()) {
			v := make([][]byte, n)
			for i := range v {
				v[i] = []byte([]string{`[1]`, `"q"`, `{}`}[at(i)])
			}
			return jin.MakeArrayBytes(v...), func() {
				for i := range v {
					for j := range v[i] {
						v[i][j] = '#'
					}
				}
			}
		})
		try("MakeJson", func() ([]byte, func()) {
			k, v := wideNames(n), make([]interface{}, n)
			for i := range v {
				v[i] = []interface{}{1, "s", 2.5}[at(i)]
			}
			return jin.MakeJson(k, v), func() {
				wipe(k)
				for i := range v {
					v[i] = nil
				}
			}
		})
		try("MakeJsonString", func() ([]byte, func()) {
			k, v := wideNames(n), strs()
			return jin.MakeJsonString(k, v), func() { wipe(k); wipe(v) }
		})
	}
	try("MakeJsonWithMap", func() ([]byte, func()) {
		m := map[string]string{"a": "1"}
		return jin.MakeJsonWithMap(m), func() { m["a"] = "2"; m["b"] = "3" }
	})
}
