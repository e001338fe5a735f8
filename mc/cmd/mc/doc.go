package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// P is one addressed position of a document.
type P struct {
	Path []string
	Node *ref.Node
	Par  *ref.Node
	Idx  int
}

// F is one path that does not resolve; Code is the error code of its cause, -1 where the cause has no code of its own.
type F struct {
	Path []string
	Code int
	At   *ref.Node // where it breaks
	Len  int       // components that resolve
}

// D is one document under exploration.
type D struct {
	S    string
	B    []byte // what the library is given
	Root *ref.Node
	Pos  []P // preorder, root first with an empty path; the boundary positions only, if the document is large
	All  []P // every position
	src  []byte
	args bool // one of argDocs: arguments of many sizes are tried on it
}

// argDocs are the documents on which arguments of many sizes are tried.
var argDocs = []string{`{}`, `[]`, `[1]`, `{"a":1}`, `{"a":{"b":[1,"2"]},"c":"d"}`, "[ 1 , {\"a\" : [ ] } , \"x\" ]", `{"a":[{"b":{}}],"c":[[]]}`}

func isArgDoc(s string) bool { return has(argDocs, s) }

func newDoc(w *eng.W, key []byte) *D {
	d := &D{S: string(key), src: append([]byte(nil), key...)}
	root, err := ref.Parse(d.src)
	if err != nil {
		panic("ref.generator produced a malformed document: " + d.S)
	}
	if !root.NoDupKeys(d.src) {
		return nil
	}
	d.Root = root
	d.args = isArgDoc(d.S)
	d.B = w.Buf(key)
	d.All = append(d.All, P{Path: nil, Node: root})
	d.walk(root, nil)
	d.Pos = d.All
	if len(d.All) > 700 || len(d.S) > 6000 {
		d.Pos = d.edges()
	}
	return d
}

// edges keeps the positions whose index and depth are at an end or next to a power of two.
func (d *D) edges() (out []P) {
	deepest := 0
	for _, p := range d.All {
		deepest = max(deepest, len(p.Path))
	}
	var skip []string
	for _, p := range d.All {
		if len(skip) > 0 && len(p.Path) > len(skip) && eqStrs(p.Path[:len(skip)], skip) {
			continue
		}
		skip = nil
		if p.Par != nil && len(p.Par.Kids) > 40 && !gen.Near(p.Idx, len(p.Par.Kids)) {
			skip = p.Path
			continue
		}
		if deepest > 40 && !gen.Near(len(p.Path), deepest+1) {
			continue
		}
		out = append(out, p)
	}
	return out
}

func (d *D) walk(n *ref.Node, path []string) {
	for i, k := range n.Kids {
		if len(n.Kids) == 1 && k.IsContainer() {
			// nothing else extends path: share its storage
			q := append(path, n.Comp(d.src, i))
			d.All = append(d.All, P{Path: q[:len(q):len(q)], Node: k, Par: n, Idx: i})
			d.walk(k, q)
			continue
		}
		p := join(path, n.Comp(d.src, i))
		d.All = append(d.All, P{Path: p, Node: k, Par: n, Idx: i})
		d.walk(k, p)
	}
}

// keyList is a list of keys to ask for: those of the root, if it has many.
func (d *D) keyList() []string {
	if len(d.Root.Kids) < 5 {
		return []string{"a", "b"}
	}
	var out []string
	for i := range d.Root.Kids {
		if i < 140 {
			out = append(out, d.Root.Comp(d.src, i))
		}
	}
	return out
}

func join(path []string, c ...string) []string {
	p := make([]string, 0, len(path)+len(c))
	p = append(p, path...)
	return append(p, c...)
}

func (d *D) Text(n *ref.Node) string { return n.Text(d.src) }
func (d *D) Full(n *ref.Node) string { return n.Full(d.src) }

// docUnit adapts a per-document exploration.
func docUnit(f func(w *eng.W, d *D)) func(w *eng.W, key []byte) {
	return func(w *eng.W, key []byte) {
		d := newDoc(w, key)
		if d == nil {
			w.Out("skipped: repeats a key")
			return
		}
		f(w, d)
	}
}

func (d *D) words() []string {
	seen := map[string]bool{}
	var ks []string
	add := func(s string) {
		if !seen[s] && len(ks) < 10 {
			seen[s] = true
			ks = append(ks, s)
		}
	}
	for _, p := range d.Pos {
		if p.Par != nil && p.Par.Kind == ref.Obj {
			add(p.Par.Key(d.src, p.Idx))
		}
	}
	n := len(ks)
	for _, p := range d.Pos {
		if !p.Node.IsContainer() && len(ks) < n+4 {
			add(d.Text(p.Node))
		}
	}
	return ks
}

// badComps lists components that do not resolve at n, simplest first.
func (d *D) badComps(n *ref.Node, words []string) []string {
	var out []string
	seen := map[string]bool{}
	add := func(c string) {
		if seen[c] {
			return
		}
		seen[c] = true
		if _, i := n.Step(d.src, c); i >= 0 {
			return
		}
		if n.Kind == ref.Arr {
			if i, err := strconv.Atoi(c); err == nil && strconv.Itoa(i) != c {
				return // "01", "+1": unspecified
			}
		}
		out = append(out, c)
	}
	for _, c := range words {
		add(c)
	}
	switch n.Kind {
	case ref.Obj:
		add("z~")
		add("")
		add("0")
		add("-1")
		for i := 0; i < len(n.Keys) && i < 4; i++ {
			k := n.Key(d.src, i)
			add(k + "x")
			add(`"` + k + `"`)
			if len(k) > 0 {
				add(k[:len(k)-1])
				add(k[1:])
			}
			if i < 2 && len(k) < 40 {
				add(swapCase(k))
				if l := len(k); l > 1 {
					add(k[l-1:] + k[:l-1])
					add(k[1:2] + k[:1] + k[2:])
				}
				for _, t := range gen.Twins {
					if t[0] == k || t[1] == k {
						add(t[0])
						add(t[1])
					}
				}
				add(" " + k + " ")
				if strings.Contains(k, `\`) {
					var t string
					if json.Unmarshal([]byte(`"`+k+`"`), &t) == nil {
						add(t)
					}
				}
			}
			if l := len(k); l > 4 {
				add(k[:l/2] + "%" + k[l/2+1:])
				add(k[:l-1] + "%")
				add("%" + k[1:])
				add(k[:l/4] + "%" + k[l/4+1:])
			}
		}
	case ref.Arr:
		l := len(n.Kids)
		add(strconv.Itoa(l))
		add(strconv.Itoa(l + 1))
		add(strconv.Itoa(l + 10))
		add("-1")
		add("x")
		add("")
		if len(d.Pos) <= 12 {
			add("0x0")
			add("4294967296")
			add("65536")
			add("256")
		}
		if len(d.Pos) <= 4 {
			for _, c := range []string{"0.0", " 0", "0 ", "1e0", "0_0", "0b1", "-4294967296", "٠", "0,", "[0]"} {
				add(c)
			}
		}
	default:
		add("0")
		add("1")
		add("")
		add("a")
	}
	return out
}

// swapCase changes the case of every letter.
func swapCase(s string) string {
	return strings.Map(func(r rune) rune {
		if l := unicode.ToLower(r); l != r {
			return l
		}
		return unicode.ToUpper(r)
	}, s)
}

// causeCode is the code of the first failing step.
func causeCode(n *ref.Node, c string) int {
	switch n.Kind {
	case ref.Obj:
		return jin.ErrCodeKeyNotFound
	case ref.Arr:
		if _, err := strconv.Atoi(c); err != nil {
			return jin.ErrCodeIndexExpected
		}
		if len(n.Kids) > 0 {
			return jin.ErrCodeIndexOutOfRange
		}
	}
	return -1
}

// Fails lists non-resolving paths: every position, every invalid component there, alone and followed by one more
// component.
func (d *D) Fails() []F {
	words := d.words()
	var out []F
	for _, p := range d.Pos {
		for _, c := range d.badComps(p.Node, words) {
			code := causeCode(p.Node, c)
			out = append(out, F{join(p.Path, c), code, p.Node, len(p.Path)})
			for i, e := range words {
				if i >= 3 {
					break
				}
				out = append(out, F{join(p.Path, c, e), code, p.Node, len(p.Path)})
			}
			out = append(out, F{join(p.Path, c, "0"), code, p.Node, len(p.Path)})
		}
	}
	return out
}

// FailsShort: as Fails without the extra component, and one two-component overrun per position.
func (d *D) FailsShort() []F {
	words := d.words()
	var out []F
	for _, p := range d.Pos {
		for i, c := range d.badComps(p.Node, words) {
			code := causeCode(p.Node, c)
			out = append(out, F{join(p.Path, c), code, p.Node, len(p.Path)})
			if i == 0 {
				out = append(out, F{join(p.Path, c, c), code, p.Node, len(p.Path)})
			}
		}
	}
	return out
}

// ---- document spaces ----

func space(s gen.Space) eng.Gen { return eng.Gen{Name: s.String(), Each: s.Each} }
func scale(s gen.Scale) eng.Gen { return eng.Gen{Name: s.String(), Each: s.Each} }

// short keeps the documents of at most n bytes.
func short(n int, g eng.Gen) eng.Gen {
	return eng.Gen{Name: fmt.Sprintf("%s, at most %d bytes", g.Name, n), Each: func(y func([]byte) bool) {
		g.Each(func(b []byte) bool { return len(b) > n || y(b) })
	}}
}

func sizes(level int) eng.Gen {
	s := gen.Sizes{Level: level}
	return eng.Gen{Name: s.String(), Each: s.Each}
}

// containersOnly drops texts whose root is a scalar.
var (
	lbBoth = []gen.Labels{gen.LabelsRepeat, gen.LabelsUnique}
	lbAll  = []gen.Labels{gen.LabelsRepeat, gen.LabelsUnique, gen.LabelsIndex, gen.LabelsPrefix}
)

// docSpaces is the standard ladder: no deviation on large shapes, more deviations on smaller shapes, size sweeps.
// The arguments are the node bounds for 0, 1, 2, 3 deviations.
func docSpaces(d0, d1, d2, d3 int, sc gen.Scale, sz int) []eng.Gen {
	gs := []eng.Gen{
		docsGen("documents for arguments of many sizes (up to 4097 bytes, depth and width 257)", argDocs...),
		space(gen.Space{Nodes: min(d0, 5), Dev: 0, Labels: lbAll}),
	}
	if d0 > 5 {
		gs = append(gs, space(gen.Space{MinNodes: 6, Nodes: d0, Dev: 0, Labels: lbBoth}))
	}
	gs = append(gs,
		space(gen.Space{Nodes: min(d0-1, 6), Dev: 0, Labels: lbBoth, AllGaps: " "}),
		space(gen.Space{Nodes: min(d0-1, 5), Dev: 0, Labels: lbBoth, AllGaps: "\n\t"}),
		space(gen.Space{Nodes: d1, Dev: 1, Labels: lbAll}),
	)
	if sc.Depth > 0 {
		gs = append(gs, scale(sc))
	}
	gs = append(gs, sizes(sz), eng.Gen{Name: "documents wider than 65536, deeper than 4096, longer than 2^20", Each: gen.Huge})
	gs = append(gs, space(gen.Space{Nodes: d2, Dev: 2, Labels: lbBoth}))
	if d3 > 0 {
		gs = append(gs, space(gen.Space{Nodes: d3, Dev: 3, Labels: lbBoth[:1]}))
	}
	return gs
}

var (
	scQuick    = gen.Scale{Depth: 40, Width: 130, Len: 300}
	scSmall    = gen.Scale{Depth: 12, Width: 26, Len: 40}
	scThorough = gen.Scale{Depth: 120, Width: 260, Len: 1100}
)

// stdSpaces: heavy says how expensive a document is (-1 very cheap .. 2 expensive).
func stdSpaces(heavy int) func(tier string) []eng.Gen {
	return func(tier string) []eng.Gen {
		if tier == "thorough" {
			switch heavy {
			case -1:
				return docSpaces(9, 7, 5, 3, scThorough, 0)
			case 0:
				return docSpaces(8, 6, 4, 2, scThorough, 0)
			case 1:
				return docSpaces(7, 5, 4, 2, scThorough, 0)
			}
			return docSpaces(6, 5, 3, 2, scQuick, 1)
		}
		switch heavy {
		case -1:
			return docSpaces(7, 5, 4, 2, scThorough, 0)
		case 0:
			return docSpaces(6, 4, 3, 1, scQuick, 1)
		case 1:
			return docSpaces(6, 4, 2, 0, scQuick, 1)
		}
		return docSpaces(5, 3, 2, 0, scSmall, 2)
	}
}

// call runs one library call, turning a panic into a violation.
func call(w *eng.W, op string, path []string, args []string, f func()) bool {
	w.At(op, path, args...)
	return w.Guarded(f)
}

func q(s interface{}) string { return fmt.Sprintf("%q", s) }

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	return err.Error()
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
