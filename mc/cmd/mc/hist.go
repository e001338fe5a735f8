package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// Edit is one step of a history.
type Edit struct {
	Op   string
	Path []string
	Key  string
	Idx  int
	Val  string
}

func (e Edit) String() string {
	switch e.Op {
	case "Set", "Add":
		return fmt.Sprintf("%s(%s)%q", e.Op, e.Val, e.Path)
	case "Insert":
		return fmt.Sprintf("Insert(%d,%s)%q", e.Idx, e.Val, e.Path)
	case "SetKey":
		return fmt.Sprintf("SetKey(%q)%q", e.Key, e.Path)
	case "AddKeyValue", "Store":
		return fmt.Sprintf("%s(%q,%s)%q", e.Op, e.Key, e.Val, e.Path)
	}
	return fmt.Sprintf("%s%q", e.Op, e.Path)
}

func histStr(h []Edit) string {
	var s []string
	for _, e := range h {
		s = append(s, e.String())
	}
	return strings.Join(s, " ")
}

var leafTree = map[string]*ref.Tree{}

func valTree(v string) *ref.Tree {
	t := leafTree[v]
	if t == nil {
		t = ref.MustTree([]byte(v))
		leafTree[v] = t
	}
	return t.Clone()
}

// model applies the edit to the tree and reports whether it applies.
func (e Edit) model(t *ref.Tree) bool {
	switch e.Op {
	case "Set":
		return t.Set(valTree(e.Val), e.Path)
	case "Delete":
		return t.Delete(e.Path)
	case "SetKey":
		return t.SetKey(e.Key, e.Path)
	case "AddKeyValue":
		return t.AddKeyValue(e.Key, valTree(e.Val), e.Path)
	case "Add":
		return t.Add(valTree(e.Val), e.Path)
	case "Insert":
		return t.Insert(e.Idx, valTree(e.Val), e.Path)
	case "Store":
		return t.Store(e.Key, valTree(e.Val), e.Path)
	case "Flatten", "Indent":
		return true
	}
	panic("ref.unknown edit " + e.Op)
}

// free applies the edit with the package functions.
func (e Edit) free(b []byte) ([]byte, error) {
	switch e.Op {
	case "Set":
		return jin.Set(b, []byte(e.Val), e.Path...)
	case "Delete":
		return jin.Delete(b, e.Path...)
	case "SetKey":
		return jin.SetKey(b, e.Key, e.Path...)
	case "AddKeyValue":
		return jin.AddKeyValue(b, e.Key, []byte(e.Val), e.Path...)
	case "Add":
		return jin.Add(b, []byte(e.Val), e.Path...)
	case "Insert":
		return jin.Insert(b, e.Idx, []byte(e.Val), e.Path...)
	case "Store":
		return jin.Store(b, e.Key, []byte(e.Val), e.Path...)
	case "Flatten":
		return jin.Flatten(b), nil
	case "Indent":
		return jin.Indent(b), nil
	}
	panic("ref.unknown edit " + e.Op)
}

// parser applies the edit to a Parser.
func (e Edit) parser(p *jin.Parser) error {
	switch e.Op {
	case "Set":
		return p.Set([]byte(e.Val), e.Path...)
	case "Delete":
		return p.Delete(e.Path...)
	case "SetKey":
		return p.SetKey(e.Key, e.Path...)
	case "AddKeyValue":
		return p.AddKeyValue(e.Key, []byte(e.Val), e.Path...)
	case "Add":
		return p.Add([]byte(e.Val), e.Path...)
	case "Insert":
		return p.Insert(e.Idx, []byte(e.Val), e.Path...)
	}
	panic("ref.unknown edit " + e.Op)
}

// jo applies the edit to a JO.
func (e Edit) jo(j *jin.JO) error {
	switch e.Op {
	case "Set":
		return j.Set([]byte(e.Val), e.Path...)
	case "Delete":
		return j.Delete(e.Path...)
	case "SetKey":
		return j.SetKey(e.Key, e.Path...)
	case "AddKeyValue":
		return j.AddKeyValue(e.Key, []byte(e.Val), e.Path...)
	case "Add":
		return j.Add([]byte(e.Val), e.Path...)
	case "Insert":
		return j.Insert(e.Idx, []byte(e.Val), e.Path...)
	case "Store":
		return j.Store(e.Key, []byte(e.Val), e.Path...)
	}
	panic("ref.unknown edit " + e.Op)
}

// tpos lists the positions of a model tree, preorder.
type tpos struct {
	path []string
	n    *ref.Tree
	par  *ref.Tree
	idx  int
}

// Of a wide container only the boundary positions, of a deep tree only the boundary depths.
func positions(t *ref.Tree) []tpos {
	out := []tpos{{nil, t, nil, 0}}
	deepest := 0
	var rec func(n *ref.Tree, p []string)
	rec = func(n *ref.Tree, p []string) {
		deepest = max(deepest, len(p))
		for i, k := range n.Kids {
			if len(n.Kids) > 140 && !gen.Near(i, len(n.Kids)) {
				continue
			}
			c := strconv.Itoa(i)
			if n.Kind == ref.Obj {
				c = n.Keys[i]
			}
			q := join(p, c)
			out = append(out, tpos{q, k, n, i})
			rec(k, q)
		}
	}
	rec(t, nil)
	if deepest > 44 {
		all := out
		out = nil
		for _, x := range all {
			if gen.Near(len(x.path), deepest+1) {
				out = append(out, x)
			}
		}
	}
	return out
}

// sparse lists the positions below which every step is the first, second, eighth, middle, second last or last member.
func sparse(t *ref.Tree) []tpos {
	out := []tpos{{nil, t, nil, 0}}
	var rec func(n *ref.Tree, p []string)
	rec = func(n *ref.Tree, p []string) {
		l := len(n.Kids)
		for i, k := range n.Kids {
			if i > 1 && i != 8 && i != l/2 && i < l-2 {
				continue
			}
			c := strconv.Itoa(i)
			if n.Kind == ref.Obj {
				c = n.Keys[i]
			}
			q := join(p, c)
			out = append(out, tpos{q, k, n, i})
			rec(k, q)
		}
	}
	rec(t, nil)
	return out
}

// wideDocs: wide containers alone, nested and next to other members.
func wideDocs(widths ...int) eng.Gen {
	var docs []string
	for _, n := range widths {
		var arr, obj []string
		for i := 0; i < n; i++ {
			v := fmt.Sprint(i * 7)
			switch i % 4 {
			case 1:
				v = fmt.Sprintf(`"s%d"`, i)
			case 2:
				v = fmt.Sprintf(`[%d]`, i)
			}
			arr = append(arr, v)
			obj = append(obj, fmt.Sprintf(`"k%d":%s`, i, v))
		}
		a, o := "["+strings.Join(arr, ",")+"]", "{"+strings.Join(obj, ",")+"}"
		docs = append(docs, a, o, `{"a":[0,`+o+`],"z":1}`, `[{"w":`+a+`},"z"]`)
	}
	return docsGen(fmt.Sprintf("documents with containers of %v members", widths), docs...)
}

// histValues and histKeys are the sized arguments of alphabet 3.
var histValues, histKeys = append(append(gen.SizedValues(1025, 100), specialSome(gen.SpecialValues())...), paddedValues...), append(gen.SizedKeys(513), specialSome(gen.SpecialKeys())...)

// paddedValues are values with blanks around them.
var paddedValues = []string{" 7", "7 ", "\t\"x\"\n", "\r\ntrue", "null\n", " [ 8 ] ", "\n{ \"k\" : [ 8 ] }\t", "  []  "}

// specialSome drops most of the plain bytes.
func specialSome(l []string) (out []string) {
	for i, t := range l {
		if len(t) > 1 && t[0] != '"' || len(t) > 3 || i%16 == 5 {
			out = append(out, t)
		}
	}
	return
}

// alphabet lists the edits considered at a state.  rich 2: everything; 1: two values, main failures; 0: bare;
// 3: as 1 with values and keys of many sizes; 4: as 1 at selected members of wide containers.
func alphabet(t *ref.Tree, rich int, store, layout bool) []Edit {
	var out []Edit
	vals := []string{`7`, `{"k":[8]}`}
	if rich == 2 {
		vals = []string{`7`, `"x]"`, `{"k":[8,{"a":9}]}`, `[]`, `["\"",0]`, `null`, " \t7\r", "\n[ 8 ]\n"}
	}
	if rich == 3 {
		vals = histValues
	}
	pos := positions(t)
	if rich == 4 {
		pos, rich = sparse(t), 1
	}
	for i, p := range pos {
		v := vals[i%len(vals)]
		v2 := vals[(i+1)%len(vals)]
		if p.par != nil {
			if rich > 0 {
				for _, v := range vals {
					out = append(out, Edit{Op: "Set", Path: p.path, Val: v})
				}
			} else {
				out = append(out, Edit{Op: "Set", Path: p.path, Val: v})
			}
			out = append(out, Edit{Op: "Delete", Path: p.path})
			if p.par.Kind == ref.Obj {
				nk := "nk"
				for p.par.Index(nk) >= 0 {
					nk += "k"
				}
				out = append(out, Edit{Op: "SetKey", Path: p.path, Key: nk})
				if rich == 3 {
					for _, k := range histKeys {
						out = append(out, Edit{Op: "SetKey", Path: p.path, Key: k})
					}
				}
				if rich > 0 {
					out = append(out, Edit{Op: "SetKey", Path: p.path, Key: p.par.Keys[len(p.par.Keys)-1]})
				}
				if rich == 2 {
					out = append(out, Edit{Op: "SetKey", Path: p.path, Key: ""}, Edit{Op: "SetKey", Path: p.path, Key: "0"})
				}
			} else if rich == 2 {
				out = append(out, Edit{Op: "SetKey", Path: p.path, Key: "nk"})
			}
		} else if rich == 2 {
			out = append(out, Edit{Op: "Set", Val: v}, Edit{Op: "Delete"}, Edit{Op: "SetKey", Key: "nk"})
		}
		switch p.n.Kind {
		case ref.Obj:
			nk := "nk"
			for p.n.Index(nk) >= 0 {
				nk += "k"
			}
			out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: nk, Val: v})
			if rich > 0 {
				out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: nk, Val: v2})
			}
			if rich == 3 {
				for j, k := range histKeys {
					out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: k, Val: vals[j%len(vals)]})
				}
				for _, v := range vals {
					out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: nk, Val: v})
				}
			}
			if rich == 2 {
				out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: "}", Val: `"{"`}, Edit{Op: "Add", Path: p.path, Val: v}, Edit{Op: "Insert", Path: p.path, Val: v})
			}
			if store {
				out = append(out, Edit{Op: "Store", Path: p.path, Key: nk, Val: v2})
			}
			if len(p.n.Keys) > 0 {
				if rich > 0 {
					out = append(out, Edit{Op: "AddKeyValue", Path: p.path, Key: p.n.Keys[0], Val: v})
				}
				if store {
					out = append(out, Edit{Op: "Store", Path: p.path, Key: p.n.Keys[len(p.n.Keys)-1], Val: v2})
				}
			}
			if rich > 0 {
				bad := join(p.path, "z~")
				out = append(out, Edit{Op: "Set", Path: bad, Val: v}, Edit{Op: "Delete", Path: bad})
				if rich == 2 {
					out = append(out, Edit{Op: "AddKeyValue", Path: bad, Key: "nk", Val: v}, Edit{Op: "SetKey", Path: bad, Key: "nk"}, Edit{Op: "Add", Path: bad, Val: v})
				}
			}
		case ref.Arr:
			n := len(p.n.Kids)
			out = append(out, Edit{Op: "Add", Path: p.path, Val: v}, Edit{Op: "Insert", Path: p.path, Idx: 0, Val: v2})
			if rich == 3 {
				for _, v := range vals {
					out = append(out, Edit{Op: "Add", Path: p.path, Val: v}, Edit{Op: "Insert", Path: p.path, Idx: 0, Val: v})
				}
			}
			if rich > 0 {
				out = append(out, Edit{Op: "Add", Path: p.path, Val: v2})
				if n > 1 {
					out = append(out, Edit{Op: "Insert", Path: p.path, Idx: n - 1, Val: v})
				}
				if n > 8 {
					out = append(out, Edit{Op: "Insert", Path: p.path, Idx: 8, Val: v2}, Edit{Op: "Insert", Path: p.path, Idx: n / 2, Val: v})
				}
				out = append(out, Edit{Op: "Insert", Path: p.path, Idx: n, Val: v}, Edit{Op: "Delete", Path: join(p.path, strconv.Itoa(n))})
			}
			if rich == 2 {
				if n > 2 {
					out = append(out, Edit{Op: "Insert", Path: p.path, Idx: 1, Val: v})
				}
				out = append(out, Edit{Op: "Insert", Path: p.path, Idx: -1, Val: v}, Edit{Op: "AddKeyValue", Path: p.path, Key: "nk", Val: v},
					Edit{Op: "Set", Path: join(p.path, "-1"), Val: v}, Edit{Op: "Set", Path: join(p.path, "a"), Val: v}, Edit{Op: "Add", Path: join(p.path, strconv.Itoa(n)), Val: v})
				if store && n > 0 {
					out = append(out, Edit{Op: "Store", Path: p.path, Key: "0", Val: v2})
				}
				if store {
					out = append(out, Edit{Op: "Store", Path: p.path, Key: "a", Val: v2})
				}
			}
		default:
			if rich == 2 {
				out = append(out, Edit{Op: "Add", Path: p.path, Val: v}, Edit{Op: "AddKeyValue", Path: p.path, Key: "a", Val: v}, Edit{Op: "Insert", Path: p.path, Val: v},
					Edit{Op: "Delete", Path: join(p.path, "0")}, Edit{Op: "Set", Path: join(p.path, "a"), Val: v})
				if store {
					out = append(out, Edit{Op: "Store", Path: p.path, Key: "a", Val: v})
				}
			}
		}
	}
	if layout {
		out = append(out, Edit{Op: "Flatten"}, Edit{Op: "Indent"})
	}
	return out
}

// ---- unit naming: "depth rich part/parts document" ----

type hcfg struct {
	depth, rich, part, parts int
	doc                      []byte
}

func parseUnit(key []byte) hcfg {
	i := bytes.IndexByte(key, '|')
	var h hcfg
	if _, err := fmt.Sscanf(string(key[:i]), "d%d r%d p%d/%d", &h.depth, &h.rich, &h.part, &h.parts); err != nil {
		panic("ref.unit " + string(key))
	}
	h.doc = key[i+1:]
	return h
}

// histGen wraps a document space.
func histGen(depth, rich, parts int, g eng.Gen) eng.Gen {
	return eng.Gen{Name: fmt.Sprintf("histories of length %d, alphabet %d, on %s", depth, rich, g.Name), Each: func(y func([]byte) bool) {
		stop := false
		g.Each(func(doc []byte) bool {
			for i := 0; i < parts; i++ {
				if !y([]byte(fmt.Sprintf("d%d r%d p%d/%d|%s", depth, rich, i, parts, doc))) {
					stop = true
					return false
				}
			}
			return true
		})
		_ = stop
	}}
}

// docsGen is a fixed list of documents.
func docsGen(name string, docs ...string) eng.Gen {
	return eng.Gen{Name: name, Each: func(y func([]byte) bool) {
		for _, s := range docs {
			if !y([]byte(s)) {
				return
			}
		}
	}}
}

// scenario documents: layouts, look-alikes, nesting.
var scenarioDocs = []string{
	`{}`, `[]`, "{ }", "[\n]", `[[]]`, `{"a":{}}`, `[{}]`, `{"a":[]}`,
	`{"a":1,"b":[2,{"c":"d"}],"e":{"f":null,"g":"h"}}`,
	`[1,[2,[3,"x"]],{"a":[{"b":4}]}]`,
	"{\n\t\"a\" : [ 1 , \"]\" ] ,\n\t\"b\" : { \"c\" : \"}\" }\n}\n",
	" [ { \"a\" : \"[1,2]\" } , [ ] , \"\\\"\" , -1.5e3 ] ",
	`{"0":["1",{"0":2}],"1":{"1":[0]}}`,
	`{"a":{"a":{"a":1,"b":2},"b":3},"b":{"a":4}}`,
	`["{","}","[",[","],{":":"\\"}]`,
	`[0,1,2,3,4,5,6,7,8,9,10,11]`,
	`{"k\"ey":{"\\":1},"":2,"é":"日本"}`,
}

func itoa(i int) string { return strconv.Itoa(i) }
