// Package ref is the reference model: a strict RFC 8259 reader that records source spans, and a plain ordered tree
// on which edits are a few lines each.  It shares no code with the library under test.
package ref

import (
	"errors"
	"strconv"
)

type Kind byte

const (
	Obj Kind = iota
	Arr
	Str
	Num
	Bool
	Null
)

// Node is one value of a document with its source span.
type Node struct {
	Kind       Kind
	Start, End int // full span, quotes and braces included
	Keys       []Span
	Kids       []*Node
}

// Span is a half-open range of the document.
type Span struct{ Start, End int }

func (n *Node) IsContainer() bool { return n.Kind == Obj || n.Kind == Arr }

// Full is the complete source text of the value.
func (n *Node) Full(b []byte) string { return string(b[n.Start:n.End]) }

// Text is the source text, a string's surrounding quotes removed.
func (n *Node) Text(b []byte) string {
	if n.Kind == Str {
		return string(b[n.Start+1 : n.End-1])
	}
	return string(b[n.Start:n.End])
}

// Key is the i-th key in source spelling, without quotes.
func (n *Node) Key(b []byte, i int) string { return string(b[n.Keys[i].Start:n.Keys[i].End]) }

// Comp is the path component leading to kid i.
func (n *Node) Comp(b []byte, i int) string {
	if n.Kind == Obj {
		return n.Key(b, i)
	}
	return strconv.Itoa(i)
}

// Step follows one path component; the second result says why it fails.
func (n *Node) Step(b []byte, c string) (*Node, int) {
	switch n.Kind {
	case Obj:
		for i := range n.Keys {
			if n.Key(b, i) == c {
				return n.Kids[i], i
			}
		}
	case Arr:
		i, ok := Index(c)
		if ok && i >= 0 && i < len(n.Kids) {
			return n.Kids[i], i
		}
	}
	return nil, -1
}

// Index reads a canonical decimal position ("0", "17", "-1").
func Index(c string) (int, bool) {
	i, err := strconv.Atoi(c)
	if err != nil || strconv.Itoa(i) != c {
		return 0, false
	}
	return i, true
}

// Find follows a path; nil when it does not resolve.
func (n *Node) Find(b []byte, path []string) *Node {
	for _, c := range path {
		n, _ = n.Step(b, c)
		if n == nil {
			return nil
		}
	}
	return n
}

// Parent gives the container and index of the last step of a resolving, non-empty path.
func (n *Node) Parent(b []byte, path []string) (*Node, int) {
	p := n.Find(b, path[:len(path)-1])
	if p == nil {
		return nil, -1
	}
	k, i := p.Step(b, path[len(path)-1])
	if k == nil {
		return p, -1
	}
	return p, i
}

var errBad = errors.New("ref: not well-formed")

func IsSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

type parser struct {
	b []byte
	i int
}

// Parse reads a complete JSON text.
func Parse(b []byte) (*Node, error) {
	p := &parser{b: b}
	p.ws()
	n, err := p.value(0)
	if err != nil {
		return nil, err
	}
	p.ws()
	if p.i != len(b) {
		return nil, errBad
	}
	return n, nil
}

// Valid says whether b is a JSON text.
func Valid(b []byte) bool { _, err := Parse(b); return err == nil }

func (p *parser) ws() {
	for p.i < len(p.b) && IsSpace(p.b[p.i]) {
		p.i++
	}
}

func (p *parser) peek() byte {
	if p.i < len(p.b) {
		return p.b[p.i]
	}
	return 0
}

func (p *parser) value(depth int) (*Node, error) {
	if depth > 20000 || p.i >= len(p.b) {
		return nil, errBad
	}
	n := &Node{Start: p.i}
	switch c := p.b[p.i]; {
	case c == '{':
		n.Kind = Obj
		p.i++
		p.ws()
		if p.peek() == '}' {
			p.i++
			break
		}
		for {
			p.ws()
			s := p.i
			if !p.str() {
				return nil, errBad
			}
			n.Keys = append(n.Keys, Span{s + 1, p.i - 1})
			p.ws()
			if p.peek() != ':' {
				return nil, errBad
			}
			p.i++
			p.ws()
			k, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
			p.ws()
			d := p.peek()
			p.i++
			if d == '}' {
				n.End = p.i
				return n, nil
			}
			if d != ',' {
				return nil, errBad
			}
		}
	case c == '[':
		n.Kind = Arr
		p.i++
		p.ws()
		if p.peek() == ']' {
			p.i++
			break
		}
		for {
			p.ws()
			k, err := p.value(depth + 1)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, k)
			p.ws()
			d := p.peek()
			p.i++
			if d == ']' {
				n.End = p.i
				return n, nil
			}
			if d != ',' {
				return nil, errBad
			}
		}
	case c == '"':
		n.Kind = Str
		if !p.str() {
			return nil, errBad
		}
	case c == 't':
		n.Kind = Bool
		return n, p.lit(n, "true")
	case c == 'f':
		n.Kind = Bool
		return n, p.lit(n, "false")
	case c == 'n':
		n.Kind = Null
		return n, p.lit(n, "null")
	default:
		n.Kind = Num
		if !p.num() {
			return nil, errBad
		}
	}
	n.End = p.i
	return n, nil
}

func (p *parser) lit(n *Node, s string) error {
	if len(p.b)-p.i < len(s) || string(p.b[p.i:p.i+len(s)]) != s {
		return errBad
	}
	p.i += len(s)
	n.End = p.i
	return nil
}

func digit(c byte) bool { return c >= '0' && c <= '9' }

func (p *parser) num() bool {
	if p.peek() == '-' {
		p.i++
	}
	if p.peek() == '0' {
		p.i++
	} else {
		if !digit(p.peek()) {
			return false
		}
		for digit(p.peek()) {
			p.i++
		}
	}
	if p.peek() == '.' {
		p.i++
		if !digit(p.peek()) {
			return false
		}
		for digit(p.peek()) {
			p.i++
		}
	}
	if c := p.peek(); c == 'e' || c == 'E' {
		p.i++
		if c := p.peek(); c == '+' || c == '-' {
			p.i++
		}
		if !digit(p.peek()) {
			return false
		}
		for digit(p.peek()) {
			p.i++
		}
	}
	return true
}

func hex(c byte) bool {
	return digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')
}

func (p *parser) str() bool {
	if p.peek() != '"' {
		return false
	}
	p.i++
	for p.i < len(p.b) {
		switch c := p.b[p.i]; {
		case c == '"':
			p.i++
			return true
		case c < 0x20:
			return false
		case c == '\\':
			p.i++
			switch p.peek() {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
				p.i++
			case 'u':
				p.i++
				for k := 0; k < 4; k++ {
					if !hex(p.peek()) {
						return false
					}
					p.i++
				}
			default:
				return false
			}
		default:
			p.i++
		}
	}
	return false
}

// IsNumber: the whole text is a JSON number.
func IsNumber(s string) bool {
	if s == "" {
		return false
	}
	p := &parser{b: []byte(s)}
	return p.num() && p.i == len(s)
}

// IsStringBody: s between quotes is a JSON string.
func IsStringBody(s string) bool {
	p := &parser{b: []byte(`"` + s + `"`)}
	return p.str() && p.i == len(p.b)
}

// Compact removes blanks outside strings of a well-formed text.
func Compact(b []byte) string {
	out := make([]byte, 0, len(b))
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c == '"' {
			j := i + 1
			for j < len(b) && b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(b) {
				j = len(b) - 1
			}
			out = append(out, b[i:j+1]...)
			i = j
			continue
		}
		if !IsSpace(c) {
			out = append(out, c)
		}
	}
	return string(out)
}

// NoDupKeys: no object of the tree repeats a key (source spelling).
func (n *Node) NoDupKeys(b []byte) bool {
	if len(n.Keys) > 20 {
		seen := map[string]bool{}
		for i := range n.Keys {
			if k := n.Key(b, i); seen[k] {
				return false
			} else {
				seen[k] = true
			}
		}
	} else {
		for i := range n.Keys {
			for j := 0; j < i; j++ {
				if n.Key(b, i) == n.Key(b, j) {
					return false
				}
			}
		}
	}
	for _, k := range n.Kids {
		if !k.NoDupKeys(b) {
			return false
		}
	}
	return true
}

// ---- ordered tree model for edits ----

// Tree is an editable document: leaves keep their source text.
type Tree struct {
	Kind Kind
	Leaf string
	Keys []string
	Kids []*Tree
}

// ToTree copies a parsed document into the model.
func ToTree(b []byte, n *Node) *Tree {
	t := &Tree{Kind: n.Kind}
	if !n.IsContainer() {
		t.Leaf = n.Full(b)
		return t
	}
	for i, k := range n.Kids {
		if n.Kind == Obj {
			t.Keys = append(t.Keys, n.Key(b, i))
		}
		t.Kids = append(t.Kids, ToTree(b, k))
	}
	return t
}

// MustTree parses a well-formed value.
func MustTree(b []byte) *Tree {
	n, err := Parse(b)
	if err != nil {
		panic("ref.MustTree: " + string(b))
	}
	return ToTree(b, n)
}

func (t *Tree) Clone() *Tree {
	c := &Tree{Kind: t.Kind, Leaf: t.Leaf}
	c.Keys = append([]string(nil), t.Keys...)
	for _, k := range t.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

func (t *Tree) appendTo(out []byte) []byte {
	switch t.Kind {
	case Obj:
		out = append(out, '{')
		for i, k := range t.Kids {
			if i > 0 {
				out = append(out, ',')
			}
			out = append(out, '"')
			out = append(out, t.Keys[i]...)
			out = append(out, '"', ':')
			out = k.appendTo(out)
		}
		return append(out, '}')
	case Arr:
		out = append(out, '[')
		for i, k := range t.Kids {
			if i > 0 {
				out = append(out, ',')
			}
			out = k.appendTo(out)
		}
		return append(out, ']')
	}
	return append(out, t.Leaf...)
}

// String is the compact text.
func (t *Tree) String() string { return string(t.appendTo(nil)) }

// Index of a component among the members, -1 if absent.
func (t *Tree) Index(c string) int {
	switch t.Kind {
	case Obj:
		for i, k := range t.Keys {
			if k == c {
				return i
			}
		}
	case Arr:
		if i, ok := Index(c); ok && i >= 0 && i < len(t.Kids) {
			return i
		}
	}
	return -1
}

func (t *Tree) Find(path []string) *Tree {
	for _, c := range path {
		i := t.Index(c)
		if i < 0 {
			return nil
		}
		t = t.Kids[i]
	}
	return t
}

func (t *Tree) parent(path []string) (*Tree, int) {
	if len(path) == 0 {
		return nil, -1
	}
	p := t.Find(path[:len(path)-1])
	if p == nil {
		return nil, -1
	}
	return p, p.Index(path[len(path)-1])
}

// The edits report whether they apply; a refused edit leaves the tree alone.

func (t *Tree) Set(v *Tree, path []string) bool {
	p, i := t.parent(path)
	if i < 0 {
		return false
	}
	p.Kids[i] = v
	return true
}

func (t *Tree) Delete(path []string) bool {
	p, i := t.parent(path)
	if i < 0 {
		return false
	}
	if p.Kind == Obj {
		p.Keys = append(append([]string(nil), p.Keys[:i]...), p.Keys[i+1:]...)
	}
	p.Kids = append(append([]*Tree(nil), p.Kids[:i]...), p.Kids[i+1:]...)
	return true
}

func (t *Tree) SetKey(key string, path []string) bool {
	p, i := t.parent(path)
	if i < 0 || p.Kind != Obj || key == "" || p.Index(key) >= 0 {
		return false
	}
	p.Keys[i] = key
	return true
}

func (t *Tree) AddKeyValue(key string, v *Tree, path []string) bool {
	p := t.Find(path)
	if p == nil || p.Kind != Obj || p.Index(key) >= 0 {
		return false
	}
	p.Keys = append(p.Keys, key)
	p.Kids = append(p.Kids, v)
	return true
}

func (t *Tree) Add(v *Tree, path []string) bool {
	p := t.Find(path)
	if p == nil || p.Kind != Arr {
		return false
	}
	p.Kids = append(p.Kids, v)
	return true
}

func (t *Tree) Insert(idx int, v *Tree, path []string) bool {
	p := t.Find(path)
	if p == nil || p.Kind != Arr || idx < 0 || idx >= len(p.Kids) {
		return false
	}
	kids := append([]*Tree(nil), p.Kids[:idx]...)
	kids = append(kids, v)
	p.Kids = append(kids, p.Kids[idx:]...)
	return true
}

func (t *Tree) Store(key string, v *Tree, path []string) bool {
	p := t.Find(path)
	if p == nil || !(p.Kind == Obj || p.Kind == Arr) {
		return false
	}
	if i := p.Index(key); i >= 0 {
		p.Kids[i] = v
		return true
	}
	return t.AddKeyValue(key, v, path)
}

func (t *Tree) IsContainer() bool { return t.Kind == Obj || t.Kind == Arr }
