// Package gen enumerates the document spaces.  Every generator is deterministic and complete for its stated bound.
package gen

import (
	"fmt"
	"strconv"
	"strings"
)

// Shape is an ordered tree without labels: 'l' leaf, 'o' object, 'a' array.
type Shape struct {
	K    byte
	Kids []*Shape
}

var forestMemo = map[int][][]*Shape{}
var treeMemo = map[int][]*Shape{}

// Trees lists all shapes with exactly n nodes (any root).
func Trees(n int) []*Shape {
	if t, ok := treeMemo[n]; ok {
		return t
	}
	var out []*Shape
	if n == 1 {
		out = append(out, &Shape{K: 'l'})
	}
	for _, k := range []byte{'o', 'a'} {
		for _, f := range Forests(n - 1) {
			out = append(out, &Shape{K: k, Kids: f})
		}
	}
	treeMemo[n] = out
	return out
}

// Forests lists all ordered forests with exactly n nodes.
func Forests(n int) [][]*Shape {
	if f, ok := forestMemo[n]; ok {
		return f
	}
	var out [][]*Shape
	if n == 0 {
		out = [][]*Shape{nil}
	}
	for first := 1; first <= n; first++ {
		for _, t := range Trees(first) {
			for _, rest := range Forests(n - first) {
				out = append(out, append([]*Shape{t}, rest...))
			}
		}
	}
	forestMemo[n] = out
	return out
}

// Roots lists shapes with n nodes whose root is a container.
func Roots(n int) []*Shape {
	var out []*Shape
	for _, s := range Trees(n) {
		if s.K != 'l' {
			out = append(out, s)
		}
	}
	return out
}

// Slot kinds of a token sequence.
const (
	slotGap = iota
	slotLeaf
	slotKey
)

type tok struct {
	kind byte // 'p' punctuation, 'l' leaf, 'k' key
	text string
}

// Labels fixes the default keys and leaves of a shape.
type Labels struct {
	Name string
	Key  func(pos, serial int) string // position in its object, serial in document
	Leaf func(serial int) string
}

var alphaKeys = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y"}

// LabelsRepeat: same keys in every object, numeric leaves.
var LabelsRepeat = Labels{"repeat", func(pos, _ int) string { return alphaKeys[pos] }, func(s int) string { return strconv.Itoa(s + 1) }}

// LabelsUnique: every key of the document different, string leaves.
var LabelsUnique = Labels{"unique", func(_, s int) string { return alphaKeys[s] }, func(s int) string { return `"s` + strconv.Itoa(s) + `"` }}

// LabelsIndex: keys that look like positions; mixed leaves.
var LabelsIndex = Labels{"index", func(pos, _ int) string { return strconv.Itoa(pos) }, func(s int) string {
	return []string{"true", `"t"`, "null", "-7", `""`, "2.5", "false", `"z z"`}[s%8]
}}

// LabelsPrefix: keys that are prefixes of each other in decreasing / increasing length.
var LabelsPrefix = Labels{"prefix", func(pos, s int) string {
	if s%2 == 0 {
		return strings.Repeat("a", pos+1)
	}
	return strings.Repeat("a", 12-pos)
}, func(s int) string { return `"` + strings.Repeat("a", s) + `"` }}

// AltLeaves, AltKeys, AltGaps are the deviations, simplest first.
var AltLeaves = []string{
	`""`, `"x"`, `true`, `false`, `null`, `0`, `-1`, `1.5`, `1e3`, `-0.5E-2`, `12345678901`,
	`"a,b"`, `"{"`, `"}"`, `"["`, `"]"`, `":"`, `","`, `"[1,2]"`, `"[a]"`, `"{}"`, `"[]"`, `"{\"a\":1}"`, `"[\"a\",\"b\"]"`,
	`"\""`, `"\\"`, `"\\\""`, `"\\\\"`, `"\"\""`, `"a\\"`, `"\",\""`, `"a\":{"`, `"\\\",{"`, `" "`, `" x "`, `" ,"`, `"\n"`, `"\u0022"`, `"é"`, `"true"`, `"null"`, `"12"`, `"-1"`, `"//"`, `"'"`,
}
var AltKeys = []string{
	"", "x", "aa", "0", "1", "-1", " ", " a", "a ", "a b", "a,b", ",", ":", "a:b", "{", "}", "[", "]", "{}", `{\"a\":1}`,
	`\"`, `a\"`, `\"a`, `\\`, `a\\`, `\\\"`, `\\\\`, `\",\"`, `\":\"`, `\n`, `\u0061`, "é", "true", "null",
}
var AltGaps = []string{" ", "\n", "\t", "\r", "  ", "\r\n\t "}

// Space is a deviation-bounded family of documents.
type Space struct {
	MinNodes, Nodes int // shapes with MinNodes..Nodes nodes
	Dev             int // at most Dev deviations from the default labels and layout
	Labels          []Labels
	NoLeaf          bool // do not deviate leaves
	NoKey           bool
	NoGap           bool
	Leaves          []string // override alternatives
	Keys            []string
	Gaps            []string
	AllGaps         string // if non-empty, every gap carries this filler (a layout of its own)
	ScalarRoots     bool   // also one-node documents that are a leaf
}

func (s Space) String() string {
	var ls []string
	for _, l := range s.Labels {
		ls = append(ls, l.Name)
	}
	lv, ky, gp := s.alts()
	return fmt.Sprintf("shapes of %d..%d nodes, labels %s, <=%d deviations (of %d leaves, %d keys, %d gap fillers), filler %q", max(1, s.MinNodes), s.Nodes, strings.Join(ls, "+"), s.Dev, lv, ky, gp, s.AllGaps)
}

func (s Space) alts() (int, int, int) {
	lv, ky, gp := len(AltLeaves), len(AltKeys), len(AltGaps)
	if s.Leaves != nil {
		lv = len(s.Leaves)
	}
	if s.Keys != nil {
		ky = len(s.Keys)
	}
	if s.Gaps != nil {
		gp = len(s.Gaps)
	}
	if s.NoLeaf {
		lv = 0
	}
	if s.NoKey {
		ky = 0
	}
	if s.NoGap {
		gp = 0
	}
	return lv, ky, gp
}

type slot struct {
	kind int
	at   int // token index, or gap index
	alts []string
}

func tokens(s *Shape, lb Labels) []tok {
	var ts []tok
	ks, ls := 0, 0
	var rec func(s *Shape)
	rec = func(s *Shape) {
		switch s.K {
		case 'l':
			ts = append(ts, tok{'l', lb.Leaf(ls)})
			ls++
		case 'o':
			ts = append(ts, tok{'p', "{"})
			for i, k := range s.Kids {
				if i > 0 {
					ts = append(ts, tok{'p', ","})
				}
				ts = append(ts, tok{'k', lb.Key(i, ks)})
				ks++
				ts = append(ts, tok{'p', ":"})
				rec(k)
			}
			ts = append(ts, tok{'p', "}"})
		case 'a':
			ts = append(ts, tok{'p', "["})
			for i, k := range s.Kids {
				if i > 0 {
					ts = append(ts, tok{'p', ","})
				}
				rec(k)
			}
			ts = append(ts, tok{'p', "]"})
		}
	}
	rec(s)
	return ts
}

// Each enumerates the texts of the space; a text may come up more than once (the engine deduplicates) and objects may
// repeat a key (the engine filters).
func (s Space) Each(yield func(text []byte) bool) {
	leaves, keys, gaps := s.Leaves, s.Keys, s.Gaps
	if leaves == nil {
		leaves = AltLeaves
	}
	if keys == nil {
		keys = AltKeys
	}
	if gaps == nil {
		gaps = AltGaps
	}
	for n := max(1, s.MinNodes); n <= s.Nodes; n++ {
		shapes := Roots(n)
		if s.ScalarRoots && n == 1 {
			shapes = Trees(1)
		}
		for _, sh := range shapes {
			for _, lb := range s.Labels {
				ts := tokens(sh, lb)
				var slots []slot
				if s.Dev > 0 {
					for i, t := range ts {
						if t.kind == 'l' && !s.NoLeaf {
							slots = append(slots, slot{slotLeaf, i, leaves})
						}
						if t.kind == 'k' && !s.NoKey {
							slots = append(slots, slot{slotKey, i, keys})
						}
					}
					if !s.NoGap {
						for g := 0; g <= len(ts); g++ {
							slots = append(slots, slot{slotGap, g, gaps})
						}
					}
				}
				gap := make([]string, len(ts)+1)
				for i := range gap {
					gap[i] = s.AllGaps
				}
				buf := make([]byte, 0, 256)
				render := func() bool {
					buf = buf[:0]
					for i, t := range ts {
						buf = append(buf, gap[i]...)
						if t.kind == 'k' {
							buf = append(buf, '"')
							buf = append(buf, t.text...)
							buf = append(buf, '"')
						} else {
							buf = append(buf, t.text...)
						}
					}
					buf = append(buf, gap[len(ts)]...)
					return yield(buf)
				}
				var rec func(from, left int) bool
				rec = func(from, left int) bool {
					if !render() {
						return false
					}
					if left == 0 {
						return true
					}
					for si := from; si < len(slots); si++ {
						sl := slots[si]
						for _, alt := range sl.alts {
							var old string
							if sl.kind == slotGap {
								old = gap[sl.at]
								gap[sl.at] = alt
							} else {
								old = ts[sl.at].text
								ts[sl.at].text = alt
							}
							ok := rec(si+1, left-1)
							if sl.kind == slotGap {
								gap[sl.at] = old
							} else {
								ts[sl.at].text = old
							}
							if !ok {
								return false
							}
						}
					}
					return true
				}
				if !rec(0, s.Dev) {
					return
				}
			}
		}
	}
}

// Scale is the family of documents whose size parameters run through ranges: nesting depth, width, string and key
// length, backslash runs, blank runs, every string byte, number formats.
type Scale struct{ Depth, Width, Len int }

func (s Scale) String() string {
	return fmt.Sprintf("size sweeps: depth<=%d, width<=%d, text length<=%d, every string byte 0x20..0xff, escapes, number forms", s.Depth, s.Width, s.Len)
}

func (s Scale) Each(yield func([]byte) bool) {
	y := func(f string, a ...interface{}) bool { return yield([]byte(fmt.Sprintf(f, a...))) }
	// nesting: all obj/arr patterns up to depth 7, three patterns up to Depth; with members before and after
	nest := func(pat func(i int) bool, d int, style int) string {
		var pre, post strings.Builder
		var posts []string
		for i := 0; i < d; i++ {
			obj := pat(i)
			switch {
			case obj && style == 0:
				pre.WriteString(`{"k":`)
				posts = append(posts, `}`)
			case obj && style == 1:
				pre.WriteString(fmt.Sprintf(`{"a":%d,"k":`, i))
				posts = append(posts, fmt.Sprintf(`,"z":"e%d"}`, i))
			case obj:
				pre.WriteString(fmt.Sprintf("{\n \"a\" : [%d] , \"k\" : ", i))
				posts = append(posts, fmt.Sprintf(" , \"z\" : {\"k\":%d}\n}", i))
			case style == 0:
				pre.WriteString(`[`)
				posts = append(posts, `]`)
			case style == 1:
				pre.WriteString(fmt.Sprintf(`[%d,`, i))
				posts = append(posts, fmt.Sprintf(`,"e%d"]`, i))
			default:
				pre.WriteString(fmt.Sprintf("[\n [%d] ,\t", i))
				posts = append(posts, fmt.Sprintf(" , {\"k\":%d} ]", i))
			}
		}
		for i := len(posts) - 1; i >= 0; i-- {
			post.WriteString(posts[i])
		}
		return pre.String() + `"v"` + post.String()
	}
	for style := 0; style < 3; style++ {
		for d := 1; d <= 7; d++ {
			for m := 0; m < 1<<d; m++ {
				if !y("%s", nest(func(i int) bool { return m>>i&1 == 1 }, d, style)) {
					return
				}
			}
		}
		for d := 8; d <= s.Depth; d++ {
			for p := 0; p < 3; p++ {
				if !y("%s", nest(func(i int) bool { return p == 0 || p == 2 && i%2 == 0 }, d, style)) {
					return
				}
			}
		}
	}
	// width
	item := func(f int, i int) string {
		switch f {
		case 0:
			return strconv.Itoa(i)
		case 1:
			return fmt.Sprintf(`"s%d"`, i)
		case 2:
			return fmt.Sprintf(`{"a":%d,"b":[%d,2]}`, i, i)
		case 3:
			return fmt.Sprintf(`[%d,"]"]`, i)
		}
		return []string{"1", `"x"`, "{}", "[]", "null", `"{"`, "true"}[i%7]
	}
	for f := 0; f < 5; f++ {
		for n := 0; n <= s.Width; n++ {
			if n > 24 && n%8 > 1 && n != 99 && n != 100 && n != 101 {
				continue
			}
			var ar, ob []string
			for i := 0; i < n; i++ {
				ar = append(ar, item(f, i))
				ob = append(ob, fmt.Sprintf(`"k%d":%s`, i, item(f, i)))
			}
			if !y(`[%s]`, strings.Join(ar, ",")) || !y(`{"p":1,"l":[%s],"q":{"l":[0]}}`, strings.Join(ar, " , ")) ||
				!y(`{%s}`, strings.Join(ob, ",")) || !y(`[7,{%s},{"k0":"no"}]`, strings.Join(ob, ", ")) {
				return
			}
		}
	}
	// text lengths
	for n := 0; n <= s.Len; n++ {
		if n > 70 && n%16 > 1 && n%16 < 15 {
			continue
		}
		t := strings.Repeat("t", n)
		if !y(`{"a":"%s","b":["%s",1]}`, t, t) || !y(`{"k%s":1,"k%sx":{"k%s":2},"z":3}`, t, t, t) || !y(`["%s",%s1]`, t, strings.Repeat("9", n)) {
			return
		}
		// siblings that agree up to their last byte, from their second byte on, and around their middle
		if n <= 300 || n%16 == 0 {
			h, g := t[:n/2], t[n/2:]
			if !y(`{"%sa":1,"%sb":"x","%sc":[{"%sb":2}]}`, t, t, t, t) || !y(`{"a%s":"%[1]sa","b%[1]s":"%[1]sb","c%[1]s":{"b%[1]s":["%[1]sa","%[1]sb"]}}`, t) ||
				!y(`["%sa","%[1]sb",{"%[1]s%[2]sa":"a%[1]s","%[1]sz%[2]s":"b%[1]s"}]`, h, g) {
				return
			}
		}
		w := strings.Repeat(" ", n)
		if !y(`%s{%s"a"%s:%s1%s,%s"b"%s:%s"x"%s}%s`, w, w, w, w, w, w, w, w, w, w) || !y(`%s[%s1%s,%s"x"%s,%s{%s}%s]%s`, w, w, w, w, w, w, w, w, w) {
			return
		}
	}
	// backslash runs
	for n := 0; n <= 12; n++ {
		b := strings.Repeat(`\\`, n)
		for _, t := range []string{b, b + `\"`, `\"` + b, b + `x`, b + `\",`, b + `\"{`} {
			if !y(`{"a":"%s","b":"%s","c":[1]}`, t, t) || !y(`["%s",{"a":"%s"},"%s"]`, t, t, t) || !y(`{"a%s":{"q%s":1},"b":"]"}`, t, t) || !y(`[["%s"],"%s","]"]`, t, t) {
				return
			}
		}
	}
	// every byte and escape in strings and keys
	var bodies []string
	for c := 0x20; c <= 0xff; c++ {
		if c != '"' && c != '\\' {
			bodies = append(bodies, string([]byte{byte(c)}))
		}
	}
	bodies = append(bodies, "\u00a0", "\u2028", "\ufeff", "日本", "\U0001F600", `\b`, `\f`, `\n`, `\r`, `\t`, `\/`, `\u0000`, `\u000A`, `\u0020`, `\u0022`, `\u005c`, `\u007b`, `\ud83d\ude00`, `\uFFFF`)
	bodies = append(bodies, Special...)
	for _, t := range bodies {
		for _, f := range []string{`{"a":"%s","b":1}`, `{"%s":1,"b":"%[1]s"}`, `["%s","%[1]s",2]`, `{"x%sy":["p%[1]sq",{"%[1]s%[1]s":0}],"b":"%[1]s"}`} {
			if !y(f, t) {
				return
			}
		}
	}
	// numbers
	for _, t := range Numbers {
		if !y(`{"a":%s,"b":[%s, %s]}`, t, t, t) || !y(`[%s,%s]`, t, t) || !y(`[ %s ]`, t) || !y("{\"n\":%s\n}", t) {
			return
		}
	}
	more := true
	Kin(func(t string) bool {
		more = y("%s", t)
		return more
	})
	if !more {
		return
	}
	// neighbours: equal keys at several levels, strings equal to keys
	for _, t := range []string{
		`{"a":{"a":{"a":1,"b":2},"b":3},"b":{"a":4,"b":{"a":5}}}`,
		`{"a":1,"b":{"c":2},"c":{"d":[{"c":3},{"d":4}]}}`,
		`{"a":"b","b":"a","c":{"b":"c"}}`,
		`[{"a":[{"a":[{"a":1}]}]},{"a":2},[[[3]]],{"b":{"a":4}}]`,
		`{"a":[],"b":{},"c":[[]],"d":[{}],"e":{"f":[]},"g":{"h":{}},"i":1}`,
		`{"1":{"0":[{"1":"x"}]},"0":[[0,[1,{"0":2}]]]}`,
		"{\n\t\"user\" : \"eco\",\n\t\"languages\" : [ \"go\" , \"java\" ] ,\n\t\"following\" : { \"social\" : \"dev.to\" , \"code\" : \"github\" }\n}\n",
	} {
		if !y("%s", t) {
			return
		}
	}
}

// Numbers in all JSON forms, with boundary magnitudes.
var Numbers = []string{"0", "-0", "1", "-1", "7", "10", "42", "-99", "100", "127", "128", "255", "256", "999", "32767", "65536", "2147483647", "-2147483648", "2147483648",
	"4294967295", "4294967296", "9007199254740993", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "100000000000000000000",
	"0.0", "0.5", "-0.5", "1.5", "10.5", "1.05", "100.25", "3.141592653589793", "0.000001", "1e0", "1e5", "1E5", "1e+5", "1e-5", "-1.5e10", "1.7976931348623157e308", "5e-324", "0e0", "1e400", "123456789.987654321"}

// Lookalikes are leaves on the border of the conversions: texts that some number or boolean syntax other than JSON's
// accepts, numbers at the limits of the Go types.
var Lookalikes = []string{
	`"010"`, `"0x10"`, `"0X1F"`, `"0b1"`, `"0o7"`, `"1_000"`, `"+1"`, `"+1.5"`, `" 1"`, `"1 "`, `"1e2"`, `".5"`, `"5."`, `"0x1p4"`, `"NaN"`, `"nan"`, `"Inf"`, `"-Inf"`, `"infinity"`, `"1"`, `"-1"`, `"1.5"`, `"00"`, `"-0"`, `"--1"`, `"1.0"`, `"1,2"`,
	`"True"`, `"TRUE"`, `"T"`, `"t"`, `"F"`, `"0"`, `"true"`, `"false"`, `" true"`, `"true "`, `"yes"`, `"Null"`, `"nil"`, `""`, `"\u0031"`, `"١"`,
	`1`, `-0`, `0.0`, `1.0`, `1e2`, `1E+2`, `100e-2`, `9223372036854775807`, `-9223372036854775808`, `9223372036854775808`, `-9223372036854775809`, `18446744073709551615`, `2147483648`, `4294967296`, `16777217`, `9007199254740993`, `0.1`, `1e400`, `-1e400`, `1e-400`, `5e-324`,
	`1.7976931348623157e308`, `0.30000000000000004`, `123456789012345678901234567890`, `3.4028236e38`, `1e15`, `1e21`, `true`, `false`, `null`,
}

// Layouts renders one text in each uniform layout plus, for every gap, one deviating layout; of a text of more than
// 60 tokens only the boundary gaps deviate, in one filler each.
func Layouts(compact []byte, fillers []string, yield func([]byte) bool) {
	ts := Split(compact)
	gaps := make([]string, len(ts)+1)
	buf := make([]byte, 0, 256)
	render := func() bool {
		buf = buf[:0]
		for i, t := range ts {
			buf = append(buf, gaps[i]...)
			buf = append(buf, t...)
		}
		buf = append(buf, gaps[len(ts)]...)
		return yield(buf)
	}
	for _, f := range fillers {
		for i := range gaps {
			gaps[i] = f
		}
		if !render() {
			return
		}
	}
	for i := range gaps {
		gaps[i] = ""
	}
	for g := range gaps {
		if len(ts) > 60 && !Near(g, len(gaps)) {
			continue
		}
		for i, f := range fillers {
			if len(ts) > 60 && i != g%len(fillers) {
				continue
			}
			gaps[g] = f
			if !render() {
				return
			}
			gaps[g] = ""
		}
	}
}

// Split cuts a compact text into tokens.
func Split(b []byte) []string {
	var out []string
	for i := 0; i < len(b); {
		j := i + 1
		switch c := b[i]; {
		case c == '"':
			for b[j] != '"' {
				if b[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.IndexByte("{}[]:,", c) >= 0:
		default:
			for j < len(b) && strings.IndexByte("{}[]:,", b[j]) < 0 {
				j++
			}
		}
		out = append(out, string(b[i:j]))
		i = j
	}
	return out
}
