package gen

import (
	"fmt"
	"strconv"
	"strings"
)

// Sizes is the family of documents around the sizes at which tables, counters, blocks and buffers end: powers of two
// and their neighbours, for nesting depth, width, text length, key length, escape runs and blank runs; the sized part
// stands before, around and behind the rest of the document.  Level 0 is the largest family.
type Sizes struct{ Level int }

func (s Sizes) limits() (depth, width, text int) {
	switch s.Level {
	case 0:
		return 1025, 4097, 65537
	case 1:
		return 300, 1025, 65537
	case 2:
		return 257, 300, 4097
	}
	if s.Level == 3 {
		return 129, 129, 1025
	}
	return 65, 129, 513
}

func (s Sizes) String() string {
	d, w, t := s.limits()
	return fmt.Sprintf("sizes at and next to powers of two: depth<=%d, width<=%d, text and blank runs<=%d", d, w, t)
}

// around lists 2^k-1, 2^k, 2^k+1 for lo <= 2^k, up to hi; plus a few round sizes.
func around(lo, hi int) []int {
	var out []int
	add := func(n int) {
		if n <= hi && (len(out) == 0 || out[len(out)-1] < n) {
			out = append(out, n)
		}
	}
	for p := lo; p-1 <= hi; p *= 2 {
		add(p - 1)
		add(p)
		add(p + 1)
		switch p {
		case 64:
			add(100)
		case 256:
			add(300)
		case 512:
			add(1000)
		}
	}
	return out
}

// Around lists lo <= 2^k with its neighbours, up to hi.
func Around(lo, hi int) []int { return around(lo, hi) }

// SizedValues are values of sizes at and next to powers of two, for use as arguments: texts up to hi bytes, depth and width up to deep.
func SizedValues(hi, deep int) []string {
	var out []string
	for _, n := range around(64, hi) {
		out = append(out, `"`+strings.Repeat("v", n)+`"`, `"`+strings.Repeat("v", n/2)+`\"]}`+strings.Repeat("w", n/2)+`"`)
		if n <= deep {
			out = append(out, strings.Repeat("7", n), "["+strings.Repeat("0,", n-1)+"0]", strings.Repeat("[", n)+strings.Repeat("]", n), strings.Repeat(`{"a":`, n)+"1"+strings.Repeat("}", n), `{"a":1,`+strings.Repeat(" ", n)+`"b":[2]}`)
		}
	}
	return out
}

// SizedKeys are keys of sizes at and next to powers of two.
func SizedKeys(hi int) []string {
	var out []string
	for _, n := range around(32, hi) {
		out = append(out, strings.Repeat("k", n), strings.Repeat("k", n/2)+"."+strings.Repeat("k", n-n/2))
	}
	return out
}

// Special are string bodies that some other syntax (formats, templates, patterns, paths, shells, case or Unicode
// folding) gives a meaning to.
var Special = []string{
	"%", "%d", "%s%v", "%!", "100%", "%%", "%[1]s", "%02d", "$", "$1", "${a}", "{{.}}", "a.b", "a/b", "/a", "~0~1", "*", "?", "#", "@", "&amp;", "<", ">", "'", "`", "^a$", "a|b", "(a", "a)", "a+", "a=b", "a;b", "a-b", "_", "!", "A", "aA", "K", "\u212a", "\u017f", "ß", "I", "\u0130", "\u0131",
	"\u007f", "\u0080", "\u00a0", "\u00ad", "\u2028", "\ufeff", "\ufffd", "\uffff", "e\u0301", "é", "日本", "\U0001F600", "\xff", "\xc3\x28", "\xed\xa0\x80", "a\x80", "\xfe\xff",
	`\u0000`, `\u0061`, `\u0022`, `\u005C`, `\ud83d\ude00`, `\/`, `\b\f\n\r\t`, `x error_code: 08`, `error_code: 11`, "NaN", "undefined", "nil", "<nil>", "__proto__", "0.0", "00", "1e0", "-0",
}

// every printable byte, and Special
var specialTexts = func() []string {
	var out []string
	for c := 0x20; c <= 0xff; c++ {
		if c != '"' && c != '\\' {
			out = append(out, string([]byte{byte(c)}))
		}
	}
	return append(out, Special...)
}()

// MixedKeys are n different keys in no order, of many lengths, scripts and cases.
func MixedKeys(n int) []string {
	out := make([]string, n)
	for i := range out {
		j := i
		if n%7 != 0 {
			j = i * 7 % n
		}
		k := strconv.Itoa(j / 11)
		switch j % 11 {
		case 0:
			out[i] = "key" + k
		case 1:
			out[i] = "KEY" + k
		case 2:
			out[i] = "Key" + k
		case 3:
			out[i] = k
		case 4:
			out[i] = "é" + k
		case 5:
			out[i] = strings.Repeat("p", j/11+1)
		case 6:
			out[i] = `q\"` + k
		case 7:
			out[i] = k + "_" + strings.Repeat("long", j%13)
		case 8:
			out[i] = "~\u00ff" + k + " "
		case 9:
			out[i] = "B" + k
		default:
			out[i] = "a" + k
		}
	}
	return out
}

// SpecialValues and SpecialKeys are arguments in which some character might be taken for something else.
func SpecialValues() []string {
	var out []string
	for i, t := range specialTexts {
		out = append(out, `"`+t+`"`)
		if i%4 == 0 {
			out = append(out, `{"`+t+`":["`+t+`"]}`)
		}
	}
	return append(out, Numbers...)
}

func SpecialKeys() []string { return append([]string{}, specialTexts...) }

// Near tells whether position i of n is an end or next to a power of two.
func Near(i, n int) bool {
	if i < 2 || i >= n-2 {
		return true
	}
	for p := 8; p-1 <= i; p *= 2 {
		if i >= p-1 && i <= p+1 {
			return true
		}
	}
	return i == 99 || i == 100
}

// Each enumerates the family.
func (s Sizes) Each(yield func([]byte) bool) {
	y := func(f string, a ...interface{}) bool {
		if len(a) == 0 {
			return yield([]byte(f))
		}
		return yield([]byte(fmt.Sprintf(f, a...)))
	}
	depth, width, text := s.limits()
	// a sized part in several places of a document
	around3 := func(big string) bool {
		return y(`{"x":%s,"a":{"b":1,"e":{}},"c":[1,{"d":2},[]]}`, big) && y(`[%s,{"a":[1]},"z",[],{}]`, big) && y(`{"a":{"b":[%s,3],"c":"d"},"e":[4]}`, big) && y(`[0,{"q":%s}]`, big)
	}
	// nesting
	for _, d := range around(32, depth) {
		if d < 40 {
			continue
		}
		rep := strings.Repeat
		if !around3(rep("[", d)+rep("]", d)) || !around3(rep(`{"k":`, d)+"{}"+rep("}", d)) || !around3(rep(`[{"k":`, d/2)+`"v"`+rep("}]", d/2)) || !y("%s7%s", rep("[", d), rep("]", d)) ||
			!y(`%s[]%s`, rep(`{"k":`, d), rep("}", d)) || !y("%s1%s", rep("[\n ", d), rep(" ]", d)) {
			return
		}
		var pre, post strings.Builder
		for i := 0; i < d; i++ {
			if i%2 == 0 {
				fmt.Fprintf(&pre, `{"a":%d,"k":`, i)
			} else {
				fmt.Fprintf(&pre, `[%d,`, i)
			}
		}
		for i := d - 1; i >= 0; i-- {
			if i%2 == 0 {
				fmt.Fprintf(&post, `,"z":"e%d"}`, i)
			} else {
				fmt.Fprintf(&post, `,"e%d"]`, i)
			}
		}
		if !y("%s", pre.String()+`"v"`+post.String()) {
			return
		}
	}
	// width
	mix := []string{"1", `"x"`, "{}", "[]", "null", `"{"`, "true", `[2]`, `{"k":3}`}
	for _, n := range around(64, width) {
		if n < 130 && n != 100 {
			continue
		}
		var ar, ob, nu []string
		for i := 0; i < n; i++ {
			ar = append(ar, mix[i%len(mix)])
			nu = append(nu, strconv.Itoa(i))
			ob = append(ob, fmt.Sprintf(`"k%d":%s`, i, mix[(i+1)%len(mix)]))
		}
		a, o, m := "["+strings.Join(ar, ",")+"]", "{"+strings.Join(ob, ",")+"}", "["+strings.Join(nu, " , ")+"]"
		if !y("%s", a) || !y("%s", o) || !y("%s", m) || !y(`{"p":[1],"l":%s,"q":{"l":[0]}}`, a) || !y(`[7,%s,{"k0":"no"}]`, o) {
			return
		}
	}
	// wide objects whose keys differ in kind, length and case
	for _, n := range []int{9, 17, 33, 65, 100, 129, 257, 513, 1025} {
		if n > width {
			break
		}
		var ob []string
		for i, k := range MixedKeys(n) {
			ob = append(ob, fmt.Sprintf(`"%s":%s`, k, mix[i%len(mix)]))
		}
		if !y("{%s}", strings.Join(ob, ",")) || n < 200 && !y(`[{"a":1},{"o" : {%s}}]`, strings.Join(ob, " ,\n")) {
			return
		}
	}
	// text, keys, escapes, blanks
	for _, n := range around(256, text) {
		if n < 300 && s.Level < 3 {
			continue
		}
		t := strings.Repeat("t", n)
		h, g := t[:n/2], t[n/2:]
		if !around3(`"`+t+`"`) || !y(`{"%s":1,"%[1]sb":{"%[1]s":2},"z":3}`, t) {
			return
		}
		if n <= 5000 && !y(`{"%sa%[2]s":1,"%[1]sb%[2]s":[2],"c%[1]s%[2]s":{"%[1]sa%[2]s":"3"},"%[1]s%[2]sd":4}`, h, g) {
			return
		}
		// escapes at every offset of every block: both parities, and runs of backslashes
		esc := strings.Repeat(`\"`, n/2)
		if n%2 == 0 {
			if !around3(`"`+esc+`, ]"`) || !around3(`"x`+esc+` , }"`) || !y(`{"%s":{"a":1},"x%[1]s":[2]}`, esc) || !around3(`"`+strings.Repeat(`\\`, n/2)+`"`) || !around3(`"y`+strings.Repeat(`\\`, n/2)+`"`) ||
				!y(`[%s1]`, strings.Repeat("9", min(n, 400))) {
				return
			}
			sp := strings.Repeat(" ", n)
			if !y(`%s{%[1]s"a"%[1]s:%[1]s1%[1]s,%[1]s"b"%[1]s:%[1]s{%[1]s}%[1]s}%[1]s`, sp+"\n") || !y(`%s[%[1]s1%[1]s,%[1]s"x"%[1]s,%[1]s{%[1]s"a" : 1}%[1]s]%[1]s`, sp) || !y(`{"a": {%s"b":1},"c":[%[1]s2],"d":[3%[1]s,4%[1]s],"e":"%[1]s"}`, sp) ||
				!y("{\"a\":\t%s{\"b\":\n%[1]s[\r%[1]s1]}}", sp) {
				return
			}
		}
	}
	for _, n := range around(16, min(300, text)) {
		sp := strings.Repeat(" ", n)
		tb := "\n" + strings.Repeat("\t", n)
		if !y(`{"a": {%s"b":1},"c":[%[1]s2],"d":[3%[1]s,4%[1]s],"e":"%[1]s"}`, sp) || !y(`{%s"a": {%[1]s"b":1%[1]s}%[1]s,%[1]s"c":[%[1]s2%[1]s,[%[1]s]%[1]s]%[1]s}`, tb) {
			return
		}
	}
}
