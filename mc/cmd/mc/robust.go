package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C21", Gens: c21Gens, Unit: c21,
		Rule:   "state = one byte string; transition = one call of an exported function or method on it; the oracle is that the call returns (no panic, bounded work and memory)",
		Assume: []string{"byte strings over the symbols and up to the lengths listed, and all prefixes, one-byte deletions, replacements and insertions of the listed documents", "a call counts as running away after 40 s of CPU or 3 GB of memory"},
		Need:   []string{"well formed", "malformed", "error", "result"}})
}

const (
	sym11 = "{}[]\":,\\ a0"
	sym14 = sym11 + "\n-1"
	sym19 = sym14 + "tn\x00\x80b"
)

// stringsGen enumerates every string of exactly the lengths lo..hi over the symbols.
func stringsGen(syms string, lo, hi int) eng.Gen {
	return eng.Gen{Name: "all strings of length " + itoa(lo) + ".." + itoa(hi) + " over " + itoa(len(syms)) + " symbols", Each: func(yield func([]byte) bool) {
		buf := make([]byte, hi)
		for n := lo; n <= hi; n++ {
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == n {
					return yield(buf[:n])
				}
				for j := 0; j < len(syms); j++ {
					buf[i] = syms[j]
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return
			}
		}
	}}
}

// damage enumerates every prefix, suffix, deletion, replacement and insertion of one byte of each text of g.
func damage(g eng.Gen, syms string, twice bool) eng.Gen {
	name := "every prefix, suffix and one-byte corruption of: "
	if twice {
		name = "every prefix of every one-byte corruption of: "
	}
	return eng.Gen{Name: name + g.Name, Each: func(yield func([]byte) bool) {
		emit := yield
		if twice {
			emit = func(b []byte) bool {
				for n := 0; n <= len(b); n++ {
					if !yield(b[:n]) {
						return false
					}
				}
				return true
			}
		}
		g.Each(func(t []byte) bool {
			b := append([]byte(nil), t...)
			for n := 0; n <= len(b); n++ {
				if !yield(b[:n]) || !yield(b[n:]) {
					return false
				}
			}
			x := make([]byte, 0, len(b)+1)
			for i := 0; i <= len(b); i++ {
				if i < len(b) {
					x = append(append(x[:0], b[:i]...), b[i+1:]...)
					if !emit(x) {
						return false
					}
				}
				for j := 0; j < len(syms); j++ {
					x = append(append(append(x[:0], b[:i]...), syms[j]), b[i:]...)
					if !emit(x) {
						return false
					}
					if i < len(b) && b[i] != syms[j] {
						x = append(append(append(x[:0], b[:i]...), syms[j]), b[i+1:]...)
						if !emit(x) {
							return false
						}
					}
				}
			}
			return true
		})
	}}
}

// runsGen repeats short patterns many times, with and without closers: nesting and length beyond anything a caller has.
func runsGen(counts ...int) eng.Gen {
	pats := []string{"[", "{", "\"", "\\", ",", ":", " ", "0", "a", "]", "}", "[{", `{"a":`, `[0,`, `{"a":{`, `"a",`, `[[],`, `\"`, "[ ", "\n", "[\"a\","}
	cl := map[string]string{"[": "]", `{"a":`: "}", "[{": "}]"}
	return eng.Gen{Name: "long runs of short patterns", Each: func(yield func([]byte) bool) {
		for _, n := range counts {
			for _, p := range pats {
				for _, pre := range []string{"", "[", `{"a":`, `"`, `["`} {
					for _, post := range []string{"", "]", "}", `"`} {
						if !yield([]byte(pre + strings.Repeat(p, n) + post)) {
							return
						}
					}
				}
				if c := cl[p]; c != "" && n <= 400 {
					if !yield([]byte(strings.Repeat(p, n) + "1" + strings.Repeat(c, n))) {
						return
					}
				}
			}
		}
	}}
}

// alphabets of the well-formed documents whose damage is explored
func c21Gens(tier string) []eng.Gen {
	lb := lbBoth[:1]
	gs := []eng.Gen{
		stringsGen(sym19, 0, 3),
		stringsGen(allBytes(), 0, 1),
		stringsGen(sym11, 4, 4),
		docsGen("builder calls", "!builders"),
		damage(space(gen.Space{Nodes: 4, Labels: lb}), sym14, false),
		damage(docsGen("scenario documents", scenarioDocs...), sym11, false),
		runsGen(70, 400, 1500),
		stringsGen(sym11, 5, 5),
	}
	if tier == "thorough" {
		gs = append(gs,
			stringsGen(allBytes(), 2, 2),
			stringsGen(sym14, 4, 5),
			damage(space(gen.Space{Nodes: 5, Labels: lb}), sym14, false),
			damage(space(gen.Space{Nodes: 3, Labels: lb, AllGaps: "\n "}), sym11, false),
			damage(space(gen.Space{Nodes: 3, Dev: 1, Labels: lb}), sym11, false),
			runsGen(4000),
			stringsGen(sym11, 6, 6),
			damage(space(gen.Space{Nodes: 4, Labels: lb}), sym11, true),
			stringsGen(sym11, 7, 7))
	}
	return gs
}

func allBytes() string {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return string(b)
}

var c21Paths = [][]string{nil, {"a"}, {"0"}, {"a", "0"}, {"0", "a"}, {""}, {"1"}}
var c21MorePaths = [][]string{{"-1"}, {"a", "a"}, {"0", "0"}, {"\""}, {"9223372036854775807"}, {"99999999999999999999"}, {"", ""}, {"a", ""}, {"0", "1"}, {"1", "0"}, {"zz"}, {"2"}, {" "}, {"\\"}, {"00"}, {"a", "a", "a"}, {"0", "0", "0"}, {"-"}, {"{"}, {"["}, {","}}
var c21Vals = []string{`1`, ``}
var c21MoreVals = []string{`"`, `{`, ` `, `[]`, `"a"`, "\\", `"a`, `{"a":1}`, "\n\n"}
var c21Idx = []int{0, -1, 1}
var c21MoreIdx = []int{2, 1 << 62, -1 << 63, 1<<63 - 1}

func c21(w *eng.W, key []byte) {
	if string(key) == "!builders" {
		c21Builders(w)
		return
	}
	b := w.Buf(key)
	w.State(1)
	if wellFormed(key) {
		w.Out("well formed")
	} else {
		w.Out("malformed")
	}
	paths, vals, idx, ks := c21Paths, c21Vals, c21Idx, []string{"a", ""}
	if len(key) <= 3 {
		paths = append(paths[:len(paths):len(paths)], c21MorePaths...)
		vals = append(vals[:len(vals):len(vals)], c21MoreVals...)
		idx = append(idx[:len(idx):len(idx)], c21MoreIdx...)
		ks = []string{"a", "", "\"", "zz"}
	}
	if len(key) >= 5 {
		vals = vals[:1]
		ks = ks[:1]
		paths = paths[:3]
	}
	long := len(key) > 300
	_, perr := safeParse(b)
	keys := []string{"a", "b"}
	one := []string{""}
	for oi := range allOpsList {
		o := &allOpsList[oi]
		if o.par && perr != nil {
			continue
		}
		if long && o.par && o.Mut && oi%6 != 0 {
			continue
		}
		vs, kk, is, ps := one, one, c21Idx[:1], paths
		if o.uses('v') {
			vs = vals
		}
		if o.uses('k') {
			kk = ks
		}
		if o.uses('i') {
			is = idx
		}
		if !o.uses('p') {
			ps = paths[:1]
		}
		for _, p := range ps {
			for _, v := range vs {
				for _, k := range kk {
					for _, i := range is {
						w.At(o.Name, p)
						w.Args(func() []string { return []string{v, k, itoa(i)} })
						w.Guarded(func() {
							r := o.F(&In{b, []byte(v), k, i, p, keys, false})
							e, isErr := r[len(r)-1].(error)
							if isErr && e != nil {
								w.Out("error")
							} else {
								w.Out("result")
							}
						})
					}
				}
			}
		}
	}
}

func safeParse(b []byte) (p *jin.Parser, err error) {
	defer func() {
		if recover() != nil {
			p, err = nil, nil
		}
	}()
	p, err = jin.Parse(b)
	return p, err
}

type opx struct {
	Op
	par bool
}

var allOpsList = func() []opx {
	var out []opx
	for _, o := range freeOps {
		out = append(out, opx{o, false})
	}
	for _, o := range parserOps {
		out = append(out, opx{o, o.Name != "Parse"})
	}
	for _, o := range joAllOps {
		out = append(out, opx{o, false})
	}
	return out
}()

func wellFormed(b []byte) bool { return ref.Valid(b) }

// c21Builders: builders and constructors on every small list of unusual values.
func c21Builders(w *eng.W) {
	var np *int
	var ns []int
	vals := []interface{}{nil, 1, -1.5, math.NaN(), math.Inf(1), true, "", "a", "\"", "[", "{\"", "\\", []byte(nil), []byte("1"), []string{}, []string{"a"}, []interface{}{nil}, map[string]int{"a": 1}, struct{ A int }{1}, np, ns, [2]int{1, 2}, complex(1, 2), uint8(3), int64(-1 << 63), uint64(1<<64 - 1), []float64{}, []bool{true}, []int{1}, errStop, 'x', float32(1.5)}
	strs := []string{"", "a", "\"", "\\", "[", "]", "{", "}", "[]", "{}", "\"\"", "1", "-", "+", ".", "e", "1e", "t", "true", "nul", " ", "\x00", "\xff", "\"a", "a\""}
	run := func(name string, f func() interface{}, args ...string) {
		w.State(1)
		w.At(name, nil, args...)
		w.Guarded(func() {
			if f() == nil {
				w.Out("nil result")
			} else {
				w.Out("result")
			}
		})
	}
	bs := func(b []byte) interface{} {
		if b == nil {
			return nil
		}
		return b
	}
	run("MakeArray", func() interface{} { return bs(jin.MakeArray()) })
	run("MakeArrayString", func() interface{} { return bs(jin.MakeArrayString(nil)) })
	run("MakeArrayInt", func() interface{} { return bs(jin.MakeArrayInt(nil)) })
	run("MakeArrayBool", func() interface{} { return bs(jin.MakeArrayBool(nil)) })
	run("MakeArrayFloat", func() interface{} { return bs(jin.MakeArrayFloat(nil)) })
	run("MakeArrayFloat", func() interface{} { return bs(jin.MakeArrayFloat([]float64{math.NaN(), math.Inf(-1)})) }, "NaN -Inf")
	run("MakeArrayBytes", func() interface{} { return bs(jin.MakeArrayBytes()) })
	run("MakeArrayBytes", func() interface{} { return bs(jin.MakeArrayBytes(nil, []byte{}, nil)) }, "nil")
	run("MakeJson", func() interface{} { return bs(jin.MakeJson(nil, nil)) })
	run("MakeJsonString", func() interface{} { return bs(jin.MakeJsonString(nil, nil)) })
	run("MakeJsonWithMap", func() interface{} { return bs(jin.MakeJsonWithMap(nil)) })
	for _, a := range vals {
		sa := fmt.Sprintf("%T %v", a, a)
		run("MakeArray", func() interface{} { return bs(jin.MakeArray(a)) }, sa)
		for n := 0; n <= 3; n++ {
			for m := 0; m <= 3; m++ {
				ks, vs := make([]string, n), make([]interface{}, m)
				ss := make([]string, m)
				for i := range vs {
					vs[i], ss[i] = a, fmt.Sprint(a)
				}
				run("MakeJson", func() interface{} { return bs(jin.MakeJson(ks, vs)) }, itoa(n), itoa(m), sa)
				run("MakeJsonString", func() interface{} { return bs(jin.MakeJsonString(ks, ss)) }, itoa(n), itoa(m), sa)
				run("Scheme.MakeJson", func() interface{} { return bs(jin.MakeScheme(ks...).MakeJson(vs...)) }, itoa(n), itoa(m), sa)
				run("Scheme.MakeJsonString", func() interface{} { return bs(jin.MakeScheme(ks...).MakeJsonString(ss...)) }, itoa(n), itoa(m), sa)
			}
		}
		for _, b := range vals {
			run("MakeArray", func() interface{} { return bs(jin.MakeArray(a, b)) }, sa, fmt.Sprintf("%T %v", b, b))
		}
	}
	for _, a := range strs {
		run("MakeJsonWithMap", func() interface{} { return bs(jin.MakeJsonWithMap(map[string]string{a: a})) }, a)
		run("MakeArrayBytes", func() interface{} { return bs(jin.MakeArrayBytes([]byte(a))) }, a)
		run("ParseArray", func() interface{} { return jin.ParseArray(a) }, a)
		for _, b := range strs {
			run("MakeArrayString", func() interface{} { return bs(jin.MakeArrayString([]string{a, b})) }, a, b)
			run("MakeJsonString", func() interface{} { return bs(jin.MakeJsonString([]string{a, b}, []string{b, a})) }, a, b)
			run("MakeArrayBytes", func() interface{} { return bs(jin.MakeArrayBytes([]byte(a), []byte(b))) }, a, b)
			for _, doc := range []string{`{"a":1}`, `{}`, `[]`, ``, `{"a":"x","b":[1]}`} {
				d := []byte(doc)
				run("Scheme", func() interface{} {
					s := jin.MakeScheme(a)
					s.Add(b)
					s.Remove(a)
					s.Save()
					s.Remove(b)
					s.Remove(b)
					s.Check(d)
					s.CheckAbs(d)
					s.MutateJson(d)
					s.MutateJsonAbs(d)
					s.Restore()
					s.Check(d)
					s.CheckAbs(d)
					s.MutateJson(d)
					r, _ := s.MutateJsonAbs(d)
					return bs(r)
				}, a, b, doc)
			}
		}
	}
	for _, s := range []*jin.Scheme{{}, jin.MakeScheme()} {
		run("Scheme zero", func() interface{} {
			s.Remove("a")
			s.Restore()
			s.Add("a")
			s.Save()
			s.Remove("a")
			s.Restore()
			s.Restore()
			return s.GetCurrentKeys()
		})
	}
	for c := -3; c <= 60; c++ {
		run("ErrEqual", func() interface{} { return jin.ErrEqual(nil, c) || jin.ErrEqual(errStop, c) }, itoa(c))
	}
}
