package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C18", Gens: c18Gens, Unit: c18,
		Rule:   "state = one input (a text, an integer, a float, or a list of inputs); transition = one builder or typed writer call whose output is parsed by the reference reader and compared member by member with the input; trace = all calls on one input",
		Assume: []string{"texts that need escaping, or that are enclosed in brackets without being JSON, are outside the statement", "floats are finite"},
		Need:   []string{"number text", "literal text", "quoted text", "bracketed text", "plain text", "int", "float", "list", "empty list", "map"}})
}

// wantText is the value a text must be written as; ok=false when the statement does not cover the text.
func wantText(t string) (string, string, bool) {
	switch {
	case ref.IsNumber(t):
		return t, "number text", true
	case t == "true" || t == "false" || t == "null":
		return t, "literal text", true
	}
	if len(t) > 1 && (t[0] == '"' && t[len(t)-1] == '"' || t[0] == '[' && t[len(t)-1] == ']' || t[0] == '{' && t[len(t)-1] == '}') {
		if !ref.Valid([]byte(t)) {
			return "", "", false
		}
		if t[0] == '"' {
			return t, "quoted text", true
		}
		return t, "bracketed text", true
	}
	if s := strings.TrimSpace(t); s != t && len(s) > 0 && strings.IndexByte(`"[{`, s[0]) >= 0 {
		return "", "", false
	}
	if !ref.IsStringBody(t) {
		return "", "", false
	}
	return `"` + t + `"`, "plain text", true
}

func c18Gens(tier string) []eng.Gen {
	num, body, lst := 5, 3, 4
	if tier == "thorough" {
		num, body, lst = 7, 4, 5
	}
	words := func(sym []string, n int, y func(string) bool) bool {
		var rec func(s string, n int) bool
		rec = func(s string, n int) bool {
			if !y(s) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, c := range sym {
				if !rec(s+c, n-1) {
					return false
				}
			}
			return true
		}
		return rec("", n)
	}
	return []eng.Gen{
		{Name: fmt.Sprintf("all texts of <=%d symbols over 0 1 9 - + . e E", num), Each: func(y func([]byte) bool) {
			words([]string{"0", "1", "9", "-", "+", ".", "e", "E"}, num, func(s string) bool { return y([]byte("t|" + s)) })
		}},
		{Name: fmt.Sprintf("all texts of <=%d symbols over 20 (blank, escapes, structure, literals)", body), Each: func(y func([]byte) bool) {
			words([]string{" ", "a", `\"`, `\\`, `\n`, `"`, "[", "]", "{", "}", ",", ":", "1", "true", "null", "é", "-", "0x", "NaN", "Inf"}, body, func(s string) bool { return y([]byte("t|" + s)) })
		}},
		{Name: "special words, every printable byte, all leaf texts of the document spaces", Each: func(y func([]byte) bool) {
			for _, s := range []string{"True", "TRUE", "FALSE", "False", "Null", "NULL", "nil", "nan", "inf", "-Inf", "+Inf", "Infinity", "infinity", "0b1", "0o7", "0x1p4", "0x1F", "1_000", "1e400", "-1e400", "1e-400",
				"9223372036854775808", "123456789012345678901234567890", "00", "007", "-00", "some text", "http://a.b/c?d=e&f=g", "2021-01-02T03:04:05Z", "a@b.c", "1,2", "1 2", "1:2", "{", "}", "[", "]", "[1", "1]", "{a", "]["} {
				if !y([]byte("t|" + s)) {
					return
				}
			}
			for c := 0x20; c < 0x100; c++ {
				for _, s := range []string{string([]byte{byte(c)}), "x" + string([]byte{byte(c)}), string([]byte{byte(c)}) + "x", "1" + string([]byte{byte(c)})} {
					if !y([]byte("t|" + s)) {
						return
					}
				}
			}
			for _, s := range gen.AltLeaves {
				if !y([]byte("t|"+s)) || len(s) > 1 && s[0] == '"' && !y([]byte("t|"+s[1:len(s)-1])) {
					return
				}
			}
			for _, s := range append(append([]string{}, gen.Numbers...), scenarioDocs...) {
				if !y([]byte("t|" + strings.TrimSpace(s))) {
					return
				}
			}
			for _, n := range gen.Around(512, 65537) {
				if !y([]byte("t|"+strings.Repeat("t", n))) || !y([]byte("t|"+strings.Repeat("t", n-2)+`\"`)) || !y([]byte("t|"+strings.Repeat("\\\\", n/2))) || !y([]byte("t|"+strings.Repeat("7", n))) || !y([]byte(`t|"`+strings.Repeat("t", n-2)+`"`)) || !y([]byte("t|["+strings.Repeat("1,", n/2)+"1]")) {
					return
				}
			}
			for n := 0; n < 300; n++ {
				if !y([]byte("t|"+strings.Repeat("t", n))) || !y([]byte("t|"+strings.Repeat("7", n))) {
					return
				}
			}
		}},
		{Name: "integers: all -1100..1100, 2^k-1..2^k+1, 10^k-1..10^k+1, both signs, all widths", Each: func(y func([]byte) bool) {
			em := func(v uint64, neg bool) bool {
				s := strconv.FormatUint(v, 10)
				if neg {
					s = "-" + s
				}
				return y([]byte("i|" + s))
			}
			for v := uint64(0); v <= 1100; v++ {
				if !em(v, false) || v > 0 && !em(v, true) {
					return
				}
			}
			p := uint64(1)
			for k := 0; k < 64; k++ {
				for d := uint64(0); d < 3; d++ {
					v := p - 1 + d
					if !em(v, false) || v > 0 && v <= 1<<63 && !em(v, true) {
						return
					}
				}
				p <<= 1
			}
			em(math.MaxUint64, false)
			p = 1
			for k := 0; k < 20; k++ {
				for d := uint64(0); d < 3; d++ {
					v := p - 1 + d
					if !em(v, false) || v > 0 && v <= 1<<63 && !em(v, true) {
						return
					}
				}
				p *= 10
			}
		}},
		{Name: "floats: m*10^e for 9 mantissas and e=-330..308, 2^k and neighbours for all k, extremes, both signs", Each: func(y func([]byte) bool) {
			em := func(f float64) bool {
				if math.IsInf(f, 0) || math.IsNaN(f) {
					return true
				}
				return y([]byte(fmt.Sprintf("f|%016x", math.Float64bits(f)))) && y([]byte(fmt.Sprintf("f|%016x", math.Float64bits(-f))))
			}
			for _, m := range []string{"1", "2", "5", "12", "1.5", "9.99", "3.141592653589793", "1.0000000000000002", "7654321"} {
				for e := -330; e <= 308; e++ {
					f, _ := strconv.ParseFloat(m+"e"+strconv.Itoa(e), 64)
					if !em(f) {
						return
					}
				}
			}
			for k := -1074; k <= 1023; k++ {
				f := math.Ldexp(1, k)
				if !em(f) || !em(math.Nextafter(f, 0)) || !em(math.Nextafter(f, math.Inf(1))) {
					return
				}
			}
			for v := 0; v <= 2000; v++ {
				if !em(float64(v)) || !em(float64(v)/8) || !em(float64(v)/100) {
					return
				}
			}
			em(math.MaxFloat64)
			em(math.SmallestNonzeroFloat64)
		}},
		{Name: fmt.Sprintf("lists: all of length <=%d over 6 inputs, lengths 0..70 and at and next to powers of two up to 4097, nil lists, all subsets of 6 map keys", lst), Each: func(y func([]byte) bool) {
			var rec func(s string, n int) bool
			rec = func(s string, n int) bool {
				if !y([]byte("l|" + s)) {
					return false
				}
				if n == 0 {
					return true
				}
				for c := 'a'; c <= 'f'; c++ {
					if !rec(s+string(c), n-1) {
						return false
					}
				}
				return true
			}
			if !rec("", lst) {
				return
			}
			for n := 0; n <= 70; n++ {
				if !y([]byte("l|"+strings.Repeat("abcdef", 12)[:n])) || !y([]byte(fmt.Sprintf("M|%d", n))) {
					return
				}
			}
			for _, n := range gen.Around(128, 4097) {
				if !y([]byte("l|"+strings.Repeat("abcdef", n/6+1)[:n])) || !y([]byte(fmt.Sprintf("M|%d", n))) || n < 2000 && (!y([]byte("l|"+strings.Repeat("b", n))) || !y([]byte("l|"+strings.Repeat("a", n-1)+"e"))) {
					return
				}
			}
			for n := 0; n < 8; n++ {
				if !y([]byte(fmt.Sprintf("L|%d", n))) {
					return
				}
			}
			if !y([]byte("n|")) {
				return
			}
			for m := 0; m < 64; m++ {
				if !y([]byte(fmt.Sprintf("m|%d", m))) {
					return
				}
			}
		}},
	}
}

// members reads back a flat container.
func readBack(w *eng.W, out []byte, kind ref.Kind, keys, vals []string) {
	n, err := ref.Parse(out)
	if err != nil || n.Kind != kind {
		w.Fail("output is not well-formed JSON of the right kind: %q", out)
		return
	}
	var gk, gv []string
	for i, k := range n.Kids {
		if kind == ref.Obj {
			gk = append(gk, n.Key(out, i))
		}
		gv = append(gv, k.Full(out))
	}
	if !eqStrs(gk, keys) || !eqStrs(gv, vals) {
		w.Fail("want keys %q values %q, got %q", keys, vals, out)
	}
}

func arrOf(w *eng.W, op string, args []string, want []string, f func() []byte) {
	w.At(op, nil, args...)
	w.Guarded(func() { readBack(w, f(), ref.Arr, nil, want) })
}

func objOf(w *eng.W, op string, args []string, keys, want []string, f func() []byte) {
	w.At(op, nil, args...)
	w.Guarded(func() { readBack(w, f(), ref.Obj, keys, want) })
}

// wrote: the edit result holds exactly this text at the place.
func wrote(w *eng.W, op string, args []string, want string, f func() ([]byte, error)) {
	w.At(op, nil, args...)
	w.Guarded(func() {
		out, err := f()
		if err != nil || string(out) != want {
			w.Fail("want %q, got %q, error %v", want, out, err)
		}
	})
}

func viaJO(doc string, f func(j *jin.JO) error) func() ([]byte, error) {
	return func() ([]byte, error) {
		j := jin.New([]byte(doc))
		err := f(j)
		return j.JSON(), err
	}
}

func viaParser(doc string, f func(p *jin.Parser) error) func() ([]byte, error) {
	return func() ([]byte, error) {
		p, err := jin.Parse([]byte(doc))
		if err != nil {
			return nil, err
		}
		if err = f(p); err != nil {
			return nil, err
		}
		return p.JSON(), nil
	}
}

const (
	bObj = `{"o":{"a":"z"},"l":[0,"z"]}`
)

// writers covers one value through every Set/Add/Insert/AddKeyValue/Store writer of one type.
type writerSet struct {
	typ  string
	set  func(b []byte, p ...string) ([]byte, error)
	add  func(b []byte, p ...string) ([]byte, error)
	ins  func(b []byte, i int, p ...string) ([]byte, error)
	akv  func(b []byte, k string, p ...string) ([]byte, error)
	sto  func(b []byte, k string, p ...string) ([]byte, error)
	jset func(j *jin.JO, p ...string) error
	jadd func(j *jin.JO, p ...string) error
	jins func(j *jin.JO, i int, p ...string) error
	jakv func(j *jin.JO, k string, p ...string) error
	jsto func(j *jin.JO, k string, p ...string) error
	pset func(q *jin.Parser, p ...string) error
	padd func(q *jin.Parser, p ...string) error
	pins func(q *jin.Parser, i int, p ...string) error
	pakv func(q *jin.Parser, k string, p ...string) error
}

func (ws *writerSet) run(w *eng.W, arg, want string) {
	a := []string{arg}
	t := ws.typ
	wSet := `{"o":{"a":` + want + `},"l":[0,"z"]}`
	wAdd := `{"o":{"a":"z"},"l":[0,"z",` + want + `]}`
	wIns := `{"o":{"a":"z"},"l":[0,` + want + `,"z"]}`
	wAkv := `{"o":{"a":"z","k":` + want + `},"l":[0,"z"]}`
	if ws.set != nil {
		wrote(w, "Set"+t, a, wSet, func() ([]byte, error) { return ws.set([]byte(bObj), "o", "a") })
	}
	if ws.add != nil {
		wrote(w, "Add"+t, a, wAdd, func() ([]byte, error) { return ws.add([]byte(bObj), "l") })
	}
	if ws.ins != nil {
		wrote(w, "Insert"+t, a, wIns, func() ([]byte, error) { return ws.ins([]byte(bObj), 1, "l") })
	}
	if ws.akv != nil {
		wrote(w, "AddKeyValue"+t, a, wAkv, func() ([]byte, error) { return ws.akv([]byte(bObj), "k", "o") })
	}
	if ws.sto != nil {
		wrote(w, "Store"+t, a, wAkv, func() ([]byte, error) { return ws.sto([]byte(bObj), "k", "o") })
		wrote(w, "Store"+t, a, wSet, func() ([]byte, error) { return ws.sto([]byte(bObj), "a", "o") })
	}
	if ws.jset != nil {
		wrote(w, "JO.Set"+t, a, wSet, viaJO(bObj, func(j *jin.JO) error { return ws.jset(j, "o", "a") }))
		wrote(w, "JO.Add"+t, a, wAdd, viaJO(bObj, func(j *jin.JO) error { return ws.jadd(j, "l") }))
		wrote(w, "JO.Insert"+t, a, wIns, viaJO(bObj, func(j *jin.JO) error { return ws.jins(j, 1, "l") }))
		wrote(w, "JO.AddKeyValue"+t, a, wAkv, viaJO(bObj, func(j *jin.JO) error { return ws.jakv(j, "k", "o") }))
		wrote(w, "JO.Store"+t, a, wAkv, viaJO(bObj, func(j *jin.JO) error { return ws.jsto(j, "k", "o") }))
	}
	if ws.pset != nil {
		wrote(w, "Parser.Set"+t, a, wSet, viaParser(bObj, func(p *jin.Parser) error { return ws.pset(p, "o", "a") }))
	}
	if ws.padd != nil {
		wrote(w, "Parser.Add"+t, a, wAdd, viaParser(bObj, func(p *jin.Parser) error { return ws.padd(p, "l") }))
		wrote(w, "Parser.Insert"+t, a, wIns, viaParser(bObj, func(p *jin.Parser) error { return ws.pins(p, 1, "l") }))
		wrote(w, "Parser.AddKeyValue"+t, a, wAkv, viaParser(bObj, func(p *jin.Parser) error { return ws.pakv(p, "k", "o") }))
	}
}

func c18(w *eng.W, key []byte) {
	kind, arg := key[0], string(key[2:])
	w.State(1)
	switch kind {
	case 't':
		c18text(w, arg)
	case 'i':
		c18int(w, arg)
	case 'f':
		bits, err := strconv.ParseUint(arg, 16, 64)
		if err != nil {
			panic("ref.unit")
		}
		c18float(w, math.Float64frombits(bits))
	case 'l':
		c18list(w, arg)
	case 'n':
		w.Out("empty list")
		arrOf(w, "MakeEmptyArray", nil, nil, jin.MakeEmptyArray)
		objOf(w, "MakeEmptyJson", nil, nil, nil, jin.MakeEmptyJson)
		arrOf(w, "MakeArray", []string{"nothing"}, nil, func() []byte { return jin.MakeArray() })
		arrOf(w, "MakeArrayBytes", []string{"nothing"}, nil, func() []byte { return jin.MakeArrayBytes() })
		arrOf(w, "MakeArrayString", []string{"nil"}, nil, func() []byte { return jin.MakeArrayString(nil) })
		arrOf(w, "MakeArrayInt", []string{"nil"}, nil, func() []byte { return jin.MakeArrayInt(nil) })
		arrOf(w, "MakeArrayBool", []string{"nil"}, nil, func() []byte { return jin.MakeArrayBool(nil) })
		arrOf(w, "MakeArrayFloat", []string{"nil"}, nil, func() []byte { return jin.MakeArrayFloat(nil) })
		objOf(w, "MakeJson", []string{"nil"}, nil, nil, func() []byte { return jin.MakeJson(nil, nil) })
		objOf(w, "MakeJsonString", []string{"nil"}, nil, nil, func() []byte { return jin.MakeJsonString(nil, nil) })
		objOf(w, "MakeJsonWithMap", []string{"nil"}, nil, nil, func() []byte { return jin.MakeJsonWithMap(nil) })
	case 'L':
		n, _ := strconv.Atoi(arg)
		c18long(w, n)
	case 'M':
		n, _ := strconv.Atoi(arg)
		c18wideMap(w, n)
	case 'm':
		m, _ := strconv.Atoi(arg)
		c18map(w, m)
		if m < 2 {
			c18bool(w, m == 1)
		}
	}
}

func c18text(w *eng.W, t string) {
	want, class, ok := wantText(t)
	if !ok {
		w.Out("outside the statement")
		return
	}
	w.Out(class)
	a := []string{t}
	arrOf(w, "MakeArrayString", a, []string{want}, func() []byte { return jin.MakeArrayString([]string{t}) })
	arrOf(w, "MakeArrayString", []string{t, "x", t}, []string{want, `"x"`, want}, func() []byte { return jin.MakeArrayString([]string{t, "x", t}) })
	arrOf(w, "MakeArray", []string{t, "1"}, []string{want, "1"}, func() []byte { return jin.MakeArray(t, 1) })
	objOf(w, "MakeJson", a, []string{"k", "l"}, []string{want, "true"}, func() []byte { return jin.MakeJson([]string{"k", "l"}, []interface{}{t, true}) })
	objOf(w, "MakeJsonString", a, []string{"k", "l"}, []string{want, want}, func() []byte { return jin.MakeJsonString([]string{"k", "l"}, []string{t, t}) })
	objOf(w, "MakeJsonWithMap", a, []string{"k"}, []string{want}, func() []byte { return jin.MakeJsonWithMap(map[string]string{"k": t}) })
	objOf(w, "Scheme.MakeJson", a, []string{"k"}, []string{want}, func() []byte { return jin.MakeScheme("k").MakeJson(t) })
	objOf(w, "Scheme.MakeJsonString", a, []string{"k"}, []string{want}, func() []byte { return jin.MakeScheme("k").MakeJsonString(t) })
	if ref.IsStringBody(t) {
		// the text as a key
		o := "other"
		if t == o {
			o = "another"
		}
		objOf(w, "MakeJson", a, []string{t, o}, []string{"1", want}, func() []byte { return jin.MakeJson([]string{t, o}, []interface{}{1, t}) })
		objOf(w, "MakeJsonString", a, []string{o, t}, []string{want, `"y"`}, func() []byte { return jin.MakeJsonString([]string{o, t}, []string{t, "y"}) })
		objOf(w, "MakeJsonWithMap", a, []string{t}, []string{want}, func() []byte { return jin.MakeJsonWithMap(map[string]string{t: t}) })
		objOf(w, "Scheme.MakeJson", a, []string{o, t}, []string{want, "2"}, func() []byte { return jin.MakeScheme(o, t).MakeJson(t, 2) })
		objOf(w, "Scheme.MakeJsonString", a, []string{t, o}, []string{`"y"`, want}, func() []byte { return jin.MakeScheme(t, o).MakeJsonString("y", t) })
	}
	ws := &writerSet{typ: "String",
		set:  func(b []byte, p ...string) ([]byte, error) { return jin.SetString(b, t, p...) },
		add:  func(b []byte, p ...string) ([]byte, error) { return jin.AddString(b, t, p...) },
		ins:  func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertString(b, i, t, p...) },
		akv:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueString(b, k, t, p...) },
		sto:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.StoreString(b, k, t, p...) },
		jset: func(j *jin.JO, p ...string) error { return j.SetString(t, p...) },
		jadd: func(j *jin.JO, p ...string) error { return j.AddString(t, p...) },
		jins: func(j *jin.JO, i int, p ...string) error { return j.InsertString(i, t, p...) },
		jakv: func(j *jin.JO, k string, p ...string) error { return j.AddKeyValueString(k, t, p...) },
		jsto: func(j *jin.JO, k string, p ...string) error { return j.StoreString(k, t, p...) },
		padd: func(q *jin.Parser, p ...string) error { return q.AddString(t, p...) },
		pins: func(q *jin.Parser, i int, p ...string) error { return q.InsertString(i, t, p...) },
		pakv: func(q *jin.Parser, k string, p ...string) error { return q.AddKeyValueString(k, t, p...) },
	}
	if class == "plain text" || class == "quoted text" {
		ws.pset = func(q *jin.Parser, p ...string) error { return q.SetString(t, p...) }
	}
	ws.run(w, t, want)
	// the written text reads back through the library
	txt := want
	if want[0] == '"' {
		txt = want[1 : len(want)-1]
	}
	w.At("SetString+GetString", nil, t)
	w.Guarded(func() {
		out, err := jin.SetString([]byte(bObj), t, "o", "a")
		if err != nil {
			return
		}
		s, err := jin.GetString(out, "o", "a")
		if err != nil || s != txt {
			w.Fail("reads back as %q, error %v", s, err)
		}
	})
	w.At("MakeArrayString+GetStringArray", nil, t)
	if want[0] != '[' && want[0] != '{' {
		w.Guarded(func() {
			out := []byte(`{"l":` + string(jin.MakeArrayString([]string{t, "x"})) + `}`)
			s, err := jin.GetStringArray(out, "l")
			if err != nil || !eqStrs(s, []string{txt, "x"}) {
				w.Fail("reads back as %q, error %v", s, err)
			}
		})
	}
}

func c18int(w *eng.W, s string) {
	w.Out("int")
	a := []string{s}
	wants := []string{s}
	any := func(typ string, v interface{}) {
		arrOf(w, "MakeArray("+typ+")", a, wants, func() []byte { return jin.MakeArray(v) })
		objOf(w, "MakeJson("+typ+")", a, []string{"k"}, wants, func() []byte { return jin.MakeJson([]string{"k"}, []interface{}{v}) })
		objOf(w, "Scheme.MakeJson("+typ+")", a, []string{"k"}, wants, func() []byte { return jin.MakeScheme("k").MakeJson(v) })
	}
	if v, err := strconv.ParseInt(s, 10, 64); err == nil {
		n := int(v)
		arrOf(w, "MakeArrayInt", a, []string{s, "7", s}, func() []byte { return jin.MakeArrayInt([]int{n, 7, n}) })
		any("int", n)
		any("int64", v)
		(&writerSet{typ: "Int",
			set:  func(b []byte, p ...string) ([]byte, error) { return jin.SetInt(b, n, p...) },
			add:  func(b []byte, p ...string) ([]byte, error) { return jin.AddInt(b, n, p...) },
			ins:  func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertInt(b, i, n, p...) },
			akv:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueInt(b, k, n, p...) },
			sto:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.StoreInt(b, k, n, p...) },
			jset: func(j *jin.JO, p ...string) error { return j.SetInt(n, p...) },
			jadd: func(j *jin.JO, p ...string) error { return j.AddInt(n, p...) },
			jins: func(j *jin.JO, i int, p ...string) error { return j.InsertInt(i, n, p...) },
			jakv: func(j *jin.JO, k string, p ...string) error { return j.AddKeyValueInt(k, n, p...) },
			jsto: func(j *jin.JO, k string, p ...string) error { return j.StoreInt(k, n, p...) },
			pset: func(q *jin.Parser, p ...string) error { return q.SetInt(n, p...) },
			padd: func(q *jin.Parser, p ...string) error { return q.AddInt(n, p...) },
			pins: func(q *jin.Parser, i int, p ...string) error { return q.InsertInt(i, n, p...) },
			pakv: func(q *jin.Parser, k string, p ...string) error { return q.AddKeyValueInt(k, n, p...) },
		}).run(w, s, s)
		(&writerSet{typ: "Int64",
			add: func(b []byte, p ...string) ([]byte, error) { return jin.AddInt64(b, v, p...) },
			ins: func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertInt64(b, i, v, p...) },
			akv: func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueInt64(b, k, v, p...) },
		}).run(w, s, s)
		w.At("SetInt+GetInt", nil, s)
		w.Guarded(func() {
			out, err := jin.SetInt([]byte(bObj), n, "o", "a")
			g, err2 := jin.GetInt(out, "o", "a")
			if err != nil || err2 != nil || g != n {
				w.Fail("reads back as %d, errors %v %v", g, err, err2)
			}
		})
	}
	if v, err := strconv.ParseInt(s, 10, 32); err == nil {
		n := int32(v)
		any("int32", n)
		(&writerSet{typ: "Int32",
			add: func(b []byte, p ...string) ([]byte, error) { return jin.AddInt32(b, n, p...) },
			ins: func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertInt32(b, i, n, p...) },
			akv: func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueInt32(b, k, n, p...) },
		}).run(w, s, s)
	}
	if v, err := strconv.ParseInt(s, 10, 16); err == nil {
		any("int16", int16(v))
	}
	if v, err := strconv.ParseInt(s, 10, 8); err == nil {
		any("int8", int8(v))
	}
	if v, err := strconv.ParseUint(s, 10, 64); err == nil {
		any("uint64", v)
		any("uint", uint(v))
		if v <= math.MaxUint16 {
			any("uint16", uint16(v))
		}
		if v <= math.MaxUint8 {
			any("uint8", uint8(v))
		}
		(&writerSet{typ: "Uint64",
			add: func(b []byte, p ...string) ([]byte, error) { return jin.AddUint64(b, v, p...) },
			ins: func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertUint64(b, i, v, p...) },
			akv: func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueUint64(b, k, v, p...) },
		}).run(w, s, s)
		(&writerSet{typ: "Uint",
			add: func(b []byte, p ...string) ([]byte, error) { return jin.AddUint(b, uint(v), p...) },
			ins: func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertUint(b, i, uint(v), p...) },
			akv: func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueUint(b, k, uint(v), p...) },
		}).run(w, s, s)
	}
	if v, err := strconv.ParseUint(s, 10, 32); err == nil {
		n := uint32(v)
		any("uint32", n)
		(&writerSet{typ: "Uint32",
			add: func(b []byte, p ...string) ([]byte, error) { return jin.AddUint32(b, n, p...) },
			ins: func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertUint32(b, i, n, p...) },
			akv: func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueUint32(b, k, n, p...) },
		}).run(w, s, s)
	}
}

func c18float(w *eng.W, v float64) {
	w.Out("float")
	arg := strconv.FormatFloat(v, 'g', -1, 64)
	// any JSON number that reads back as v
	exact := func(op string, f func() ([]byte, error), pre, suf string) {
		w.At(op, nil, arg)
		w.Guarded(func() {
			out, err := f()
			if err != nil || !bytes.HasPrefix(out, []byte(pre)) || !bytes.HasSuffix(out, []byte(suf)) || len(out) < len(pre)+len(suf) {
				w.Fail("got %q, error %v", out, err)
				return
			}
			t := string(out[len(pre) : len(out)-len(suf)])
			g, err := strconv.ParseFloat(t, 64)
			if !ref.IsNumber(t) || err != nil || g != v {
				w.Fail("written as %q", t)
			}
		})
	}
	nb := func(f func() []byte) func() ([]byte, error) { return func() ([]byte, error) { return f(), nil } }
	exact("MakeArrayFloat", nb(func() []byte { return jin.MakeArrayFloat([]float64{v}) }), `[`, `]`)
	exact("MakeArrayFloat", nb(func() []byte { return jin.MakeArrayFloat([]float64{1.5, v, 2.5}) }), `[1.5,`, `,2.5]`)
	exact("MakeArray(float64)", nb(func() []byte { return jin.MakeArray(v, 1.5) }), `[`, `,1.5]`)
	exact("MakeJson(float64)", nb(func() []byte { return jin.MakeJson([]string{"k"}, []interface{}{v}) }), `{"k":`, `}`)
	preSet, sufSet := `{"o":{"a":`, `},"l":[0,"z"]}`
	preAdd, sufAdd := `{"o":{"a":"z"},"l":[0,"z",`, `]}`
	preIns, sufIns := `{"o":{"a":"z"},"l":[0,`, `,"z"]}`
	preAkv, sufAkv := `{"o":{"a":"z","k":`, `},"l":[0,"z"]}`
	d := []byte(bObj)
	exact("SetFloat", func() ([]byte, error) { return jin.SetFloat(d, v, "o", "a") }, preSet, sufSet)
	exact("AddFloat", func() ([]byte, error) { return jin.AddFloat(d, v, "l") }, preAdd, sufAdd)
	exact("InsertFloat", func() ([]byte, error) { return jin.InsertFloat(d, 1, v, "l") }, preIns, sufIns)
	exact("AddKeyValueFloat", func() ([]byte, error) { return jin.AddKeyValueFloat(d, "k", v, "o") }, preAkv, sufAkv)
	exact("StoreFloat", func() ([]byte, error) { return jin.StoreFloat(d, "k", v, "o") }, preAkv, sufAkv)
	exact("JO.SetFloat", viaJO(bObj, func(j *jin.JO) error { return j.SetFloat(v, "o", "a") }), preSet, sufSet)
	exact("JO.AddFloat", viaJO(bObj, func(j *jin.JO) error { return j.AddFloat(v, "l") }), preAdd, sufAdd)
	exact("JO.InsertFloat", viaJO(bObj, func(j *jin.JO) error { return j.InsertFloat(1, v, "l") }), preIns, sufIns)
	exact("JO.AddKeyValueFloat", viaJO(bObj, func(j *jin.JO) error { return j.AddKeyValueFloat("k", v, "o") }), preAkv, sufAkv)
	exact("JO.StoreFloat", viaJO(bObj, func(j *jin.JO) error { return j.StoreFloat("k", v, "o") }), preAkv, sufAkv)
	exact("Parser.SetFloat", viaParser(bObj, func(p *jin.Parser) error { return p.SetFloat(v, "o", "a") }), preSet, sufSet)
	exact("Parser.AddFloat", viaParser(bObj, func(p *jin.Parser) error { return p.AddFloat(v, "l") }), preAdd, sufAdd)
	exact("Parser.InsertFloat", viaParser(bObj, func(p *jin.Parser) error { return p.InsertFloat(1, v, "l") }), preIns, sufIns)
	exact("Parser.AddKeyValueFloat", viaParser(bObj, func(p *jin.Parser) error { return p.AddKeyValueFloat("k", v, "o") }), preAkv, sufAkv)
	w.At("SetFloat+GetFloat", nil, arg)
	w.Guarded(func() {
		out, err := jin.SetFloat(d, v, "o", "a")
		g, err2 := jin.GetFloat(out, "o", "a")
		if err != nil || err2 != nil || g != v {
			w.Fail("reads back as %v, errors %v %v", g, err, err2)
		}
	})
	if f := float32(v); !math.IsInf(float64(f), 0) {
		w.At("MakeArray(float32)", nil, arg)
		w.Guarded(func() {
			out := jin.MakeArray(f)
			n, err := ref.Parse(out)
			if err != nil || len(n.Kids) != 1 || n.Kids[0].Kind != ref.Num {
				w.Fail("got %q", out)
				return
			}
			g, err := strconv.ParseFloat(n.Kids[0].Full(out), 32)
			if err != nil || float32(g) != f {
				w.Fail("got %q", out)
			}
		})
	}
}

func c18list(w *eng.W, s string) {
	if s == "" {
		w.Out("empty list")
	} else {
		w.Out("list")
	}
	strs := make([]string, 0, len(s))
	wantS := make([]string, 0, len(s))
	ints := make([]int, 0, len(s))
	wantI := make([]string, 0, len(s))
	floats := make([]float64, 0, len(s))
	bools := make([]bool, 0, len(s))
	wantB := make([]string, 0, len(s))
	anys := make([]interface{}, 0, len(s))
	wantA := make([]string, 0, len(s))
	raw := make([][]byte, 0, len(s))
	wantR := make([]string, 0, len(s))
	keys := make([]string, 0, len(s))
	tx := [][2]string{{"x", `"x"`}, {"", `""`}, {"12", "12"}, {"true", "true"}, {`"q"`, `"q"`}, {"[1,2]", "[1,2]"}}
	iv := []int{0, 1, -1, 42, -1000000, math.MaxInt64}
	fv := []float64{0, 1, -1.5, 100, 1e21, 0.001}
	bo := []bool{true, false, true, true, false, false}
	an := []interface{}{"x", 1, 2.5, true, uint8(7), "null"}
	aw := []string{`"x"`, "1", "2.5", "true", "7", "null"}
	rw := []string{"1", `"a"`, "[]", "{}", `{"a":[1]}`, "null"}
	for i := range s {
		c := s[i] - 'a'
		strs, wantS = append(strs, tx[c][0]), append(wantS, tx[c][1])
		ints, wantI = append(ints, iv[c]), append(wantI, strconv.Itoa(iv[c]))
		floats = append(floats, fv[c])
		bools, wantB = append(bools, bo[c]), append(wantB, strconv.FormatBool(bo[c]))
		anys, wantA = append(anys, an[c]), append(wantA, aw[c])
		raw, wantR = append(raw, []byte(rw[c])), append(wantR, rw[c])
		keys = append(keys, fmt.Sprintf("k%d", i))
	}
	a := []string{s}
	arrOf(w, "MakeArrayString", a, wantS, func() []byte { return jin.MakeArrayString(strs) })
	arrOf(w, "MakeArrayInt", a, wantI, func() []byte { return jin.MakeArrayInt(ints) })
	arrOf(w, "MakeArrayBool", a, wantB, func() []byte { return jin.MakeArrayBool(bools) })
	arrOf(w, "MakeArray", a, wantA, func() []byte { return jin.MakeArray(anys...) })
	arrOf(w, "MakeArrayBytes", a, wantR, func() []byte { return jin.MakeArrayBytes(raw...) })
	objOf(w, "MakeJson", a, keys, wantA, func() []byte { return jin.MakeJson(keys, anys) })
	objOf(w, "MakeJsonString", a, keys, wantS, func() []byte { return jin.MakeJsonString(keys, strs) })
	w.At("MakeArrayFloat", nil, s)
	w.Guarded(func() {
		out := jin.MakeArrayFloat(floats)
		n, err := ref.Parse(out)
		if err != nil || n.Kind != ref.Arr || len(n.Kids) != len(floats) {
			w.Fail("got %q", out)
			return
		}
		for i, k := range n.Kids {
			g, err := strconv.ParseFloat(k.Full(out), 64)
			if k.Kind != ref.Num || err != nil || g != floats[i] {
				w.Fail("element %d of %q", i, out)
			}
		}
	})
}

// c18long: lists whose text grows beyond 2^17 bytes, every element shifted by n bytes.
func c18long(w *eng.W, n int) {
	w.Out("list")
	const size = 30000
	lead := int(math.Pow10(n))
	lt := strconv.Itoa(lead)
	var strs, wantS, wantI, wantB, keys []string
	var ints []int
	var floats []float64
	var bools []bool
	var anys []interface{}
	var raw [][]byte
	for i := 0; i < size; i++ {
		v := i
		if i == 0 {
			v = lead
		}
		t := strconv.Itoa(v)
		ints, wantI = append(ints, v), append(wantI, t)
		floats, anys, raw = append(floats, float64(v)), append(anys, v), append(raw, []byte(t))
		strs, wantS = append(strs, "s"+t), append(wantS, `"s`+t+`"`)
		bools, wantB = append(bools, i%3 == 0), append(wantB, strconv.FormatBool(i%3 == 0))
		keys = append(keys, "k"+t)
	}
	keys[0] = "z" + lt
	a := []string{itoa(size), lt}
	arrOf(w, "MakeArrayString", a, wantS, func() []byte { return jin.MakeArrayString(strs) })
	arrOf(w, "MakeArrayInt", a, wantI, func() []byte { return jin.MakeArrayInt(ints) })
	arrOf(w, "MakeArrayFloat", a, wantI, func() []byte { return jin.MakeArrayFloat(floats) })
	arrOf(w, "MakeArrayBool", a, wantB, func() []byte { return jin.MakeArrayBool(bools) })
	arrOf(w, "MakeArray", a, wantI, func() []byte { return jin.MakeArray(anys...) })
	arrOf(w, "MakeArrayBytes", a, wantI, func() []byte { return jin.MakeArrayBytes(raw...) })
	objOf(w, "MakeJson", a, keys, wantI, func() []byte { return jin.MakeJson(keys, anys) })
	objOf(w, "MakeJsonString", a, keys, wantS, func() []byte { return jin.MakeJsonString(keys, strs) })
}

func c18wideMap(w *eng.W, n int) {
	w.Out("map")
	tx := [][2]string{{"x", `"x"`}, {"", `""`}, {"12", "12"}, {"true", "true"}, {`"q"`, `"q"`}, {"[1,2]", "[1,2]"}, {`{"a":"b"}`, `{"a":"b"}`}, {"null", "null"}, {"x y", `"x y"`}, {"-1.5e3", "-1.5e3"}}
	for turn := range tx {
		if turn > 0 && n > 70 {
			return
		}
		mp, want := map[string]string{}, map[string]string{}
		for i := 0; i < n; i++ {
			k, t := fmt.Sprintf("k%d", i), tx[(i+turn)%len(tx)]
			mp[k], want[k] = t[0], t[1]
		}
		w.At("MakeJsonWithMap", nil, itoa(n), itoa(turn))
		w.Guarded(func() {
			out := jin.MakeJsonWithMap(mp)
			r, err := ref.Parse(out)
			if err != nil || r.Kind != ref.Obj || len(r.Kids) != n {
				w.Fail("not %d members: %.200q", n, out)
				return
			}
			seen := map[string]bool{}
			for i := range r.Kids {
				k := r.Key(out, i)
				if v, ok := want[k]; !ok || seen[k] || v != r.Kids[i].Full(out) {
					w.Fail("member %q: %q", k, r.Kids[i].Full(out))
					return
				}
				seen[k] = true
			}
		})
	}
}

func c18map(w *eng.W, m int) {
	w.Out("map")
	mp := map[string]string{}
	ks := []string{"a", "b", "", "k k", `q\"`, "{"}
	tx := [][2]string{{"x", `"x"`}, {"", `""`}, {"12", "12"}, {"true", "true"}, {`"q"`, `"q"`}, {"[1,2]", "[1,2]"}}
	want := map[string]string{}
	for i := range ks {
		if m>>i&1 == 1 {
			mp[ks[i]] = tx[i][0]
			want[ks[i]] = tx[i][1]
		}
	}
	w.At("MakeJsonWithMap", nil, fmt.Sprintf("%q", mp))
	w.Guarded(func() {
		out := jin.MakeJsonWithMap(mp)
		n, err := ref.Parse(out)
		if err != nil || n.Kind != ref.Obj || len(n.Kids) != len(want) || !n.NoDupKeys(out) {
			w.Fail("got %q", out)
			return
		}
		for i := range n.Kids {
			if v, ok := want[n.Key(out, i)]; !ok || v != n.Kids[i].Full(out) {
				w.Fail("member %q of %q", n.Key(out, i), out)
			}
		}
	})
}

func c18bool(w *eng.W, v bool) {
	w.Out("bool")
	s := strconv.FormatBool(v)
	arrOf(w, "MakeArray(bool)", []string{s}, []string{s}, func() []byte { return jin.MakeArray(v) })
	objOf(w, "MakeJson(bool)", []string{s}, []string{"k"}, []string{s}, func() []byte { return jin.MakeJson([]string{"k"}, []interface{}{v}) })
	(&writerSet{typ: "Bool",
		set:  func(b []byte, p ...string) ([]byte, error) { return jin.SetBool(b, v, p...) },
		add:  func(b []byte, p ...string) ([]byte, error) { return jin.AddBool(b, v, p...) },
		ins:  func(b []byte, i int, p ...string) ([]byte, error) { return jin.InsertBool(b, i, v, p...) },
		akv:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.AddKeyValueBool(b, k, v, p...) },
		sto:  func(b []byte, k string, p ...string) ([]byte, error) { return jin.StoreBool(b, k, v, p...) },
		jset: func(j *jin.JO, p ...string) error { return j.SetBool(v, p...) },
		jadd: func(j *jin.JO, p ...string) error { return j.AddBool(v, p...) },
		jins: func(j *jin.JO, i int, p ...string) error { return j.InsertBool(i, v, p...) },
		jakv: func(j *jin.JO, k string, p ...string) error { return j.AddKeyValueBool(k, v, p...) },
		jsto: func(j *jin.JO, k string, p ...string) error { return j.StoreBool(k, v, p...) },
		pset: func(q *jin.Parser, p ...string) error { return q.SetBool(v, p...) },
		padd: func(q *jin.Parser, p ...string) error { return q.AddBool(v, p...) },
		pins: func(q *jin.Parser, i int, p ...string) error { return q.InsertBool(i, v, p...) },
		pakv: func(q *jin.Parser, k string, p ...string) error { return q.AddKeyValueBool(k, v, p...) },
	}).run(w, s, s)
}
