package main

import (
	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C17", Gens: c17Gens, Unit: c17,
		Rule:   "state = one JSON text; transition = one Flatten/Indent call compared with the model (blanks outside strings removed; reparse gives the same content; inverse; idempotence); trace = the call session on one text",
		Assume: []string{"texts are well formed; texts beyond the stated bounds are not explored"},
		Need:   []string{"scalar root", "container root", "blank in string", "escaped quote"}})
}

// textsGen: scalar texts of all kinds, surrounded by blanks.
func scalarTexts(name string) eng.Gen {
	return eng.Gen{Name: name, Each: func(y func([]byte) bool) {
		for _, l := range append(append([]string{}, gen.AltLeaves...), gen.Numbers...) {
			for _, a := range append([]string{""}, gen.AltGaps...) {
				for _, b := range append([]string{""}, gen.AltGaps...) {
					if !y([]byte(a + l + b)) {
						return
					}
				}
			}
		}
		// every string body of up to 4 symbols over blanks, escapes and structure
		sym := []string{" ", `\"`, `\\`, "a", ",", ":", "{", "]", `\n`, `\u0022`, "é"}
		var rec func(s string, n int) bool
		rec = func(s string, n int) bool {
			if !y([]byte(`"`+s+`"`)) || !y([]byte(`["`+s+`"]`)) || !y([]byte(`{"`+s+`":"`+s+`" , "k`+s+`" : [1 ,"x"] }`)) {
				return false
			}
			if n == 0 {
				return true
			}
			for _, c := range sym {
				if !rec(s+c, n-1) {
					return false
				}
			}
			return true
		}
		rec("", 4)
	}}
}

func c17Gens(tier string) []eng.Gen {
	return append([]eng.Gen{scalarTexts("scalar texts with blanks, all strings of <=4 symbols out of 11, alone, in an array, as key and value")}, stdSpaces(-1)(tier)...)
}

func c17(w *eng.W, key []byte) {
	src := append([]byte(nil), key...)
	root, err := ref.Parse(src)
	if err != nil {
		panic("ref.malformed " + string(key))
	}
	b := w.Buf(key)
	w.State(1)
	want := ref.Compact(src)
	model := ref.ToTree(src, root).String()
	if !root.IsContainer() {
		w.Out("scalar root")
	} else {
		w.Out("container root")
	}
	for i := range src {
		if src[i] == ' ' && i > 0 && src[i-1] == '"' {
			w.Out("blank in string")
			break
		}
	}
	for i := range src {
		if src[i] == '"' && i > 0 && src[i-1] == '\\' {
			w.Out("escaped quote")
			break
		}
	}
	w.At("Flatten", nil)
	var f, in []byte
	ok := w.Guarded(func() {
		f = jin.Flatten(b)
		if string(f) != want {
			w.Fail("want %q, got %q", want, f)
		}
	})
	if ok {
		w.At("Flatten(Flatten)", nil)
		w.Guarded(func() {
			if g := jin.Flatten(f); string(g) != string(f) {
				w.Fail("not idempotent: %q", g)
			}
		})
	}
	w.At("Indent", nil)
	if !w.Guarded(func() { in = jin.Indent(b) }) {
		return
	}
	n, err := ref.Parse(in)
	if err != nil {
		w.Fail("result is malformed: %q", in)
		return
	}
	if ref.ToTree(in, n).String() != model {
		w.Fail("content changed: %q", in)
		return
	}
	w.At("Flatten(Indent)", nil)
	w.Guarded(func() {
		if g := jin.Flatten(in); string(g) != want {
			w.Fail("Flatten of the indented text is %q, want %q", g, want)
		}
	})
	w.At("Indent(Indent)", nil)
	w.Guarded(func() {
		if g := jin.Indent(in); string(g) != string(in) {
			w.Fail("not idempotent: %q then %q", in, g)
		}
	})
	w.At("Indent(Flatten)", nil)
	w.Guarded(func() {
		if g := jin.Indent([]byte(want)); string(g) != string(in) {
			w.Fail("depends on the layout: %q and %q", in, g)
		}
	})
}
