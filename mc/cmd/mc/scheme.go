package main

import (
	"fmt"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C19", Gens: c19Gens, Unit: c19,
		Rule:   "state = one (current keys, saved keys) pair reached by a history, or one (key list, document) pair; transition = one Scheme call compared with the model; trace = one complete history or one document session on the real Scheme",
		Assume: []string{"schemes are made from distinct non-empty keys; documents are well-formed objects", "histories longer than the bound are not explored"},
		Need:   []string{"add ok", "add refused", "remove ok", "remove refused", "save", "restore", "mutate complete", "mutate missing", "check true", "check false", "checkabs true", "checkabs false", "count mismatch"}})
}

// ordered subsets of the letters
func orderedSubsets(letters string) []string {
	out := []string{""}
	for i := 0; i < len(out); i++ {
		for _, c := range letters {
			if strings.IndexRune(out[i], c) < 0 {
				out = append(out, out[i]+string(c))
			}
		}
	}
	return out
}

func c19Gens(tier string) []eng.Gen {
	n, q, letters := 6, 6, "abcd"
	if tier == "thorough" {
		n, q = 8, 7
	}
	ops := "abcABCSR"
	sizes, m := []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129}, 4
	if tier == "thorough" {
		sizes, m = append(sizes, 255, 256, 257, 1023, 1024, 1025), 5
	}
	return []eng.Gen{
		{Name: fmt.Sprintf("all histories of <=%d calls over Add/Remove of a new key and of the first, middle and last key, Save, Restore, on schemes of %d keys (short, nested prefixes, long)", m, sizes), Each: func(y func([]byte) bool) {
			for _, n := range sizes {
				for form := 0; form < 3; form++ {
					if n > 300 && form == 1 {
						continue
					}
					m := m
					if n > 70 {
						m--
					}
					for i := range c19wideOps {
						if !y([]byte(fmt.Sprintf("h%d|+%d.%d|%d|%s", m, n, form, i%2, c19wideOps[i:i+1]))) {
							return
						}
					}
				}
			}
		}},
		{Name: fmt.Sprintf("schemes of %d keys against objects with all of them, one missing or one more (first, middle, last), in order and reversed", sizes), Each: func(y func([]byte) bool) {
			for _, n := range sizes {
				for form := 0; form < 3; form++ {
					if n > 300 && form == 1 {
						continue
					}
					for v := 0; v < 14; v++ {
						if !y([]byte(fmt.Sprintf("D|%d.%d|%d", n, form, v))) {
							return
						}
					}
				}
			}
		}},
		{Name: fmt.Sprintf("all histories of <=%d calls over Add/Remove of 3 keys, Save, Restore, from 5 initial key lists (also with spare capacity)", n), Each: func(y func([]byte) bool) {
			for _, init := range []string{"", "a", "ab", "cab", "xyz"} {
				for _, spare := range []string{"0", "1"} {
					for i := range ops {
						for j := range ops {
							if !y([]byte(fmt.Sprintf("h%d|%s|%s|%s", n, init, spare, ops[i:i+1]+ops[j:j+1]))) {
								return
							}
						}
					}
				}
			}
		}},
		{Name: fmt.Sprintf("all histories of <=%d calls over Add/Remove of 2 keys, Save, Restore, building a document, checking and reshaping two documents, listing the keys, from 4 initial key lists; <=%d calls on schemes of 9, 17, 33, 65 keys", q, q-2), Each: func(y func([]byte) bool) {
			for _, init := range []string{"", "a", "ab", "cab", "+9.0", "+17.2", "+33.0", "+65.2"} {
				n := q
				if init != "" && init[0] == '+' {
					n -= 2
				}
				for i := range c19useOps {
					for j := range c19useOps {
						if !y([]byte(fmt.Sprintf("q%d|%s|0|%s", n, init, c19useOps[i:i+1]+c19useOps[j:j+1]))) {
							return
						}
					}
				}
			}
		}},
		{Name: "periodic histories: all words of <=3 calls over Add/Remove of 2 keys, Save, Restore, repeated to 260 calls", Each: func(y func([]byte) bool) {
			var words func(p string) bool
			words = func(p string) bool {
				if p != "" && !y([]byte("p260|ab|0|"+p)) {
					return false
				}
				if len(p) == 3 {
					return true
				}
				for _, c := range "bcBCSR" {
					if !words(p + string(c)) {
						return false
					}
				}
				return true
			}
			words("")
		}},
		{Name: "all ordered key lists over 4 keys against all objects over 4 keys, 3 layouts, 9 value rotations", Each: func(y func([]byte) bool) {
			for _, ks := range orderedSubsets(letters) {
				for _, dk := range orderedSubsets("abcx") {
					if !y([]byte("d|" + ks + "|" + dk)) {
						return
					}
				}
			}
		}},
	}
}

const c19wideOps = "abcdABCDSR"

// c19useOps: M builds documents, K and L check and reshape one document each, G lists the keys; nothing else looks at the scheme.
const c19useOps = "abABSRMKLG"

// wideKeys lists n keys: short ones, each a prefix of the next, or long ones that differ in the middle.
func wideKeys(n, form int) []string {
	var out []string
	for i := 0; i < n; i++ {
		switch form {
		case 0:
			out = append(out, fmt.Sprintf("k%d", i))
		case 1:
			out = append(out, strings.Repeat("a", i+1))
		default:
			out = append(out, fmt.Sprintf("%s%d%[1]s", strings.Repeat("key", 13), i))
		}
	}
	return out
}

type snap struct {
	what string
	got  []string
	copy []string
}

func split(s string) []string {
	if s == "" {
		return []string{}
	}
	return strings.Split(s, "")
}

func c19(w *eng.W, key []byte) {
	f := strings.Split(string(key), "|")
	if f[0] == "d" {
		c19doc(w, split(f[1]), split(f[2]))
		return
	}
	if f[0] == "D" {
		var n, form, v int
		fmt.Sscanf(f[1]+" "+f[2], "%d.%d %d", &n, &form, &v)
		ks := wideKeys(n, form)
		dk := append([]string{}, ks...)
		at := []int{0, n / 2, n - 1}[v%7%3]
		switch v % 7 {
		case 0, 1, 2:
			dk = append(dk[:at:at], dk[at+1:]...)
		case 3, 4, 5:
			dk = append(append(append([]string{}, dk[:at]...), "more"), dk[at:]...)
		}
		if v >= 7 {
			dk = rev(dk)
		}
		c19doc(w, ks, dk)
		return
	}
	var n int
	fmt.Sscanf(f[0][1:], "%d", &n)
	init := split(f[1])
	letters := map[byte]string{'a': "a", 'b': "b", 'c': "c", 'A': "a", 'B': "b", 'C': "c"}
	ops := "abcABCSR"
	if strings.HasPrefix(f[1], "+") {
		var m, form int
		fmt.Sscanf(f[1], "+%d.%d", &m, &form)
		init = wideKeys(m, form)
		ops = c19wideOps
		for i, k := range []string{wideKeys(m+1, form)[m], init[0], init[m/2], init[m-1]} {
			letters["abcd"[i]], letters["ABCD"[i]] = k, k
		}
	}
	// two documents: all keys the scheme can come to have, reversed; the first keys only
	var docKeys [2][]string
	var useDocs [2][]byte
	if f[0][0] == 'q' {
		ops = c19useOps
		docKeys[0] = []string{"b", "a"}
		docKeys[1] = []string{"a", "c"}
		if strings.HasPrefix(f[1], "+") {
			docKeys[0] = rev(append(append([]string{}, init...), letters['a']))
			docKeys[1] = init
		}
		for i, dk := range docKeys {
			var l []string
			for j, k := range dk {
				l = append(l, fmt.Sprintf("%q:%d", k, j))
			}
			useDocs[i] = []byte("{" + strings.Join(l, ",") + "}")
		}
	}
	// every history is replayed from the start: the Scheme cannot be copied
	run := func(h string) bool {
		w.Trace(1)
		before := w.Failures()
		w.At("Scheme history", nil, strings.Join(init, ","), f[2], h)
		w.Guarded(func() {
			given := append(make([]string, 0, len(init)+4*int(f[2][0]-'0')), init...)
			s := jin.MakeScheme(given...)
			cur, saved := append([]string{}, init...), append([]string{}, init...)
			snaps := []snap{{"given", given[:cap(given)], append([]string{}, given[:cap(given)]...)}}
			check := func(step int) {
				w.State(1)
				c, o := s.GetCurrentKeys(), s.GetOriginalKeys()
				if !eqStrs(c, cur) {
					w.Fail("after %q: current keys %q, model %q", h[:step], c, cur)
				}
				if !eqStrs(o, saved) {
					w.Fail("after %q: saved keys %q, model %q", h[:step], o, saved)
				}
				if len(h) > 64 && step%16 != 0 && step != len(h) {
					return
				}
				for _, x := range snaps {
					if !eqStrs(x.got, x.copy) {
						w.Fail("after %q: list %s changed from %q to %q", h[:step], x.what, x.copy, x.got)
					}
				}
				snaps = append(snaps, snap{fmt.Sprintf("current@%d", step), c, append([]string{}, c...)}, snap{fmt.Sprintf("saved@%d", step), o, append([]string{}, o...)})
			}
			uses := f[0][0] == 'q'
			if !uses {
				check(0)
			}
			build := func(step int) {
				var vals []interface{}
				var strs, want []string
				for i := range cur {
					vals = append(vals, i)
					strs = append(strs, itoa(i))
					want = append(want, itoa(i))
				}
				before := w.Failures()
				readBack(w, s.MakeJson(vals...), ref.Obj, cur, want)
				readBack(w, s.MakeJsonString(strs...), ref.Obj, cur, want)
				if w.Failures() != before {
					w.Fail("after %q: building a document goes wrong", h[:step])
				}
			}
			// judge checks and reshapes an object of the given keys, their values numbered.
			judge := func(step int, doc []byte, dk []string) {
				has := true
				var want []string
				for _, k := range cur {
					v := `""`
					for i := range dk {
						if dk[i] == k {
							v = itoa(i)
						}
					}
					has = has && v != `""`
					want = append(want, v)
				}
				if got := s.Check(doc); got != has {
					w.Fail("after %q: Check(%q) is %v", h[:step], doc, got)
				}
				if got := s.CheckAbs(doc); got != (has && len(cur) == len(dk)) {
					w.Fail("after %q: CheckAbs(%q) is %v", h[:step], doc, got)
				}
				before := w.Failures()
				if out, err := s.MutateJson(doc); err != nil {
					w.Fail("MutateJson fails: %v", err)
				} else {
					readBack(w, out, ref.Obj, cur, want)
				}
				out, err := s.MutateJsonAbs(doc)
				switch {
				case has && err != nil:
					w.Fail("MutateJsonAbs fails: %v", err)
				case has:
					readBack(w, out, ref.Obj, cur, want)
				case err == nil:
					w.Fail("MutateJsonAbs(%q) gives %q though a key is missing", doc, out)
				}
				if w.Failures() != before {
					w.Fail("after %q: reshaping %q goes wrong", h[:step], doc)
				}
			}
			var buf []byte
			use := func(step, i int) {
				buf = append(buf[:0], useDocs[i]...) // both documents pass through one buffer
				judge(step, buf, docKeys[i])
			}
			for i := 0; i < len(h); i++ {
				w.Tick()
				w.Trans++
				switch op := h[i]; op {
				case 'a', 'b', 'c', 'd':
					k := letters[op]
					at := -1
					for j := range cur {
						if cur[j] == k {
							at = j
						}
					}
					got := s.Add(k)
					if got != (at < 0) {
						w.Fail("after %q: Add(%q) reports %v", h[:i], k, got)
					}
					if at < 0 {
						cur = append(append([]string{}, cur...), k)
						w.Out("add ok")
					} else {
						w.Out("add refused")
					}
				case 'A', 'B', 'C', 'D':
					k := letters[op]
					var nc []string
					for _, x := range cur {
						if x != k {
							nc = append(nc, x)
						}
					}
					got := s.Remove(k)
					if got != (len(nc) != len(cur)) {
						w.Fail("after %q: Remove(%q) reports %v", h[:i], k, got)
					}
					if len(nc) != len(cur) {
						w.Out("remove ok")
					} else {
						w.Out("remove refused")
					}
					cur = nc
				case 'S':
					s.Save()
					saved = append([]string{}, cur...)
					w.Out("save")
				case 'R':
					s.Restore()
					cur = append([]string{}, saved...)
					w.Out("restore")
				case 'M':
					build(i + 1)
				case 'K':
					use(i+1, 0)
				case 'L':
					use(i+1, 1)
				case 'G':
					check(i + 1)
				}
				if !uses {
					check(i + 1)
				}
				if w.Failures() > before {
					return
				}
			}
			build(len(h))
			if uses {
				check(len(h))
				use(len(h), 0)
				use(len(h), 1)
			}
		})
		return w.Failures() == before
	}
	var rec func(h string)
	rec = func(h string) {
		if !run(h) || len(h) == n {
			return
		}
		for i := range ops {
			rec(h + ops[i:i+1])
		}
	}
	if f[0][0] == 'p' {
		run(strings.Repeat(f[3], n/len(f[3])))
		return
	}
	rec(f[3])
}

var c19values = []string{`1`, `"x"`, `true`, `null`, `"12"`, `{"a":[1]}`, `["b",{}]`, `"[1,2]"`, `"\""`}

func c19doc(w *eng.W, ks, dk []string) {
	for rot := range c19values {
		for lay := 0; lay < 3; lay++ {
			gap := []string{"", " ", "\n\t"}[lay]
			var b strings.Builder
			b.WriteString(gap + "{" + gap)
			vals := map[string]string{}
			for i, k := range dk {
				if i > 0 {
					b.WriteString("," + gap)
				}
				v := c19values[(rot+i)%len(c19values)]
				vals[k] = v
				b.WriteString(`"` + k + `"` + gap + ":" + gap + v + gap)
			}
			b.WriteString("}" + gap)
			doc := []byte(b.String())
			has := true
			var want []string
			for _, k := range ks {
				if v, ok := vals[k]; ok {
					want = append(want, v)
				} else {
					has = false
					want = append(want, `""`)
				}
			}
			if len(dk) > 20 && (rot != lay || lay == 2 && len(dk) > 200) {
				continue
			}
			args := []string{strings.Join(ks, ","), string(doc)}
			s := jin.MakeScheme(ks...)
			w.State(1)
			w.At("Scheme.Check", nil, args...)
			w.Guarded(func() {
				if got := s.Check(doc); got != has {
					w.Fail("got %v", got)
				}
				w.Out("check " + fmt.Sprint(has))
			})
			w.At("Scheme.CheckAbs", nil, args...)
			w.Guarded(func() {
				abs := has && len(ks) == len(dk)
				if got := s.CheckAbs(doc); got != abs {
					w.Fail("got %v", got)
				}
				w.Out("checkabs " + fmt.Sprint(abs))
			})
			w.At("Scheme.MutateJson", nil, args...)
			w.Guarded(func() {
				out, err := s.MutateJson(doc)
				if err != nil {
					w.Fail("error %v", err)
					return
				}
				readBack(w, out, ref.Obj, ks, want)
			})
			w.At("Scheme.MutateJsonAbs", nil, args...)
			w.Guarded(func() {
				out, err := s.MutateJsonAbs(doc)
				if has {
					w.Out("mutate complete")
					if err != nil {
						w.Fail("error %v", err)
						return
					}
					readBack(w, out, ref.Obj, ks, want)
				} else {
					w.Out("mutate missing")
					if err == nil {
						w.Fail("a key is missing, yet the result is %q", out)
					}
				}
			})
			if lay == 0 {
				for _, d := range []int{-2, -1, 0, 1, 2} {
					n := len(ks) + d
					if n < 0 {
						continue
					}
					var iv []interface{}
					var sv, wv []string
					for i := 0; i < n; i++ {
						iv = append(iv, c19values[(rot+i)%len(c19values)])
						sv = append(sv, c19values[(rot+i)%len(c19values)])
						wv = append(wv, c19values[(rot+i)%len(c19values)])
					}
					for _, f := range []struct {
						op string
						f  func() []byte
					}{{"Scheme.MakeJson", func() []byte { return s.MakeJson(iv...) }}, {"Scheme.MakeJsonString", func() []byte { return s.MakeJsonString(sv...) }},
						{"MakeJson", func() []byte { return jin.MakeJson(ks, iv) }}, {"MakeJsonString", func() []byte { return jin.MakeJsonString(ks, sv) }}} {
						w.At(f.op, nil, append(args, itoa(n))...)
						w.Guarded(func() {
							out := f.f()
							if d != 0 {
								w.Out("count mismatch")
								if out != nil {
									w.Fail("count mismatch, yet the result is %q", out)
								}
								return
							}
							readBack(w, out, ref.Obj, ks, wv)
						})
					}
				}
			}
		}
	}
}
