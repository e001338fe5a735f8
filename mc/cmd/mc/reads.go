package main

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

// c03Gens: the standard spaces, and small shapes with one and two leaves on the border of the conversions.
func c03Gens(tier string) []eng.Gen {
	n := 4
	if tier == "thorough" {
		n = 5
	}
	return append(stdSpaces(0)(tier),
		space(gen.Space{Nodes: n, Dev: 1, Labels: lbAll, Leaves: gen.Lookalikes, NoKey: true, NoGap: true}),
		space(gen.Space{Nodes: 3, Dev: 2, Labels: lbBoth, Leaves: gen.Lookalikes, NoKey: true, NoGap: true}),
		space(gen.Space{Nodes: 3, Dev: 2, Labels: lbBoth[:1], Leaves: gen.Lookalikes, NoKey: true, Gaps: []string{" ", "\n"}}))
}

func c01Gens(tier string) []eng.Gen {
	return append(stdSpaces(-1)(tier), eng.Gen{Name: "documents deeper than 10000, longer than 2^24", Each: gen.Vast})
}

const readRule = "state = one (document, addressed position) pair of the reference model; transition = one call of the library whose result is compared with the model; trace = the complete call session on one document"

var docAssume = []string{
	"documents are well-formed RFC 8259 texts without repeated keys, path components are source-spelling keys or canonical decimal positions",
	"documents beyond the stated bounds (node count, number of simultaneous unusual features, sizes) are not explored",
}

func init() {
	reg(&eng.Check{ID: "C01", Gens: c01Gens, Unit: docUnit(c01), Rule: readRule, Assume: docAssume, Need: []string{"object", "array", "string", "number", "boolean", "null"}})
	reg(&eng.Check{ID: "C02", Gens: stdSpaces(2), Unit: docUnit(c02), Rule: readRule, Assume: docAssume, Need: []string{"code 8", "code 7", "code 3"}})
	reg(&eng.Check{ID: "C03", Gens: c03Gens, Unit: docUnit(c03), Rule: readRule, Assume: docAssume, Need: []string{"int ok", "int error", "float ok", "float error", "bool ok", "bool error", "array ok", "array error", "empty array"}})
	reg(&eng.Check{ID: "C10", Gens: stdSpaces(0), Unit: docUnit(c10), Rule: readRule, Assume: docAssume, Need: []string{"array complete", "object complete", "stopped", "callback error", "refused"}})
	reg(&eng.Check{ID: "C11", Gens: stdSpaces(0), Unit: docUnit(c11), Rule: readRule, Assume: docAssume, Need: []string{"complete", "stopped", "callback error", "has empty container"}})
	reg(&eng.Check{ID: "C12", Gens: stdSpaces(0), Unit: docUnit(c12), Rule: readRule, Assume: docAssume, Need: []string{"object", "array", "empty", "absent key"}})
	reg(&eng.Check{ID: "C13", Gens: stdSpaces(-1), Unit: docUnit(c13), Rule: readRule, Assume: docAssume, Need: []string{"object", "array", "string", "number", "boolean", "null", "empty", "non-empty"}})
}

var kindNames = map[ref.Kind]string{ref.Obj: "object", ref.Arr: "array", ref.Str: "string", ref.Num: "number", ref.Bool: "boolean", ref.Null: "null"}

// c01: Get on every resolving path.
func c01(w *eng.W, d *D) {
	w.State(len(d.Pos))
	for _, p := range d.Pos {
		w.At("Get", p.Path)
		var got []byte
		var err error
		if !w.Guarded(func() { got, err = jin.Get(d.B, p.Path...) }) {
			continue
		}
		want := d.Text(p.Node)
		if len(p.Path) == 0 {
			want = d.S
		}
		if err != nil {
			w.Fail("path resolves to %q but Get fails: %v", want, err)
		} else if string(got) != want {
			w.Fail("want %q, got %q", want, got)
		} else {
			w.Out(kindNames[p.Node.Kind])
		}
	}
}

// refusal calls every lookup on a path that does not resolve.
type lookup struct {
	name string
	f    func(d *D, p []string) (leaked string, err error)
}

var errStop = errors.New("stop")

func strOf(s string, ok bool) string {
	if ok {
		return s
	}
	return ""
}

var lookups = []lookup{
	{"Get", func(d *D, p []string) (string, error) { v, e := jin.Get(d.B, p...); return string(v), e }},
	{"GetString", func(d *D, p []string) (string, error) { v, e := jin.GetString(d.B, p...); return v, e }},
	{"GetInt", func(d *D, p []string) (string, error) {
		v, e := jin.GetInt(d.B, p...)
		return strOf("int "+strconv.Itoa(v), v != -1 && v != 0), e
	}},
	{"GetFloat", func(d *D, p []string) (string, error) {
		v, e := jin.GetFloat(d.B, p...)
		return strOf(fmt.Sprint("float ", v), v != -1 && v != 0), e
	}},
	{"GetBool", func(d *D, p []string) (string, error) {
		v, e := jin.GetBool(d.B, p...)
		return strOf("true", v), e
	}},
	{"GetStringArray", func(d *D, p []string) (string, error) {
		v, e := jin.GetStringArray(d.B, p...)
		return strOf(q(v), len(v) > 0), e
	}},
	{"GetIntArray", func(d *D, p []string) (string, error) {
		v, e := jin.GetIntArray(d.B, p...)
		return strOf(fmt.Sprint(v), len(v) > 0), e
	}},
	{"GetFloatArray", func(d *D, p []string) (string, error) {
		v, e := jin.GetFloatArray(d.B, p...)
		return strOf(fmt.Sprint(v), len(v) > 0), e
	}},
	{"GetBoolArray", func(d *D, p []string) (string, error) {
		v, e := jin.GetBoolArray(d.B, p...)
		return strOf(fmt.Sprint(v), len(v) > 0), e
	}},
	{"GetKeys", func(d *D, p []string) (string, error) {
		v, e := jin.GetKeys(d.B, p...)
		return strOf(q(v), len(v) > 0), e
	}},
	{"GetValues", func(d *D, p []string) (string, error) {
		v, e := jin.GetValues(d.B, p...)
		return strOf(q(v), len(v) > 0), e
	}},
	{"GetKeysValues", func(d *D, p []string) (string, error) {
		k, v, e := jin.GetKeysValues(d.B, p...)
		return strOf(q(k)+q(v), len(k)+len(v) > 0), e
	}},
	{"GetMap", func(d *D, p []string) (string, error) {
		v, e := jin.GetMap(d.B, p...)
		return strOf(fmt.Sprintf("%q", v), len(v) > 0), e
	}},
	{"Length", func(d *D, p []string) (string, error) {
		v, e := jin.Length(d.B, p...)
		return strOf(strconv.Itoa(v), v > 0), e
	}},
	{"IsObject", func(d *D, p []string) (string, error) { v, e := jin.IsObject(d.B, p...); return strOf("true", v), e }},
	{"IsArray", func(d *D, p []string) (string, error) { v, e := jin.IsArray(d.B, p...); return strOf("true", v), e }},
	{"IsValue", func(d *D, p []string) (string, error) { v, e := jin.IsValue(d.B, p...); return strOf("true", v), e }},
	{"IsEmpty", func(d *D, p []string) (string, error) { v, e := jin.IsEmpty(d.B, p...); return strOf("true", v), e }},
	{"GetType", func(d *D, p []string) (string, error) { v, e := jin.GetType(d.B, p...); return v, e }},
	{"IterateArray", func(d *D, p []string) (string, error) {
		leak := ""
		e := jin.IterateArray(d.B, func(v []byte) (bool, error) { leak += "call " + q(v); return true, nil }, p...)
		return leak, e
	}},
	{"IterateKeyValue", func(d *D, p []string) (string, error) {
		leak := ""
		e := jin.IterateKeyValue(d.B, func(k, v []byte) (bool, error) { leak += "call " + q(k) + q(v); return true, nil }, p...)
		return leak, e
	}},
}

// c02: every lookup on every non-resolving path.
func c02(w *eng.W, d *D) {
	fails := d.Fails()
	w.State(len(fails))
	for _, f := range fails {
		for _, l := range lookups {
			w.At(l.name, f.Path)
			var leak string
			var err error
			if !w.Guarded(func() { leak, err = l.f(d, f.Path) }) {
				continue
			}
			if err == nil {
				w.Fail("path does not resolve but the call succeeds, giving %s", leak)
			} else if leak != "" {
				w.Fail("path does not resolve, error %v, yet something is returned: %s", err, leak)
			}
		}
		w.Out(fmt.Sprintf("code %d", f.Code))
	}
	w.At("Parse", nil)
	var p *jin.Parser
	var err error
	if !w.Guarded(func() { p, err = jin.Parse(d.B) }) || err != nil || p == nil {
		return // C14 decides that
	}
	for _, f := range fails {
		w.At("Parser.Get", f.Path)
		var v []byte
		if !w.Guarded(func() { v, err = p.Get(f.Path...) }) {
			continue
		}
		if err == nil {
			w.Fail("path does not resolve but Parser.Get gives %q", v)
		}
		w.At("Parser.GetNew", f.Path)
		if !w.Guarded(func() { v = p.GetNew(f.Path...) }) {
			continue
		}
		if len(v) != 0 {
			w.Fail("path does not resolve but Parser.GetNew gives %q", v)
		}
	}
	// the other half: a path that does resolve is found whatever else the document contains
	for _, ps := range d.Pos {
		w.At("Get", ps.Path)
		if !w.Guarded(func() { _, err = jin.Get(d.B, ps.Path...) }) {
			continue
		}
		if err != nil {
			w.Fail("path resolves but Get fails: %v", err)
		}
	}
}

// getter is the read surface shared by the interpreter and the Parser.
type getter struct {
	name   string
	str    func(p ...string) (string, error)
	int    func(p ...string) (int, error)
	float  func(p ...string) (float64, error)
	bool   func(p ...string) (bool, error)
	strs   func(p ...string) ([]string, error)
	ints   func(p ...string) ([]int, error)
	floats func(p ...string) ([]float64, error)
	bools  func(p ...string) ([]bool, error)
	get    func(p ...string) ([]byte, error)
}

func interp(d *D) *getter {
	b := d.B
	return &getter{"",
		func(p ...string) (string, error) { return jin.GetString(b, p...) },
		func(p ...string) (int, error) { return jin.GetInt(b, p...) },
		func(p ...string) (float64, error) { return jin.GetFloat(b, p...) },
		func(p ...string) (bool, error) { return jin.GetBool(b, p...) },
		func(p ...string) ([]string, error) { return jin.GetStringArray(b, p...) },
		func(p ...string) ([]int, error) { return jin.GetIntArray(b, p...) },
		func(p ...string) ([]float64, error) { return jin.GetFloatArray(b, p...) },
		func(p ...string) ([]bool, error) { return jin.GetBoolArray(b, p...) },
		func(p ...string) ([]byte, error) { return jin.Get(b, p...) },
	}
}

func parserGetter(p *jin.Parser) *getter {
	return &getter{"Parser.", p.GetString, p.GetInt, p.GetFloat, p.GetBool, p.GetStringArray, p.GetIntArray, p.GetFloatArray, p.GetBoolArray, p.Get}
}

// checkTyped compares all typed getters on one position.
func checkTyped(w *eng.W, d *D, g *getter, path []string, n *ref.Node) {
	txt := d.Text(n)
	if len(path) == 0 {
		txt = d.S
	}
	w.At(g.name+"GetString", path)
	w.Guarded(func() {
		s, err := g.str(path...)
		if err != nil || s != txt {
			w.Fail("want %q, got %q, error %v", txt, s, err)
		}
	})
	w.At(g.name+"GetInt", path)
	w.Guarded(func() {
		v, err := g.int(path...)
		want, werr := strconv.Atoi(txt)
		switch {
		case werr != nil && err == nil:
			w.Fail("text %q is no int but %d is returned", txt, v)
		case werr == nil && (err != nil || v != want):
			w.Fail("want %d, got %d, error %v", want, v, err)
		case werr == nil:
			w.Out("int ok")
		default:
			w.Out("int error")
		}
	})
	w.At(g.name+"GetFloat", path)
	w.Guarded(func() {
		v, err := g.float(path...)
		want, werr := strconv.ParseFloat(txt, 64)
		switch {
		case werr != nil && err == nil:
			w.Fail("text %q is no float64 but %v is returned", txt, v)
		case werr == nil && (err != nil || (v != want && (v == v || want == want))):
			w.Fail("want %v, got %v, error %v", want, v, err)
		case werr == nil:
			w.Out("float ok")
		default:
			w.Out("float error")
		}
	})
	w.At(g.name+"GetBool", path)
	w.Guarded(func() {
		v, err := g.bool(path...)
		isB := txt == "true" || txt == "false"
		switch {
		case !isB && err == nil:
			w.Fail("text %q is no bool but %v is returned", txt, v)
		case isB && (err != nil || v != (txt == "true")):
			w.Fail("text %q, got %v, error %v", txt, v, err)
		case isB:
			w.Out("bool ok")
		default:
			w.Out("bool error")
		}
	})
	if len(path) == 0 && txt != d.Full(n) {
		return // Get without a path is the document with its outer blanks: array getters there are unspecified
	}
	if n.Kind == ref.Str && len(txt) >= 2 && txt[0] == '[' && txt[len(txt)-1] == ']' {
		return // a string spelling an array: unspecified
	}
	var els []string
	for _, k := range n.Kids {
		els = append(els, d.Text(k))
	}
	isArr := n.Kind == ref.Arr
	note := func(ok bool) {
		switch {
		case !isArr:
		case len(els) == 0:
			w.Out("empty array")
		case ok:
			w.Out("array ok")
		default:
			w.Out("array error")
		}
	}
	w.At(g.name+"GetStringArray", path)
	w.Guarded(func() {
		v, err := g.strs(path...)
		if isArr {
			if err != nil || !eqStrs(v, els) {
				w.Fail("want %q, got %q, error %v", els, v, err)
			}
		} else if err == nil {
			w.Fail("value is not an array but %q is returned", v)
		}
	})
	w.At(g.name+"GetIntArray", path)
	w.Guarded(func() {
		v, err := g.ints(path...)
		ok := isArr
		var want []int
		for _, e := range els {
			x, er := strconv.Atoi(e)
			ok = ok && er == nil
			want = append(want, x)
		}
		note(ok)
		if ok {
			if err != nil || fmt.Sprint(v) != fmt.Sprint(want) {
				w.Fail("want %v, got %v, error %v", want, v, err)
			}
		} else if err == nil {
			w.Fail("not an array of ints but %v is returned", v)
		}
	})
	w.At(g.name+"GetFloatArray", path)
	w.Guarded(func() {
		v, err := g.floats(path...)
		ok := isArr
		var want []float64
		for _, e := range els {
			x, er := strconv.ParseFloat(e, 64)
			ok = ok && er == nil
			want = append(want, x)
		}
		note(ok)
		if ok {
			if err != nil || fmt.Sprint(v) != fmt.Sprint(want) {
				w.Fail("want %v, got %v, error %v", want, v, err)
			}
		} else if err == nil {
			w.Fail("not an array of floats but %v is returned", v)
		}
	})
	w.At(g.name+"GetBoolArray", path)
	w.Guarded(func() {
		v, err := g.bools(path...)
		ok := isArr
		var want []bool
		for _, e := range els {
			ok = ok && (e == "true" || e == "false")
			want = append(want, e == "true")
		}
		note(ok)
		if ok {
			if err != nil || fmt.Sprint(v) != fmt.Sprint(want) {
				w.Fail("want %v, got %v, error %v", want, v, err)
			}
		} else if err == nil {
			w.Fail("not an array of bools but %v is returned", v)
		}
	})
}

func c03(w *eng.W, d *D) {
	w.State(len(d.Pos))
	g := interp(d)
	for _, p := range d.Pos {
		checkTyped(w, d, g, p.Path, p.Node)
		if p.Node.Kind == ref.Arr {
			var els []string
			for _, k := range p.Node.Kids {
				els = append(els, d.Text(k))
			}
			full := d.Full(p.Node)
			w.At("ParseArray", nil, full)
			w.Guarded(func() {
				if v := jin.ParseArray(full); !eqStrs(v, els) || v == nil {
					w.Fail("want %q, got %q", els, v)
				}
			})
		}
	}
	if len(d.S) > 400 {
		return
	}
	w.At("Parse", nil)
	var ps *jin.Parser
	var err error
	if !w.Guarded(func() { ps, err = jin.Parse(d.B) }) {
		return
	}
	if err != nil {
		w.Fail("Parse fails: %v", err)
		return
	}
	pg := parserGetter(ps)
	for _, p := range d.Pos {
		checkTyped(w, d, pg, p.Path, p.Node)
	}
}

// c10: iteration with every callback reaction at every member.
func c10(w *eng.W, d *D) {
	type kv struct{ k, v string }
	for _, p := range d.Pos {
		w.State(1)
		n := p.Node
		var want []kv
		for i, k := range n.Kids {
			if n.Kind == ref.Obj {
				want = append(want, kv{n.Key(d.src, i), d.Text(k)})
			} else {
				want = append(want, kv{"", d.Text(k)})
			}
		}
		for which := 0; which < 2; which++ {
			arr := which == 0
			op := "IterateKeyValue"
			if arr {
				op = "IterateArray"
			}
			run := func(react int, at int) (got []kv, err error) {
				do := func(x kv) (bool, error) {
					got = append(got, x)
					if len(got) > len(want)+4 {
						return false, errors.New("too many calls")
					}
					if len(got)-1 == at {
						switch react {
						case 1:
							return false, nil
						case 2:
							return true, errStop
						case 3:
							return false, errStop
						}
					}
					return true, nil
				}
				if arr {
					err = jin.IterateArray(d.B, func(v []byte) (bool, error) { return do(kv{"", string(v)}) }, p.Path...)
				} else {
					err = jin.IterateKeyValue(d.B, func(k, v []byte) (bool, error) { return do(kv{string(k), string(v)}) }, p.Path...)
				}
				return
			}
			eq := func(a, b []kv) bool {
				if len(a) != len(b) {
					return false
				}
				for i := range a {
					if a[i] != b[i] {
						return false
					}
				}
				return true
			}
			w.At(op, p.Path)
			var got []kv
			var err error
			if !w.Guarded(func() { got, err = run(0, -1) }) {
				continue
			}
			if (arr && n.Kind != ref.Arr) || (!arr && n.Kind != ref.Obj) {
				if err == nil || len(got) > 0 {
					w.Fail("not such a container, but calls %q and error %v", got, err)
				}
				w.Out("refused")
				continue
			}
			if len(want) == 0 {
				if len(got) > 0 {
					w.Fail("empty container, but calls %q", got)
				} else if err != nil && !jin.ErrEqual(err, jin.ErrCodeEmpty) {
					w.Fail("empty container: error %v", err)
				}
				w.Out("empty")
				continue
			}
			if !eq(got, want) || err != nil {
				w.Fail("want calls %q, got %q, error %v", want, got, err)
				continue
			}
			w.Out(kindNames[n.Kind] + " complete")
			for at := range want {
				if at > 8 && at < len(want)-2 {
					continue
				}
				for react := 1; react <= 3; react++ {
					w.At(op, p.Path, fmt.Sprintf("callback at member %d: %s", at, []string{"", "returns false", "returns true and an error", "returns false and an error"}[react]))
					if !w.Guarded(func() { got, err = run(react, at) }) {
						continue
					}
					if !eq(got, want[:at+1]) {
						w.Fail("want calls %q, got %q", want[:at+1], got)
					}
					if react == 1 && err != nil {
						w.Fail("stopped by false, but error %v", err)
					}
					if react > 1 && err != errStop {
						w.Fail("callback's error not returned: %v", err)
					}
					w.Out([]string{"", "stopped", "callback error", "callback error"}[react])
				}
			}
		}
	}
	for _, f := range d.FailsShort() {
		for _, l := range lookups[len(lookups)-2:] {
			w.At(l.name, f.Path)
			w.Guarded(func() {
				leak, err := l.f(d, f.Path)
				if err == nil || leak != "" {
					w.Fail("path does not resolve: calls %q, error %v", leak, err)
				}
			})
		}
	}
}

// c11: Walk, with every reaction at every leaf, through the function and the JO method.
func c11(w *eng.W, d *D) {
	type visit struct {
		k, v string
		p    []string
	}
	var want []visit
	if len(d.S) > 70000 && len(d.All) > 10000 {
		w.Out("skipped: Walk takes time quadratic in the width")
		return
	}
	for _, p := range d.All {
		if p.Node.IsContainer() {
			if len(p.Node.Kids) == 0 {
				w.Out("has empty container")
			}
			continue
		}
		k := ""
		if len(p.Path) > 0 {
			k = p.Path[len(p.Path)-1]
		}
		want = append(want, visit{k, d.Text(p.Node), p.Path})
	}
	w.State(len(want) + 1)
	eq := func(a, b []visit) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].k != b[i].k || a[i].v != b[i].v || !eqStrs(a[i].p, b[i].p) {
				return false
			}
		}
		return true
	}
	jo := jin.New(d.B)
	for _, walker := range []struct {
		name string
		f    func(func(string, []byte, []string) (bool, error)) error
	}{
		{"Walk", func(cb func(string, []byte, []string) (bool, error)) error { return jin.Walk(d.B, cb) }},
		{"JO.Walk", jo.Walk},
	} {
		run := func(react, at int) (got []visit, err error) {
			err = walker.f(func(k string, v []byte, p []string) (bool, error) {
				// the path is kept as given: later calls must not change it
				got = append(got, visit{k, string(v), p})
				if len(got) > len(want)+4 {
					return false, errors.New("too many calls")
				}
				if len(got)-1 == at {
					switch react {
					case 1:
						return false, nil
					case 2:
						return true, errStop
					case 3:
						return false, errStop
					}
				}
				return true, nil
			})
			return
		}
		w.At(walker.name, nil)
		var got []visit
		var err error
		if !w.Guarded(func() { got, err = run(0, -1) }) {
			continue
		}
		rootEmpty := len(d.Root.Kids) == 0 && d.Root.IsContainer()
		if !eq(got, want) {
			w.Fail("want visits %q, got %q, error %v", want, got, err)
			continue
		}
		if err != nil && !(rootEmpty && jin.ErrEqual(err, jin.ErrCodeEmpty)) {
			w.Fail("error %v", err)
			continue
		}
		w.Out("complete")
		if walker.name != "Walk" && len(d.S) > 60 {
			continue
		}
		for at := range want {
			if at > 8 && (at < len(want)-2 || len(want) > 10000) {
				continue
			}
			for react := 1; react <= 3; react++ {
				w.At(walker.name, nil, fmt.Sprintf("callback at leaf %d: %s", at, []string{"", "returns false", "returns true and an error", "returns false and an error"}[react]))
				if !w.Guarded(func() { got, err = run(react, at) }) {
					continue
				}
				if !eq(got, want[:at+1]) {
					w.Fail("want visits %q, got %q", want[:at+1], got)
				}
				if react == 1 && err != nil {
					w.Fail("stopped by false, but error %v", err)
				}
				if react > 1 && err != errStop {
					w.Fail("callback's error not returned: %v", err)
				}
				w.Out([]string{"", "stopped", "callback error", "callback error"}[react])
			}
		}
	}
}

// c12: collections and Length on every container.
func c12(w *eng.W, d *D) {
	for _, p := range d.Pos {
		n := p.Node
		w.State(1)
		var keys, vals, comps []string
		m := map[string]string{}
		for i, k := range n.Kids {
			if n.Kind == ref.Obj {
				keys = append(keys, n.Key(d.src, i))
			}
			vals = append(vals, d.Text(k))
			comps = append(comps, n.Comp(d.src, i))
			m[n.Comp(d.src, i)] = d.Text(k)
		}
		emptyOK := func(err error) bool { return err == nil || (len(n.Kids) == 0 && jin.ErrEqual(err, jin.ErrCodeEmpty)) }
		if n.IsContainer() {
			w.Out(kindNames[n.Kind])
			if len(n.Kids) == 0 {
				w.Out("empty")
			}
			w.At("Length", p.Path)
			w.Guarded(func() {
				if l, err := jin.Length(d.B, p.Path...); err != nil || l != len(n.Kids) {
					w.Fail("want %d, got %d, error %v", len(n.Kids), l, err)
				}
			})
			w.At("GetMap", p.Path)
			w.Guarded(func() {
				g, err := jin.GetMap(d.B, p.Path...)
				if !emptyOK(err) || !eqMap(g, m) {
					w.Fail("want %q, got %q, error %v", m, g, err)
				}
			})
		}
		w.At("GetKeys", p.Path)
		w.Guarded(func() {
			g, err := jin.GetKeys(d.B, p.Path...)
			if n.Kind == ref.Obj {
				if !emptyOK(err) || !eqStrs(g, keys) {
					w.Fail("want %q, got %q, error %v", keys, g, err)
				}
			} else if err == nil {
				w.Fail("not an object, got %q", g)
			}
		})
		w.At("GetValues", p.Path)
		w.Guarded(func() {
			g, err := jin.GetValues(d.B, p.Path...)
			if n.Kind == ref.Obj {
				if !emptyOK(err) || !eqStrs(g, vals) {
					w.Fail("want %q, got %q, error %v", vals, g, err)
				}
			} else if err == nil {
				w.Fail("not an object, got %q", g)
			}
		})
		w.At("GetKeysValues", p.Path)
		w.Guarded(func() {
			gk, gv, err := jin.GetKeysValues(d.B, p.Path...)
			if n.Kind == ref.Obj {
				if !emptyOK(err) || !eqStrs(gv, vals) || !eqStrs(gk, keys) {
					w.Fail("want %q %q, got %q %q, error %v", keys, vals, gk, gv, err)
				}
			} else if err == nil {
				w.Fail("not an object, got %q %q", gk, gv)
			}
		})
		if n.IsContainer() {
			// all members, reversed, each alone, with an absent one
			var sets [][]string
			sets = append(sets, comps, rev(comps), nil)
			if len(comps) > 0 {
				sets = append(sets, []string{comps[0]}, []string{comps[len(comps)-1], comps[0]}, append(rev(comps), comps...))
			}
			bad := "z~"
			if n.Kind == ref.Arr {
				bad = strconv.Itoa(len(comps))
			}
			sets = append(sets, []string{bad}, append(append([]string(nil), comps...), bad), append([]string{bad}, comps...))
			if k := len(comps); k > 1 {
				sets = append(sets, append([]string{comps[0]}, comps...), append(append([]string(nil), comps...), comps[k-1], comps[0]))
				if len(d.S) <= 24 {
					// all requests of two and three out of the first three and an absent one
					few := append(append([]string(nil), comps[:min(k, 3)]...), bad)
					for _, x := range few {
						for _, y := range few {
							sets = append(sets, []string{x, y})
							for _, z := range few {
								sets = append(sets, []string{x, y, z})
							}
						}
					}
				}
			}
			if k := len(comps); k > 40 && k <= 1100 {
				// many keys at once, the absent one among them
				for _, at := range []int{1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, k / 2, k - 1} {
					if at < k {
						sets = append(sets, append(append(append([]string(nil), comps[:at]...), bad), comps[at:]...))
					}
				}
			}
			for _, s := range sets {
				if len(comps) > 1100 && len(s) > 40 {
					s = s[:40]
				}
				var want []string
				ok := true
				wm := map[string]string{}
				for _, c := range s {
					k, i := n.Step(d.src, c)
					if i < 0 {
						ok = false
						break
					}
					want = append(want, d.Text(k))
					wm[c] = d.Text(k)
				}
				w.At("GetAll", p.Path, s...)
				w.Guarded(func() {
					g, err := jin.GetAll(d.B, s, p.Path...)
					if ok && (err != nil || !eqStrs(g, want)) {
						w.Fail("want %q, got %q, error %v", want, g, err)
					}
					if !ok && err == nil {
						w.Fail("a key is absent, got %q", g)
					}
				})
				w.At("GetAllMap", p.Path, s...)
				w.Guarded(func() {
					g, err := jin.GetAllMap(d.B, s, p.Path...)
					if ok && (err != nil || !eqMap(g, wm)) {
						w.Fail("want %q, got %q, error %v", wm, g, err)
					}
					if !ok && err == nil {
						w.Fail("a key is absent, got %q", g)
					}
				})
				if !ok {
					w.Out("absent key")
				}
			}
		}
	}
}

func rev(s []string) []string {
	var o []string
	for i := len(s) - 1; i >= 0; i-- {
		o = append(o, s[i])
	}
	return o
}

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		if x, ok := a[k]; !ok || x != v {
			return false
		}
	}
	return true
}

// c13: type queries on every position.
func c13(w *eng.W, d *D) {
	w.State(len(d.Pos))
	for _, p := range d.Pos {
		n := p.Node
		name := kindNames[n.Kind]
		w.Out(name)
		for _, t := range []struct {
			op   string
			f    func([]byte, ...string) (bool, error)
			want bool
		}{
			{"IsObject", jin.IsObject, n.Kind == ref.Obj},
			{"IsArray", jin.IsArray, n.Kind == ref.Arr},
			{"IsValue", jin.IsValue, !n.IsContainer()},
		} {
			w.At(t.op, p.Path)
			w.Guarded(func() {
				if g, err := t.f(d.B, p.Path...); err != nil || g != t.want {
					w.Fail("value is a %s: got %v, error %v", name, g, err)
				}
			})
		}
		w.At("GetType", p.Path)
		w.Guarded(func() {
			g, err := jin.GetType(d.B, p.Path...)
			if err != nil || g != name {
				w.Fail("value %q is a %s: got %q, error %v", d.Full(n), name, g, err)
			}
		})
		w.At("IsEmpty", p.Path)
		w.Guarded(func() {
			g, err := jin.IsEmpty(d.B, p.Path...)
			if !n.IsContainer() {
				if g {
					w.Fail("a %s is reported empty", name)
				}
				return
			}
			if len(n.Kids) == 0 {
				w.Out("empty")
			} else {
				w.Out("non-empty")
			}
			if err != nil || g != (len(n.Kids) == 0) {
				w.Fail("%d members: got %v, error %v", len(n.Kids), g, err)
			}
		})
	}
}
