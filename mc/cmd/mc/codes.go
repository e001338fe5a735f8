package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C22", Gens: c22Gens, Unit: c22Unit,
		Rule: "state = one (document, path) pair; transition = one call expected to fail, its error compared with the code of the model's cause under every code number; trace = one document",
		Assume: append([]string{"causes the documentation gives no code for (a component below a scalar, a position in an empty array, Length of a scalar) may carry any one code",
			"when two causes apply at once (empty key and unresolvable path) either code is accepted; element conversion failures may carry the element's or the array's parse code"}, docAssume...),
		Need: []string{"code 0", "code 3", "code 5", "code 6", "code 7", "code 8", "code 11", "code 12", "code 13", "code 14", "code 15", "code 19"}})
}

func c22Gens(tier string) []eng.Gen {
	lb := lbBoth[:1]
	gs := []eng.Gen{
		docsGen("ErrEqual on foreign errors", "!errors"),
		space(gen.Space{Nodes: 4, Labels: lbAll}),
		space(gen.Space{MinNodes: 5, Nodes: 5, Labels: lbBoth}),
		space(gen.Space{Nodes: 3, Labels: lbBoth, AllGaps: "\n "}),
		space(gen.Space{Nodes: 3, Dev: 1, Labels: lb}),
		space(gen.Space{Nodes: 4, Dev: 1, Labels: lb, NoGap: true, Keys: codeKeys, Leaves: codeLeaves}),
		docsGen("scenario documents", scenarioDocs...),
		scale(gen.Scale{Depth: 8, Width: 10, Len: 8}),
		sizes(4),
		{Name: "keys and texts of lengths at and next to powers of two <=65537, and 1000, 10000, 100000", Each: func(y func([]byte) bool) {
			for _, n := range longSizes {
				t := strings.Repeat("t", n)
				if !y([]byte(fmt.Sprintf(`{"%s":1,"z":{"%[1]s":[]}}`, t))) || !y([]byte(fmt.Sprintf(`{"a":"%s"}`, t))) || !y([]byte(fmt.Sprintf(`["%s","1%[1]s",[%[2]s1]]`, t, strings.Repeat(" ", n)))) {
					return
				}
			}
		}},
	}
	if tier == "thorough" {
		gs = append(gs, space(gen.Space{MinNodes: 6, Nodes: 6, Labels: lbAll}), space(gen.Space{Nodes: 5, Dev: 1, Labels: lb}), space(gen.Space{Nodes: 3, Dev: 2, Labels: lb}), scale(scSmall))
	}
	return gs
}

// keys and texts that look like codes or formats
var codeKeys = []string{"x 11", "error_code: 11", "b error_code: 07", "%d", "%02d", "%s%v", "%[1]d", "50%", "%%"}
var codeLeaves = []string{`"x 08"`, `"error_code: 08"`, `"x error_code: 00"`, `"%d"`, `"%02d"`, `"%s%v%d"`, `"50%"`, `[]`, `"[error_code: 07]"`, `["%d"]`, `["x error_code: 08"]`}

type codes uint64

func cs(l ...int) codes {
	var c codes
	for _, x := range l {
		c |= 1 << uint(x)
	}
	return c
}

const anyCode = ^codes(0)

func (c codes) String() string {
	if c == anyCode {
		return "any one code"
	}
	var l []string
	for i := 0; i < 64; i++ {
		if c>>uint(i)&1 == 1 {
			l = append(l, itoa(i))
		}
	}
	return strings.Join(l, " or ")
}

// which codes ErrEqual recognises.
func recognised(err error) []int {
	var l []int
	for c := -3; c <= 130; c++ {
		if jin.ErrEqual(err, c) {
			l = append(l, c)
		}
	}
	return l
}

var codeCache = map[string][]int{} // by message; single goroutine per worker

func judgeCode(w *eng.W, err error, allow codes) {
	if err == nil {
		w.Out("no failure")
		return
	}
	l, ok := codeCache[err.Error()]
	if !ok {
		l = recognised(err)
		if len(codeCache) < 100000 && len(err.Error()) < 2000 {
			codeCache[err.Error()] = l
		}
	}
	if len(l) != 1 {
		w.Fail("error %q carries codes %v instead of exactly one (%s)", err, l, allow)
		return
	}
	if l[0] < 0 || l[0] > 63 || allow>>uint(l[0])&1 == 0 {
		w.Fail("error %q carries code %d instead of %s", err, l[0], allow)
		return
	}
	if !jin.ErrEqual(err, l[0]) {
		w.Fail("ErrEqual no longer recognises code %d in %q", l[0], err)
	}
	w.Out(codeName[l[0]])
}

// what an operation wants of the place it is applied to
type want struct {
	need byte  // 'o' object, 'a' array, 'c' either, 'v' any place but the root, 0 anything
	conv codes // codes of a failed conversion
	key  bool  // adds a key
	idx  bool
	typd bool // refuses an empty key / negative index before anything else
	keys bool // asks for several keys
	ren  bool // SetKey
	sto  bool
}

var conv = map[string]codes{
	"GetInt": cs(12), "GetFloat": cs(13), "GetBool": cs(14),
	"GetStringArray": cs(15), "GetIntArray": cs(16, 12), "GetFloatArray": cs(17, 13), "GetBoolArray": cs(18, 14),
}

func wantOf(name string) (want, bool) {
	base := strings.TrimPrefix(strings.TrimSuffix(name, " stop"), "Parser.")
	switch {
	case conv[base] != 0:
		return want{conv: conv[base]}, true
	case base == "Get" || base == "GetString" || base == "GetType" || strings.HasPrefix(base, "Is") && base != "IsEmpty" || base == "Length":
		return want{}, true
	case base == "IsEmpty" || base == "GetMap":
		return want{need: 'c'}, true
	case base == "GetAll" || base == "GetAllMap":
		return want{need: 0, keys: true}, true
	case base == "GetKeys" || base == "GetValues" || base == "GetKeysValues" || base == "IterateKeyValue":
		return want{need: 'o'}, true
	case base == "IterateArray":
		return want{need: 'a'}, true
	case base == "SetKey":
		return want{need: 'v', ren: true}, true
	case strings.HasPrefix(base, "Set"), base == "Delete":
		return want{need: 'v'}, true
	case strings.HasPrefix(base, "AddKeyValue"):
		return want{need: 'o', key: true, typd: base != "AddKeyValue"}, true
	case strings.HasPrefix(base, "Add"):
		return want{need: 'a'}, true
	case strings.HasPrefix(base, "Insert"):
		return want{need: 'a', idx: true, typd: base != "Insert"}, true
	case strings.HasPrefix(base, "Store"):
		return want{sto: true}, true
	}
	return want{}, false
}

type codeOp struct {
	name string
	want want
	op   Op
	f    func(x *In) error
}

var codeOps = func() []codeOp {
	var out []codeOp
	add := func(o Op, f func(x *In) error) {
		if wt, ok := wantOf(o.Name); ok {
			out = append(out, codeOp{o.Name, wt, o, f})
		}
	}
	for _, o := range freeOps {
		o := o
		add(o, func(x *In) error {
			r := o.F(x)
			e, _ := r[len(r)-1].(error)
			return e
		})
	}
	for _, o := range parserOps {
		o := o
		if !o.Mut {
			continue
		}
		add(o, func(x *In) error {
			r := o.F(x)
			if len(r) < 3 {
				e, _ := r[0].(error)
				return e
			}
			e, _ := r[2].(error)
			return e
		})
	}
	pr := func(name string, f func(p *jin.Parser, x *In) error) {
		add(Op{Name: "Parser." + name, Uses: "p"}, func(x *In) error {
			p, e := jin.Parse(x.B)
			if e != nil {
				return e
			}
			return f(p, x)
		})
	}
	pr("Get", func(p *jin.Parser, x *In) error { _, e := p.Get(x.P...); return e })
	pr("GetString", func(p *jin.Parser, x *In) error { _, e := p.GetString(x.P...); return e })
	pr("GetInt", func(p *jin.Parser, x *In) error { _, e := p.GetInt(x.P...); return e })
	pr("GetFloat", func(p *jin.Parser, x *In) error { _, e := p.GetFloat(x.P...); return e })
	pr("GetBool", func(p *jin.Parser, x *In) error { _, e := p.GetBool(x.P...); return e })
	pr("GetStringArray", func(p *jin.Parser, x *In) error { _, e := p.GetStringArray(x.P...); return e })
	pr("GetIntArray", func(p *jin.Parser, x *In) error { _, e := p.GetIntArray(x.P...); return e })
	pr("GetFloatArray", func(p *jin.Parser, x *In) error { _, e := p.GetFloatArray(x.P...); return e })
	pr("GetBoolArray", func(p *jin.Parser, x *In) error { _, e := p.GetBoolArray(x.P...); return e })
	return out
}()

var longSizes = append(gen.Around(256, 65537), 1000, 10000, 100000)

// longAbsent are long absent components.
var longAbsent = func() (out []string) {
	for _, n := range longSizes {
		out = append(out, strings.Repeat("q", n), strings.Repeat("q", n-1)+"%", strings.Repeat("x error_code: 11 ", n/16))
	}
	return
}()

// codeLike are absent components whose text could be mistaken for a code or a format in the message.
var codeLike = []string{"zz 11", "error_code: 11", "x error_code: 07", "error_code: 08", "error_code: 00 ", "error_code: 3", "error_code:", "%d", "%02d", "%s%v%d", "%[1]d", "%!", "50%", "%", "%%", "%*d", "' not found", "\n", "\x00", "\xff"}

func c22Unit(w *eng.W, key []byte) {
	if string(key) == "!errors" {
		c22Errors(w)
		return
	}
	d := newDoc(w, key)
	if d == nil {
		return
	}
	run := func(o *codeOp, path []string, k string, idx int, keys []string, allow codes) {
		w.At(o.name, path)
		w.Args(func() []string { return []string{k, itoa(idx), fmt.Sprint(keys)} })
		var err error
		if w.Guarded(func() { err = o.f(&In{d.B, []byte("7"), k, idx, path, keys, true}) }) {
			judgeCode(w, err, allow)
		}
	}
	for _, p := range d.Pos {
		w.State(1)
		n := p.Node
		root := len(p.Path) == 0
		var own []string
		if n.Kind == ref.Obj {
			for i := range n.Keys {
				if i == 0 || i == len(n.Keys)-1 {
					own = append(own, n.Key(d.src, i))
				}
			}
		}
		for oi := range codeOps {
			o := &codeOps[oi]
			t := o.want
			var misfit codes
			switch {
			case t.need == 'o' && n.Kind != ref.Obj:
				misfit = cs(5)
			case t.need == 'a' && n.Kind != ref.Arr:
				misfit = cs(6)
			case t.need == 'c' && !n.IsContainer():
				misfit = cs(5, 6)
			case t.need == 'v' && root:
				misfit = cs(0)
			}
			if t.need == 'c' && !n.IsContainer() {
				misfit = cs(5, 6)
			}
			if t.need == 'o' && n.Kind == ref.Obj && len(n.Keys) == 0 && !t.key {
				misfit = anyCode // listing an empty object may be refused
			}
			switch {
			case t.ren:
				if root {
					run(o, p.Path, "nk", 0, nil, cs(0))
					run(o, p.Path, "", 0, nil, cs(0, 19))
				} else if p.Par.Kind == ref.Arr {
					run(o, p.Path, "nk", 0, nil, cs(5))
					run(o, p.Path, "", 0, nil, cs(5, 19))
				} else {
					run(o, p.Path, "", 0, nil, cs(19))
					run(o, p.Path, p.Par.Key(d.src, 0), 0, nil, cs(11, 19))
					run(o, p.Path, p.Par.Key(d.src, len(p.Par.Keys)-1), 0, nil, cs(11, 19))
				}
			case t.key:
				if misfit != 0 {
					run(o, p.Path, "nk", 0, nil, misfit)
					if t.typd {
						run(o, p.Path, "", 0, nil, misfit|cs(19))
					}
					continue
				}
				for _, k := range own {
					if k == "" {
						run(o, p.Path, k, 0, nil, cs(11, 19))
					} else {
						run(o, p.Path, k, 0, nil, cs(11))
					}
				}
				if t.typd {
					run(o, p.Path, "", 0, nil, cs(19))
				}
			case t.idx:
				if misfit != 0 {
					run(o, p.Path, "", 0, nil, misfit)
					run(o, p.Path, "", -1, nil, misfit|cs(7))
					continue
				}
				oob := cs(7)
				if len(n.Kids) == 0 {
					oob = anyCode
				}
				for _, i := range []int{-1, len(n.Kids), len(n.Kids) + 1} {
					run(o, p.Path, "", i, nil, oob)
				}
			case t.keys:
				if n.Kind == ref.Obj {
					run(o, p.Path, "", 0, []string{"z~"}, cs(8))
					if len(own) > 0 {
						run(o, p.Path, "", 0, []string{own[0], "z~"}, cs(8))
					}
				} else if n.Kind == ref.Arr {
					run(o, p.Path, "", 0, []string{"z~"}, cs(3, 5))
				} else if !root {
					run(o, p.Path, "", 0, []string{"z~"}, anyCode)
				}
			case t.sto:
				if n.Kind == ref.Arr {
					run(o, p.Path, "nk", 0, nil, cs(3, 5))
				} else if n.Kind != ref.Obj {
					run(o, p.Path, "nk", 0, nil, anyCode)
				}
			case t.conv != 0:
				run(o, p.Path, "", 0, nil, t.conv)
			case misfit != 0:
				run(o, p.Path, "", 0, nil, misfit)
			}
		}
	}
	for _, f := range d.FailsShort() {
		allow := anyCode
		if f.Code >= 0 {
			allow = cs(f.Code)
		}
		w.State(1)
		for oi := range codeOps {
			o := &codeOps[oi]
			if o.want.typd || o.want.ren {
				run(o, f.Path, "", 0, nil, allow|cs(19))
				if o.want.idx {
					run(o, f.Path, "", -1, nil, allow|cs(7))
				}
			}
			run(o, f.Path, "nk", 0, []string{"z~"}, allow)
		}
	}
	// components and keys that look like codes or formats
	if len(d.Pos) <= 6 && len(d.S) <= 80 {
		codeLike := codeLike
		if len(d.S) <= 10 {
			codeLike = append(append([]string{}, codeLike...), longAbsent...)
		}
		for _, p := range d.Pos {
			n := p.Node
			if !n.IsContainer() {
				continue
			}
			w.State(1)
			allow := cs(8)
			if n.Kind == ref.Arr {
				allow = cs(3)
			}
			for i, c := range codeLike {
				if _, at := n.Step(d.src, c); at >= 0 {
					continue
				}
				path := join(p.Path, c)
				if i%2 == 1 {
					path = join(p.Path, c, "x")
				}
				for oi := range codeOps {
					o := &codeOps[oi]
					run(o, path, c, 0, []string{c}, allow)
					if o.want.keys && n.Kind == ref.Obj {
						run(o, p.Path, "", 0, []string{c}, cs(8))
					}
				}
			}
		}
	}
	for _, keys := range [][]string{{"z~"}, {"a", "z~"}, {"z~", "a"}} {
		if d.Root.Kind != ref.Obj {
			break
		}
		w.At("Scheme.MutateJsonAbs", nil, keys...)
		w.Guarded(func() {
			_, err := jin.MakeScheme(keys...).MutateJsonAbs(d.B)
			judgeCode(w, err, cs(8))
		})
	}
}

var codeName = func() (n [64]string) {
	for i := range n {
		n[i] = "code " + itoa(i)
	}
	return n
}()

type plainErr string

func (e plainErr) Error() string { return string(e) }

// c22Errors: ErrEqual on nil and on errors of other origin.
func c22Errors(w *eng.W) {
	errs := []error{nil, io.EOF, errStop, errors.New(""), errors.New("08"), errors.New("foo 08"), errors.New("error code 8"), errors.New("error: key not found"),
		errors.New("x 11"), errors.New("status 20"), errors.New("404"), plainErr("index out of range [7]"), plainErr("0"), plainErr("00"), fmt.Errorf("line %d", 12)}
	for c := 0; c <= 30; c++ {
		errs = append(errs, fmt.Errorf("%d", c), fmt.Errorf("%02d", c), fmt.Errorf("failed at %d", c), fmt.Errorf("failed at %02d", c), fmt.Errorf("error:%02d", c))
	}
	for _, e := range errs {
		w.State(1)
		w.At("ErrEqual", nil, fmt.Sprint(e))
		w.Guarded(func() {
			if l := recognised(e); len(l) != 0 {
				w.Fail("recognises codes %v in an error that carries none", l)
			}
		})
	}
	// errors of the package wrapping text that looks like a code
	doc := []byte(`{"a":"x 08","b error_code: 11":1,"c":[1]}`)
	for _, k := range []string{"zz 11", "error_code: 11", "zz error_code: 03"} {
		_, err := jin.Get(doc, k)
		w.At("Get", []string{k})
		judgeCode(w, err, cs(8))
	}
	_, err := jin.GetInt(doc, "a")
	w.At("GetInt", []string{"a"})
	judgeCode(w, err, cs(12))
	_, err = jin.AddKeyValue(doc, "b error_code: 11", []byte("1"))
	w.At("AddKeyValue", nil, "b error_code: 11")
	judgeCode(w, err, cs(11))
}
