package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/ecoshub/jin"

	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C25", Gens: c25Gens, Unit: docUnit(c25),
		Rule:   "state = one (layout, position) pair of a document; transition = one query or edit on a layout, compared with the same call on the text without blanks; trace = one document with all its layouts",
		Assume: append([]string{"layouts: every subset of gaps filled with one filler on documents of few tokens, every single gap and pair of gaps and every uniform filling on larger ones, Flatten and Indent of each"}, docAssume...),
		Need:   []string{"query agrees", "query fails alike", "edit agrees", "edit fails alike", "layouts"}})
}

func c25Gens(tier string) []eng.Gen {
	lb := lbBoth[:1]
	gs := []eng.Gen{
		space(gen.Space{Nodes: 3, Labels: lbAll}),
		space(gen.Space{MinNodes: 4, Nodes: 4, Labels: lb}),
		space(gen.Space{Nodes: 2, Dev: 1, Labels: lb}),
		docsGen("scenario documents", c25Docs()...),
		short(60, scale(gen.Scale{Depth: 8, Width: 10, Len: 8})),
		sizes(4),
	}
	if tier == "thorough" {
		gs = append(gs, space(gen.Space{Nodes: 4, Labels: lbAll}), space(gen.Space{Nodes: 3, Dev: 1, Labels: lb}), space(gen.Space{MinNodes: 5, Nodes: 5, Labels: lb}), scale(gen.Scale{Depth: 6, Width: 12, Len: 12}))
	}
	return gs
}

func c25Docs() []string {
	seen := map[string]bool{}
	var out []string
	for _, s := range scenarioDocs {
		c := ref.Compact([]byte(s))
		if !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// canonical form of one answer: containers without blanks, everything else byte for byte.
func canonText(s string) string {
	t := strings.TrimLeft(s, " \n\t\r")
	if t != "" && (t[0] == '{' || t[0] == '[') && ref.Valid([]byte(s)) {
		return ref.Compact([]byte(s))
	}
	return s
}

func canonErr(e error) string {
	if e == nil {
		return "ok"
	}
	if i := strings.LastIndex(e.Error(), "error_code:"); i >= 0 {
		return e.Error()[i:]
	}
	return "error"
}

func canon(r []interface{}) string {
	var b strings.Builder
	str := func(s string) { fmt.Fprintf(&b, "%q,", canonText(s)) }
	for _, v := range r {
		switch t := v.(type) {
		case nil:
			b.WriteString("ok;")
		case error:
			b.WriteString(canonErr(t) + ";")
		case []byte:
			str(string(t))
		case string:
			str(t)
		case []string:
			fmt.Fprintf(&b, "%d[", len(t))
			for _, s := range t {
				str(s)
			}
			b.WriteString("];")
		case [][]string:
			for _, l := range t {
				fmt.Fprintf(&b, "%q;", l)
			}
		case map[string]string:
			var ks []string
			for k := range t {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			b.WriteString("map[")
			for _, k := range ks {
				str(k)
				str(t[k])
			}
			b.WriteString("];")
		default:
			fmt.Fprintf(&b, "%v;", v)
		}
	}
	return b.String()
}

func failed(r []interface{}) bool {
	e, ok := r[len(r)-1].(error)
	return ok && e != nil
}

var c25Ops = func() []Op {
	var out []Op
	for _, o := range freeOps {
		if o.Mut || strings.HasPrefix(o.Name, "Scheme history") || strings.HasSuffix(o.Name, "stop") {
			continue
		}
		out = append(out, o)
	}
	out = append(out, parserOps[1], parserOps[2])
	out = append(out, Op{"Parser.Tree", "", false, func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} { return rs(p.Tree(), p.GetNew(), p.JSON()) })
	}})
	return out
}()

func c25(w *eng.W, d *D) {
	compact := []byte(ref.Compact(d.src))
	var paths [][]string
	for _, p := range d.Pos {
		paths = append(paths, p.Path)
	}
	for i, f := range d.FailsShort() {
		if i%5 == 0 {
			paths = append(paths, f.Path)
		}
	}
	edits := alphabet(ref.MustTree(compact), 2, true, false)
	if len(paths) > 30 {
		paths = append(paths[:20:20], paths[len(paths)-10:]...)
	}
	if len(compact) > 150 && len(paths) > 10 {
		paths = append(paths[:5:5], paths[len(paths)-5:]...)
	}
	stride := 1 + len(edits)/60
	keys := []string{"a", "b"}
	// answers on the text without blanks
	type ans struct {
		s    string
		fail bool
	}
	base := map[[2]int]ans{}
	for oi := range c25Ops {
		o := &c25Ops[oi]
		for pi, p := range paths {
			if pi > 0 && !o.uses('p') {
				break
			}
			w.At(o.Name, p, string(compact))
			w.Guarded(func() {
				r := o.F(&In{B: compact, P: p, Keys: keys})
				base[[2]int{oi, pi}] = ans{canon(r), failed(r)}
			})
		}
	}
	ebase := map[int]ans{}
	for ei := range edits {
		e := edits[ei]
		w.At(e.Op, e.Path, e.String())
		w.Guarded(func() {
			r, err := e.free(compact)
			ebase[ei] = ans{ref.Compact(r) + canonErr(err), err != nil}
		})
	}
	layouts := 0
	try := func(text []byte) bool {
		layouts++
		w.State(len(paths))
		b := w.Buf(text)
		for oi := range c25Ops {
			o := &c25Ops[oi]
			for pi, p := range paths {
				if pi > 0 && !o.uses('p') {
					break
				}
				w.At(o.Name, p)
				w.Args(func() []string { return []string{string(text)} })
				w.Guarded(func() {
					r := o.F(&In{B: b, P: p, Keys: keys})
					want := base[[2]int{oi, pi}]
					if g := canon(r); g != want.s {
						w.Fail("answer %s on this layout, %s without blanks", g, want.s)
					} else if want.fail {
						w.Out("query fails alike")
					} else {
						w.Out("query agrees")
					}
				})
			}
		}
		for ei := layouts % stride; ei < len(edits); ei += stride {
			e := edits[ei]
			w.At(e.Op, e.Path)
			w.Args(func() []string { return []string{e.String(), string(text)} })
			w.Guarded(func() {
				r, err := e.free(b)
				want := ebase[ei]
				if g := ref.Compact(r) + canonErr(err); g != want.s {
					w.Fail("document %s on this layout, %s without blanks", g, want.s)
				} else if want.fail {
					w.Out("edit fails alike")
				} else {
					w.Out("edit agrees")
				}
			})
		}
		return w.Failures() < 50
	}
	toks := gen.Split(compact)
	max := 9
	if w.Tier == "thorough" {
		max = 12
	}
	buf := make([]byte, 0, 256)
	if n := len(toks) + 1; n <= max {
		for _, f := range []string{" ", "\n\t"} {
			for mask := 1; mask < 1<<uint(n); mask++ {
				buf = buf[:0]
				for g := 0; g < n; g++ {
					if mask>>uint(g)&1 == 1 {
						buf = append(buf, f...)
					}
					if g < len(toks) {
						buf = append(buf, toks[g]...)
					}
				}
				if !try(buf) {
					return
				}
			}
		}
	} else if n <= 22 || n <= 40 && w.Tier == "thorough" {
		for g := 0; g < n; g++ {
			for h := g + 1; h < n; h++ {
				buf = buf[:0]
				for i := 0; i < n; i++ {
					if i == g || i == h {
						buf = append(buf, ' ')
					}
					if i < len(toks) {
						buf = append(buf, toks[i]...)
					}
				}
				if !try(buf) {
					return
				}
			}
		}
	}
	stop := false
	gen.Layouts(compact, []string{" ", "\n", "\t", "\r", "  ", "\r\n\t "}, func(t []byte) bool {
		stop = !try(t)
		return !stop
	})
	if stop {
		return
	}
	for _, f := range []func([]byte) []byte{jin.Flatten, jin.Indent} {
		for _, src := range [][]byte{d.src, compact, buf} {
			w.At("Flatten/Indent", nil)
			var t []byte
			if w.Guarded(func() { t = f(src) }) && len(t) > 0 && !try(t) {
				return
			}
		}
	}
	w.Out("layouts")
}
