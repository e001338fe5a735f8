package main

import (
	"verifmc/eng"
	"verifmc/gen"
	"verifmc/ref"
)

func init() {
	reg(&eng.Check{ID: "C20", Gens: c20Gens, Unit: docUnit(c20),
		Rule:   "state = one (document, position) pair; transition = one call whose inputs lie in guarded memory with spare capacity, all of it compared before and after; every result is kept and compared again after all later calls of the session; trace = the complete session on one document",
		Assume: docAssume, Need: []string{"kept results", "chained edits", "refused"}})
}

func c20Gens(tier string) []eng.Gen {
	lb := []gen.Labels{gen.LabelsRepeat}
	gs := []eng.Gen{
		space(gen.Space{Nodes: 4, Labels: lbAll}),
		space(gen.Space{MinNodes: 5, Nodes: 5, Labels: lb}),
		space(gen.Space{Nodes: 3, Labels: lbBoth, AllGaps: "\n "}),
		space(gen.Space{Nodes: 3, Dev: 1, Labels: lb}),
		docsGen("scenario documents", scenarioDocs...),
		scale(gen.Scale{Depth: 8, Width: 10, Len: 8}),
		sizes(4),
	}
	if tier == "thorough" {
		gs = append(gs, space(gen.Space{Nodes: 5, Labels: lbAll}), space(gen.Space{Nodes: 4, Dev: 1, Labels: lb}), space(gen.Space{Nodes: 2, Dev: 2, Labels: lb}), scale(scSmall))
	}
	return gs
}

// guarded memory: a slice inside a larger array whose every byte is watched.
type guard struct {
	back, was []byte
	b         []byte
}

func newGuard(s string) *guard {
	g := &guard{back: make([]byte, len(s)+96)}
	for i := range g.back {
		g.back[i] = 0xA5
	}
	copy(g.back[32:], s)
	g.was = append([]byte(nil), g.back...)
	g.b = g.back[32 : 32+len(s) : len(g.back)]
	return g
}

func (g *guard) broken() bool { return string(g.back) != string(g.was) }

type sguard struct {
	back, was []string
	s         []string
}

func newSGuard(s []string) *sguard {
	g := &sguard{back: make([]string, len(s)+6)}
	for i := range g.back {
		g.back[i] = "guard"
	}
	copy(g.back[2:], s)
	g.was = append([]string(nil), g.back...)
	g.s = g.back[2 : 2+len(s) : len(g.back)]
	return g
}

func (g *sguard) broken() bool { return !eqStrs(g.back, g.was) }

type kept struct {
	op   string
	path []string
	r    []interface{}
	was  string
}

func c20(w *eng.W, d *D) {
	doc := newGuard(d.S)
	var keep []kept
	keys := newSGuard(d.keyList())
	ops := allOps()
	var paths [][]string
	for _, p := range d.Pos {
		paths = append(paths, p.Path)
	}
	for i, f := range d.FailsShort() {
		if i%9 == 0 {
			paths = append(paths, f.Path)
		}
	}
	if len(paths) > 24 {
		paths = paths[:24]
	}
	call := func(o *Op, x *In, g *guard, args ...string) []interface{} {
		val, pth := newGuard(string(x.V)), newSGuard(x.P)
		y := &In{g.b, val.b, x.K, x.I, pth.s, keys.s, false}
		var r []interface{}
		w.At(o.Name, x.P, args...)
		if !w.Guarded(func() { r = o.F(y) }) {
			return nil
		}
		if g.broken() {
			w.Fail("the document or the memory behind it changed to %q", g.back)
			copy(g.back, g.was)
		}
		if val.broken() {
			w.Fail("the value or the memory behind it changed to %q", val.back)
		}
		if pth.broken() {
			w.Fail("the path or the memory behind it changed to %q", pth.back)
		}
		if keys.broken() {
			w.Fail("the key list or the memory behind it changed to %q", keys.back)
			copy(keys.back, keys.was)
		}
		keep = append(keep, kept{o.Name, x.P, r, show(r)})
		return r
	}
	chain := []Edit{{Op: "AddKeyValue", Key: "zz1", Val: "1"}, {Op: "AddKeyValue", Key: "zz2", Val: `"22"`}, {Op: "Add", Val: "1"}, {Op: "Add", Val: `"22"`}, {Op: "Insert", Val: "3"}, {Op: "Flatten"}, {Op: "Indent"}}
	for pi, p := range paths {
		w.State(1)
		for oi := range ops {
			o := &ops[oi]
			if pi > 0 && !o.uses('p') {
				continue
			}
			vals, ks, is := []string{""}, []string{"nk"}, []int{0}
			if o.uses('v') {
				vals = []string{`7`, `{"q":[1,"r"]}`}
			}
			if o.uses('k') {
				ks = []string{"nk", "a"}
			}
			if o.uses('i') {
				is = []int{0, 1}
			}
			for _, v := range vals {
				for _, k := range ks {
					for _, i := range is {
						r := call(o, &In{V: []byte(v), K: k, I: i, P: p}, doc, v, k, itoa(i))
						if r == nil || !o.Mut {
							continue
						}
						out, ok := r[0].([]byte)
						if !ok || len(out) < 2 || len(r) > 2 {
							continue
						}
						if len(r) == 2 && r[1] != nil {
							w.Out("refused")
							continue
						}
						// edits of the edited document, from the slice as it was handed out
						was := string(out)
						for _, e := range chain {
							if e.Op == "Add" || e.Op == "Insert" || e.Op == "AddKeyValue" {
								if kind := out[0]; kind == '{' && e.Op != "AddKeyValue" || kind == '[' && e.Op == "AddKeyValue" {
									continue
								}
							}
							w.At(o.Name+"; "+e.Op, p, v, k, itoa(i), e.Val)
							var r2 []byte
							var err error
							if !w.Guarded(func() { r2, err = e.free(out) }) {
								continue
							}
							if err == nil {
								w.Out("chained edits")
							}
							rr := rs(r2)
							keep = append(keep, kept{o.Name + "; " + e.String(), p, rr, show(rr)})
							if string(out) != was {
								w.Fail("the document returned before changed from %q to %q", was, out)
								return
							}
						}
					}
				}
			}
		}
		if pi > 8 && len(keep) > 20000 {
			break
		}
	}
	// the same queries of other documents
	for _, t := range sameLength(d.S, d.Root, d.src) {
		if _, err := ref.Parse([]byte(t)); err != nil {
			continue
		}
		td := newDoc(w, []byte(t))
		if td == nil {
			continue
		}
		g, tp := []byte(t), td.Pos
		if len(tp) > 4 {
			tp = append(tp[:3:3], tp[len(tp)-1])
		}
		for pi, p := range tp {
			for oi := range ops {
				o := &ops[oi]
				if o.Mut || pi > 0 && !o.uses('p') {
					continue
				}
				w.At("after "+o.Name+" of another document", p.Path, t)
				w.Guarded(func() { o.F(&In{g, nil, "nk", 0, join(p.Path), td.keyList(), false}) })
			}
		}
	}
	for i := range keep {
		k := &keep[i]
		w.Tick()
		if now := show(k.r); now != k.was {
			w.At(k.op, k.path)
			w.Fail("its result changed after later calls, from %s to %s", k.was, now)
			return
		}
	}
	w.Out("kept results")
}
