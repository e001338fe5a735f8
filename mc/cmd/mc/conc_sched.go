//go:build sched

package main

import (
	"encoding/json"
	"fmt"
	"iter"
	"os"
	"reflect"
	"sort"

	"github.com/ecoshub/jin"
	"github.com/ecoshub/jin/vsched"

	"verifmc/eng"
)

func init() {
	c := &eng.Check{ID: "C23", Gens: c23Gens, Unit: c23Unit,
		Rule: "state = one global configuration (point of call A, point of call B) reached; transition = one schedule executed on the instrumented package from initial package variables; trace = one schedule whose results were compared with those of the calls alone",
		Assume: []string{"interleaving of whole statements (a point before every statement of the package, and at mutex, once and pool operations), sequentially consistent memory; accesses below statement level are left to the race detector run",
			"two calls at a time; preemptions at every pass of a statement touching package variables or package sync (up to 4), elsewhere at the first, second and last pass of each statement (1 preemption on all pairs, 2 on pairs of core calls; the thorough tier adds every pass with 1, short calls with 2, core calls with 3)",
			"in a program free of data races, preemptions at operations of package sync and atomic operations reach every result; the race detector run looks for data races",
			"the documents, paths and argument choices of mc/cmd/mc/conc.go",
			"goroutines started by the package itself would not be scheduled (there are none)"},
		Need: []string{"schedules with 0 preemptions", "schedules with 1 preemption", "schedules with 2 preemptions", "nested callbacks"}}
	if b, err := os.ReadFile(os.Getenv("MC_RACE")); err == nil {
		c.Extra = map[string]string{}
		var m map[string]interface{}
		if json.Unmarshal(b, &m) == nil {
			if cov, ok := m["coverage"].(map[string]interface{}); ok {
				c.Extra["race_detector_run"] = fmt.Sprintf("free-running pairs under the race detector: %v, exhaustive over pairs: %v, outcomes %v", cov["transitions"], cov["exhaustive"], cov["outcomes"])
			}
		}
	} else {
		c.Extra = map[string]string{"race_detector_run": "not available"}
	}
	reg(c)
}

func c23Gens(tier string) []eng.Gen {
	ts := tuples()
	each := func(name string, bound int, f func(i int) bool) eng.Gen {
		return eng.Gen{Name: name, Each: func(y func([]byte) bool) {
			for i, t := range ts {
				if f(i) && !y([]byte(fmt.Sprintf("%d %d: %s, path %q, against every other call", bound, i, t.Name, t.Path))) {
					return
				}
			}
		}}
	}
	gs := []eng.Gen{
		each("nested: every call inside every callback of an iteration, repeated", 9, func(i int) bool { return true }),
		each("ordered pairs of calls, at most 4 preemptions, at statements touching package variables or package sync", 5, func(i int) bool { return true }),
		each("ordered pairs of a call and a core, composite or like call, at most 1 preemption, at the first, second and last pass of every statement", 1, func(i int) bool { return true }),
		each("ordered pairs of core calls, 2 preemptions, at the first pass of every statement", 2, func(i int) bool { return ts[i].Core }),
	}
	if tier == "thorough" {
		gs = append(gs,
			each("ordered pairs of calls, at most 1 preemption, at the first, second and last pass of every statement", 7, func(i int) bool { return true }),
			each("ordered pairs of calls, 1 preemption, at every pass of every statement", 6, func(i int) bool { return !ts[i].Heavy }),
			each("ordered pairs of core calls, 3 preemptions, at the first pass of every statement", 3, func(i int) bool { return ts[i].Core }),
			each("ordered pairs of short calls, 2 preemptions, at the first, second and last pass of every statement", 4, func(i int) bool { return !ts[i].Heavy }))
	}
	return gs
}

// thr is one call run as a coroutine under the explorer's control.
type thr struct {
	t       *Tuple
	n       int // points passed
	slice   int // points passed since it got control
	stopAt  int // pass control back at this point
	last    int
	trace   []int // the points passed, when wanted
	tracing bool
	yield   func(struct{}) bool
	next    func() (struct{}, bool)
	stop    func()
	done    bool
	blocked bool
	res     []interface{}
	pan     interface{}
}

var cur *thr

// spinning is the number of points after which a call is taken to wait for the other one.
const spinning = 5000000

func init() {
	vsched.Hook = func(id int) {
		t := cur
		if t == nil {
			return
		}
		t.n++
		t.last = id
		if t.tracing {
			t.trace = append(t.trace, id)
		}
		t.slice++
		if t.n == t.stopAt {
			t.yield(struct{}{})
		} else if t.slice > spinning {
			t.blocked = true
			t.yield(struct{}{})
		}
	}
	vsched.Blocked = func() {
		t := cur
		if t == nil {
			panic("blocked for ever")
		}
		t.blocked = true
		t.yield(struct{}{})
	}
}

func newThr(t *Tuple, c *cctx) *thr {
	h := &thr{t: t, stopAt: -1}
	h.next, h.stop = iter.Pull(func(y func(struct{}) bool) {
		h.yield = y
		defer func() {
			if r := recover(); r != nil {
				h.pan = r
			}
		}()
		h.res = t.Run(c)
	})
	return h
}

// to runs the thread until it has passed stopAt points, blocks, or ends.
func (h *thr) to(stopAt int) {
	if h.done {
		return
	}
	h.stopAt = stopAt
	h.blocked = false
	h.slice = 0
	cur = h
	_, ok := h.next()
	cur = nil
	if !ok {
		h.done = true
	}
}

// exec runs one schedule: segment k runs thread k%2 up to its k-th bound; then both complete, first the one whose turn it is.
func exec(a, b *Tuple, c *cctx, segs []int) (x, y *thr, dead bool) {
	x, y = newThr(a, c), newThr(b, c)
	th := [2]*thr{x, y}
	for k, s := range segs {
		th[k%2].to(s)
	}
	who := len(segs) % 2
	for spin := 0; ; {
		h := th[who]
		if !h.done {
			before := h.n
			h.to(-1)
			if h.n > before+1 && h.slice <= spinning || h.done {
				spin = 0
			} else {
				spin++
			}
		}
		if x.done && y.done {
			return x, y, false
		}
		if spin > 6 {
			x.stop()
			y.stop()
			return x, y, true
		}
		who = 1 - who
	}
}

type alone struct {
	res  []interface{}
	n    int
	all, // every pass of every point
	vis, // the first, second and last pass of every point
	one, // the first pass of every point
	key, // passes of points touching package variables or package sync
	keys []int // the same, the most interesting first
}

// passes selects the passes at which a call may be preempted.
func (a *alone) passes(trace []int) {
	count, last := map[int]int{}, map[int]int{}
	var nth []int // of every key pass: the how manieth pass of its point it is
	for i, id := range trace {
		last[id] = i
	}
	for i, id := range trace {
		count[id]++
		n := i + 1
		a.all = append(a.all, n)
		if count[id] == 1 {
			a.one = append(a.one, n)
		}
		if count[id] <= 2 || last[id] == i {
			a.vis = append(a.vis, n)
		}
		if id == vsched.Sync || vsched.Key[id] {
			a.key = append(a.key, n)
			nth = append(nth, count[id])
		}
	}
	// the first passes of every point come first
	by := make([]int, len(a.key))
	for i := range by {
		by[i] = i
	}
	sort.SliceStable(by, func(i, j int) bool { return nth[by[i]] < nth[by[j]] })
	for i, x := range by {
		if i == keyMax {
			break
		}
		a.keys = append(a.keys, a.key[x])
	}
}

const (
	keyMax    = 12
	keyBudget = 6000000 // schedules of statements touching package variables in the quick tier
)

// limitKeys keeps as many key passes per call, at most keyMax, as the budget of schedules allows.
func limitKeys(budget int) {
	for limit := keyMax; limit >= 2; limit-- {
		cut := func(a *alone) int { return min(len(a.keys), limit) }
		total := 0
		for i := range c23T {
			for j := range c23T {
				if a, b := &c23T[i], &c23T[j]; !apart(a, b) {
					k, l := cut(&c23Alone[i]), cut(&c23Alone[j])
					n := 1 + k*l + k*(k-1)/2*l + k*(k-1)*l*(l-1)/4
					if a.Doc == big {
						n *= 20
					} else if a.Heavy || b.Heavy {
						n *= 2
					}
					total += n
				}
			}
		}
		if total > budget && limit > 2 {
			continue
		}
		for i := range c23Alone {
			a := &c23Alone[i]
			a.key = append([]int(nil), a.keys[:cut(a)]...)
			sort.Ints(a.key)
		}
		return
	}
}

var (
	c23T     []Tuple
	c23Alone []alone
	c23Was   []string
)

func c23Init(w *eng.W) {
	if c23T != nil {
		return
	}
	c23T = tuples()
	for _, d := range cDocs {
		c23Was = append(c23Was, string(d))
	}
	for i := range c23T {
		t := &c23T[i]
		var a [2]alone
		for k := range a {
			vsched.Reset()
			h := newThr(t, pairCtx(t, t))
			h.tracing = true
			h.to(-1)
			if !h.done || h.pan != nil {
				w.At(t.Name, t.Path)
				w.Fail("alone: it panics or blocks: %v", h.pan)
			}
			a[k] = alone{res: snapRes(h.res), n: h.n}
			a[k].passes(h.trace)
		}
		if !reflect.DeepEqual(a[0].res, a[1].res) {
			w.At(t.Name, t.Path)
			w.Fail("alone: two runs from the same state differ: %q (%d points), %q (%d points)", a[0].res, a[0].n, a[1].res, a[1].n)
		}
		c23Alone = append(c23Alone, a[0])
	}
	if w.Tier == "thorough" {
		limitKeys(10 * keyBudget)
	} else {
		limitKeys(keyBudget)
	}
}

func c23Unit(w *eng.W, key []byte) {
	var bound, ai int
	if _, err := fmt.Sscanf(string(key), "race %d:", &ai); err == nil {
		bound = 1 // a report of the race detector run: explore the same calls under the scheduler
	} else if _, err := fmt.Sscanf(string(key), "%d %d:", &bound, &ai); err != nil {
		panic("ref.unit")
	}
	fail := w.Failures()
	c23Init(w)
	if w.Failures() > fail {
		return
	}
	if bound == 9 {
		c23Nested(w, ai)
		return
	}
	a := &c23T[ai]
	for bi := range c23T {
		b := &c23T[bi]
		if apart(a, b) {
			continue
		}
		if w.Late() {
			return
		}
		A, B := &c23Alone[ai], &c23Alone[bi]
		switch bound {
		case 1:
			if !b.Core && !b.Rep && b.Func != a.Func || a.Doc == big && b.Func != a.Func {
				continue
			}
		case 2, 3:
			if !b.Core {
				continue
			}
		case 4:
			if b.Heavy || a.Doc == big || A.n > 200 || B.n > 200 {
				continue
			}
		case 7:
			if a.Doc == big && b.Func != a.Func {
				continue
			}
		case 6:
			if b.Heavy || a.Doc == big {
				continue
			}
		}
		w.At(a.Name+" || "+b.Name, a.Path)
		var segs []int
		w.Args(func() []string {
			return []string{fmt.Sprintf("second path %q", b.Path), fmt.Sprintf("schedule %v", segs)}
		})
		nf, late := 0, false
		try := func(warm *cctx, s ...int) {
			segs = s
			if nf > 2 || late {
				return
			}
			if (nf > 0 || w.Trans&255 == 0) && w.Late() {
				late = true
				return
			}
			c := warm
			if c == nil {
				vsched.Reset()
				c = sharedCtx(a, b)
			}
			x, y, dead := exec(a, b, c, s)
			w.Trans++
			w.Traces++
			w.Tick()
			if dead {
				nf++
				w.Fail("deadlock; first at %s, second at %s", vsched.Name(x.last), vsched.Name(y.last))
				return
			}
			for k, h := range []*thr{x, y} {
				want := c23Alone[[]int{ai, bi}[k]].res
				if h.pan != nil {
					nf++
					w.Fail("call %d panics: %v (%s)", k+1, h.pan, where(a, b, s))
				} else if !sameRes(h.res, want) {
					nf++
					w.Fail("call %d returns %q, alone it returns %q (%s)", k+1, snapRes(h.res), want, where(a, b, s))
				}
			}
			for k, d := range cDocs {
				if string(d) != c23Was[k] {
					nf++
					w.Fail("shared document changed to %q", d)
					copy(d, c23Was[k])
				}
			}
		}
		switch bound {
		case 1, 6, 7:
			ps := A.vis
			if bound == 6 {
				ps = A.all
			}
			try(nil)
			for _, i := range ps {
				try(nil, i)
			}
			w.State(len(ps) + 1)
			w.Outcome["schedules with 0 preemptions"]++
			w.Outcome["schedules with 1 preemption"] += uint64(len(ps))
			if a.Heavy || b.Heavy || a.Doc == big {
				break
			}
			// the same from whatever state the calls before left
			vsched.Reset()
			c := pairCtx(a, b)
			for _, i := range ps {
				try(c, i)
			}
			w.Outcome["schedules with 1 preemption, variables as left by earlier calls"] += uint64(len(ps))
		case 2, 4:
			pa, pb := A.one, B.one
			if bound == 4 {
				pa, pb = A.vis, B.vis
			}
			w.State(len(pa) * len(pb))
			for _, i := range pa {
				for _, j := range pb {
					try(nil, i, j)
				}
			}
			w.Outcome["schedules with 2 preemptions"] += uint64(len(pa) * len(pb))
		case 3:
			for x, i := range A.one {
				for _, j := range B.one {
					for _, k := range A.one[x+1:] {
						try(nil, i, j, k)
						w.Outcome["schedules with 3 preemptions"]++
					}
				}
			}
			w.State(len(A.one) * len(B.one))
		case 5:
			ka, kb := A.key, B.key
			try(nil)
			w.State((len(ka) + 1) * (len(kb) + 1))
			w.Outcome["schedules of statements touching package variables or package sync"]++
			for x, i := range ka {
				for y, j := range kb {
					for _, k := range ka[x+1:] {
						try(nil, i, j, k)
						w.Outcome["schedules of statements touching package variables or package sync"]++
						for _, l := range kb[y+1:] {
							try(nil, i, j, k, l)
							w.Outcome["schedules of statements touching package variables or package sync"]++
						}
					}
					try(nil, i, j)
					w.Outcome["schedules of statements touching package variables or package sync"]++
				}
			}
		}
	}
}

var idleCtx *cctx

// sharedCtx: the Parsers are made anew only for calls that read them.
func sharedCtx(a, b *Tuple) *cctx {
	if a.Reader || b.Reader || a.Object {
		return pairCtx(a, b)
	}
	if idleCtx == nil {
		idleCtx = newCtx()
	}
	return idleCtx
}

// where replays a schedule and names the statements at which it switches.
func where(a, b *Tuple, segs []int) string {
	vsched.Reset()
	x, y := newThr(a, pairCtx(a, b)), newThr(b, pairCtx(a, b))
	th := [2]*thr{x, y}
	out := ""
	for k, s := range segs {
		h := th[k%2]
		h.to(s)
		if h.done {
			out += fmt.Sprintf("call %d ends; ", k%2+1)
		} else {
			out += fmt.Sprintf("switch from call %d before %s; ", k%2+1, vsched.Name(h.last))
		}
	}
	x.stop()
	y.stop()
	if out == "" {
		return "one call after the other"
	}
	return out
}

// c23Nested runs call ai inside the callbacks of every iteration.
func c23Nested(w *eng.W, ai int) {
	in := &c23T[ai]
	want := c23Alone[ai].res
	for doc := range cDocs {
		d := cDocs[doc]
		for _, p := range cPaths[doc] {
			if (doc == big) != (in.Doc == big) || doc == big && len(p) > 0 && p[0] != "b" && p[0] != "f" {
				continue
			}
			for kind := 0; kind < 3; kind++ {
				if kind == 2 && (len(p) != 0 || doc == big) {
					continue
				}
				iterate := func(f func(s ...string)) error {
					switch kind {
					case 0:
						return jin.IterateArray(d, func(v []byte) (bool, error) {
							f(string(v))
							f(string(v))
							return true, nil
						}, p...)
					case 1:
						return jin.IterateKeyValue(d, func(k, v []byte) (bool, error) {
							f(string(k), string(v))
							f(string(k), string(v))
							return true, nil
						}, p...)
					}
					var prev [][2][]string
					err := jin.Walk(d, func(k string, v []byte, p []string) (bool, error) {
						f(append([]string{k, string(v)}, p...)...)
						prev = append(prev, [2][]string{p, append([]string(nil), p...)})
						f(append([]string{k, string(v)}, p...)...)
						return true, nil
					})
					for _, x := range prev {
						if !eqStrs(x[0], x[1]) {
							w.Fail("the path given to a callback changed from %q to %q", x[1], x[0])
						}
					}
					return err
				}
				name := []string{"IterateArray", "IterateKeyValue", "Walk"}[kind]
				w.At(name+" { "+in.Name+" }", p, fmt.Sprintf("inner path %q", in.Path), fmt.Sprintf("document %d", doc))
				var plain, nested []string
				vsched.Reset()
				w.Guarded(func() {
					e1 := iterate(func(s ...string) { plain = append(plain, s...) })
					vsched.Reset()
					c := pairCtx(in, in)
					e2 := iterate(func(s ...string) {
						// what the callback was given is read before and after the inner call
						before := append([]string(nil), s...)
						r := in.Run(c)
						w.Out("nested callbacks")
						if !sameRes(r, want) {
							w.Fail("the inner call returns %q, outside it returns %q", snapRes(r), want)
						}
						nested = append(nested, before...)
					})
					if !eqStrs(plain, nested) || errStr(e1) != errStr(e2) {
						w.Fail("the iteration sees %q and returns %v, without the inner calls %q and %v", nested, e2, plain, e1)
					}
				})
				w.State(1)
			}
		}
	}
}
