// Package eng runs a check: it enumerates the units of a bounded space, hands each to the code under test in one of
// several single-goroutine worker processes, and turns disagreements, panics, crashes and runaways into violations.
package eng

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// Gen is one enumerated family of units.
type Gen struct {
	Name string
	Each func(yield func(key []byte) bool)
}

// Check decides one property.
type Check struct {
	ID     string
	Gens   func(tier string) []Gen
	Unit   func(w *W, key []byte) // explores everything belonging to one unit
	Rule   string                 // what a state, a transition, a trace is here
	Assume []string
	Need   []string          // outcome classes that must have occurred, or the exploration was vacuous
	Single bool              // one worker only
	Pre    func(w *W)        // once per worker
	Own    func(d *Driver)   // replaces the whole run (scheduler-based checks)
	Extra  map[string]string // free-form evidence
}

// Violation is one disagreement.
type Violation struct {
	Property string   `json:"property"`
	Unit     string   `json:"unit"`
	Op       string   `json:"op"`
	Path     []string `json:"path"`
	Args     []string `json:"args"`
	What     string   `json:"what"`
	Reruns   string   `json:"reruns,omitempty"`
	UnitHex  string   `json:"unit_hex,omitempty"`
	N        int      `json:"n"`
}

// Sig identifies the failing case.
func (v *Violation) Sig() string {
	return fmt.Sprintf("%s|%q|%q|%q", v.Op, v.Unit, v.Path, v.Args)
}

// W is one worker.
type W struct {
	Tier     string
	chk      *Check
	shard, n int
	unitViol int // violations before this unit
	enough   int // violations after which a unit may end
	seen     map[uint64]struct{}
	deadline time.Time

	States, Trans, Traces uint64
	Outcome               map[string]uint64
	Samples               []string
	viol                  []*Violation
	violOps               map[string]int
	violN                 int
	known                 map[string]bool
	knownHit              map[string]int
	capped                bool

	lazy    func() []string
	op      string
	path    []string
	args    []string
	key     []byte
	buf     []byte
	mem     []byte
	journal bool
	rerun   bool
	ticks   *uint64
}

// At announces the call about to be made on the implementation.
func (w *W) At(op string, path []string, args ...string) {
	w.op, w.path, w.args, w.lazy = op, path, args, nil
	w.Trans++
	*w.ticks++
	if w.journal {
		s := fmt.Sprintf("%s path=%q args=%q", op, path, args)
		writeMem(w.mem[16384:], s)
	}
}

// State counts model states visited.
func (w *W) State(n int) { w.States += uint64(n) }

// Trace counts validated traces beyond the one per unit.
func (w *W) Trace(n int) { w.Traces += uint64(n) }

// Out counts an observed outcome class.
func (w *W) Out(class string) { w.Outcome[class]++ }

// Tick reports progress inside long harness-side work.
func (w *W) Tick() { *w.ticks++ }

// Late tells a long unit to end, because the time is up; the exploration counts as not exhaustive.
// A unit run again to confirm a failure ends with the first one; a unit that fails over and over ends early too.
func (w *W) Late() bool {
	return w.violN-w.unitViol >= w.enough || !w.deadline.IsZero() && time.Now().After(w.deadline)
}

// Fail records that the announced call disagreed with the model.
func (w *W) Fail(format string, a ...interface{}) {
	if w.lazy != nil {
		w.args, w.lazy = w.lazy(), nil
	}
	v := &Violation{Property: w.chk.ID, Unit: string(w.key), Op: w.op, Path: append([]string(nil), w.path...), Args: append([]string(nil), w.args...), What: fmt.Sprintf(format, a...)}
	v.UnitHex = fmt.Sprintf("%x", w.key)
	if len(v.What) > 2000 {
		v.What = v.What[:2000] + "..."
	}
	if w.known[v.Sig()] {
		w.knownHit[v.Sig()]++
		return
	}
	w.violN++
	w.violOps[v.Op]++
	if w.violOps[v.Op] <= 4 && len(w.viol) < 200 {
		v.N = w.violN
		w.viol = append(w.viol, v)
	}
}

// Buf returns a reused buffer holding a copy of s, capacity cut to its length: the same address serves many documents,
// so anything the library remembers by address shows.
func (w *W) Buf(s []byte) []byte {
	if cap(w.buf) < len(s)+64 {
		w.buf = make([]byte, len(s)*2+4096)
	}
	b := w.buf[:len(s):len(s)]
	copy(b, s)
	return b
}

const memSize = 65536

func writeMem(m []byte, s string) {
	if len(s) > 16000 {
		s = s[:16000]
	}
	*(*uint32)(unsafe.Pointer(&m[0])) = uint32(len(s))
	copy(m[4:], s)
}

func readMem(m []byte) string {
	n := *(*uint32)(unsafe.Pointer(&m[0]))
	if n > 16000 {
		n = 0
	}
	return string(m[4 : 4+n])
}

func hash(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func (w *W) runUnit(key []byte) {
	w.key = append(w.key[:0], key...)
	writeMem(w.mem[64:], string(key))
	*w.ticks++
	w.op = "(harness)"
	w.path, w.args, w.lazy = nil, nil, nil
	w.Traces++
	w.protect()
}

func (w *W) protect() {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if w.op == "(harness)" || strings.Contains(fmt.Sprint(r), "ref.") {
				panic(fmt.Sprintf("harness panic on unit %q op %s path %q args %q: %v\n%s", w.key, w.op, w.path, w.args, r, st))
			}
			w.Fail("panic: %v at %s", r, jinFrame(st))
		}
	}()
	w.chk.Unit(w, w.key)
}

// jinFrame picks the frames of the library out of a stack.
func jinFrame(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		if strings.HasPrefix(l, "github.com/ecoshub/jin") {
			f := strings.TrimPrefix(l, "github.com/ecoshub/jin.")
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			out = append(out, f)
		}
	}
	if len(out) > 4 {
		out = out[:4]
	}
	return strings.Join(out, " < ")
}

var panicSites = os.Getenv("MC_SITES") != ""
var siteSeen = map[string]bool{}

func jinLine(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "/repo/"); i >= 0 {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// Guarded runs one call of the library; a panic there becomes a violation and the unit goes on.
func (w *W) Guarded(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if panicSites { // survey mode, for development: count instead of reporting
				ok = false
				site := jinLine(string(debug.Stack()))
				if i := strings.IndexByte(site, ' '); i > 0 {
					site = site[:i]
				}
				if siteSeen[site] {
					w.Outcome["panic "+site]++
					return
				}
				siteSeen[site] = true
				w.Outcome["example "+site+" "+w.op+fmt.Sprintf(" %q %q %v", w.key, w.path, w.lazyArgs())]++
				return
			}
			w.Fail("panic: %v at %s", r, jinFrame(string(debug.Stack())))
			ok = false
		}
	}()
	f()
	return true
}

type workerReport struct {
	States, Trans, Traces uint64
	Units                 uint64
	PerGen                []uint64
	Outcome               map[string]uint64
	Samples               []string
	Viol                  []*Violation
	ViolN                 int
	KnownHit              map[string]int
	Capped                bool
	GenDone               int
	GenSecs               []float64 // wall time per generator
	Slow                  float64   // the slowest unit
	SlowUnit              string
}

func newW(c *Check, tier string, shard, n int, mem []byte, known map[string]bool) *W {
	w := &W{Tier: tier, chk: c, shard: shard, n: n, seen: map[uint64]struct{}{}, Outcome: map[string]uint64{}, violOps: map[string]int{}, known: known, knownHit: map[string]int{}, enough: 40}
	if mem == nil {
		mem = make([]byte, memSize)
	}
	w.mem = mem
	w.ticks = (*uint64)(unsafe.Pointer(&mem[0]))
	return w
}

// Worker is the body of a child process.
func Worker(c *Check, tier string, shard, n int, memFile, outFile string, deadline time.Time, skip map[string]bool, known map[string]bool) {
	debug.SetGCPercent(200)
	debug.SetMaxStack(256 << 20)
	mem := mapFile(memFile)
	w := newW(c, tier, shard, n, mem, known)
	w.deadline = deadline
	if c.Pre != nil {
		c.Pre(w)
	}
	rep := &workerReport{}
	var first time.Time
	for gi, g := range c.Gens(tier) {
		var units uint64
		stop := false
		genStart := time.Now()
		g.Each(func(key []byte) bool {
			h := hash(key)
			if int(h>>7%uint64(n)) != shard {
				return true
			}
			if _, dup := w.seen[h]; dup {
				return true
			}
			w.seen[h] = struct{}{}
			if len(skip) > 0 && skip[string(key)] {
				return true
			}
			units++
			if len(w.Samples) < 6 && (units == 3 || units == 40 || units == 1000) {
				w.Samples = append(w.Samples, string(key))
			}
			before, kept := w.violN, len(w.viol)
			unitStart := time.Now()
			w.unitViol = w.violN
			w.runUnit(key)
			if t := time.Since(unitStart).Seconds(); t > rep.Slow {
				rep.Slow, rep.SlowUnit = t, string(key[:min(len(key), 120)])
			}
			if len(w.viol) > kept {
				w.confirm(before)
			}
			if w.violN > before && first.IsZero() {
				first = time.Now()
			}
			// enough is known: the verdict stands
			if w.violN > 1000 || !first.IsZero() && time.Since(first) > 20*time.Second || ((units&15 == 0 || time.Since(unitStart) > 100*time.Millisecond) && time.Now().After(deadline)) {
				stop = true
				return false
			}
			return true
		})
		rep.PerGen = append(rep.PerGen, units)
		rep.GenSecs = append(rep.GenSecs, time.Since(genStart).Seconds())
		rep.Units += units
		if stop {
			w.capped = true
			break
		}
		rep.GenDone = gi + 1
	}
	rep.States, rep.Trans, rep.Traces, rep.Outcome, rep.Samples = w.States, w.Trans, w.Traces, w.Outcome, w.Samples
	rep.Viol, rep.ViolN, rep.KnownHit, rep.Capped = w.viol, w.violN, w.knownHit, w.capped
	b, err := json.Marshal(rep)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(outFile, b, 0o644); err != nil {
		panic(err)
	}
}

// confirm repeats the unit just run five times and notes how often it fails again.
func (w *W) confirm(before int) {
	k, n := 0, 0
	start := time.Now()
	for ; n < 5 && (n == 0 || time.Since(start) < 60*time.Second); n++ {
		x := newW(w.chk, w.Tier, 0, 1, nil, w.known)
		x.buf = w.buf
		x.enough = 1
		x.deadline = start.Add(60 * time.Second)
		x.ticks = w.ticks
		if w.chk.Pre != nil {
			w.chk.Pre(x)
		}
		x.runUnit(append([]byte(nil), w.key...))
		if x.violN > 0 {
			k++
		}
	}
	for _, v := range w.viol {
		if v.N > before {
			v.Reruns = fmt.Sprintf("%d/%d", k, n)
		}
	}
}

// One runs a single unit and returns its violations (replay and crash localisation).
func One(c *Check, tier string, key []byte, memFile string) []*Violation {
	debug.SetMaxStack(256 << 20)
	var mem []byte
	if memFile != "" {
		mem = mapFile(memFile)
	}
	w := newW(c, tier, 0, 1, mem, nil)
	w.journal = mem != nil
	if c.Pre != nil {
		c.Pre(w)
	}
	w.runUnit(key)
	return w.viol
}

func mapFile(name string) []byte {
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	m, err := syscall.Mmap(int(f.Fd()), 0, memSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	return m
}

// Failures counts the disagreements recorded so far.
func (w *W) Failures() int { return w.violN }

// Args names the arguments of the announced call lazily: they are only rendered for a report.
func (w *W) Args(f func() []string) {
	w.lazy = f
	if w.journal {
		w.args = f()
		writeMem(w.mem[16384:], fmt.Sprintf("%s path=%q args=%q", w.op, w.path, w.args))
	}
}

func (w *W) lazyArgs() []string {
	if w.lazy != nil {
		return w.lazy()
	}
	return w.args
}
