package eng

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Driver runs one check to a verdict.
type Driver struct {
	C        *Check
	Tier     string
	Seed     int
	Dir      string // /verif
	Workers  int
	Evidence string // file to write instead of Dir/evidence/ID.json
	Deadline time.Time
	start    time.Time
	tmp      string
	known    map[string]string // sig -> what
	Cov      map[string]interface{}
	Viol     []*Violation
	ViolN    int
	Known    map[string]int
}

// LoadKnown reads the committed findings of a property: lines `known: property=ID sig=<go-quoted> what`.
func LoadKnown(dir, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		p := "known: property=" + id + " sig="
		if !strings.HasPrefix(l, p) {
			continue
		}
		q, err := strconv.QuotedPrefix(l[len(p):])
		if err != nil {
			continue
		}
		sig, _ := strconv.Unquote(q)
		m[sig] = strings.TrimSpace(l[len(p)+len(q):])
	}
	return m
}

type child struct {
	shard   int
	cmd     *exec.Cmd
	mem     []byte
	memFile string
	out     string
	stderr  string
	done    chan error
	lastT   uint64
	slept   int
	cpuAt   float64
	tries   int
	verdict string
}

func (d *Driver) spawn(args []string, name string) *child {
	c := &child{memFile: filepath.Join(d.tmp, name+".mem"), out: filepath.Join(d.tmp, name+".json"), stderr: filepath.Join(d.tmp, name+".err")}
	must(os.WriteFile(c.memFile, make([]byte, memSize), 0o600))
	os.Remove(c.out)
	c.mem = mapFile(c.memFile)
	ef, err := os.Create(c.stderr)
	must(err)
	self, err := os.Executable()
	must(err)
	c.cmd = exec.Command(self, append(args, "-mem", c.memFile, "-out", c.out)...)
	c.cmd.Stdout = ef
	c.cmd.Stderr = ef
	c.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(c.cmd.Start())
	ef.Close()
	c.done = make(chan error, 1)
	go func() { c.done <- c.cmd.Wait() }()
	return c
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: error:", err)
		os.Exit(2)
	}
}

func stat(pid int) (cpu float64, rss int64, ok bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	if i < 0 {
		return 0, 0, false
	}
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0, false
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	stm, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + stm) / 100, pages * 4096, true
}

// sleeping: every thread of the process sleeps and can be woken.
func sleeping(pid int) bool {
	ts, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/stat", pid))
	for _, t := range ts {
		b, err := os.ReadFile(t)
		i := strings.LastIndexByte(string(b), ')')
		if err != nil || i < 0 || i+2 >= len(b) || b[i+2] != 'S' {
			return false
		}
	}
	return len(ts) > 0
}

const (
	hangCPU = 40.0    // CPU seconds inside one call
	asleep  = 60      // half seconds inside one call during which no thread was runnable
	maxRSS  = 3 << 30 // bytes of one worker
)

// watch waits for a child, killing it when one call burns CPU or memory without end.
func (d *Driver) watch(c *child) error {
	t := time.NewTicker(50 * time.Millisecond)
	defer t.Stop()
	n := 0
	for {
		select {
		case err := <-c.done:
			return err
		case <-t.C:
			n++
			cpu, rss, ok := stat(c.cmd.Process.Pid)
			if !ok {
				continue
			}
			if rss > maxRSS {
				c.verdict = fmt.Sprintf("memory runaway: worker grew to %d MB", rss>>20)
				c.cmd.Process.Kill()
				return <-c.done
			}
			if n%10 != 0 {
				continue
			}
			tk := *(*uint64)(ptr(c.mem))
			if tk != c.lastT || !sleeping(c.cmd.Process.Pid) {
				c.slept = 0
			} else if c.slept++; c.slept > asleep {
				c.verdict = "deadlock: one call neither returned nor ran"
				c.cmd.Process.Kill()
				return <-c.done
			}
			if tk != c.lastT {
				c.lastT, c.cpuAt = tk, cpu
			} else if cpu-c.cpuAt > hangCPU {
				c.verdict = fmt.Sprintf("runaway: one call used more than %.0f s of CPU without returning", hangCPU)
				c.cmd.Process.Kill()
				return <-c.done
			}
		}
	}
}

// Run executes the check and exits with its verdict.
func (d *Driver) Run() int {
	d.start = time.Now()
	var err error
	d.tmp, err = os.MkdirTemp("", "mc-"+d.C.ID+"-")
	must(err)
	defer os.RemoveAll(d.tmp)
	d.known = LoadKnown(d.Dir, d.C.ID)
	d.Known = map[string]int{}
	d.Cov = map[string]interface{}{}
	if d.C.Own != nil {
		d.C.Own(d)
		return d.finish()
	}
	n := d.Workers
	if d.C.Single {
		n = 1
	}
	type res struct {
		rep   *workerReport
		viols []*Violation
		short bool
		fatal string
	}
	results := make(chan res, n)
	for s := 0; s < n; s++ {
		go func(s int) {
			results <- func() res {
				var r res
				var skips []string
				killed := 0
				for {
					args := []string{"worker", d.C.ID, "-tier", d.Tier, "-shard", fmt.Sprint(s), "-n", fmt.Sprint(n), "-deadline", fmt.Sprint(d.Deadline.Unix()), "-dir", d.Dir}
					if len(skips) > 0 {
						sf := filepath.Join(d.tmp, fmt.Sprintf("skip%d", s))
						b, _ := json.Marshal(skips)
						must(os.WriteFile(sf, b, 0o600))
						args = append(args, "-skip", sf)
					}
					c := d.spawn(args, fmt.Sprintf("w%d-%d", s, len(skips)+killed*100))
					err := d.watch(c)
					if err == nil {
						b, e := os.ReadFile(c.out)
						must(e)
						r.rep = &workerReport{}
						must(json.Unmarshal(b, r.rep))
						return r
					}
					msg := tail(c.stderr)
					if strings.Contains(msg, "harness panic") {
						r.fatal = msg
						return r
					}
					if c.verdict == "" {
						if st, ok := c.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && st.Signaled() && st.Signal() == syscall.SIGKILL {
							killed++
							if killed < 3 {
								continue
							}
							r.short = true
							return r
						}
						c.verdict = "the process died: " + firstLine(msg)
					}
					// a crash or runaway of the code under test: localise it by running the unit alone
					unit := readMem(c.mem[64:])
					v := &Violation{Property: d.C.ID, Unit: unit, UnitHex: fmt.Sprintf("%x", unit), Op: "(crash)", What: c.verdict}
					uf := filepath.Join(d.tmp, fmt.Sprintf("unit%d", s))
					must(os.WriteFile(uf, []byte(unit), 0o600))
					c2 := d.spawn([]string{"one", d.C.ID, "-tier", d.Tier, "-unit", uf, "-dir", d.Dir}, fmt.Sprintf("one%d-%d", s, len(skips)))
					if err := d.watch(c2); err != nil {
						v.Op = readMem(c2.mem[16384:])
						v.Reruns = "1/1"
					} else {
						v.What += " (not reproduced by the unit alone: it needs the calls before it)"
					}
					r.viols = append(r.viols, v)
					skips = append(skips, unit)
					if len(skips) >= 2 {
						r.short = true
						return r
					}
				}
			}()
		}(s)
	}
	var tot workerReport
	tot.Outcome = map[string]uint64{}
	capped := false
	fatal := ""
	for s := 0; s < n; s++ {
		r := <-results
		if r.fatal != "" {
			fatal = r.fatal
		}
		d.Viol = append(d.Viol, r.viols...)
		d.ViolN += len(r.viols)
		capped = capped || r.short
		if r.rep == nil {
			continue
		}
		w := r.rep
		if os.Getenv("MC_PROF") != "" {
			fmt.Fprintf(os.Stderr, "prof: %.1f slowest %.1fs %q\n", w.GenSecs, w.Slow, w.SlowUnit)
		}
		tot.States += w.States
		tot.Trans += w.Trans
		tot.Traces += w.Traces
		tot.Units += w.Units
		for k, v := range w.Outcome {
			tot.Outcome[k] += v
		}
		for i, u := range w.PerGen {
			for len(tot.PerGen) <= i {
				tot.PerGen = append(tot.PerGen, 0)
			}
			tot.PerGen[i] += u
		}
		if len(tot.Samples) < 12 {
			tot.Samples = append(tot.Samples, w.Samples...)
		}
		d.Viol = append(d.Viol, w.Viol...)
		d.ViolN += w.ViolN
		for k, v := range w.KnownHit {
			d.Known[k] += v
		}
		capped = capped || w.Capped
	}
	if fatal != "" {
		fmt.Fprintln(os.Stderr, fatal)
		os.RemoveAll(d.tmp)
		os.Exit(2)
	}
	d.Cov["states"] = tot.States
	d.Cov["transitions"] = tot.Trans
	d.Cov["traces_validated_against_impl"] = tot.Traces
	d.Cov["units"] = tot.Units
	d.Cov["exhaustive"] = !capped
	d.Cov["rule"] = d.C.Rule
	var spaces []string
	for i, g := range d.C.Gens(d.Tier) {
		var u uint64
		if i < len(tot.PerGen) {
			u = tot.PerGen[i]
		}
		spaces = append(spaces, fmt.Sprintf("%s: %d new units", g.Name, u))
	}
	d.Cov["spaces"] = spaces
	d.Cov["outcomes"] = tot.Outcome
	if len(tot.Samples) > 12 {
		tot.Samples = tot.Samples[:12]
	}
	d.Cov["samples"] = tot.Samples
	for k, v := range d.C.Extra {
		d.Cov[k] = v
	}
	if d.ViolN == 0 && !capped {
		for _, need := range d.C.Need {
			if tot.Outcome[need] == 0 {
				fmt.Fprintf(os.Stderr, "mc: %s: vacuous exploration: outcome %q never occurred\n", d.C.ID, need)
				os.RemoveAll(d.tmp)
				os.Exit(2)
			}
		}
	}
	return d.finish()
}

func (d *Driver) finish() int {
	wall := time.Since(d.start).Seconds()
	sort.SliceStable(d.Viol, func(i, j int) bool {
		a, b := d.Viol[i], d.Viol[j]
		if len(a.Unit) != len(b.Unit) {
			return len(a.Unit) < len(b.Unit)
		}
		return a.Unit < b.Unit
	})
	ev := map[string]interface{}{
		"property": d.C.ID, "tier": d.Tier, "seed": d.Seed, "level": "model_checking", "coverage": d.Cov,
		"assumptions": d.C.Assume, "wall_s": wall, "violations": d.ViolN,
	}
	if d.C.Assume == nil {
		ev["assumptions"] = []string{}
	}
	must(os.MkdirAll(filepath.Join(d.Dir, "evidence"), 0o755))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	evf := d.Evidence
	if evf == "" {
		evf = filepath.Join(d.Dir, "evidence", d.C.ID+".json")
	}
	must(os.WriteFile(evf, append(b, '\n'), 0o644))
	for sig, what := range d.known {
		if d.Known[sig] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.C.ID, what)
		}
	}
	fmt.Printf("%s %s: states=%v transitions=%v traces=%v exhaustive=%v violations=%d wall=%.1fs\n", d.C.ID, d.Tier, d.Cov["states"], d.Cov["transitions"], d.Cov["traces_validated_against_impl"], d.Cov["exhaustive"], d.ViolN, wall)
	if d.ViolN == 0 {
		return 0
	}
	must(os.MkdirAll(filepath.Join(d.Dir, "replays"), 0o755))
	shown := map[string]int{}
	total := 0
	for _, v := range d.Viol {
		op := v.Op
		if i := strings.IndexByte(op, ' '); i > 0 {
			op = op[:i]
		}
		if shown[op] >= 2 || total >= 12 {
			continue
		}
		shown[op]++
		total++
		name := filepath.Join(d.Dir, "replays", fmt.Sprintf("%s-%d.json", d.C.ID, total))
		b, _ := json.MarshalIndent(v, "", " ")
		must(os.WriteFile(name, append(b, '\n'), 0o644))
		must(os.WriteFile(strings.TrimSuffix(name, ".json")+".txt", []byte(snippet(v)), 0o644))
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.C.ID, name)
		fmt.Printf("  %s unit=%q path=%q args=%q: %s [reproduced %s]\n", v.Op, v.Unit, v.Path, v.Args, v.What, v.Reruns)
	}
	return 1
}

func snippet(v *Violation) string {
	var b strings.Builder
	fmt.Fprintf(&b, "// %s\n// replay through the explorer: ./replay.sh %s <this file's .json>\n", v.What, v.Property)
	fmt.Fprintf(&b, "doc := []byte(%q)\n", v.Unit)
	fmt.Fprintf(&b, "// call: jin.%s  args %q  path %q\n", v.Op, v.Args, v.Path)
	return b.String()
}

func tail(f string) string {
	b, _ := os.ReadFile(f)
	if len(b) > 6000 {
		b = append(append(b[:3000:3000], []byte("\n...\n")...), b[len(b)-3000:]...)
	}
	return string(b)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return "(no output)"
}
