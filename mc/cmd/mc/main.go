// mc decides the properties of /verif/properties.jsonl by bounded exhaustive exploration of the real package.
package main

import (
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"

	"verifmc/eng"
)

var checks = map[string]*eng.Check{}

func reg(c *eng.Check) { checks[c.ID] = c }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc run|worker|one|replay|list ID [flags]")
		os.Exit(2)
	}
	cmd := os.Args[1]
	if cmd == "list" {
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) < 3 {
		os.Exit(2)
	}
	c := checks[os.Args[2]]
	if c == nil {
		fmt.Fprintln(os.Stderr, "mc: no check", os.Args[2])
		os.Exit(2)
	}
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	tier := fs.String("tier", envOr("VERIF_TIER", "quick"), "")
	dir := fs.String("dir", "/verif", "")
	shard := fs.Int("shard", 0, "")
	n := fs.Int("n", 8, "")
	mem := fs.String("mem", "", "")
	out := fs.String("out", "", "")
	deadline := fs.Int64("deadline", 0, "")
	skip := fs.String("skip", "", "")
	unit := fs.String("unit", "", "")
	ev := fs.String("evidence", "", "")
	secs := fs.Int("secs", 0, "")
	fs.Parse(os.Args[3:])
	switch cmd {
	case "run":
		if *secs == 0 {
			*secs = 600
			if *tier == "thorough" {
				*secs = 800
			}
			if v, err := strconv.Atoi(os.Getenv("VERIF_SECS")); err == nil {
				*secs = v
			}
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		d := &eng.Driver{C: c, Tier: *tier, Seed: seed, Dir: *dir, Workers: *n, Evidence: *ev, Deadline: time.Now().Add(time.Duration(*secs) * time.Second)}
		os.Exit(d.Run())
	case "worker":
		known := map[string]bool{}
		for k := range eng.LoadKnown(*dir, c.ID) {
			known[k] = true
		}
		sk := map[string]bool{}
		if *skip != "" {
			b, err := os.ReadFile(*skip)
			if err != nil {
				panic(err)
			}
			var l []string
			json.Unmarshal(b, &l)
			for _, s := range l {
				sk[s] = true
			}
		}
		eng.Worker(c, *tier, *shard, *n, *mem, *out, time.Unix(*deadline, 0), sk, known)
	case "one":
		b, err := os.ReadFile(*unit)
		if err != nil {
			panic(err)
		}
		eng.One(c, *tier, b, *mem)
	case "replay":
		b, err := os.ReadFile(fs.Arg(0))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v eng.Violation
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		key, _ := hex.DecodeString(v.UnitHex)
		vs := eng.One(c, *tier, key, "")
		for _, v := range vs {
			fmt.Printf("VIOLATION property=%s replay=%s\n  %s unit=%q path=%q args=%q: %s\n", c.ID, fs.Arg(0), v.Op, v.Unit, v.Path, v.Args, v.What)
		}
		if len(vs) > 0 {
			os.Exit(1)
		}
		fmt.Println("not reproduced by this unit alone")
	}
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}
