//go:build c23race

package main

import (
	"fmt"
	"os"
	"sync"
	"time"

	"verifmc/eng"
)

// The free-running companion of C23 under the race detector: every unordered pair of calls, each in its own goroutine.
func init() {
	if len(os.Args) > 2 && os.Args[2] == "C23" {
		// the calls that do not even return alone are left to the scheduler's run
		done := make(chan bool)
		go func() { tuples(); done <- true }()
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			fmt.Fprintln(os.Stderr, "mc: a call does not return")
			os.Exit(3)
		}
	}
	reg(&eng.Check{ID: "C23", Gens: func(string) []eng.Gen {
		ts := tuples()
		return []eng.Gen{{Name: "pairs under the race detector", Each: func(y func([]byte) bool) {
			for i, t := range ts {
				if !y([]byte(fmt.Sprintf("race %d: %s, path %q, with every other call at once", i, t.Name, t.Path))) {
					return
				}
			}
		}}}
	}, Unit: func(w *eng.W, key []byte) {
		var ai int
		if _, err := fmt.Sscanf(string(key), "race %d:", &ai); err != nil {
			panic("ref.unit")
		}
		ts := raceTuples()
		for bi := range ts {
			a, b := &ts[ai], &ts[bi]
			if apart(a, b) {
				continue
			}
			w.State(1)
			w.At(a.Name+" || "+b.Name+" (race detector)", a.Path, fmt.Sprintf("second path %q", b.Path))
			c := pairCtx(a, b)
			var wg sync.WaitGroup
			var res [2][]interface{}
			var ok [2]bool
			for k, t := range []*Tuple{a, b} {
				k, t := k, t
				wg.Add(1)
				go func() {
					defer wg.Done()
					res[k], ok[k] = tryRun(func() []interface{} { return t.Run(c) })
				}()
			}
			wg.Wait()
			for k, want := range [][]interface{}{raceAlone[ai], raceAlone[bi]} {
				if ok[k] && !sameRes(res[k], want) {
					w.Fail("call %d returns %q, alone it returns %q", k+1, snapRes(res[k]), want)
				}
			}
			w.Out("pairs")
		}
	}})
}

var (
	raceT     []Tuple
	raceAlone [][]interface{}
)

func raceTuples() []Tuple {
	if raceT == nil {
		raceT = tuples()
		for _, t := range raceT {
			r, _ := tryRun(func() []interface{} { return t.Run(ctxOf(cDocs)) })
			raceAlone = append(raceAlone, snapRes(r))
		}
	}
	return raceT
}
