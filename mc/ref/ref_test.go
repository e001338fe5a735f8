package ref

import (
	"encoding/json"
	"testing"
)

// The reader agrees with encoding/json on every string over the JSON-significant alphabet up to length 6.
func TestValidAgrees(t *testing.T) {
	al := []byte("{}[]\":,\\ a1-.e0tn")
	var buf [6]byte
	n := 0
	var rec func(i, max int)
	rec = func(i, max int) {
		if i == max {
			n++
			if Valid(buf[:max]) != json.Valid(buf[:max]) {
				t.Fatalf("%q", buf[:max])
			}
			return
		}
		for _, c := range al {
			buf[i] = c
			rec(i+1, max)
		}
	}
	for l := 0; l <= 5; l++ {
		rec(0, l)
	}
	t.Log(n)
}
