package main

import (
	"math"
	"strconv"

	"github.com/ecoshub/jin"
)

// The typed writers with many values: every width's boundaries, floats that need all their digits, texts of every class.
// They are explored on small documents; the short tables of edits.go are explored on larger ones.
var (
	bigSet   []variant
	bigAdd   []variant
	bigIns   []insVariant
	bigKV    []kvVariant
	bigStore []kvVariant
)

var bigTexts = []string{"", "x", "some text", "a,b", "x]", "{", "}", ":", " ", " 1", "1 ", "é", "//", `say \"hi\"`, `\\`, `\n`, `\u0041`, "12", "-7", "1.5", "1e3", "010", "0x10", "+1", ".5", "1.", "-", "true", "false", "null", "True", "NaN", "Inf", "-Inf",
	"Infinity", "1_000", "0b1", "0o7", `"quoted"`, `""`, `{"a":1}`, `[1,2]`, `[]`, `{}`, "-0", "1e400", "9223372036854775808", "[1", "1]", "'x'", "true ", "nullx", "t", "n", "http://a.b/c?d=e", "2021-01-02"}

func bigInts() []int64 {
	out := []int64{0, 1, -1, 5, 9, 10, 99, 100, -42, 12345, -100000, math.MaxInt64, math.MinInt64}
	for _, k := range []uint{7, 8, 15, 16, 23, 24, 31, 32, 52, 53, 62} {
		v := int64(1) << k
		out = append(out, v-1, v, v+1, -v-1, -v, -v+1)
	}
	return out
}

var bigFloats = []float64{0, 1, -1, 0.5, -0.25, 1.25, 0.1, 0.2, 0.3, -0.7, 1.0 / 3, 2.0 / 3, math.Pi, 100, 1e6, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, -1e23, 1e100, 1e-5, 1e-6, 1e-7, 1.5e-8, 1e-300, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32,
	16777215, 16777216, 16777217, 4294967295, 4294967297, 9007199254740991, 9007199254740993, 123456789.987654321, 3.1415927410125732, 1.0000001, 1.00000001, 0.30000000000000004, 2147483648.5, math.Copysign(0, -1)}

func init() {
	add := func(typ, text string, set, ad func(b []byte, p []string) ([]byte, error), ins func(b []byte, i int, p []string) ([]byte, error), kv, st func(b []byte, k string, p []string) ([]byte, error), jst func(j *jin.JO, k string, p []string) error) {
		if set != nil {
			bigSet = append(bigSet, variant{"Set" + typ, text, set})
		}
		bigAdd = append(bigAdd, variant{"Add" + typ, text, ad})
		bigIns = append(bigIns, insVariant{"Insert" + typ, text, ins})
		bigKV = append(bigKV, kvVariant{"AddKeyValue" + typ, text, kv})
		if st != nil {
			bigStore = append(bigStore, kvVariant{"Store" + typ, text, st})
			bigStore = append(bigStore, kvVariant{"JO.Store" + typ, text, func(b []byte, k string, p []string) ([]byte, error) {
				j := jin.New(b)
				err := jst(j, k, p)
				return j.JSON(), err
			}})
		}
	}
	for _, t := range bigTexts {
		t := t
		want, _, ok := wantText(t)
		if !ok {
			continue
		}
		add("String", want, func(b []byte, p []string) ([]byte, error) { return jin.SetString(b, t, p...) },
			func(b []byte, p []string) ([]byte, error) { return jin.AddString(b, t, p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertString(b, i, t, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueString(b, k, t, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreString(b, k, t, p...) },
			func(j *jin.JO, k string, p []string) error { return j.StoreString(k, t, p...) })
	}
	for _, v := range bigInts() {
		v := v
		add("Int", strconv.FormatInt(v, 10), func(b []byte, p []string) ([]byte, error) { return jin.SetInt(b, int(v), p...) },
			func(b []byte, p []string) ([]byte, error) { return jin.AddInt(b, int(v), p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertInt(b, i, int(v), p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueInt(b, k, int(v), p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreInt(b, k, int(v), p...) },
			func(j *jin.JO, k string, p []string) error { return j.StoreInt(k, int(v), p...) })
		add("Int64", strconv.FormatInt(v, 10), nil,
			func(b []byte, p []string) ([]byte, error) { return jin.AddInt64(b, v, p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertInt64(b, i, v, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueInt64(b, k, v, p...) }, nil, nil)
		if v >= math.MinInt32 && v <= math.MaxInt32 {
			add("Int32", strconv.FormatInt(v, 10), nil,
				func(b []byte, p []string) ([]byte, error) { return jin.AddInt32(b, int32(v), p...) },
				func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertInt32(b, i, int32(v), p...) },
				func(b []byte, k string, p []string) ([]byte, error) {
					return jin.AddKeyValueInt32(b, k, int32(v), p...)
				}, nil, nil)
		}
		u := uint64(v)
		add("Uint", strconv.FormatUint(u, 10), nil,
			func(b []byte, p []string) ([]byte, error) { return jin.AddUint(b, uint(u), p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertUint(b, i, uint(u), p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueUint(b, k, uint(u), p...) }, nil, nil)
		add("Uint64", strconv.FormatUint(u, 10), nil,
			func(b []byte, p []string) ([]byte, error) { return jin.AddUint64(b, u, p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertUint64(b, i, u, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueUint64(b, k, u, p...) }, nil, nil)
		add("Uint32", strconv.FormatUint(uint64(uint32(u)), 10), nil,
			func(b []byte, p []string) ([]byte, error) { return jin.AddUint32(b, uint32(u), p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertUint32(b, i, uint32(u), p...) },
			func(b []byte, k string, p []string) ([]byte, error) {
				return jin.AddKeyValueUint32(b, k, uint32(u), p...)
			}, nil, nil)
	}
	for _, v := range bigFloats {
		v := v
		add("Float", strconv.FormatFloat(v, 'f', -1, 64), func(b []byte, p []string) ([]byte, error) { return jin.SetFloat(b, v, p...) },
			func(b []byte, p []string) ([]byte, error) { return jin.AddFloat(b, v, p...) },
			func(b []byte, i int, p []string) ([]byte, error) { return jin.InsertFloat(b, i, v, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.AddKeyValueFloat(b, k, v, p...) },
			func(b []byte, k string, p []string) ([]byte, error) { return jin.StoreFloat(b, k, v, p...) },
			func(j *jin.JO, k string, p []string) error { return j.StoreFloat(k, v, p...) })
	}
}

// the tables to use on a document
func pick[T any](d *D, small, big []T) []T {
	if len(d.S) <= 8 {
		return append(big[:len(big):len(big)], small...)
	}
	return small
}
