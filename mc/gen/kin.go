package gen

import (
	"fmt"
	"strings"
)

// Twins are pairs of texts that agree in some digest: the same bytes in another order, equal sums, and collisions of
// the 31-, djb2-, FNV-, CRC-32- and Adler-32 hashes.
var Twins = [][2]string{{"ab", "ba"}, {"abc", "cab"}, {"ad", "bc"}, {"aca", "bab"}, {"Aa", "BB"}, {"AaBB", "BBAa"}, {"hetairas", "mentioner"}, {"haggadot", "loathsomenesses"}, {"creamwove", "quists"}, {"costarring", "liquid"}, {"plumless", "buckeroo"}, {"10", "01"}, {"key1key2", "key2key1"}}

// Joints separate path components in texts that join a path.
var Joints = []string{"", ".", "/", ",", ":", "|", " ", "-", "_", ">", "#", ";", `\u0000`, "][", `\"`, "->", "::", "0", "%"}

// Kin lists documents in which different paths look alike once joined, and keys and values that look alike once digested.
func Kin(y func(string) bool) {
	for _, s := range Joints {
		for _, f := range []string{
			`{"a":{"b":{"c":1},"b%sc":2},"a%[1]sb":{"c":3},"a%[1]sb%[1]sc":4}`,
			`{"a%[1]sb%[1]sc":4,"a%[1]sb":{"c":3},"a":{"b%sc":2,"b":{"c":1}}}`,
			`{"a":[1,{"b":2},[3]],"a%s0":4,"a%[1]s1":{"b":5},"a%[1]s1%[1]sb":6,"a%[1]s2%[1]s0":7}`,
		} {
			if !y(fmt.Sprintf(f, s)) {
				return
			}
		}
	}
	// 1,11 and 11,1
	in := "[" + strings.Repeat("0,", 11) + `"x"]`
	if !y(`[0,` + in + strings.Repeat(",0", 9) + `,["p","q"],{"1":"r","11":"s"}]`) {
		return
	}
	if !y(`{"1":{"11":"x","1":"y"},"11":{"1":"z"},"111":{"":"w"}}`) {
		return
	}
	for _, p := range Twins {
		a, b := p[0], p[1]
		for k := 0; k < 2; k++ {
			for _, f := range []string{
				`{"%s":1,"%s":2}`, `{"x":{"%s":{"y":"%[1]s"}},"z":{"%[2]s":"%[2]s"}}`, `{"%s":["%[2]s",{"%[2]s":3}],"q":["%[1]s","%[2]s"]}`, `[{"%s":1},{"%s":2},{"%[1]s":"%[2]s","%[2]s":"%[1]s"}]`,
			} {
				if !y(fmt.Sprintf(f, a, b)) {
					return
				}
			}
			a, b = b, a
		}
	}
}

// Huge are documents wider than a 16-bit counter, deeper than 4096 and longer than a megabyte.
func Huge(y func([]byte) bool) {
	for _, n := range []int{2049, 4097} {
		if !y([]byte(strings.Repeat("[", n)+"7"+strings.Repeat("]", n))) ||
			!y([]byte(strings.Repeat(`{"k":`, n)+`"v"`+strings.Repeat("}", n))) ||
			!y([]byte(`{"a":[`+strings.Repeat(`{"k":[`, n/2)+strings.Repeat("]}", n/2)+`],"b":{"c":1}}`)) {
			return
		}
	}
	for _, n := range []int{32769, 65537} {
		var ar, ob strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				ar.WriteByte(',')
				ob.WriteByte(',')
			}
			ar.WriteByte(byte('0' + i%10))
			fmt.Fprintf(&ob, `"k%d":%d`, i, i%7)
		}
		if !y([]byte("["+ar.String()+"]")) || !y([]byte(`{"p":[1],"l":[`+ar.String()+`],"q":{"l":[0]}}`)) || !y([]byte("{"+ob.String()+"}")) {
			return
		}
	}
	for _, n := range []int{1<<20 + 1} {
		t := strings.Repeat(`large \" text, [`, n/16+1)
		for _, f := range []string{
			`{"t":"%s","first-identifier":1,"other-identifier":[2,{"a":"b"}],"first-Identifier":"c"}`,
			`{"first-identifier":1,"other-identifier":[2,{"a":"b"},"%s"],"first-Identifier":{"d":4}}`,
		} {
			if !y([]byte(fmt.Sprintf(f, t))) {
				return
			}
		}
	}
}

// Vast is Huge once more, larger.
func Vast(y func([]byte) bool) {
	n := 10001
	if !y([]byte(strings.Repeat("[", n)+"7"+strings.Repeat("]", n))) || !y([]byte(strings.Repeat(`{"k":`, n)+`"v"`+strings.Repeat("}", n))) {
		return
	}
	t := strings.Repeat(`large \" text, [`, 1<<20+1)
	_ = y([]byte(`{"t":"`+t+`","first-identifier":1,"other-identifier":[2,{"a":"b"}],"first-Identifier":"c"}`)) &&
		y([]byte(`["`+t+`",[0,"a",{"k":false}],null]`))
}
