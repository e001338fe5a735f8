package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/ecoshub/jin"
)

// Tuple is one complete call: an operation with its arguments.  Calls of different tuples share documents, paths,
// values and Parsers.
type Tuple struct {
	Name string
	Func string
	Path []string
	Run  func(c *cctx) []interface{}
	Doc  int
	Heavy,
	Core, // a short call, one for each function that is not a variant of another
	Rep, // one of the composite calls every call meets in the quick tier
	Fails,
	Reader, // reads the shared Parser
	Object bool // reads the shared JO or Scheme
}

// apart: calls on the large document meet only each other, and so do those on a shared JO or Scheme (what they share with
// any other call are documents and package variables, as do the functions behind them).
func apart(a, b *Tuple) bool { return (a.Doc == big) != (b.Doc == big) || a.Object != b.Object }

// cctx is the data the calls of one execution share.
type cctx struct {
	p []*jin.Parser
	j []*jin.JO
	s []*jin.Scheme
}

var cDocs = [][]byte{
	[]byte(`{"a":[1,"x",[true]],"b":{"c":2.5,"d":"y z"},"e":{}}`),
	[]byte(" [ {\"k\" : \"v\\\"w\"} , 30 , [ ] , [ 4 ] ]\n"),
	bigDoc(),
}

// big is the large document: it is wider, deeper and longer than the powers of two at which special cases may begin.
const big = 2

func bigDoc() []byte {
	var b strings.Builder
	b.WriteString(`{"b":{"c":2.5,"d":"y z"},"f":[1,"x",[true]],"a":[`)
	for i := 0; i < 133; i++ {
		fmt.Fprintf(&b, "%d,", i)
	}
	b.WriteString(`0],"` + strings.Repeat("key", 90) + `":` + strings.Repeat("[", 66) + strings.Repeat("]", 66) + `,"t":"` + strings.Repeat(`s\\`, 2800) + `"}`)
	return []byte(b.String())
}

var cPaths = [][][]string{
	{{"b"}, {"a"}, {"a", "0"}, {"b", "c"}, {"a", "1"}, {"a", "2"}, {"a", "2", "0"}, {"b", "d"}, nil},
	{{"0"}, {"3"}, {"1"}, {"0", "k"}, {"2"}, {"3", "0"}, nil},
	{{"b"}, {"a"}, {"f"}, {"b", "c"}, {"a", "130"}, {"f", "1"}, {"f", "2"}, {"f", "2", "0"}, {"t"}, {"b", "d"}, nil},
}

var cVal = []byte(`{"q":["r",1]}`)
var cKeys = [][]string{{"c", "d"}, {"k"}, {"c", "d"}}

func newCtx() *cctx { return ctxOf(cDocs[:big]) }

func ctxOf(docs [][]byte) *cctx {
	c := &cctx{}
	for _, d := range docs {
		p, err := jin.Parse(d)
		if err != nil {
			panic(err)
		}
		c.p = append(c.p, p)
	}
	o := objCtx()
	c.j, c.s = o.j, o.s
	return c
}

// objCtx has the JOs and Schemes only.
func objCtx() *cctx {
	c := &cctx{}
	for i, d := range cDocs {
		c.j = append(c.j, jin.New(d))
		s := jin.MakeScheme(schemeKeys[i]...)
		s.Save()
		c.s = append(c.s, s)
	}
	return c
}

var schemeKeys = [][]string{{"a", "b", "e"}, {"k"}, {"b", "f", "a", "t"}}

var sharedSchemes = []struct {
	name string
	f    func(s *jin.Scheme, doc []byte, n int) []interface{}
}{
	{"MakeJson", func(s *jin.Scheme, doc []byte, n int) []interface{} {
		return rs(s.MakeJson([]interface{}{1, "x", true, nil}[:n]...))
	}},
	{"MakeJsonString", func(s *jin.Scheme, doc []byte, n int) []interface{} {
		return rs(s.MakeJsonString([]string{"x y", "2", "[]", "z"}[:n]...))
	}},
	{"Check", func(s *jin.Scheme, doc []byte, n int) []interface{} { return rs(s.Check(doc)) }},
	{"CheckAbs", func(s *jin.Scheme, doc []byte, n int) []interface{} { return rs(s.CheckAbs(doc)) }},
	{"MutateJson", func(s *jin.Scheme, doc []byte, n int) []interface{} { v, e := s.MutateJson(doc); return rs(v, e) }},
	{"MutateJsonAbs", func(s *jin.Scheme, doc []byte, n int) []interface{} { v, e := s.MutateJsonAbs(doc); return rs(v, e) }},
	{"GetCurrentKeys", func(s *jin.Scheme, doc []byte, n int) []interface{} { return rs(s.GetCurrentKeys()) }},
	{"GetOriginalKeys", func(s *jin.Scheme, doc []byte, n int) []interface{} { return rs(s.GetOriginalKeys()) }},
}

var sharedReads = []struct {
	name string
	f    func(p *jin.Parser, path []string) []interface{}
}{
	{"Get", func(p *jin.Parser, a []string) []interface{} { v, e := p.Get(a...); return rs(v, e) }},
	{"GetString", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetString(a...); return rs(v, e) }},
	{"GetInt", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetInt(a...); return rs(v, e) }},
	{"GetFloat", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetFloat(a...); return rs(v, e) }},
	{"GetBool", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetBool(a...); return rs(v, e) }},
	{"GetStringArray", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetStringArray(a...); return rs(v, e) }},
	{"GetIntArray", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetIntArray(a...); return rs(v, e) }},
	{"GetFloatArray", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetFloatArray(a...); return rs(v, e) }},
	{"GetBoolArray", func(p *jin.Parser, a []string) []interface{} { v, e := p.GetBoolArray(a...); return rs(v, e) }},
	{"GetNew", func(p *jin.Parser, a []string) []interface{} { return rs(p.GetNew(a...)) }},
	{"Tree", func(p *jin.Parser, a []string) []interface{} { return rs(p.Tree()) }},
	{"TreeFull", func(p *jin.Parser, a []string) []interface{} { return rs(p.TreeFull()) }},
	{"JSON", func(p *jin.Parser, a []string) []interface{} { return rs(p.JSON()) }},
}

// coreOps are the functions whose pairs get the deepest exploration: one of each family.
var coreOps = map[string]bool{"Get": true, "GetString": true, "GetStringArray": true, "GetAll": true, "GetKeys": true, "GetMap": true, "Length": true,
	"IterateArray": true, "IterateKeyValue": true, "ParseArray": true, "Flatten": true, "Indent": true, "Set": true, "SetString": true, "SetKey": true, "AddKeyValue": true,
	"Add": true, "Insert": true, "Delete": true, "MakeJsonString": true, "MakeArrayString": true, "IsEmpty": true, "GetType": true,
	"shared Parser.Get": true, "shared Parser.GetString": true, "shared Parser.GetStringArray": true, "shared Parser.GetNew": true,
	"shared JO.Get": true, "shared JO.String": true, "shared JO.GetMap": true, "shared JO.GetKeys": true, "shared Scheme.Check": true, "shared Scheme.CheckAbs": true, "shared Scheme.MakeJsonString": true,
	"shared Scheme.GetCurrentKeys": true}

// tuples chooses for every operation one succeeding call on each document and one failing call.
func tuples() []Tuple {
	var out []Tuple
	pick := func(name, uses string, heavy, reader bool, f func(c *cctx, doc int, p []string) []interface{}) {
		add := func(doc int, p []string, fails bool) {
			out = append(out, Tuple{Func: name, Rep: doc == 0 && (name == "Parser edits" || name == "JO.edits" || name == "Scheme.MutateJson" || name == "Walk"), Name: fmt.Sprintf("%s on document %d", name, doc), Path: p, Doc: doc, Heavy: heavy, Fails: fails, Core: coreOps[name] && doc == 0 && !fails, Reader: reader, Object: strings.HasPrefix(name, "shared JO") || strings.HasPrefix(name, "shared Scheme"),
				Run: func(c *cctx) []interface{} { return f(c, doc, p) }})
		}
		for doc := range cDocs {
			chosen := false
			for _, p := range cPaths[doc] {
				r, ok := tryRun(func() []interface{} { return f(ctxOf(cDocs), doc, p) })
				if ok && !failed(r) && len(r) > 0 && !(len(r) > 2 && r[2] != nil && reflect.TypeOf(r[2]).String() == "*errors.errorString") {
					add(doc, p, false)
					chosen = true
					break
				}
			}
			if !chosen && doc == 0 {
				add(doc, nil, false)
			}
		}
		if strings.Contains(uses, "p") && !heavy {
			add(0, []string{"a", "z~"}, true)
		}
	}
	for _, o := range allOps() {
		o := o
		heavy := strings.HasPrefix(o.Name, "Parser") || strings.HasPrefix(o.Name, "JO") || o.Name == "Scheme history"
		pick(o.Name, o.Uses, heavy, false, func(c *cctx, doc int, p []string) []interface{} {
			return o.F(&In{B: cDocs[doc], V: cVal, K: "nk", I: 0, P: p, Keys: cKeys[doc], Bare: true})
		})
	}
	for _, s := range sharedReads {
		s := s
		pick("shared Parser."+s.name, "p", false, true, func(c *cctx, doc int, p []string) []interface{} { return s.f(c.p[doc], p) })
	}
	for _, q := range joQueries {
		q := q
		pick("shared JO."+q.name, "p", false, false, func(c *cctx, doc int, p []string) []interface{} { v, e := q.jo(c.j[doc], p); return rs(v, e) })
	}
	pick("shared JO.String", "", false, false, func(c *cctx, doc int, p []string) []interface{} { return rs(c.j[doc].String()) })
	pick("shared JO.JSON", "", false, false, func(c *cctx, doc int, p []string) []interface{} { return rs(c.j[doc].JSON()) })
	for _, q := range sharedSchemes {
		q := q
		pick("shared Scheme."+q.name, "", false, false, func(c *cctx, doc int, p []string) []interface{} {
			return q.f(c.s[doc], cDocs[doc], len(schemeKeys[doc]))
		})
	}
	return out
}

func tryRun(f func() []interface{}) (r []interface{}, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	return f(), true
}

// snapRes copies a result deeply; sameRes compares a result with a copy.
func snapRes(r []interface{}) []interface{} {
	out := make([]interface{}, len(r))
	for i, v := range r {
		switch t := v.(type) {
		case error:
			out[i] = "error " + t.Error()
		case []byte:
			out[i] = string(t)
		case []string:
			out[i] = append([]string(nil), t...)
		case [][]string:
			var l [][]string
			for _, s := range t {
				l = append(l, append([]string(nil), s...))
			}
			out[i] = l
		case string, bool, int, float64, nil:
			out[i] = v
		default:
			out[i] = fmt.Sprint(v)
		}
	}
	return out
}

func sameRes(r, s []interface{}) bool {
	if len(r) != len(s) {
		return false
	}
	for i, v := range r {
		ok := false
		switch t := v.(type) {
		case error:
			x, is := s[i].(string)
			ok = is && x == "error "+t.Error()
		case []byte:
			x, is := s[i].(string)
			ok = is && x == string(t)
		case []string:
			x, is := s[i].([]string)
			ok = is && eqStrs(x, t)
		case [][]string:
			x, is := s[i].([][]string)
			ok = is && len(x) == len(t)
			for j := 0; ok && j < len(t); j++ {
				ok = eqStrs(x[j], t[j])
			}
		case string, bool, int, float64, nil:
			ok = v == s[i]
		default:
			x, is := s[i].(string)
			ok = is && x == fmt.Sprint(v)
		}
		if !ok {
			return false
		}
	}
	return true
}

// pairCtx makes the data two calls share.
func pairCtx(a, b *Tuple) *cctx {
	if a.Object {
		return objCtx()
	}
	if a.Doc == big && (a.Reader || b.Reader) {
		return ctxOf(cDocs)
	}
	return newCtx()
}
