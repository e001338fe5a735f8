package main

import (
	"fmt"

	"github.com/ecoshub/jin"
)

// In is the argument set of one call: document, value, key, position, path, key list.
type In struct {
	B    []byte
	V    []byte
	K    string
	I    int
	P    []string
	Keys []string
	Bare bool // Parser edits: only the edit itself, no reads around it
}

// Op is one exported function or method, applied to an argument set; it returns everything the call hands out.
type Op struct {
	Name string
	Uses string // which arguments matter besides the document: p(ath) v(alue) k(ey) i(ndex) l(ist)
	Mut  bool   // an edit
	F    func(x *In) []interface{}
}

func rs(v ...interface{}) []interface{} { return v }

// iterLog collects what callbacks are given.
func cbA(log *[]string, max int) func([]byte) (bool, error) {
	return func(v []byte) (bool, error) {
		*log = append(*log, string(v))
		return len(*log) < max, nil
	}
}

func cbKV(log *[]string, max int) func([]byte, []byte) (bool, error) {
	return func(k, v []byte) (bool, error) {
		*log = append(*log, string(k), string(v))
		return len(*log) < max, nil
	}
}

const manyCalls = 1 << 20

var freeOps = []Op{
	{"Get", "p", false, func(x *In) []interface{} { v, e := jin.Get(x.B, x.P...); return rs(v, e) }},
	{"GetString", "p", false, func(x *In) []interface{} { v, e := jin.GetString(x.B, x.P...); return rs(v, e) }},
	{"GetInt", "p", false, func(x *In) []interface{} { v, e := jin.GetInt(x.B, x.P...); return rs(v, e) }},
	{"GetFloat", "p", false, func(x *In) []interface{} { v, e := jin.GetFloat(x.B, x.P...); return rs(v, e) }},
	{"GetBool", "p", false, func(x *In) []interface{} { v, e := jin.GetBool(x.B, x.P...); return rs(v, e) }},
	{"GetStringArray", "p", false, func(x *In) []interface{} { v, e := jin.GetStringArray(x.B, x.P...); return rs(v, e) }},
	{"GetIntArray", "p", false, func(x *In) []interface{} { v, e := jin.GetIntArray(x.B, x.P...); return rs(v, e) }},
	{"GetFloatArray", "p", false, func(x *In) []interface{} { v, e := jin.GetFloatArray(x.B, x.P...); return rs(v, e) }},
	{"GetBoolArray", "p", false, func(x *In) []interface{} { v, e := jin.GetBoolArray(x.B, x.P...); return rs(v, e) }},
	{"GetAll", "pl", false, func(x *In) []interface{} { v, e := jin.GetAll(x.B, x.Keys, x.P...); return rs(v, e) }},
	{"GetAllMap", "pl", false, func(x *In) []interface{} { v, e := jin.GetAllMap(x.B, x.Keys, x.P...); return rs(v, e) }},
	{"GetKeys", "p", false, func(x *In) []interface{} { v, e := jin.GetKeys(x.B, x.P...); return rs(v, e) }},
	{"GetValues", "p", false, func(x *In) []interface{} { v, e := jin.GetValues(x.B, x.P...); return rs(v, e) }},
	{"GetKeysValues", "p", false, func(x *In) []interface{} { k, v, e := jin.GetKeysValues(x.B, x.P...); return rs(k, v, e) }},
	{"GetMap", "p", false, func(x *In) []interface{} { v, e := jin.GetMap(x.B, x.P...); return rs(v, e) }},
	{"GetType", "p", false, func(x *In) []interface{} { v, e := jin.GetType(x.B, x.P...); return rs(v, e) }},
	{"IsObject", "p", false, func(x *In) []interface{} { v, e := jin.IsObject(x.B, x.P...); return rs(v, e) }},
	{"IsArray", "p", false, func(x *In) []interface{} { v, e := jin.IsArray(x.B, x.P...); return rs(v, e) }},
	{"IsValue", "p", false, func(x *In) []interface{} { v, e := jin.IsValue(x.B, x.P...); return rs(v, e) }},
	{"IsEmpty", "p", false, func(x *In) []interface{} { v, e := jin.IsEmpty(x.B, x.P...); return rs(v, e) }},
	{"Length", "p", false, func(x *In) []interface{} { v, e := jin.Length(x.B, x.P...); return rs(v, e) }},
	{"IterateArray", "p", false, func(x *In) []interface{} {
		var l []string
		e := jin.IterateArray(x.B, cbA(&l, manyCalls), x.P...)
		return rs(l, e)
	}},
	{"IterateArray stop", "p", false, func(x *In) []interface{} {
		var l []string
		e := jin.IterateArray(x.B, cbA(&l, 1), x.P...)
		return rs(l, e)
	}},
	{"IterateKeyValue", "p", false, func(x *In) []interface{} {
		var l []string
		e := jin.IterateKeyValue(x.B, cbKV(&l, manyCalls), x.P...)
		return rs(l, e)
	}},
	{"IterateKeyValue stop", "p", false, func(x *In) []interface{} {
		var l []string
		e := jin.IterateKeyValue(x.B, cbKV(&l, 1), x.P...)
		return rs(l, e)
	}},
	{"Walk", "", false, func(x *In) []interface{} {
		var ks []string
		var ps [][]string
		var vs []string
		e := jin.Walk(x.B, func(k string, v []byte, p []string) (bool, error) {
			ks, vs, ps = append(ks, k), append(vs, string(v)), append(ps, p)
			return len(ks) < manyCalls, nil
		})
		return rs(ks, vs, ps, e)
	}},
	{"ParseArray", "", false, func(x *In) []interface{} { return rs(jin.ParseArray(string(x.B))) }},
	{"Flatten", "", true, func(x *In) []interface{} { return rs(jin.Flatten(x.B)) }},
	{"Indent", "", true, func(x *In) []interface{} { return rs(jin.Indent(x.B)) }},
	{"Set", "pv", true, func(x *In) []interface{} { v, e := jin.Set(x.B, x.V, x.P...); return rs(v, e) }},
	{"SetString", "pv", true, func(x *In) []interface{} { v, e := jin.SetString(x.B, string(x.V), x.P...); return rs(v, e) }},
	{"SetInt", "p", true, func(x *In) []interface{} { v, e := jin.SetInt(x.B, x.I, x.P...); return rs(v, e) }},
	{"SetFloat", "p", true, func(x *In) []interface{} { v, e := jin.SetFloat(x.B, 1.5, x.P...); return rs(v, e) }},
	{"SetBool", "p", true, func(x *In) []interface{} { v, e := jin.SetBool(x.B, true, x.P...); return rs(v, e) }},
	{"SetKey", "pk", true, func(x *In) []interface{} { v, e := jin.SetKey(x.B, x.K, x.P...); return rs(v, e) }},
	{"AddKeyValue", "pkv", true, func(x *In) []interface{} { v, e := jin.AddKeyValue(x.B, x.K, x.V, x.P...); return rs(v, e) }},
	{"AddKeyValueString", "pkv", true, func(x *In) []interface{} {
		v, e := jin.AddKeyValueString(x.B, x.K, string(x.V), x.P...)
		return rs(v, e)
	}},
	{"AddKeyValueInt", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueInt(x.B, x.K, x.I, x.P...); return rs(v, e) }},
	{"AddKeyValueUint", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueUint(x.B, x.K, 1, x.P...); return rs(v, e) }},
	{"AddKeyValueInt32", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueInt32(x.B, x.K, 1, x.P...); return rs(v, e) }},
	{"AddKeyValueInt64", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueInt64(x.B, x.K, 1, x.P...); return rs(v, e) }},
	{"AddKeyValueUint32", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueUint32(x.B, x.K, 1, x.P...); return rs(v, e) }},
	{"AddKeyValueUint64", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueUint64(x.B, x.K, 1, x.P...); return rs(v, e) }},
	{"AddKeyValueFloat", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueFloat(x.B, x.K, 1.5, x.P...); return rs(v, e) }},
	{"AddKeyValueBool", "pk", true, func(x *In) []interface{} { v, e := jin.AddKeyValueBool(x.B, x.K, true, x.P...); return rs(v, e) }},
	{"Add", "pv", true, func(x *In) []interface{} { v, e := jin.Add(x.B, x.V, x.P...); return rs(v, e) }},
	{"AddString", "pv", true, func(x *In) []interface{} { v, e := jin.AddString(x.B, string(x.V), x.P...); return rs(v, e) }},
	{"AddInt", "p", true, func(x *In) []interface{} { v, e := jin.AddInt(x.B, x.I, x.P...); return rs(v, e) }},
	{"AddInt32", "p", true, func(x *In) []interface{} { v, e := jin.AddInt32(x.B, 1, x.P...); return rs(v, e) }},
	{"AddInt64", "p", true, func(x *In) []interface{} { v, e := jin.AddInt64(x.B, 1, x.P...); return rs(v, e) }},
	{"AddUint", "p", true, func(x *In) []interface{} { v, e := jin.AddUint(x.B, 1, x.P...); return rs(v, e) }},
	{"AddUint32", "p", true, func(x *In) []interface{} { v, e := jin.AddUint32(x.B, 1, x.P...); return rs(v, e) }},
	{"AddUint64", "p", true, func(x *In) []interface{} { v, e := jin.AddUint64(x.B, 1, x.P...); return rs(v, e) }},
	{"AddFloat", "p", true, func(x *In) []interface{} { v, e := jin.AddFloat(x.B, 1.5, x.P...); return rs(v, e) }},
	{"AddBool", "p", true, func(x *In) []interface{} { v, e := jin.AddBool(x.B, true, x.P...); return rs(v, e) }},
	{"Insert", "pvi", true, func(x *In) []interface{} { v, e := jin.Insert(x.B, x.I, x.V, x.P...); return rs(v, e) }},
	{"InsertString", "pvi", true, func(x *In) []interface{} {
		v, e := jin.InsertString(x.B, x.I, string(x.V), x.P...)
		return rs(v, e)
	}},
	{"InsertInt", "pi", true, func(x *In) []interface{} { v, e := jin.InsertInt(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertInt32", "pi", true, func(x *In) []interface{} { v, e := jin.InsertInt32(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertInt64", "pi", true, func(x *In) []interface{} { v, e := jin.InsertInt64(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertUint", "pi", true, func(x *In) []interface{} { v, e := jin.InsertUint(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertUint32", "pi", true, func(x *In) []interface{} { v, e := jin.InsertUint32(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertUint64", "pi", true, func(x *In) []interface{} { v, e := jin.InsertUint64(x.B, x.I, 1, x.P...); return rs(v, e) }},
	{"InsertFloat", "pi", true, func(x *In) []interface{} { v, e := jin.InsertFloat(x.B, x.I, 1.5, x.P...); return rs(v, e) }},
	{"InsertBool", "pi", true, func(x *In) []interface{} { v, e := jin.InsertBool(x.B, x.I, true, x.P...); return rs(v, e) }},
	{"Store", "pkv", true, func(x *In) []interface{} { v, e := jin.Store(x.B, x.K, x.V, x.P...); return rs(v, e) }},
	{"StoreString", "pkv", true, func(x *In) []interface{} { v, e := jin.StoreString(x.B, x.K, string(x.V), x.P...); return rs(v, e) }},
	{"StoreInt", "pk", true, func(x *In) []interface{} { v, e := jin.StoreInt(x.B, x.K, x.I, x.P...); return rs(v, e) }},
	{"StoreFloat", "pk", true, func(x *In) []interface{} { v, e := jin.StoreFloat(x.B, x.K, 1.5, x.P...); return rs(v, e) }},
	{"StoreBool", "pk", true, func(x *In) []interface{} { v, e := jin.StoreBool(x.B, x.K, true, x.P...); return rs(v, e) }},
	{"Delete", "p", true, func(x *In) []interface{} { v, e := jin.Delete(x.B, x.P...); return rs(v, e) }},
	{"Scheme.Check", "l", false, func(x *In) []interface{} { return rs(jin.MakeScheme(x.Keys...).Check(x.B)) }},
	{"Scheme.CheckAbs", "l", false, func(x *In) []interface{} { return rs(jin.MakeScheme(x.Keys...).CheckAbs(x.B)) }},
	{"Scheme.MutateJson", "l", true, func(x *In) []interface{} { v, e := jin.MakeScheme(x.Keys...).MutateJson(x.B); return rs(v, e) }},
	{"Scheme.MutateJsonAbs", "l", true, func(x *In) []interface{} { v, e := jin.MakeScheme(x.Keys...).MutateJsonAbs(x.B); return rs(v, e) }},
	{"Scheme history", "lk", false, func(x *In) []interface{} {
		s := jin.MakeScheme(x.Keys...)
		a := s.GetCurrentKeys()
		s.Save()
		s.Add(x.K)
		b := s.GetCurrentKeys()
		s.Restore()
		s.Add("other")
		c := s.GetCurrentKeys()
		s.Remove("other")
		return rs(a, b, c, s.GetOriginalKeys(), s.GetCurrentKeys())
	}},
	{"MakeJsonString", "l", true, func(x *In) []interface{} { return rs(jin.MakeJsonString(x.Keys, x.Keys)) }},
	{"MakeArrayString", "l", true, func(x *In) []interface{} { return rs(jin.MakeArrayString(x.Keys)) }},
	{"MakeArrayBytes", "v", true, func(x *In) []interface{} { return rs(jin.MakeArrayBytes(x.V, x.V)) }},
}

// parserOps work on a Parser made from the document; nil Parser means Parse failed.
func parsed(x *In, f func(p *jin.Parser) []interface{}) []interface{} {
	p, e := jin.Parse(x.B)
	if e != nil || p == nil {
		return rs(e)
	}
	return f(p)
}

func pEdit(f func(p *jin.Parser, x *In) error) func(x *In) []interface{} {
	return func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} {
			if x.Bare {
				return rs(nil, nil, f(p, x))
			}
			before := p.JSON()
			tree := p.Tree()
			e := f(p, x)
			g, e2 := p.Get(x.P...)
			return rs(before, tree, e, p.JSON(), p.GetNew(), p.Tree(), g, e2)
		})
	}
}

var parserOps = []Op{
	{"Parse", "", false, func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} { return rs(p.JSON(), p.Tree(), p.TreeFull(), p.GetNew()) })
	}},
	{"Parser.Get", "p", false, func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} {
			v, e := p.Get(x.P...)
			s, e2 := p.GetString(x.P...)
			return rs(v, e, s, e2, p.GetNew(x.P...))
		})
	}},
	{"Parser.GetTyped", "p", false, func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} {
			i, e1 := p.GetInt(x.P...)
			f, e2 := p.GetFloat(x.P...)
			b, e3 := p.GetBool(x.P...)
			sa, e4 := p.GetStringArray(x.P...)
			ia, e5 := p.GetIntArray(x.P...)
			fa, e6 := p.GetFloatArray(x.P...)
			ba, e7 := p.GetBoolArray(x.P...)
			return rs(i, e1, f, e2, b, e3, sa, e4, ia, e5, fa, e6, ba, e7)
		})
	}},
	{"Parser.Set", "pv", true, pEdit(func(p *jin.Parser, x *In) error { return p.Set(x.V, x.P...) })},
	{"Parser.SetString", "pv", true, pEdit(func(p *jin.Parser, x *In) error { return p.SetString(string(x.V), x.P...) })},
	{"Parser.SetInt", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.SetInt(x.I, x.P...) })},
	{"Parser.SetFloat", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.SetFloat(1.5, x.P...) })},
	{"Parser.SetBool", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.SetBool(true, x.P...) })},
	{"Parser.SetKey", "pk", true, pEdit(func(p *jin.Parser, x *In) error { return p.SetKey(x.K, x.P...) })},
	{"Parser.AddKeyValue", "pkv", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddKeyValue(x.K, x.V, x.P...) })},
	{"Parser.AddKeyValueString", "pkv", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddKeyValueString(x.K, string(x.V), x.P...) })},
	{"Parser.AddKeyValueInt", "pk", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddKeyValueInt(x.K, x.I, x.P...) })},
	{"Parser.AddKeyValueFloat", "pk", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddKeyValueFloat(x.K, 1.5, x.P...) })},
	{"Parser.AddKeyValueBool", "pk", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddKeyValueBool(x.K, true, x.P...) })},
	{"Parser.Add", "pv", true, pEdit(func(p *jin.Parser, x *In) error { return p.Add(x.V, x.P...) })},
	{"Parser.AddString", "pv", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddString(string(x.V), x.P...) })},
	{"Parser.AddInt", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddInt(x.I, x.P...) })},
	{"Parser.AddFloat", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddFloat(1.5, x.P...) })},
	{"Parser.AddBool", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.AddBool(true, x.P...) })},
	{"Parser.Insert", "pvi", true, pEdit(func(p *jin.Parser, x *In) error { return p.Insert(x.I, x.V, x.P...) })},
	{"Parser.InsertString", "pvi", true, pEdit(func(p *jin.Parser, x *In) error { return p.InsertString(x.I, string(x.V), x.P...) })},
	{"Parser.InsertInt", "pi", true, pEdit(func(p *jin.Parser, x *In) error { return p.InsertInt(x.I, 1, x.P...) })},
	{"Parser.InsertFloat", "pi", true, pEdit(func(p *jin.Parser, x *In) error { return p.InsertFloat(x.I, 1.5, x.P...) })},
	{"Parser.InsertBool", "pi", true, pEdit(func(p *jin.Parser, x *In) error { return p.InsertBool(x.I, true, x.P...) })},
	{"Parser.Delete", "p", true, pEdit(func(p *jin.Parser, x *In) error { return p.Delete(x.P...) })},
	{"Parser edits", "pvk", true, func(x *In) []interface{} {
		return parsed(x, func(p *jin.Parser) []interface{} {
			var out []interface{}
			snap := func(e error) {
				g, e2 := p.Get(x.P...)
				out = append(out, e, p.JSON(), g, e2, p.GetNew(), p.Tree())
			}
			snap(p.AddKeyValue("zk", x.V, x.P...))
			snap(p.Add(x.V, x.P...))
			snap(p.Set(x.V, x.P...))
			snap(p.SetKey("zl", x.P...))
			snap(p.Delete(x.P...))
			return out
		})
	}},
}

var joAllOps = []Op{
	{"JO.queries", "p", false, func(x *In) []interface{} {
		j := jin.New(x.B)
		var out []interface{}
		add := func(v ...interface{}) { out = append(out, v...) }
		add(rs(j.GetInt(x.P...))...)
		add(rs(j.GetFloat(x.P...))...)
		add(rs(j.GetBool(x.P...))...)
		add(rs(j.GetStringArray(x.P...))...)
		add(rs(j.GetIntArray(x.P...))...)
		add(rs(j.GetFloatArray(x.P...))...)
		add(rs(j.GetBoolArray(x.P...))...)
		add(rs(j.GetAll(x.Keys, x.P...))...)
		add(rs(j.GetAllMap(x.Keys, x.P...))...)
		add(rs(j.GetKeys(x.P...))...)
		add(rs(j.GetValues(x.P...))...)
		add(rs(j.GetKeysValues(x.P...))...)
		add(rs(j.GetMap(x.P...))...)
		add(rs(j.GetType(x.P...))...)
		add(rs(j.IsObject(x.P...))...)
		add(rs(j.IsArray(x.P...))...)
		add(rs(j.IsValue(x.P...))...)
		add(rs(j.IsEmpty(x.P...))...)
		var l []string
		add(j.IterateArray(cbA(&l, manyCalls), x.P...))
		add(j.IterateKeyValue(cbKV(&l, manyCalls), x.P...))
		add(j.Walk(func(k string, v []byte, p []string) (bool, error) {
			l = append(l, k, string(v))
			l = append(l, p...)
			return true, nil
		}))
		add(l, j.JSON())
		return out
	}},
	{"JO", "pvk", true, func(x *In) []interface{} {
		j := jin.New(x.B)
		var out []interface{}
		snap := func(e error) { out = append(out, e, j.JSON(), j.String()) }
		snap(nil)
		v, e := j.Get(x.P...)
		s, e2 := j.GetString(x.P...)
		out = append(out, v, e, s, e2)
		snap(j.AddKeyValue("zk", x.V, x.P...))
		snap(j.Add(x.V, x.P...))
		snap(j.Store(x.K, x.V, x.P...))
		snap(j.Insert(0, x.V, x.P...))
		snap(j.Set(x.V, x.P...))
		snap(j.SetKey("zl", x.P...))
		snap(j.Delete(x.P...))
		return out
	}},
	{"JO.edits", "pvk", true, func(x *In) []interface{} {
		j := jin.New(x.B)
		var out []interface{}
		snap := func(e error) { out = append(out, e, j.JSON(), j.String()) }
		snap(j.StoreString(x.K, string(x.V), x.P...))
		snap(j.StoreInt(x.K, 1, x.P...))
		snap(j.SetKey(x.K, x.P...))
		snap(j.AddString(string(x.V), x.P...))
		snap(j.Insert(x.I, x.V, x.P...))
		snap(j.Delete(x.P...))
		return out
	}},
}

func allOps() []Op {
	var out []Op
	out = append(out, freeOps...)
	out = append(out, parserOps...)
	return append(out, joAllOps...)
}

func (o *Op) uses(c byte) bool {
	for i := 0; i < len(o.Uses); i++ {
		if o.Uses[i] == c {
			return true
		}
	}
	return false
}

// show renders results for comparison.
func show(r []interface{}) string {
	out := ""
	for _, v := range r {
		switch t := v.(type) {
		case error:
			out += "error:" + t.Error() + ";"
		case nil:
			out += "nil;"
		default:
			out += fmt.Sprintf("%q;", t)
		}
	}
	return out
}
