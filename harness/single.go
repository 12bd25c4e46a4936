package main

import (
	"encoding/json"
	"math"
	"strings"

	"github.com/codeallergy/value"
)

func init() {
	ops["equal"] = opEqual
	ops["json"] = opJSON
	ops["lookup"] = opLookup
	ops["parse"] = opParse
	ops["reparse"] = opReparse
	ops["arith"] = opArith
}

// ways of comparing x with y, all of which must agree
func compare(x, y value.Value) []bool {
	out := []bool{value.Equal(x, y)}
	if x != nil {
		out = append(out, x.Equal(y))
	}
	lists := func(v value.Value) []value.List {
		return []value.List{
			value.ImmutableList([]value.Value{v}),
			value.MutableList([]value.Value{v}),
		}
	}
	for _, l := range lists(x) {
		for _, m := range lists(y) {
			out = append(out, value.Equal(l, m))
		}
	}
	sparse := func(v value.Value) value.List {
		return value.SparseList([]value.ListItem{value.MutableItem(7, v)}, false)
	}
	out = append(out, sparse(x).Equal(sparse(y)))
	maps := func(v value.Value) []value.Map {
		return []value.Map{
			value.ImmutableMap([]value.MapEntry{value.ImmutableEntry("k", v)}, false),
			value.SortedMap([]value.MapEntry{value.MutableEntry("k", v)}, false),
		}
	}
	for _, l := range maps(x) {
		for _, m := range maps(y) {
			out = append(out, l.Equal(m))
		}
	}
	items := func(v value.Value) []value.ListItem {
		return []value.ListItem{value.MutableItem(-3, v), value.ImmutableItem(-3, v)}
	}
	for _, l := range items(x) {
		for _, m := range items(y) {
			out = append(out, l.Equal(m))
		}
	}
	entries := func(v value.Value) []value.MapEntry {
		return []value.MapEntry{value.MutableEntry("", v), value.ImmutableEntry("", v)}
	}
	for _, l := range entries(x) {
		for _, m := range entries(y) {
			out = append(out, l.Equal(m))
		}
	}
	return out
}

func opEqual(c Case) Result {
	if c.has("tol") {
		old := value.PrecisionLevel
		value.PrecisionLevel = math.Float64frombits(unword(c.bytes("tol")))
		defer func() { value.PrecisionLevel = old }()
	}
	da, db := c.desc("a"), c.desc("b")
	a, b := da.build(), db.build()
	eqs := append(compare(a, b), compare(b, a)...)
	// the other implementations
	a2, b2 := da.buildBy(route{flip: true}), db.buildBy(route{flip: true})
	eqs = append(eqs, value.Equal(a2, b), value.Equal(b, a2), value.Equal(a, b2), value.Equal(b2, a), value.Equal(a2, b2))
	var selfs [2][]bool
	for n, p := range [][3]interface{}{{a, a2, da}, {b, b2, db}} {
		x, _ := p[0].(value.Value)
		y, _ := p[1].(value.Value)
		d := p[2].(Desc)
		own := append(compare(x, x), value.Equal(x, y), value.Equal(y, x))
		for _, r := range []route{{ops: 1}, {flip: true, ops: 2}} {
			z := d.buildBy(r)
			own = append(own, value.Equal(x, z), value.Equal(z, x))
		}
		selfs[n] = own
	}
	return Result{"eqs": eqs, "selfs": selfs, "seen": []interface{}{abs(a), abs(b)}}
}

func opJSON(c Case) Result {
	d := c.desc("v")
	var texts, other []Bytes
	err := error(nil)
	for _, r := range []route{{}, {flip: true}} {
		v := d.buildBy(r)
		texts = append(texts, Bytes(value.Jsonify(v)))
		if v != nil {
			var out strings.Builder
			out.WriteString("before")
			v.PrintJSON(&out)
			if s := out.String(); strings.HasPrefix(s, "before") {
				texts = append(texts, Bytes(s[len("before"):]))
			} else {
				texts = append(texts, Bytes{})
			}
			data, e := v.MarshalJSON()
			if e != nil {
				err = e
			}
			texts = append(texts, Bytes(data))
			if k := v.Kind(); k == value.LIST || k == value.MAP {
				texts = append(texts, Bytes(v.String()))
			}
		}
		data, e := json.Marshal(v)
		if e != nil {
			err = e
		}
		other = append(other, Bytes(data))
	}
	// most are the same: keep what differs
	var uniq []Bytes
	for _, t := range texts {
		if len(uniq) == 0 || string(t) != string(uniq[0]) {
			uniq = append(uniq, t)
		}
	}
	var others []Bytes
	for _, t := range other {
		if (len(others) == 0 || string(t) != string(others[0])) && string(t) != string(uniq[0]) {
			others = append(others, t)
		}
	}
	res := Result{"texts": uniq, "other": others, "err": "nil"}
	if others == nil {
		res["other"] = []Bytes{}
	}
	if err != nil {
		res["err"] = err.Error()
	}
	return res
}

func absIf(v value.Value) interface{} {
	if v == nil {
		return T{"gonil"}
	}
	return abs(v)
}

func opLookup(c Case) Result {
	d := c.desc("v")
	var keys []Bytes
	c.get("keys", &keys)
	var rows [][]interface{}
	var after interface{}
	for n, r := range []route{{}, {flip: true}, {ops: 1}, {flip: true, ops: 1}} {
		v := d.buildBy(r)
		for i, k := range keys {
			var row []interface{}
			switch x := v.(type) {
			case value.Map:
				s := string(k)
				row = []interface{}{k, abs(x.Get(s)), absIf(x.GetBool(s)), absIf(x.GetNumber(s)), absIf(x.GetString(s)),
					absIf(x.GetList(s)), absIf(x.GetMap(s))}
			case value.List:
				j := int(unword(k))
				row = []interface{}{k, abs(x.GetAt(j)), absIf(x.GetBoolAt(j)), absIf(x.GetNumberAt(j)),
					absIf(x.GetStringAt(j)), absIf(x.GetListAt(j)), absIf(x.GetMapAt(j))}
			}
			if n == 0 {
				rows = append(rows, row)
			} else {
				a, _ := json.Marshal(row)
				b, _ := json.Marshal(rows[i])
				if string(a) != string(b) {
					// judged like the others
					rows = append(rows, row)
				}
			}
		}
		if n == 0 {
			after = abs(v)
		}
	}
	return Result{"rows": rows, "after": after}
}

func opParse(c Case) Result {
	t := string(c.bytes("text"))
	return Result{"number": absIf(value.ParseNumber(t)), "string": absIf(value.ParseString(t)),
		"bool": value.ParseBoolean(t).Boolean()}
}

func opReparse(c Case) Result {
	v := c.desc("v").build()
	text := v.String()
	if v.Kind() == value.STRING {
		return Result{"text": Bytes(text), "back": absIf(value.ParseString(text)), "eqs": []bool{}}
	}
	n := value.ParseNumber(text)
	return Result{"text": Bytes(text), "back": absIf(n), "eqs": []bool{value.Equal(v, n), value.Equal(n, v)}}
}

func conversions(n value.Number) []interface{} {
	return []interface{}{abs(value.Long(n.Long())), abs(value.Double(n.Double())), absBig(n.BigInt()), absDec(n.Decimal())}
}

func opArith(c Case) Result {
	a, b := c.desc("a").build().(value.Number), c.desc("b").build().(value.Number)
	if c.has("same") {
		// one number is both operands
		b = a
	}
	ca, cb := conversions(a), conversions(b)
	sum, diff := a.Add(b), a.Subtract(b)
	first := []interface{}{abs(sum), abs(diff)}
	again := []interface{}{abs(a.Add(b)), abs(a.Subtract(b))}
	// a result is not an operand
	sum.Add(b)
	sum.Subtract(a)
	return Result{"conva": ca, "convb": cb, "sum": first[0], "diff": first[1], "again": again,
		"after": []interface{}{abs(a), abs(b)}, "nan": []bool{a.IsNaN(), b.IsNaN()}}
}
