package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/big"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

// T is a tuple of the specification's value notation.
type T []interface{}

func word(n uint64) Bytes {
	b := make(Bytes, 8)
	binary.BigEndian.PutUint64(b, n)
	return b
}

func unword(b Bytes) uint64 {
	if len(b) != 8 {
		panic(caseError("not a word"))
	}
	return binary.BigEndian.Uint64(b)
}

var sparseClass = value.EmptySparseList().Class()

func sparseList(l value.Value) bool {
	return l.Class() == sparseClass
}

// abs is the content of a value, in the notation of the specification.
func abs(v value.Value) interface{} {
	if v == nil {
		return T{"nil"}
	}
	switch v.Kind() {
	case value.NULL:
		return T{"null"}
	case value.BOOL:
		return T{"bool", v.(value.Bool).Boolean()}
	case value.NUMBER:
		return absNumber(v.(value.Number))
	case value.STRING:
		s := v.(value.String)
		if s.Type() == value.UTF8 {
			return T{"utf8", Bytes(s.Utf8())}
		} else if s.Type() == value.RAW {
			return T{"raw", append(Bytes{}, s.Raw()...)}
		}
	case value.LIST:
		if sparseList(v) {
			return T{"sparse", absItems(v.(value.List).Items())}
		}
		return T{"list", absValues(v.(value.List).Values())}
	case value.MAP:
		return T{"map", absEntries(v.(value.Map).Entries())}
	case value.UNKNOWN:
		return T{"unk", append(Bytes{}, v.(value.Extension).Native()...)}
	}
	return T{"what", fmt.Sprintf("%v %T", v.Kind(), v)}
}

func absNumber(n value.Number) interface{} {
	switch n.Type() {
	case value.LONG:
		return T{"long", word(uint64(n.Long()))}
	case value.DOUBLE:
		return T{"double", word(math.Float64bits(n.Double()))}
	case value.BIGINT:
		return absBig(n.BigInt())
	case value.DECIMAL:
		return absDec(n.Decimal())
	}
	return T{"what", fmt.Sprint(n.Type())}
}

func absBig(x *big.Int) T {
	return T{"big", x.Sign() < 0, append(Bytes{}, x.Bytes()...)}
}

func absDec(d decimal.Decimal) T {
	var e [4]byte
	binary.BigEndian.PutUint32(e[:], uint32(d.Exponent()))
	c := d.Coefficient()
	return T{"dec", c.Sign() < 0, append(Bytes{}, c.Bytes()...), Bytes(e[:])}
}

func absValues(vs []value.Value) []interface{} {
	out := make([]interface{}, len(vs))
	for i, v := range vs {
		out[i] = abs(v)
	}
	return out
}

func absItems(items []value.ListItem) []interface{} {
	out := make([]interface{}, len(items))
	for i, item := range items {
		out[i] = T{word(uint64(item.Key())), abs(item.Value())}
	}
	return out
}

func absEntries(entries []value.MapEntry) []interface{} {
	out := make([]interface{}, len(entries))
	for i, entry := range entries {
		out[i] = T{Bytes(entry.Key()), abs(entry.Value())}
	}
	return out
}

// Desc is the description of a value to build.
type Desc struct {
	tag  string
	impl string
	b    Bytes
	exp  Bytes
	neg  bool
	elem []Desc
	keys []Bytes
}

func (d *Desc) UnmarshalJSON(data []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(data, &parts); err != nil {
		return err
	}
	if len(parts) == 0 {
		return fmt.Errorf("empty value")
	}
	if err := json.Unmarshal(parts[0], &d.tag); err != nil {
		return err
	}
	get := func(i int, dst interface{}) {
		if i >= len(parts) {
			panic(caseError("short value " + d.tag))
		}
		if err := json.Unmarshal(parts[i], dst); err != nil {
			panic(caseError(err.Error()))
		}
	}
	pairs := func(i int) {
		var ps [][]json.RawMessage
		get(i, &ps)
		for _, p := range ps {
			var k Bytes
			var e Desc
			if err := json.Unmarshal(p[0], &k); err != nil {
				panic(caseError(err.Error()))
			}
			if err := json.Unmarshal(p[1], &e); err != nil {
				panic(caseError(err.Error()))
			}
			d.keys = append(d.keys, k)
			d.elem = append(d.elem, e)
		}
	}
	switch d.tag {
	case "nil", "null":
	case "bool":
		get(1, &d.neg)
	case "long", "double", "utf8", "raw", "unk":
		get(1, &d.b)
	case "big":
		get(1, &d.neg)
		get(2, &d.b)
	case "dec":
		get(1, &d.neg)
		get(2, &d.b)
		get(3, &d.exp)
	case "list":
		get(1, &d.impl)
		get(2, &d.elem)
	case "sparse":
		pairs(1)
	case "map":
		get(1, &d.impl)
		pairs(2)
	default:
		return fmt.Errorf("no value %q", d.tag)
	}
	return nil
}

func (c Case) desc(name string) Desc { var d Desc; c.get(name, &d); return d }

func (d Desc) big() *big.Int {
	x := new(big.Int).SetBytes(d.b)
	if d.neg {
		x.Neg(x)
	}
	return x
}

// a route is the way in which containers are built
type route struct {
	flip bool // the other implementation of lists and maps
	ops  int  // 0: by constructor, 1.. by operations
}

func (d Desc) build() value.Value { return d.buildBy(route{}) }

func (d Desc) buildAll(r route) []value.Value {
	out := make([]value.Value, len(d.elem))
	for i, e := range d.elem {
		out[i] = e.buildBy(r)
	}
	return out
}

func (d Desc) buildBy(r route) value.Value {
	switch d.tag {
	case "nil":
		return nil
	case "null":
		return value.Null
	case "bool":
		return value.Boolean(d.neg)
	case "long":
		return value.Long(int64(unword(d.b)))
	case "double":
		return value.Double(math.Float64frombits(unword(d.b)))
	case "big":
		return value.BigInt(d.big())
	case "dec":
		return value.Decimal(d.dec())
	case "utf8":
		return value.Utf8(string(d.b))
	case "raw":
		return value.Raw(d.b, true)
	case "unk":
		return value.Unknown(append([]byte{}, d.b...))
	case "list":
		return d.buildList(r)
	case "sparse":
		return d.buildSparse(r)
	case "map":
		return d.buildMap(r)
	}
	panic(caseError("cannot build " + d.tag))
}

func (d Desc) dec() decimal.Decimal {
	return decimal.NewFromBigInt(d.big(), int32(binary.BigEndian.Uint32(d.exp)))
}

func (d Desc) mutable(r route) bool { return (d.impl == "m") != r.flip }

func (d Desc) buildList(r route) value.List {
	vs := d.buildAll(r)
	mutable := d.mutable(r)
	if r.ops > 0 && len(vs) <= 64 {
		for _, v := range vs {
			if v == nil { // operations store nulls, holes need a constructor
				r.ops = 0
			}
		}
	}
	if r.ops > 0 && len(vs) <= 64 {
		l := value.EmptyList(!mutable)
		switch r.ops {
		case 1:
			for _, v := range vs {
				l = l.Append(v)
			}
		case 2:
			for i := len(vs) - 1; i >= 0; i-- {
				l = l.InsertAt(0, vs[i])
			}
		case 3:
			l = l.InsertAll(0, vs)
		default:
			for i, v := range vs {
				l = l.PutAt(i, v)
			}
		}
		return l
	}
	if mutable {
		if len(vs) == 1 {
			return value.Single(vs[0])
		} else if len(vs)%2 == 0 {
			return value.Tuple(vs...)
		}
		return value.MutableList(vs)
	}
	return value.ImmutableList(vs)
}

func (d Desc) buildSparse(r route) value.List {
	vs := d.buildAll(r)
	if r.ops > 0 && len(vs) <= 64 {
		l := value.EmptySparseList()
		// each goes before the later ones with the same index
		for i := len(vs) - 1; i >= 0; i-- {
			k := int(unword(d.keys[i]))
			if r.ops == 2 {
				l = l.InsertAll(k, []value.Value{vs[i]})
			} else {
				l = l.InsertAt(k, vs[i])
			}
		}
		return l
	}
	items := make([]value.ListItem, len(vs))
	for i, v := range vs {
		k := int(unword(d.keys[i]))
		if r.flip {
			items[i] = value.ImmutableItem(k, v)
		} else {
			items[i] = value.MutableItem(k, v)
		}
	}
	return value.SparseList(items, false)
}

func (d Desc) buildMap(r route) value.Map {
	vs := d.buildAll(r)
	mutable := d.mutable(r)
	if r.ops > 0 && len(vs) <= 64 {
		m := value.EmptyMap(!mutable)
		for i := len(vs) - 1; i >= 0; i-- {
			if r.ops == 2 {
				m = m.InsertAll(string(d.keys[i]), []value.Value{vs[i]})
			} else {
				m = m.Insert(string(d.keys[i]), vs[i])
			}
		}
		return m
	}
	if r.ops < 0 { // from a Go map, if keys differ
		src := make(map[string]value.Value)
		for i, v := range vs {
			src[string(d.keys[i])] = v
		}
		if len(src) == len(vs) {
			if mutable {
				return value.SortedMapOf(src)
			}
			return value.ImmutableMapOf(src)
		}
	}
	entries := make([]value.MapEntry, len(vs))
	for i, v := range vs {
		if mutable {
			entries[i] = value.MutableEntry(string(d.keys[i]), v)
		} else {
			entries[i] = value.ImmutableEntry(string(d.keys[i]), v)
		}
	}
	if mutable {
		return value.SortedMap(entries, false)
	}
	return value.ImmutableMap(entries, false)
}
