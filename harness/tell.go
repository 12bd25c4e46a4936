package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"reflect"

	"github.com/codeallergy/value"
	"github.com/shopspring/decimal"
)

func init() {
	ops["tell"] = opTell
	ops["names"] = opNames
}

// absObject is the payload of a value, in the notation of the specification.
func absObject(o interface{}) interface{} {
	switch x := o.(type) {
	case nil:
		return T{"null"}
	case bool:
		return T{"bool", x}
	case int64:
		return T{"long", word(uint64(x))}
	case float64:
		return T{"double", word(math.Float64bits(x))}
	case *big.Int:
		return absBig(x)
	case decimal.Decimal:
		return absDec(x)
	case string:
		return T{"utf8", Bytes(x)}
	case []byte:
		return T{"bytes", append(Bytes{}, x...)}
	case []value.Value:
		return T{"list", absValues(x)}
	case []value.ListItem:
		return T{"sparse", absItems(x)}
	case []value.MapEntry:
		return T{"map", absEntries(x)}
	}
	return T{"what", fmt.Sprintf("%T", o)}
}

// face is everything a value says about itself, with that of its elements.
func face(v value.Value) interface{} {
	if v == nil {
		return T{"nil"}
	}
	ifaces := []string{}
	has := func(name string, ok bool) {
		if ok {
			ifaces = append(ifaces, name)
		}
	}
	_, ok := v.(value.Bool)
	has("bool", ok)
	_, ok = v.(value.Number)
	has("number", ok)
	_, ok = v.(value.String)
	has("string", ok)
	_, ok = v.(value.List)
	has("list", ok)
	_, ok = v.(value.Map)
	has("map", ok)
	_, ok = v.(value.Extension)
	has("extension", ok)
	_, ok = v.(value.Collection)
	has("collection", ok)
	sort := ""
	payload := T{}
	children := []interface{}{}
	switch x := v.(type) {
	case value.Bool:
		payload = T{x.Boolean()}
	case value.Number:
		sort = x.Type().String()
		payload = T{x.IsNaN(), absNumber(x)}
	case value.String:
		sort = x.Type().String()
		payload = T{x.Len(), Bytes(x.Utf8()), append(Bytes{}, x.Raw()...)}
	case value.List:
		payload = T{len(x.Items())}
		for _, item := range x.Items() {
			children = append(children, face(item.Value()))
		}
	case value.Map:
		payload = T{x.Len()}
		for _, e := range x.Entries() {
			children = append(children, face(e.Value()))
		}
	case value.Extension:
		payload = T{append(Bytes{}, x.Native()...)}
		if y, ok := v.(interface {
			Tag() value.Ext
			Data() []byte
		}); ok {
			payload = append(payload, int(y.Tag()), append(Bytes{}, y.Data()...))
		}
	}
	class := v.Class()
	return T{v.Kind().String(), sort, ifaces, class == reflect.TypeOf(v) && class.Implements(value.ValueClass),
		absObject(v.Object()), Bytes(v.String()), payload, children}
}

// tell: what a value says about itself, however it came about
func opTell(c Case) Result {
	d := c.desc("v")
	base := d.build()
	first := face(base)
	want := text(first)
	others := []interface{}{}
	add := func(how string, v value.Value) {
		if f := face(v); text(f) != want {
			others = append(others, T{how, f})
		}
	}
	add("again", base)
	for _, r := range []route{{flip: true}, {ops: 1}, {ops: 2, flip: true}, {ops: -1}, {ops: -1, flip: true}} {
		add("built", d.buildBy(r))
	}
	switch d.tag {
	case "utf8":
		add("str", value.Str(string(d.b)))
		add("strf", value.Stringf("%s", string(d.b)))
	case "raw":
		add("raw", value.Raw(append([]byte{}, d.b...), false))
	case "map":
		m := base.(value.Map)
		add("sorted copy", value.SortedMapCopyOf(m))
		add("immutable copy", value.ImmutableMapCopyOf(m))
	}
	res := Result{"face": first, "others": others}
	data, err := value.Pack(base)
	check(err)
	read := [](func() (value.Value, error)){
		func() (value.Value, error) { return value.Unpack(data, true) },
		func() (value.Value, error) { return value.Unpack(data, false) },
		func() (value.Value, error) { return value.Read(bytes.NewReader(data)) },
	}
	back := []interface{}{}
	seen := map[string]bool{}
	for _, f := range read {
		v, err := f()
		x := interface{}(T{errKind(err)})
		if err == nil {
			x = face(v)
		}
		if s := text(x); !seen[s] {
			seen[s] = true
			back = append(back, x)
		}
	}
	res["back"] = back
	return res
}

// names: the constants and names of the library, and what it parses as null
func opNames(c Case) Result {
	kinds := []string{}
	for _, k := range []value.Kind{value.INVALID, value.NULL, value.BOOL, value.NUMBER, value.STRING, value.LIST, value.MAP, value.UNKNOWN} {
		kinds = append(kinds, k.String())
	}
	numbers := []string{}
	for _, k := range []value.NumberType{value.InvalidNumber, value.LONG, value.DOUBLE, value.BIGINT, value.DECIMAL} {
		numbers = append(numbers, k.String())
	}
	strs := []string{}
	for _, k := range []value.StringType{value.InvalidString, value.UTF8, value.RAW} {
		strs = append(strs, k.String())
	}
	consts := []interface{}{}
	for _, v := range []value.Value{value.True, value.False, value.Null, value.Nil(), value.Zero, value.One, value.EmptyString,
		value.Boolean(true), value.Boolean(false), value.BigInt(nil),
		value.EmptyList(true), value.EmptyList(false), value.EmptyImmutableList(), value.EmptyMutableList(), value.EmptySparseList(),
		value.EmptyMap(true), value.EmptyMap(false), value.EmptyImmutableMap(), value.EmptyMutableMap()} {
		consts = append(consts, abs(v))
	}
	updates := []bool{}
	up := setNull{}
	for _, l := range []value.List{value.EmptyList(true), value.EmptyList(false), value.EmptyImmutableList(), value.EmptyMutableList()} {
		updates = append(updates, l.Append(value.True).UpdateAt(0, up))
	}
	for _, m := range []value.Map{value.EmptyMap(true), value.EmptyMap(false), value.EmptyImmutableMap(), value.EmptyMutableMap()} {
		updates = append(updates, m.Put("k", value.True).Update("k", up))
	}
	nulls := []interface{}{}
	var texts []Bytes
	c.get("texts", &texts)
	for _, t := range texts {
		nulls = append(nulls, T{abs(value.ParseNull(string(t))), value.ParseBoolean(string(t)).Boolean(), abs(value.ParseString(string(t)))})
	}
	return Result{"kinds": kinds, "numbers": numbers, "strings": strs, "consts": consts, "nan": math.IsNaN(value.Nan.Double()),
		"updates": updates, "parsed": nulls}
}

type setNull struct{}

func (setNull) Update(value.Value) value.Value { return value.Null }
