package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"sync/atomic"

	"github.com/codeallergy/value"
)

func init() {
	ops["struct"] = opStruct
	ops["into"] = opInto
	ops["prefixes"] = opPrefixes
	ops["odd"] = opOdd
}

// fieldDesc describes a field, see the specification
type fieldDesc struct {
	Tag  []int `json:"tag"`
	Rep  Bytes `json:"rep"`
	Many bool  `json:"many"`
	Elem elem  `json:"elem"`
}

type elem struct {
	sort string
	name string
	node int
}

func (e *elem) UnmarshalJSON(data []byte) error {
	var parts []json.RawMessage
	if err := json.Unmarshal(data, &parts); err != nil {
		return err
	}
	if err := json.Unmarshal(parts[0], &e.sort); err != nil {
		return err
	}
	if e.sort == "n" {
		return json.Unmarshal(parts[1], &e.node)
	}
	return json.Unmarshal(parts[1], &e.name)
}

func (c Case) types() (ts [][]fieldDesc) { c.get("types", &ts); return }

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// value types a field may have
var valueTypes = map[string]reflect.Type{
	"value": typeOf[value.Value](), "bool": typeOf[value.Bool](), "number": typeOf[value.Number](),
	"string": typeOf[value.String](), "list": typeOf[value.List](), "map": typeOf[value.Map](),
	"ext":   typeOf[value.Extension](),
	"cbool": reflect.TypeOf(value.True), "clong": reflect.TypeOf(value.Long(0)), "cdbl": reflect.TypeOf(value.Double(0)),
	"cstr": reflect.TypeOf(value.Utf8("")), "craw": reflect.TypeOf(value.Raw(nil, false)),
	"cunk": reflect.TypeOf(value.Unknown([]byte{9, 9})), "cnull": reflect.TypeOf(value.Null),
}

// and some it may not have
var otherTypes = map[string]reflect.Type{
	"int": typeOf[int](), "int64": typeOf[int64](), "string": typeOf[string](), "bool": typeOf[bool](), "bytes": typeOf[[]byte](),
	"struct": typeOf[Inner](), "array": typeOf[[2]value.Value](), "map": typeOf[map[string]value.Value](),
	"mapint": typeOf[map[int]value.Value](), "func": typeOf[func() value.Value](), "chan": typeOf[chan value.Value](),
	"ptrint": typeOf[*int](), "ptrptr": typeOf[**Inner](), "ptrvalue": typeOf[*value.Value](), "ptrslice": typeOf[*[]value.Value](),
	"slices": typeOf[[][]value.Value](), "any": typeOf[interface{}](), "error": typeOf[error](), "stringer": typeOf[fmt.Stringer](),
	"collection": typeOf[value.Collection](), "float": typeOf[float64](), "array0": typeOf[[0]int](), "structs": typeOf[[3]*Inner](),
}

var fresh int64

// family is a set of types that refer to each other
type family struct {
	nodes [][]fieldDesc
	types []reflect.Type
	// the same with the fields in the opposite order, if there are such types
	turned []reflect.Type
}

func (f *fieldDesc) tag() (reflect.StructTag, bool) {
	if len(f.Tag) == 1 && f.Tag[0] < 0 {
		return "", false
	}
	b := make([]byte, len(f.Tag))
	for i, x := range f.Tag {
		b[i] = byte(x)
	}
	return reflect.StructTag("tag:" + strconv.Quote(string(b))), true
}

func (c Case) family() *family {
	f := &family{nodes: c.types()}
	if c.has("static") {
		f.types = staticTypes(c.str("static"), c.num("marker"))
		f.verify()
		return f
	}
	suffix := fmt.Sprintf("S%d", atomic.AddInt64(&fresh, 1))
	if c.has("shared") {
		suffix = ""
	}
	f.types = f.build(suffix, false)
	f.turned = f.build(suffix, true)
	return f
}

func (f *family) build(suffix string, turn bool) []reflect.Type {
	out := make([]reflect.Type, len(f.nodes))
	busy := make([]bool, len(f.nodes))
	var node func(k int) reflect.Type
	node = func(k int) reflect.Type {
		if out[k] != nil {
			return out[k]
		}
		if busy[k] {
			panic(caseError("recursive type"))
		}
		busy[k] = true
		var fields []reflect.StructField
		for i := range f.nodes[k] {
			d := &f.nodes[k][i]
			var t reflect.Type
			switch d.Elem.sort {
			case "v":
				t = valueTypes[d.Elem.name]
			case "x":
				t = otherTypes[d.Elem.name]
			case "n":
				t = reflect.PointerTo(node(d.Elem.node - 1))
			}
			if t == nil {
				panic(caseError("no type " + d.Elem.name))
			}
			if d.Many {
				t = reflect.SliceOf(t)
			}
			tag, ok := d.tag()
			var tags reflect.StructTag
			if len(d.Rep) > 0 {
				tags = reflect.StructTag("repeated:" + strconv.Quote(string(d.Rep)))
			}
			if ok && i%2 == 0 {
				tags = tag + " " + tags
			} else if ok {
				tags = reflect.StructTag(`json:"x,omitempty" `) + tags + " " + tag
			}
			fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d%s", i, suffix), Type: t, Tag: tags})
		}
		if turn {
			for i, j := 0, len(fields)-1; i < j; i, j = i+1, j-1 {
				fields[i], fields[j] = fields[j], fields[i]
			}
		}
		out[k] = reflect.StructOf(fields)
		return out[k]
	}
	for k := range f.nodes {
		node(k)
	}
	return out
}

// verify that types written in Go are those described
func (f *family) verify() {
	bad := func(k int, what string) { panic(caseError(fmt.Sprintf("type %v: %s", f.types[k], what))) }
	if len(f.types) != len(f.nodes) {
		panic(caseError("other number of types"))
	}
	for k, t := range f.types {
		if t.NumField() != len(f.nodes[k]) {
			bad(k, "number of fields")
		}
		for i := range f.nodes[k] {
			d, g := &f.nodes[k][i], t.Field(i)
			want, ok := d.tag()
			tag, has := g.Tag.Lookup("tag")
			if ok != has || ok && want.Get("tag") != tag {
				bad(k, "tag "+tag)
			}
			if g.Tag.Get("repeated") != string(d.Rep) {
				bad(k, "repeated")
			}
			ft := g.Type
			if d.Many {
				if ft.Kind() != reflect.Slice {
					bad(k, "slice")
				}
				ft = ft.Elem()
			}
			switch d.Elem.sort {
			case "v":
				if ft != valueTypes[d.Elem.name] {
					bad(k, d.Elem.name)
				}
			case "n":
				if ft != reflect.PointerTo(f.types[d.Elem.node-1]) {
					bad(k, "pointer")
				}
			case "x":
				if d.Elem.name == "embedded" && g.Anonymous && ft.Kind() == reflect.Struct {
					continue
				}
				if g.PkgPath == "" && ft != otherTypes[d.Elem.name] {
					bad(k, d.Elem.name)
				}
			}
		}
	}
}

// at is where the field i of a node is in a type, turned or not
func at(n, i int, turned bool) int {
	if turned {
		return n - 1 - i
	}
	return i
}

func (f *family) instance(k int, raw json.RawMessage, turned bool) reflect.Value {
	ts := f.types
	if turned {
		ts = f.turned
	}
	p := reflect.New(ts[k])
	f.fill(p.Elem(), k, raw, turned)
	return p
}

func tagged(raw json.RawMessage) (string, json.RawMessage) {
	var parts []json.RawMessage
	var tag string
	if err := json.Unmarshal(raw, &parts); err != nil || len(parts) == 0 {
		panic(caseError("bad instance"))
	}
	if err := json.Unmarshal(parts[0], &tag); err != nil {
		panic(caseError("bad instance"))
	}
	if len(parts) == 1 {
		return tag, nil
	}
	return tag, parts[1]
}

func (f *family) fill(s reflect.Value, k int, raw json.RawMessage, turned bool) {
	var cells []json.RawMessage
	if err := json.Unmarshal(raw, &cells); err != nil || len(cells) != s.NumField() {
		panic(caseError("bad instance of node"))
	}
	for i, cell := range cells {
		d := &f.nodes[k][i]
		field := s.Field(at(len(cells), i, turned))
		if !field.CanSet() {
			continue
		}
		tag, x := tagged(cell)
		switch tag {
		case "none":
		case "one":
			f.put(field, d, x, turned)
		case "many":
			var xs []json.RawMessage
			if err := json.Unmarshal(x, &xs); err != nil {
				panic(caseError("bad elements"))
			}
			sl := reflect.MakeSlice(field.Type(), len(xs), len(xs))
			for j, x := range xs {
				f.put(sl.Index(j), d, x, turned)
			}
			field.Set(sl)
		default:
			panic(caseError("bad field " + tag))
		}
	}
}

func (f *family) put(dst reflect.Value, d *fieldDesc, raw json.RawMessage, turned bool) {
	tag, x := tagged(raw)
	switch tag {
	case "none":
	case "inst":
		dst.Set(f.instance(d.Elem.node-1, x, turned))
	default:
		if d.Elem.sort != "v" {
			return // a type that is rejected, whatever it holds
		}
		var v Desc
		if err := json.Unmarshal(raw, &v); err != nil {
			panic(caseError(err.Error()))
		}
		if b := v.build(); b != nil {
			dst.Set(reflect.ValueOf(b))
		}
	}
}

func isNil(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// see is the content of an instance
func (f *family) see(s reflect.Value, k int, turned bool) []interface{} {
	n := s.NumField()
	out := make([]interface{}, n)
	for i := range out {
		d := &f.nodes[k][i]
		field := s.Field(at(n, i, turned))
		switch {
		case isNil(field):
			out[i] = T{"none"}
		case d.Many:
			xs := make([]interface{}, field.Len())
			for j := range xs {
				xs[j] = f.seeOne(field.Index(j), d, turned)
			}
			out[i] = T{"many", xs}
		default:
			out[i] = T{"one", f.seeOne(field, d, turned)}
		}
	}
	return out
}

func (f *family) seeOne(x reflect.Value, d *fieldDesc, turned bool) interface{} {
	if isNil(x) {
		return T{"none"}
	}
	if d.Elem.sort == "n" {
		return T{"inst", f.see(x.Elem(), d.Elem.node-1, turned)}
	}
	if v, ok := x.Interface().(value.Value); ok {
		return abs(v)
	}
	return T{"what", fmt.Sprint(x.Type())}
}

func packed(obj interface{}) ([]byte, T) {
	b, err := value.PackStruct(obj)
	if err != nil {
		return nil, T{"err"}
	}
	return b, T{"ok", Bytes(b)}
}

func (f *family) into(k int, in []byte, copyFlag, turned, look bool) T {
	ts := f.types
	if turned {
		ts = f.turned
	}
	p := reflect.New(ts[k])
	if err := value.UnpackStruct(in, p.Interface(), copyFlag); err != nil {
		_ = err.Error()
		return T{"err"}
	}
	if !look {
		return T{"ok"}
	}
	return T{"ok", f.see(p.Elem(), k, turned)}
}

type use struct {
	Root  int             `json:"root"`
	Inst  json.RawMessage `json:"inst"`
	First bool            `json:"first"` // deserialize before serializing
}

func opStruct(c Case) Result {
	f := c.family()
	var uses []use
	c.get("uses", &uses)
	out := []interface{}{}
	for _, u := range uses {
		k := u.Root - 1
		var packs, backs []T
		if u.First {
			f.into(k, []byte{0x80}, false, false, true)
		}
		p := f.instance(k, u.Inst, false)
		in := []byte{0x80}
		for i := 0; i < 2; i++ {
			b, t := packed(p.Interface())
			packs = append(packs, t)
			if b != nil {
				in = b
			}
		}
		if f.turned != nil {
			_, t := packed(f.instance(k, u.Inst, true).Interface())
			packs = append(packs, t)
		}
		in = append([]byte{}, in...)
		backs = append(backs, f.into(k, in, false, false, true), f.into(k, in, true, false, true))
		backs = append(backs, f.into(k, append(append([]byte{}, in...), 0x91), true, false, true))
		if f.turned != nil {
			backs = append(backs, f.into(k, in, false, true, true))
		}
		v, err := value.Unpack(in, false)
		out = append(out, Result{"root": u.Root, "inst": u.Inst, "packs": packs, "backs": backs, "generic": outcome(v, err)})
	}
	return Result{"uses": out}
}

func opInto(c Case) Result {
	f := c.family()
	k := c.num("root") - 1
	in := []byte(c.bytes("in"))
	if c.has("rep") {
		in = bytes.Repeat(in, c.num("rep"))
	}
	if c.has("then") {
		in = append(in, c.bytes("then")...)
	}
	var res []T
	var alloc uint64
	for _, cp := range []bool{false, true} {
		for _, turned := range []bool{false, true} {
			if turned && (f.turned == nil || cp) {
				continue
			}
			var r T
			n := allocated(func() { r = f.into(k, in, cp, turned, !c.has("rep")) })
			if n > alloc {
				alloc = n
			}
			res = append(res, r)
		}
	}
	if alloc > maxReported {
		alloc = maxReported
	}
	return Result{"res": res, "alloc": alloc, "size": len(in)}
}

func opPrefixes(c Case) Result {
	f := c.family()
	k := c.num("root") - 1
	in := []byte(c.bytes("in"))
	res := []T{}
	for n := 0; n < len(in); n++ {
		res = append(res, f.into(k, append([]byte{}, in[:n]...), n%2 == 0, false, false))
	}
	return Result{"res": res}
}

type Inner struct {
	V value.Value `tag:"1"`
}

// instances that are no pointers to structs
func opOdd(c Case) Result {
	inner := &Inner{V: value.True}
	var nilInner *Inner
	var nilPtrPtr **Inner
	var iface interface{} = inner
	n, s, b := 5, "s", []byte{1}
	v := value.Value(value.True)
	var nilValue value.Value
	var l []value.Value
	odd := map[string]interface{}{
		"nil": nil, "struct": *inner, "nilptr": nilInner, "ptrptr": &inner, "nilptrptr": nilPtrPtr, "ptriface": &iface,
		"int": n, "ptrint": &n, "string": s, "ptrstring": &s, "bytes": b, "ptrbytes": &b, "ptrvalue": &v, "ptrnilvalue": &nilValue,
		"slice": []*Inner{inner}, "map": map[string]value.Value{}, "ptrmap": &map[string]value.Value{}, "func": func() {},
		"nilfunc": (func())(nil), "chan": make(chan int), "array": [1]*Inner{inner}, "ptrarray": &[1]*Inner{inner}, "nilslice": l,
		"ptrslice": &l, "float": 1.5, "bool": true, "nilint": (*int)(nil), "nilmap": map[string]value.Value(nil), "type": reflect.TypeOf(1),
		"structs": struct{}{}, "ptrnilptr": &nilInner,
	}
	kind := c.str("kind")
	obj, ok := odd[kind]
	if kind == "value" {
		obj, ok = c.desc("v").build(), true
	}
	if !ok {
		panic(caseError("no instance " + kind))
	}
	_, t := packed(obj)
	into := T{"ok"}
	for _, in := range [][]byte{{0x80}, {0x81, 1, 0xc3}, {0xc0}, {}} {
		for _, cp := range []bool{false, true} {
			err := value.UnpackStruct(in, obj, cp)
			if err != nil && len(into) == 1 && into[0] == "ok" {
				into = T{"err"}
			} else if err == nil {
				into = T{"ok", Bytes(in)}
			}
		}
	}
	return Result{"pack": t, "into": into}
}
