package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"encoding/json"
	"fmt"
	"sort"

	"github.com/codeallergy/value"
)

func init() {
	ops["hist"] = opHist
}

// version is a collection that some step of a history gave.
type version struct {
	coll string
	l    value.List
	m    value.Map
	last string
}

type lentArg struct {
	was string
	now func() string
}

type history struct {
	versions []*version
	lent     []lentArg
	probes   []Bytes
}

func (v *version) value() value.Value {
	if v.coll == "map" {
		return v.m
	}
	return v.l
}

// observe gives what all the accessors say.
func (v *version) observe(probes []Bytes) Result {
	r := Result{}
	if v.coll == "map" {
		m := v.m
		r["len"] = word(uint64(m.Len()))
		r["pairs"] = absEntries(m.Entries())
		keys := []interface{}{}
		for _, k := range m.Keys() {
			keys = append(keys, Bytes(k))
		}
		r["keys"] = keys
		r["values"] = absValues(m.Values())
		hm := m.HashMap()
		names := []string{}
		for k := range hm {
			names = append(names, k)
		}
		sort.Strings(names)
		h := []interface{}{}
		for _, k := range names {
			h = append(h, T{Bytes(k), abs(hm[k])})
		}
		r["hash"] = h
		gets, sels := []interface{}{}, []interface{}{}
		for _, p := range probes {
			gets = append(gets, abs(m.Get(string(p))))
			sels = append(sels, absValues(m.Select(string(p))))
		}
		r["get"], r["sel"] = gets, sels
		return r
	}
	l := v.l
	r["len"] = word(uint64(l.Len()))
	items := l.Items()
	r["pairs"] = absItems(items)
	entries := []interface{}{}
	for _, e := range l.Entries() {
		entries = append(entries, T{Bytes(e.Key()), abs(e.Value())})
	}
	r["entries"] = entries
	small := true
	for _, it := range items {
		if it.Key() > 5000 {
			small = false
		}
	}
	r["small"] = small
	if small {
		r["values"] = absValues(l.Values())
	}
	gets, sels := []interface{}{}, []interface{}{}
	for _, p := range probes {
		i := index(p)
		gets = append(gets, abs(l.GetAt(i)))
		sels = append(sels, absValues(l.Select(i)))
	}
	r["get"], r["sel"] = gets, sels
	return r
}

// index reads an index; probes of a map's history may be no words.
func index(p Bytes) int {
	if len(p) != 8 {
		return len(p)
	}
	return int(unword(p))
}

// obs may find a collection that an operation has consumed in any state.
func (h *history) obs(v *version) (r Result, s string) {
	defer func() {
		if e := recover(); e != nil {
			r, s = Result{"panic": fmt.Sprint(e)}, "panic"
		}
	}()
	r = v.observe(h.probes)
	data, err := json.Marshal(r)
	check(err)
	return r, string(data)
}

// made builds a first version: [coll, mutable, how, slack, content]
func (h *history) made(parts []json.RawMessage) *version {
	var coll, how string
	var mut bool
	var slack int
	dec := func(i int, dst interface{}) {
		if err := json.Unmarshal(parts[i], dst); err != nil {
			panic(caseError(err.Error()))
		}
	}
	dec(0, &coll)
	dec(1, &mut)
	dec(2, &how)
	dec(3, &slack)
	v := &version{coll: coll}
	if coll == "list" {
		var ds []Desc
		dec(4, &ds)
		vs := make([]value.Value, len(ds), len(ds)+slack)
		for i, d := range ds {
			vs[i] = d.build()
		}
		switch how {
		case "empty":
			v.l = value.EmptyList(!mut)
		case "slice":
			if mut {
				v.l = value.MutableList(vs)
			} else {
				v.l = value.ImmutableList(vs)
			}
		case "tuple":
			v.l = value.Tuple(vs...)
		case "single":
			v.l = value.Single(vs[0])
		case "decoded":
			v.l = decoded(value.ImmutableList(vs)).(value.List)
		default:
			panic(caseError("no list " + how))
		}
		return v
	}
	var pairs [][]json.RawMessage
	if how != "of" {
		dec(4, &pairs)
	}
	keys, vals := make([]Bytes, len(pairs)), make([]value.Value, len(pairs))
	for i, p := range pairs {
		check(json.Unmarshal(p[0], &keys[i]))
		var d Desc
		check(json.Unmarshal(p[1], &d))
		vals[i] = d.build()
	}
	if coll == "sparse" {
		items := make([]value.ListItem, len(pairs), len(pairs)+slack)
		for i := range pairs {
			items[i] = value.MutableItem(int(unword(keys[i])), vals[i])
		}
		switch how {
		case "empty":
			v.l = value.EmptySparseList()
		case "items":
			v.l = value.SparseList(items, false)
		case "sorted":
			v.l = value.SparseList(items, true)
		case "of":
			var ds []Desc
			dec(4, &ds)
			vs := make([]value.Value, len(ds))
			for i, d := range ds {
				vs[i] = d.build()
			}
			v.l = value.SparseListOf(vs)
		case "decoded":
			v.l = decoded(value.SparseList(items, false)).(value.List)
		default:
			panic(caseError("no sparse list " + how))
		}
		return v
	}
	entries := make([]value.MapEntry, len(pairs), len(pairs)+slack)
	src := make(map[string]value.Value)
	for i := range pairs {
		if mut || how == "loose" {
			entries[i] = value.MutableEntry(string(keys[i]), vals[i])
		} else {
			entries[i] = value.ImmutableEntry(string(keys[i]), vals[i])
		}
		src[string(keys[i])] = vals[i]
	}
	switch how {
	case "empty":
		v.m = value.EmptyMap(!mut)
	case "entries", "sorted", "loose":
		if mut {
			v.m = value.SortedMap(entries, how == "sorted")
		} else {
			v.m = value.ImmutableMap(entries, how == "sorted")
		}
	case "gomap":
		if mut {
			v.m = value.SortedMapOf(src)
		} else {
			v.m = value.ImmutableMapOf(src)
		}
	case "decoded":
		v.m = decoded(value.ImmutableMap(entries, false)).(value.Map)
	default:
		panic(caseError("no map " + how))
	}
	return v
}

func decoded(v value.Value) value.Value {
	data, err := value.Pack(v)
	check(err)
	out, err := value.Unpack(data, true)
	if err != nil {
		panic(caseError("does not decode: " + err.Error()))
	}
	return out
}

type setTo struct{ v value.Value }

func (u setTo) Update(value.Value) value.Value { return u.v }

// lend gives a slice of values with others around it.
func (h *history) lend(ds []Desc, slack int) []value.Value {
	n := len(ds)
	all := make([]value.Value, n+slack+2)
	for i := range all {
		all[i] = value.Long(int64(-7000 - i))
	}
	for i, d := range ds {
		all[i+1] = d.build()
	}
	show := func() string {
		data, err := json.Marshal(absValues(all))
		check(err)
		return string(data)
	}
	h.lent = append(h.lent, lentArg{was: show(), now: show})
	if (n+len(h.versions))%2 == 0 { // with nothing behind it
		return all[1 : n+1 : n+1]
	}
	return all[1 : n+1]
}

// touch uses a collection in ways that must not change anything.
func touch(v value.Value, others []*version) {
	_, _ = value.Pack(v)
	var b bytes.Buffer
	_ = value.Write(&b, v)
	_, _ = v.MarshalBinary()
	_, _ = v.MarshalJSON()
	_ = v.String() + value.Jsonify(v) + value.Hex(v) + fmt.Sprint(v.Kind(), v.Class())
	_, _, _ = value.Hash(v, crypto.SHA256)
	for _, o := range others {
		_ = value.Equal(v, o.value())
		_ = value.Equal(o.value(), v)
	}
	if l, ok := v.(value.List); ok {
		for _, i := range []int{-1, 0, 1, 2, l.Len() - 1, l.Len()} {
			_, _, _ = l.GetBoolAt(i).Boolean(), l.GetNumberAt(i).Type(), l.GetStringAt(i).Utf8()
			_, _ = l.GetListAt(i).Len(), l.GetMapAt(i).Len()
		}
	}
	if m, ok := v.(value.Map); ok {
		for _, k := range append(m.Keys(), "", "zz") {
			_, _, _ = m.GetBool(k).Boolean(), m.GetNumber(k).Type(), m.GetString(k).Utf8()
			_, _ = m.GetList(k).Len(), m.GetMap(k).Len()
		}
	}
}

func opHist(c Case) Result {
	h := &history{}
	c.get("probes", &h.probes)
	value.AllowFastAppends = c.flag("fast")
	defer func() { value.AllowFastAppends = true }()
	var steps [][]json.RawMessage
	c.get("steps", &steps)
	obs := []interface{}{}
	for _, st := range steps {
		obs = append(obs, h.step(st))
	}
	return Result{"obs": obs}
}

func (h *history) step(st []json.RawMessage) Result {
	var name string
	dec := func(i int, dst interface{}) {
		if i >= len(st) {
			panic(caseError("short step"))
		}
		if err := json.Unmarshal(st[i], dst); err != nil {
			panic(caseError(err.Error()))
		}
	}
	dec(0, &name)
	res := Result{"ret": true}
	var made *version
	var v *version
	if name == "new" {
		made = h.made(st[1:])
	} else {
		var f int
		dec(1, &f)
		v = h.versions[f-1]
		made = &version{coll: v.coll}
	}
	at := func() int { var k Bytes; dec(2, &k); return int(unword(k)) }
	key := func() string { var k Bytes; dec(2, &k); return string(k) }
	val := func() value.Value { var d Desc; dec(3, &d); return d.build() }
	vals := func() []value.Value {
		var ds []Desc
		dec(3, &ds)
		if len(ds) == 0 && len(h.versions)%2 == 0 {
			return nil
		}
		return h.lend(ds, 2)
	}
	isMap := v != nil && v.coll == "map"
	switch name {
	case "new":
	case "append":
		made.l = v.l.Append(val())
	case "put":
		if isMap {
			made.m = v.m.Put(key(), val())
		} else {
			made.l = v.l.PutAt(at(), val())
		}
	case "insert":
		if isMap {
			made.m = v.m.Insert(key(), val())
		} else {
			made.l = v.l.InsertAt(at(), val())
		}
	case "insertall":
		if isMap {
			made.m = v.m.InsertAll(key(), vals())
		} else {
			made.l = v.l.InsertAll(at(), vals())
		}
	case "remove":
		if isMap {
			made.m = v.m.Remove(key())
		} else {
			made.l = v.l.RemoveAt(at())
		}
	case "deleteall":
		if isMap {
			made.m = v.m.DeleteAll(key())
		} else {
			made.l = v.l.DeleteAll(at())
		}
	case "update":
		made = nil
		if isMap {
			res["ret"] = v.m.Update(key(), setTo{val()})
		} else {
			res["ret"] = v.l.UpdateAt(at(), setTo{val()})
		}
	case "poke": // an update by an entry, whatever the map thinks of it
		made = nil
		if es := v.m.Entries(); len(es) > 0 {
			res["ret"] = es[len(h.versions)%len(es)].Update(setTo{val()})
		}
	case "cell": // updates by items and entries of an immutable collection
		made = nil
		any := false
		if isMap {
			for _, e := range v.m.Entries() {
				any = e.Update(setTo{val()}) || any
			}
		} else {
			for _, e := range v.l.Items() {
				any = e.Update(setTo{val()}) || any
			}
			for _, e := range v.l.Entries() {
				any = e.Update(setTo{val()}) || any
			}
		}
		res["ret"] = any
	case "copy":
		var d string
		dec(2, &d)
		if d == "copy" {
			made.m = value.ImmutableMapCopyOf(v.m)
		} else {
			made.m = value.SortedMapCopyOf(v.m)
		}
	case "touch":
		made = nil
		var with []int
		dec(3, &with)
		others := []*version{}
		for _, i := range with {
			others = append(others, h.versions[i-1])
		}
		touch(v.value(), others)
	case "sub": // the collection in a cell, by a typed lookup
		var as string
		dec(3, &as)
		made.coll = as
		if as == "map" && isMap {
			made.m = v.m.GetMap(key())
		} else if as == "map" {
			made.m = v.l.GetMapAt(at())
		} else if isMap {
			made.l = v.m.GetList(key())
		} else {
			made.l = v.l.GetListAt(at())
		}
		if as == "list" && sparseList(made.l) {
			made.coll = "sparse"
		}
		res["coll"] = made.coll
	default:
		panic(caseError("no step " + name))
	}
	changed := []interface{}{}
	for i, o := range h.versions {
		r, s := h.obs(o)
		if s != o.last {
			o.last = s
			changed = append(changed, T{i + 1, r})
		}
	}
	res["changed"] = changed
	if made != nil {
		r, s := h.obs(made)
		if s == "panic" {
			panic(r["panic"])
		}
		made.last = s
		h.versions = append(h.versions, made)
		res["obs"] = r
	}
	ok := true
	for _, a := range h.lent {
		ok = ok && a.now() == a.was
	}
	res["lent"] = ok
	return res
}
