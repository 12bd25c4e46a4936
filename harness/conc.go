package main

import (
	"bytes"
	"crypto"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"runtime"
	"sync"

	"github.com/codeallergy/value"
)

func init() { ops["conc"] = opConc }

// world is what the threads share: values and types
type world struct {
	vals []value.Value
	fam  *family
	rows []json.RawMessage // instances, [node, instance]
	ins  [][]byte          // and encodings, [node, bytes]
	at   []int
}

func (c Case) world(marker int) *world {
	w := &world{}
	var shared []json.RawMessage
	c.get("objs", &shared)
	for _, raw := range shared {
		tag, _ := tagged(raw)
		var parts []json.RawMessage
		check(json.Unmarshal(raw, &parts))
		switch tag {
		case "val": // value, room behind it
			var d Desc
			var room int
			check(json.Unmarshal(parts[1], &d))
			check(json.Unmarshal(parts[2], &room))
			w.vals = append(w.vals, withRoom(d, room))
		case "from": // derived from another
			w.vals = append(w.vals, derive(parts[1:], func(i int) value.Value { return w.vals[i] }))
		case "decoded":
			var d Desc
			check(json.Unmarshal(parts[1], &d))
			w.vals = append(w.vals, decoded(d.build()))
		default:
			panic(caseError("no shared " + tag))
		}
	}
	if c.has("types") {
		if c.has("static") {
			w.fam = &family{nodes: c.types()}
			w.fam.types = staticTypes(c.str("static"), marker)
			w.fam.verify()
		} else {
			w.fam = c.family()
		}
		c.get("insts", &w.rows)
		var ins []struct {
			Root int   `json:"root"`
			In   Bytes `json:"in"`
		}
		c.get("ins", &ins)
		for _, x := range ins {
			w.ins = append(w.ins, x.In)
			w.at = append(w.at, x.Root-1)
		}
	}
	return w
}

// withRoom builds an immutable collection from a slice with room behind it
func withRoom(d Desc, room int) value.Value {
	if room > 0 && d.tag == "list" && !d.mutable(route{}) {
		vs := d.buildAll(route{})
		return value.ImmutableList(append(make([]value.Value, 0, len(vs)+room), vs...))
	}
	if room > 0 && d.tag == "map" && !d.mutable(route{}) {
		entries := make([]value.MapEntry, 0, len(d.elem)+room)
		for i, v := range d.buildAll(route{}) {
			entries = append(entries, value.ImmutableEntry(string(d.keys[i]), v))
		}
		return value.ImmutableMap(entries, false)
	}
	return d.build()
}

// derive runs an operation that gives a new version
func derive(parts []json.RawMessage, val func(int) value.Value) value.Value {
	var op string
	var on int
	check(json.Unmarshal(parts[0], &op))
	check(json.Unmarshal(parts[1], &on))
	var key Bytes
	if len(parts) > 2 {
		check(json.Unmarshal(parts[2], &key))
	}
	var ds []Desc
	if len(parts) > 3 {
		check(json.Unmarshal(parts[3], &ds))
	}
	vs := make([]value.Value, len(ds))
	for i, d := range ds {
		vs[i] = d.build()
	}
	one := func() value.Value {
		if len(vs) == 0 {
			return nil
		}
		return vs[0]
	}
	switch x := val(on).(type) {
	case value.List:
		i := index(key)
		switch op {
		case "append":
			return x.Append(one())
		case "put":
			return x.PutAt(i, one())
		case "insert":
			return x.InsertAt(i, one())
		case "insertall":
			return x.InsertAll(i, vs)
		case "remove":
			return x.RemoveAt(i)
		case "deleteall":
			return x.DeleteAll(i)
		case "copy":
			return x.GetListAt(i)
		}
	case value.Map:
		k := string(key)
		switch op {
		case "append", "put":
			return x.Put(k, one())
		case "insert":
			return x.Insert(k, one())
		case "insertall":
			return x.InsertAll(k, vs)
		case "remove":
			return x.Remove(k)
		case "deleteall":
			return x.DeleteAll(k)
		case "copy":
			return value.ImmutableMapCopyOf(x)
		}
	}
	return val(on)
}

// thread runs operations on what is shared and what it made itself
type thread struct {
	w    *world
	own  []value.Value
	out  []string
	spin bool
}

func digest(x interface{}) string {
	s := text(x)
	if len(s) > 60 {
		h := sha256.Sum256([]byte(s))
		return hex.EncodeToString(h[:])
	}
	return s
}

func (t *thread) val(i int) value.Value {
	if i < len(t.w.vals) {
		return t.w.vals[i]
	}
	i -= len(t.w.vals)
	if len(t.own) == 0 {
		return t.w.vals[i%len(t.w.vals)]
	}
	return t.own[i%len(t.own)]
}

func (t *thread) do(parts []json.RawMessage) (res interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(caseError); ok {
				panic(e)
			}
			res = T{"panic", fmt.Sprint(e)}
		}
	}()
	var op string
	check(json.Unmarshal(parts[0], &op))
	num := func(i int) (n int) { check(json.Unmarshal(parts[i], &n)); return }
	key := func(i int) (k Bytes) { check(json.Unmarshal(parts[i], &k)); return }
	var v value.Value
	if op[0] != '@' {
		v = t.val(num(1))
	}
	switch op {
	case "see":
		return abs(v)
	case "get":
		return lookups(v, key(2))
	case "equal":
		o := t.val(num(2))
		return T{value.Equal(v, o), value.Equal(o, v), v.Equal(o)}
	case "json":
		data, err := v.MarshalJSON()
		return T{value.Jsonify(v), v.String(), string(data), errKind(err)}
	case "pack":
		data, err := value.Pack(v)
		bin, err2 := v.MarshalBinary()
		var buf bytes.Buffer
		err3 := value.Write(&buf, v)
		return T{Bytes(data), Bytes(bin), Bytes(buf.Bytes()), errKind(err), errKind(err2), errKind(err3), value.Hex(v)}
	case "hash":
		data, sum, err := value.Hash(v, crypto.SHA256)
		return T{Bytes(data), Bytes(sum), errKind(err)}
	case "decode":
		data, err := value.Pack(v)
		check(err)
		back, err := value.Unpack(data, false)
		return outcome(back, err)
	case "views":
		return views(v)
	case "number":
		x, ok := v.(value.Number)
		if !ok {
			x = value.ParseNumber(v.String())
		}
		y, ok := t.val(num(2)).(value.Number)
		if !ok {
			y = value.Long(1)
		}
		return T{abs(x.Add(y)), abs(x.Subtract(y)), conversions(x)}
	case "own": // a mutable copy, changed
		m, ok := v.(value.Map)
		if !ok {
			return T{}
		}
		c := value.SortedMapCopyOf(m)
		for _, k := range m.Keys() {
			c.Update(k, setTo{value.Long(1)})
		}
		c = c.Put("a", value.Long(2))
		c = c.Remove("b")
		return abs(c)
	case "@pack":
		x := t.w.rows[num(1)]
		var row []json.RawMessage
		check(json.Unmarshal(x, &row))
		var k int
		check(json.Unmarshal(row[0], &k))
		p := t.w.fam.instance(k-1, row[1], t.w.fam.turned != nil && num(2) == 1)
		_, r := packed(p.Interface())
		return r
	case "@unpack":
		i := num(1)
		return t.w.fam.into(t.w.at[i], t.w.ins[i], num(2)%2 == 1, t.w.fam.turned != nil && num(2) > 1, true)
	}
	made := derive(parts, t.val)
	t.own = append(t.own, made)
	return abs(made)
}

func lookups(v value.Value, k Bytes) interface{} {
	switch x := v.(type) {
	case value.Map:
		s := string(k)
		return T{abs(x.Get(s)), absIf(x.GetBool(s)), absIf(x.GetNumber(s)), absIf(x.GetString(s)), absIf(x.GetList(s)),
			absIf(x.GetMap(s)), absValues(x.Select(s)), x.Len()}
	case value.List:
		i := index(k)
		return T{abs(x.GetAt(i)), absIf(x.GetBoolAt(i)), absIf(x.GetNumberAt(i)), absIf(x.GetStringAt(i)), absIf(x.GetListAt(i)),
			absIf(x.GetMapAt(i)), absValues(x.Select(i)), x.Len()}
	}
	return abs(v)
}

func views(v value.Value) interface{} {
	switch x := v.(type) {
	case value.Map:
		h := map[string]interface{}{}
		for k, e := range x.HashMap() {
			h[hex.EncodeToString([]byte(k))] = abs(e)
		}
		return T{absEntries(x.Entries()), absValues(x.Values()), x.Len(), h}
	case value.List:
		return T{absItems(x.Items()), absEntries(x.Entries()), absValues(x.Values()), x.Len()}
	case value.String:
		return T{x.Len(), Bytes(x.Utf8()), Bytes(append([]byte{}, x.Raw()...)), fmt.Sprint(x.Object())}
	case value.Number:
		return T{conversions(x), x.String(), x.IsNaN()}
	}
	return T{v.String(), fmt.Sprint(v.Kind()), fmt.Sprint(v.Class() == reflect.TypeOf(v))}
}

func (w *world) see() []string {
	out := make([]string, len(w.vals))
	for i, v := range w.vals {
		out[i] = digest(abs(v))
	}
	return out
}

func (w *world) run(progs [][][]json.RawMessage, together bool) ([][]string, []string) {
	threads := make([]*thread, len(progs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	var failed interface{}
	var mu sync.Mutex
	for k := range progs {
		t := &thread{w: w, out: make([]string, len(progs[k]))}
		threads[k] = t
		work := func(k int) {
			for i, parts := range progs[k] {
				t.out[i] = digest(t.do(parts))
				if together && (i+k)%3 == 0 {
					runtime.Gosched()
				}
			}
		}
		if !together {
			work(k)
			continue
		}
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					failed = e
					mu.Unlock()
				}
			}()
			<-start
			work(k)
		}(k)
	}
	close(start)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
	out := make([][]string, len(threads))
	for k, t := range threads {
		out[k] = t.out
	}
	return out, w.see()
}

func opConc(c Case) Result {
	var progs [][][]json.RawMessage
	c.get("threads", &progs)
	marker := 0
	if c.has("marker") {
		marker = c.num("marker")
	}
	conc := make([][][]string, len(progs))
	for k := range conc {
		conc[k] = make([][]string, len(progs[k]))
	}
	add := func(xs []string, x string) []string {
		for _, y := range xs {
			if x == y {
				return xs
			}
		}
		return append(xs, x)
	}
	var after [][]string
	// first at the same time, when nothing has been used
	for r := 0; r < c.num("rounds"); r++ {
		w := c.world(marker + r)
		res, now := w.run(progs, true)
		for k := range res {
			for i, x := range res[k] {
				conc[k][i] = add(conc[k][i], x)
			}
		}
		if after == nil {
			after = make([][]string, len(now))
		}
		for i, x := range now {
			after[i] = add(after[i], x)
		}
	}
	w := c.world(marker + 50)
	before := w.see()
	solo, _ := w.run(progs, false)
	return Result{"solo": solo, "conc": conc, "before": before, "after": after, "rows": 0}
}
