package main

import (
	"bytes"
	"io"

	"github.com/codeallergy/value"
)

func init() {
	ops["huge"] = opHuge
}

// what a huge value consists of, repeated
var hugeUnits = map[string][]byte{
	"utf8":   {0x61},
	"raw":    {0xfe},
	"unk":    {0x07},
	"list":   {0xc3},
	"map":    {0xa1, 0x6b, 0xc3},
	"sparse": {0x05, 0xc3},
}

const hugeTag = 9

func hugeValue(kind string, n int) value.Value {
	switch kind {
	case "utf8":
		return value.Utf8(string(bytes.Repeat(hugeUnits[kind], n)))
	case "raw":
		return value.Raw(bytes.Repeat(hugeUnits[kind], n), false)
	case "unk":
		return value.Unknown(append([]byte{hugeTag}, bytes.Repeat(hugeUnits[kind], n)...))
	case "list":
		vs := make([]value.Value, n)
		for i := range vs {
			vs[i] = value.True
		}
		return value.ImmutableList(vs)
	case "map":
		es := make([]value.MapEntry, n)
		for i := range es {
			es[i] = value.ImmutableEntry("k", value.True)
		}
		return value.ImmutableMap(es, true)
	case "sparse":
		is := make([]value.ListItem, n)
		for i := range is {
			is[i] = value.ImmutableItem(5, value.True)
		}
		return value.SparseList(is, true)
	}
	panic(caseError(kind))
}

// describes a value as one of n equal pieces: its kind and how many, or "other"
func hugeShape(v value.Value) T {
	other := T{"other", 0}
	if v == nil {
		return T{"none", 0}
	}
	only := func(b []byte, c byte) bool { return bytes.Count(b, []byte{c}) == len(b) }
	switch x := v.(type) {
	case value.String:
		if x.Type() == value.UTF8 {
			if s := x.String(); only([]byte(s), hugeUnits["utf8"][0]) && x.Len() == len(s) {
				return T{"utf8", len(s)}
			}
			return other
		}
		if b := x.Raw(); only(b, hugeUnits["raw"][0]) && x.Len() == len(b) {
			return T{"raw", len(b)}
		}
	case value.Extension:
		if b := x.Native(); len(b) > 0 && b[0] == hugeTag && only(b[1:], hugeUnits["unk"][0]) {
			return T{"unk", len(b) - 1}
		}
	case value.List:
		if sparseList(v) {
			is := x.Items()
			for _, i := range is {
				if i.Key() != 5 || i.Value() != value.True {
					return other
				}
			}
			return T{"sparse", len(is)}
		}
		vs := x.Values()
		for _, v := range vs {
			if v != value.True {
				return other
			}
		}
		if x.Len() == len(vs) {
			return T{"list", len(vs)}
		}
	case value.Map:
		es := x.Entries()
		for _, e := range es {
			if e.Key() != "k" || e.Value() != value.True {
				return other
			}
		}
		if x.Len() == len(es) {
			return T{"map", len(es)}
		}
	}
	return other
}

// the bytes before the repeated pieces, and how many pieces follow
func hugeBytes(b, unit []byte) (Bytes, int) {
	n, end := 0, len(b)
	for end >= len(unit) && bytes.Equal(b[end-len(unit):end], unit) {
		end -= len(unit)
		n++
	}
	if end > 32 {
		return append(Bytes{}, b[:32]...), -1
	}
	return append(Bytes{}, b[:end]...), n
}

// huge: a value too long to write down
func opHuge(c Case) Result {
	kind, n := c.str("kind"), c.num("n")
	unit := hugeUnits[kind]
	v := hugeValue(kind, n)
	data, err := value.Pack(v)
	head, count := hugeBytes(data, unit)
	res := Result{"err": errKind(err), "head": head, "count": count, "size": len(data)}
	do := func(what string) bool { return c.has(what) && c.flag(what) }

	decs := []interface{}{}
	eqs := []interface{}{}
	if do("trip") {
		for _, how := range decoders {
			in := append(append([]byte{}, data...), 0xc3)
			d, err, left := decodeBy(how, in)
			decs = append(decs, T{how, errKind(err), hugeShape(d), left})
			if err == nil {
				eqs = append(eqs, []bool{value.Equal(v, d), value.Equal(d, v)})
				again, err := value.Pack(d)
				if err != nil || !bytes.Equal(again, data) {
					decs = append(decs, T{how + "/again", "changed", T{"other", 0}, 0})
				}
			}
		}
		var buf bytes.Buffer
		werr := value.Write(&buf, v)
		if werr != nil || !bytes.Equal(buf.Bytes(), data) {
			decs = append(decs, T{"write", errKind(werr), T{"other", 0}, 0})
		}
		if b, err := v.MarshalBinary(); err != nil || !bytes.Equal(b, data) {
			decs = append(decs, T{"marshal", errKind(err), T{"other", 0}, 0})
		}
	}
	res["decs"], res["eqs"] = decs, eqs

	// cut at some places
	cuts := []interface{}{}
	var places []int
	if c.has("at") {
		c.get("at", &places)
	}
	if do("cuts") {
		for _, how := range decoders {
			for _, at := range places {
				if at < len(data) {
					var err error
					got := "none"
					alloc := allocated(func() {
						var d value.Value
						d, err, _ = decodeBy(how, data[:at])
						if d != nil && err == nil {
							got = "value"
						}
					})
					if alloc > maxReported {
						alloc = maxReported
					}
					cuts = append(cuts, T{at, errKind(err), got, alloc})
				}
			}
		}
	}
	res["cuts"] = cuts

	// from a source that splits, and ends or fails, at some places
	frags := []interface{}{}
	if do("frags") {
		var pieces []int
		c.get("pieces", &pieces)
		for _, at := range append(append([]int{}, places...), -1) {
			if at >= len(data) {
				continue
			}
			in, end := data, io.EOF
			if at >= 0 {
				in, end = data[:at], errSource
			}
			src := &source{data: in, pieces: pieces, end: end, with: do("with"), more: bytes.Repeat([]byte{0xc3}, 1000)}
			if at < 0 || src.with {
				src.more = nil
			}
			var r io.Reader = src
			if do("byter") {
				r = byteSource{src}
			}
			d, err := value.Read(r)
			frags = append(frags, T{at, errKind(err), hugeShape(d), src.pos})
		}
	}
	res["frags"] = frags

	// to a destination that fails at some places
	rows := []interface{}{}
	if do("faults") {
		for _, at := range places {
			for _, how := range [][]bool{{false, false}, {true, false}, {false, true}} {
				if at >= len(data) {
					continue
				}
				s := &sink{limit: at, whole: how[0], eager: how[1]}
				if s.eager {
					s.limit++
				}
				err := value.Write(s, v)
				rows = append(rows, T{s.limit, len(s.got), errKind(err), s.later, bytes.HasPrefix(data, s.got)})
			}
		}
	}
	res["rows"] = rows
	return res
}
