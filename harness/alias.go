package main

import (
	"bufio"
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"encoding/json"
	"io"
	"strings"

	"github.com/codeallergy/value"
)

func init() { ops["alias"] = opAlias }

// fields of every kind of value, to decode into
type aliasStruct struct {
	Any  value.Value    `tag:"1"`
	Str  value.String   `tag:"2"`
	List value.List     `tag:"3"`
	Map  value.Map      `tag:"4"`
	Many []value.Value  `tag:"5" repeated:"true"`
	Sub  *aliasStruct   `tag:"6"`
	Num  value.Number   `tag:"7"`
	Strs []value.String `tag:"8" repeated:"true"`
}

func (s *aliasStruct) abs() interface{} {
	items := []interface{}{}
	add := func(tag uint64, x interface{}) { items = append(items, T{word(tag), x}) }
	if s.Any != nil {
		add(1, abs(s.Any))
	}
	if s.Str != nil {
		add(2, abs(s.Str))
	}
	if s.List != nil {
		add(3, abs(s.List))
	}
	if s.Map != nil {
		add(4, abs(s.Map))
	}
	for _, v := range s.Many {
		add(5, abs(v))
	}
	if s.Sub != nil {
		add(6, s.Sub.abs())
	}
	if s.Num != nil {
		add(7, abs(s.Num))
	}
	for _, v := range s.Strs {
		add(8, abs(v))
	}
	return T{"sparse", items}
}

// held is a value, or a struct of values
type held struct {
	v value.Value
	s *aliasStruct
}

func (h held) abs() interface{} {
	if h.s != nil {
		return h.s.abs()
	}
	return abs(h.v)
}

func (h held) pack(how string) ([]byte, error) {
	if h.s != nil {
		return value.PackStruct(h.s)
	}
	switch how {
	case "pack":
		return value.Pack(h.v)
	case "binary":
		return h.v.MarshalBinary()
	case "json":
		return h.v.MarshalJSON()
	case "hash":
		data, _, err := value.Hash(h.v, crypto.SHA256)
		return data, err
	case "write":
		var buf bytes.Buffer
		err := value.Write(&buf, h.v)
		return buf.Bytes(), err
	}
	panic(caseError("no way to pack " + how))
}

// valueSource is where values are read from, one after the other
type valueSource struct {
	r     io.Reader
	parse value.Unpacker
	p     value.Parser
}

func (s *valueSource) next() (value.Value, error) {
	if s.parse != nil {
		return value.Parse(s.parse, s.p)
	}
	return value.Read(s.r)
}

type oneByte struct{ r io.Reader }

func (o oneByte) Read(b []byte) (int, error) {
	if len(b) > 1 {
		b = b[:1]
	}
	return o.r.Read(b)
}

const guardLen = 16

type region struct {
	all  []byte // with guards, if the driver made it
	data []byte
}

func opAlias(c Case) Result {
	var steps []json.RawMessage
	c.get("steps", &steps)
	every := c.flag("every")
	var bufs []*region
	var vals []held
	var srcs []*valueSource
	res := make([]interface{}, 0, len(steps))
	obs := []interface{}{}
	seen := map[string]string{}
	look := func(step int, kind string, i int, rest ...interface{}) {
		key, now := text(T{kind, i}), text(rest)
		if was, ok := seen[key]; !ok || was != now {
			seen[key] = now
			obs = append(obs, append(T{step, kind, i + 1}, rest...))
		}
	}
	lookVal := func(step, i int) {
		defer func() {
			if e := recover(); e != nil {
				look(step, "v", i, T{"panic"}, Bytes{})
			}
		}()
		h := vals[i]
		first := h.abs()
		data, err := h.pack("pack")
		if err != nil {
			data = nil
		}
		packed := append(Bytes{}, data...)
		if again := h.abs(); text(again) != text(first) {
			first = again
		}
		look(step, "v", i, first, packed)
	}
	lookBuf := func(step, i int) {
		b := bufs[i]
		if b.all != nil {
			look(step, "b", i, append(Bytes{}, b.all...))
		} else {
			look(step, "b", i, append(Bytes{}, b.data...))
		}
	}
	fill := func(data []byte) {
		all := bytes.Repeat([]byte{0xee}, len(data)+2*guardLen)
		copy(all[guardLen:], data)
		bufs = append(bufs, &region{all, all[guardLen : guardLen+len(data)]})
	}
	for n, raw := range steps {
		var s []json.RawMessage
		check(json.Unmarshal(raw, &s))
		arg := func(i int, x interface{}) {
			if err := json.Unmarshal(s[i], x); err != nil {
				panic(caseError(err.Error()))
			}
		}
		num := func(i int) (k int) { arg(i, &k); return }
		str := func(i int) (k string) { arg(i, &k); return }
		flag := func(i int) (k bool) { arg(i, &k); return }
		list := func(i int) (k []int) { arg(i, &k); return }
		nv, nb := len(vals), len(bufs)
		kind := "ok"
		give := func(v value.Value, err error) {
			if err != nil {
				kind = errKind(err)
			} else {
				vals = append(vals, held{v: v})
			}
		}
		out := func(data []byte, err error) {
			if err != nil {
				kind = errKind(err)
			}
			bufs = append(bufs, &region{nil, data})
		}
		switch str(0) {
		case "fill":
			var b Bytes
			arg(1, &b)
			if len(s) > 2 {
				// memory that ends with the data
				exact := make([]byte, len(b))
				copy(exact, b)
				bufs = append(bufs, &region{nil, exact[:len(b):len(b)]})
			} else {
				fill(b)
			}
		case "fillv":
			var d Desc
			arg(1, &d)
			data, err := value.Pack(d.build())
			check(err)
			fill(data)
		case "unpack":
			b := bufs[num(1)-1].data
			switch str(3) {
			case "unpack":
				give(value.Unpack(b, flag(2)))
			case "parse":
				give(value.Parse(value.MessageUnpacker(b, flag(2)), value.MessageParser()))
			}
		case "into":
			x := new(aliasStruct)
			if err := value.UnpackStruct(bufs[num(1)-1].data, x, flag(2)); err != nil {
				kind = errKind(err)
			} else {
				vals = append(vals, held{s: x})
			}
		case "raw":
			give(value.Raw(bufs[num(1)-1].data, flag(2)), nil)
		case "source":
			data := append([]byte{}, bufs[num(1)-1].data...)
			src := &valueSource{}
			switch str(2) {
			case "buffer":
				src.r = bytes.NewBuffer(data)
			case "plain":
				src.r = plainReader{bytes.NewReader(data)}
			case "one":
				src.r = oneByte{bytes.NewReader(data)}
			case "bufio":
				src.r = bufio.NewReaderSize(bytes.NewReader(data), 16)
			case "reader":
				src.parse, src.p = value.MessageReader(bytes.NewReader(data)), value.MessageParser()
			case "plainreader":
				src.parse, src.p = value.MessageReader(plainReader{bytes.NewReader(data)}), value.MessageParser()
			case "unpacker":
				src.parse, src.p = value.MessageUnpacker(data, true), value.MessageParser()
			default:
				panic(caseError("no source " + str(2)))
			}
			srcs = append(srcs, src)
		case "next":
			give(srcs[num(1)-1].next())
		case "pack":
			out(vals[num(1)-1].pack(str(2)))
		case "packs":
			var buf bytes.Buffer
			p := value.MessagePacker(&buf)
			for _, i := range list(1) {
				if h := vals[i-1]; h.s != nil {
					data, err := value.PackStruct(h.s)
					check(err)
					p.PackRaw(data)
				} else {
					h.v.Pack(p)
				}
			}
			out(buf.Bytes(), p.Error())
		case "list":
			var vs []value.Value
			for _, i := range list(1) {
				vs = append(vs, vals[i-1].v)
			}
			give(value.ImmutableList(vs), nil)
		case "scribble":
			b, x := bufs[num(1)-1], byte(num(2))
			d := b.data
			if b.all == nil {
				d = d[:cap(d)]
			}
			for i := range d {
				d[i] = x
			}
		case "touch":
			a, b := vals[num(1)-1], vals[num(2)-1]
			if a.s != nil || b.s != nil {
				break
			}
			useValues(a.v, b.v)
		default:
			panic(caseError("no step"))
		}
		res = append(res, T{kind})
		// what is new at once, the rest now or at the end, in turning order
		for i := nv; i < len(vals); i++ {
			lookVal(n+1, i)
		}
		for i := nb; i < len(bufs); i++ {
			lookBuf(n+1, i)
		}
		if every || n == len(steps)-1 {
			for k := range vals {
				if n%2 == 0 {
					lookVal(n+1, (k+n)%len(vals))
				} else {
					lookVal(n+1, (len(vals)-1-k+n)%len(vals))
				}
			}
			for k := range bufs {
				lookBuf(n+1, k)
			}
		}
	}
	return Result{"res": res, "obs": obs}
}

// useValues uses values without changing them
func useValues(a, b value.Value) {
	value.Equal(a, b)
	value.Equal(b, a)
	_, _, _ = a.String(), value.Hex(a), value.Jsonify(a)
	var out strings.Builder
	a.PrintJSON(&out)
	a.MarshalJSON()
	a.MarshalBinary()
	value.Hash(a, crypto.SHA256)
	switch x := a.(type) {
	case value.List:
		if !sparseList(x) {
			// sparse lists are mutable
			x.Append(b)
			x.PutAt(0, b)
			x.InsertAt(0, b)
			x.RemoveAt(0)
		}
		x.GetNumberAt(0)
		x.GetStringAt(0)
		x.Select(0)
		if !sparseList(x) {
			x.Values()
		}
		x.Items()
		x.Entries()
	case value.Map:
		x.Put("a", b)
		x.Insert("a", b)
		x.Remove("a")
		x.GetNumber("a")
		x.GetString("a")
		x.HashMap()
		x.Entries()
		x.Keys()
	case value.Number:
		if y, ok := b.(value.Number); ok {
			x.Add(y)
			x.Subtract(y)
		}
		x.BigInt()
		x.Decimal()
	case value.String:
		x.Utf8()
		x.Len()
	}
}
