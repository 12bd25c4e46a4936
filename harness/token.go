package main

import (
	"bytes"
	"encoding/json"
	"io"
	"reflect"
	"sort"
	"strconv"

	"github.com/codeallergy/value"
)

func init() {
	ops["pack"] = opPackInto
	ops["parse from"] = opParseFrom
	ops["misread"] = opMisread
	ops["echo"] = opEcho
	ops["parse struct"] = opParseStruct
}

// recorder is a packer of the caller: it writes down the tokens
type recorder struct {
	calls []interface{}
	keep  bool // keeps what it is given, instead of a copy
	blobs [][]byte
	err   error
}

func (p *recorder) add(name string, args ...interface{}) {
	p.calls = append(p.calls, append(T{name}, args...))
}
func (p *recorder) PackNil()             { p.add("nil") }
func (p *recorder) PackBool(b bool)      { p.add("bool", b) }
func (p *recorder) PackLong(n int64)     { p.add("long", word(uint64(n))) }
func (p *recorder) PackDouble(x float64) { p.add("double", word(float64bits(x))) }
func (p *recorder) PackStr(s string)     { p.add("str", Bytes(s)) }
func (p *recorder) PackBin(b []byte)     { p.add("bin", append(Bytes{}, b...)) }
func (p *recorder) PackExt(t value.Ext, b []byte) {
	p.add("ext", append(Bytes{byte(t)}, b...))
}
func (p *recorder) PackList(n int)   { p.add("list", n) }
func (p *recorder) PackMap(n int)    { p.add("map", n) }
func (p *recorder) PackRaw(b []byte) { p.add("raw", append(Bytes{}, b...)) }
func (p *recorder) Error() error     { return p.err }

// pack: drive packers of the caller with a value
func opPackInto(c Case) Result {
	d := c.desc("v")
	one := func(v value.Value, before bool) []interface{} {
		p := &recorder{}
		if before { // not the first value
			p.PackNil()
		}
		v.Pack(p)
		if before {
			return p.calls[1:]
		}
		return p.calls
	}
	base := d.build()
	first := one(base, false)
	want := text(first)
	others := []interface{}{}
	for n, r := range []route{{}, {flip: true}, {ops: 1}, {ops: 2, flip: true}, {ops: -1}} {
		if got := one(d.buildBy(r), n%2 == 0); text(got) != want {
			others = append(others, got)
		}
	}
	data, err := value.Pack(base)
	return Result{"calls": first, "others": others, "err": errKind(err), "bytes": Bytes(data), "after": abs(base)}
}

// tokenSource is an unpacker of the caller; what it hands out with Next is only
// good until the next call
type tokenSource struct {
	in    []byte
	off   int
	head  [32]byte
	reads int
	fail  int  // the read that fails, counted from 1
	own   bool // what Read hands out is its own buffer, too big
}

// the number of bytes that follow the code of a token
func headSize(c byte) int {
	switch {
	case c < 0xc0 || c >= 0xe0:
		return 0
	}
	return []int{0, 0, 0, 0, 1, 2, 4, 1, 2, 4, 4, 8, 1, 2, 4, 8, 1, 2, 4, 8, 2, 3, 5, 9, 17, 1, 2, 4, 2, 4, 2, 4}[c-0xc0]
}

func formatOf(c byte) value.Format {
	switch {
	case c < 0x80 || c >= 0xe0 || c >= 0xcc && c <= 0xd3:
		return value.LongToken
	case c < 0x90 || c == 0xde || c == 0xdf:
		return value.MapHeader
	case c < 0xa0 || c == 0xdc || c == 0xdd:
		return value.ListHeader
	case c < 0xc0 || c >= 0xd9 && c <= 0xdb:
		return value.StrHeader
	case c < 0xc2:
		return value.NilToken
	case c < 0xc4:
		return value.BoolToken
	case c < 0xc7:
		return value.BinHeader
	case c < 0xca:
		return value.ExtHeader
	case c < 0xcc:
		return value.DoubleToken
	}
	return value.FixExtToken
}

func (s *tokenSource) Next() (value.Format, []byte) {
	for i := range s.head {
		s.head[i] = 0xee
	}
	if s.off >= len(s.in) {
		return value.EOF, nil
	}
	n := 1 + headSize(s.in[s.off])
	if s.off+n > len(s.in) {
		return value.UnexpectedEOF, nil
	}
	copy(s.head[:], s.in[s.off:s.off+n])
	s.off += n
	return formatOf(s.head[0]), s.head[:n]
}

func (s *tokenSource) Read(n int) ([]byte, error) {
	for i := range s.head {
		s.head[i] = 0xee
	}
	s.reads++
	if s.reads == s.fail {
		return nil, errSource
	}
	if n > len(s.in)-s.off {
		return nil, io.ErrUnexpectedEOF
	}
	b := append(make([]byte, 0, n+8), s.in[s.off:s.off+n]...)
	s.off += n
	return b, nil
}

// parse from: parse successive values out of an unpacker of the caller
func opParseFrom(c Case) Result {
	in := []byte(c.bytes("in"))
	run := func(u value.Unpacker, fresh bool, at func() int) []interface{} {
		rows := []interface{}{}
		p := value.MessageParser()
		for len(rows) <= len(in)+1 {
			if fresh {
				p = value.MessageParser()
			}
			v, err := value.Parse(u, p)
			if err != nil {
				rows = append(rows, T{outcome(v, err), -1})
				break
			}
			rows = append(rows, T{outcome(v, err), at()})
		}
		return rows
	}
	s := &tokenSource{in: in}
	rows := run(s, false, func() int { return s.off })
	s2 := &tokenSource{in: in}
	same := text(rows) == text(run(s2, true, func() int { return s2.off }))
	// the library's own, as the caller's
	r := bytes.NewReader(in)
	same = same && text(rows) == text(run(value.MessageReader(r), false, func() int { return len(in) - r.Len() }))
	// every read fails once
	fails := []string{}
	for k := 1; k <= s.reads && k <= 40; k++ {
		f := &tokenSource{in: in, fail: k}
		p := value.MessageParser()
		for {
			_, err := value.Parse(f, p)
			if err != nil {
				fails = append(fails, errKind(err))
				break
			}
		}
	}
	// tokens of no known format
	odd := []string{}
	for _, f := range []value.Format{-1, value.ExtHeader + 1, 99} {
		_, err := value.Parse(strange(f), value.MessageParser())
		odd = append(odd, errKind(err))
	}
	return Result{"reads": rows, "same": same, "fail": false, "fails": fails, "odd": odd}
}

// strange is an unpacker of tokens of one format
type strange value.Format

func (s strange) Next() (value.Format, []byte) { return value.Format(s), []byte{0xc0} }
func (s strange) Read(n int) ([]byte, error)   { return make([]byte, n), nil }

// misread: give a parser any header for any format
func opMisread(c Case) Result {
	head := c.bytes("head")
	good := c.bytes("good") // a header of a long
	rows := []interface{}{}
	for _, fn := range []string{"bool", "long", "double", "bin", "str", "list", "map", "ext"} {
		p := value.MessageParser()
		var got interface{}
		switch fn {
		case "bool":
			got = T{"bool", p.ParseBool(head)}
		case "long":
			got = T{"long", word(uint64(p.ParseLong(head)))}
		case "double":
			got = T{"double", word(float64bits(p.ParseDouble(head)))}
		case "bin":
			got = T{"bin", saturate(p.ParseBin(head))}
		case "str":
			got = T{"str", saturate(p.ParseStr(head))}
		case "list":
			got = T{"list", saturate(p.ParseList(head))}
		case "map":
			got = T{"map", saturate(p.ParseMap(head))}
		case "ext":
			n, rest := p.ParseExt(head)
			if p.Error() != nil {
				rest = nil
			}
			got = T{"ext", saturate(n), append(Bytes{}, rest...)}
		}
		failed := p.Error() != nil
		still := failed
		for k := range goods {
			parseGood(p, goods[(k+len(rows))%len(goods)])
			if (p.Error() != nil) != failed {
				still = !failed
			}
		}
		fresh := value.MessageParser()
		fresh.ParseLong(good)
		rows = append(rows, T{fn, got, failed, still, fresh.Error() != nil})
	}
	// the same through Parse, from an unpacker that is wrong about the format
	parsed := []interface{}{}
	for _, f := range formats {
		u := &wrong{format: f.format, head: head}
		_, err := value.Parse(u, value.MessageParser())
		parsed = append(parsed, T{f.name, errKind(err)})
	}
	// and through ParseStruct, at any place of a struct
	structs := []interface{}{}
	schema := schemaOf(typeOf[*tokened](), map[reflect.Type]*value.Schema{})
	for place, before := range plainPlaces {
		for _, f := range formats {
			u := &wrong{before: before, format: f.format, head: head}
			err := value.ParseStruct(u, value.MessageParser(), reflect.ValueOf(&tokened{}).Elem(), schema)
			structs = append(structs, T{place, f.name, errKind(err)})
		}
	}
	return Result{"rows": rows, "parsed": parsed, "structs": structs}
}

type tokened struct {
	V value.Value   `tag:"1"`
	L []value.Value `tag:"2"`
	N *tokened      `tag:"3"`
	R []*tokened    `tag:"4" repeated:"true"`
	S []*tokened    `tag:"5"`
}

// where the wrong header is, and the tokens before it
var plainPlaces = map[string][][]byte{
	"top": {}, "key": {{0x81}}, "value": {{0x81}, {1}}, "list": {{0x81}, {2}}, "inner": {{0x81}, {3}}, "repeated": {{0x81}, {4}},
	"structs": {{0x81}, {5}}, "element": {{0x81}, {2}, {0x91}}, "struct": {{0x81}, {5}, {0x91}},
}

var formats = []struct {
	name   string
	format value.Format
}{{"bool", value.BoolToken}, {"long", value.LongToken}, {"double", value.DoubleToken}, {"bin", value.BinHeader},
	{"str", value.StrHeader}, {"list", value.ListHeader}, {"map", value.MapHeader}, {"ext", value.ExtHeader}, {"fixext", value.FixExtToken}}

// the schema of a type all of whose tags are good
func schemaOf(t reflect.Type, busy map[reflect.Type]*value.Schema) *value.Schema {
	if s, ok := busy[t]; ok {
		return s
	}
	s := &value.Schema{Fields: map[int]*value.Field{}}
	busy[t] = s
	for i := 0; i < t.Elem().NumField(); i++ {
		x := t.Elem().Field(i)
		tag, err := strconv.Atoi(x.Tag.Get("tag"))
		if err != nil {
			panic(caseError("bad tag"))
		}
		f := &value.Field{FieldNum: i, FieldType: x.Type, FieldName: x.Name, Tag: tag}
		f.Repeated, _ = strconv.ParseBool(x.Tag.Get("repeated"))
		elem := x.Type
		if elem.Kind() == reflect.Slice && !elem.Implements(typeOf[value.Value]()) {
			f.Array, elem = true, elem.Elem()
		}
		if !elem.Implements(typeOf[value.Value]()) {
			f.Struct, f.FieldSchema = true, schemaOf(elem, busy)
		}
		s.Fields[tag] = f
		s.SortedFields = append(s.SortedFields, f)
	}
	sort.Slice(s.SortedFields, func(i, j int) bool { return s.SortedFields[i].Tag < s.SortedFields[j].Tag })
	return s
}

// parse struct: a struct out of unpackers of the caller, with a schema of the caller
func opParseStruct(c Case) Result {
	f := c.family()
	k := c.num("root") - 1
	in := []byte(c.bytes("in"))
	schema := schemaOf(reflect.PointerTo(f.types[k]), map[reflect.Type]*value.Schema{})
	res := []T{}
	ends := []int{}
	one := func(u value.Unpacker) T {
		x := reflect.New(f.types[k]).Elem()
		if err := value.ParseStruct(u, value.MessageParser(), x, schema); err != nil {
			_ = err.Error()
			return T{"err"}
		}
		return T{"ok", f.see(x, k, false)}
	}
	add := func(r T, at int) {
		res = append(res, r)
		if len(r) == 2 {
			ends = append(ends, at)
		}
	}
	s := &tokenSource{in: in}
	add(one(s), s.off)
	r := bytes.NewReader(in)
	add(one(value.MessageReader(r)), len(in)-r.Len())
	r2 := bytes.NewReader(in)
	add(one(value.MessageReader(plainReader{r2})), len(in)-r2.Len())
	add(one(value.MessageUnpacker(in, true)), -1)
	// every read fails once
	fails := []T{}
	for n := 1; n <= s.reads && n <= 40; n++ {
		fails = append(fails, one(&tokenSource{in: in, fail: n}))
	}
	return Result{"res": res, "ends": ends, "fails": fails}
}

// wrong is an unpacker with some tokens before one, and none after it
type wrong struct {
	before [][]byte
	format value.Format
	head   []byte
	sent   bool
}

func (w *wrong) Next() (value.Format, []byte) {
	if len(w.before) > 0 {
		b := w.before[0]
		w.before = w.before[1:]
		return formatOf(b[0]), b
	}
	if w.sent {
		return value.EOF, nil
	}
	w.sent = true
	return w.format, w.head
}
func (w *wrong) Read(n int) ([]byte, error) {
	if n > 1000 {
		return nil, io.ErrUnexpectedEOF
	}
	return make([]byte, n), nil
}

// good headers of every format
var goods = [][]byte{{0xc3}, {0xc2}, {0x05}, {0xcb, 0, 0, 0, 0, 0, 0, 0, 0}, {0xc4, 3}, {0xa3}, {0x93}, {0x83}, {0xd4, 7, 7},
	{0xff}, {0xd0, 9}, {0xcf, 0, 0, 0, 0, 0, 0, 0, 9}, {0xd9, 9}, {0xdc, 0, 1}, {0xde, 0, 1}, {0xc7, 1}, {0xca, 0, 0, 0, 0}}

func parseGood(p value.Parser, b []byte) {
	switch formatOf(b[0]) {
	case value.BoolToken:
		p.ParseBool(b)
	case value.LongToken:
		p.ParseLong(b)
	case value.DoubleToken:
		p.ParseDouble(b)
	case value.BinHeader:
		p.ParseBin(b)
	case value.StrHeader:
		p.ParseStr(b)
	case value.ListHeader:
		p.ParseList(b)
	case value.MapHeader:
		p.ParseMap(b)
	default:
		p.ParseExt(b)
	}
}

// echo: what the packer is told, and what unpackers tell of its bytes
func opEcho(c Case) Result {
	var calls []json.RawMessage
	c.get("calls", &calls)
	var buf bytes.Buffer
	p := value.MessagePacker(&buf)
	for _, raw := range calls {
		callPacker(p, raw)
	}
	res := Result{"got": Bytes(buf.Bytes()), "err": errKind(p.Error())}
	in := buf.Bytes()
	a := walkTokens(value.MessageUnpacker(in, true), len(in))
	b := walkTokens(value.MessageUnpacker(in, false), len(in))
	r := walkTokens(value.MessageReader(plainReader{bytes.NewReader(in)}), len(in))
	r2 := walkTokens(value.MessageReader(bytes.NewReader(in)), len(in))
	res["tokens"] = a
	res["same"] = text(a) == text(b) && text(a) == text(r) && text(a) == text(r2)
	return res
}
