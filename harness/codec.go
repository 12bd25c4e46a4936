package main

import (
	"bytes"
	"crypto"
	_ "crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"os"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/codeallergy/value"
)

func init() {
	ops["codec"] = opCodec
	ops["routes"] = opRoutes
	ops["unpack"] = opUnpack
	ops["cuts"] = opCuts
	ops["frag"] = opFrag
	ops["fault"] = opFault
	ops["calls"] = opCalls
	ops["tokens"] = opTokens
}

// outcome of a decoding: a value, or which error
func outcome(v value.Value, err error) T {
	if err != nil {
		return T{errKind(err)}
	}
	return T{"ok", abs(v)}
}

// what a source or destination fails with, whatever it may look like
var faults = map[string]error{
	"source":     errors.New("source failure"),
	"sink":       errors.New("sink failure"),
	"temporary":  temporary{},
	"deadline":   os.ErrDeadlineExceeded,
	"shortwrite": io.ErrShortWrite,
	"buffer":     io.ErrShortBuffer,
	"pipe":       io.ErrClosedPipe,
	"noprogress": io.ErrNoProgress,
	"full":       bytes.ErrTooLarge,
	"again":      syscall.EAGAIN,
	"interrupt":  syscall.EINTR,
	"eof":        io.EOF,
	"uneof":      io.ErrUnexpectedEOF,
}

type temporary struct{}

func (temporary) Error() string   { return "temporary failure" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

var errSource, errSink error

func setFault(c Case) {
	errSource, errSink = faults["source"], faults["sink"]
	if c.has("fault") {
		err, ok := faults[c.str("fault")]
		if !ok {
			panic(caseError(c.str("fault")))
		}
		if c.str("op") == "fault" || c.str("op") == "calls" || c.has("faults") {
			errSink = err
		} else {
			errSource = err
		}
	}
}

func errKind(err error) string {
	switch {
	case err == nil:
		return "nil"
	case errors.Is(err, errSource):
		return "source"
	case errors.Is(err, errSink):
		return "sink"
	case err == io.EOF:
		return "eof"
	case err == io.ErrUnexpectedEOF:
		return "uneof"
	case err == value.ErrUnseal:
		return "unseal"
	}
	return "err"
}

func text(x interface{}) string {
	b, err := json.Marshal(x)
	check(err)
	return string(b)
}

// plainReader hides that its source can deliver single bytes
type plainReader struct{ r io.Reader }

func (p plainReader) Read(b []byte) (int, error) { return p.r.Read(b) }

// one decoding of the bytes
func decodeBy(how string, in []byte) (value.Value, error, int) {
	switch how {
	case "copy":
		v, err := value.Unpack(append([]byte{}, in...), true)
		return v, err, 0
	case "nocopy":
		v, err := value.Unpack(append([]byte{}, in...), false)
		return v, err, 0
	case "parse":
		v, err := value.Parse(value.MessageUnpacker(append([]byte{}, in...), true), value.MessageParser())
		return v, err, 0
	case "reader":
		r := bytes.NewReader(in)
		v, err := value.Read(r)
		return v, err, r.Len()
	case "plain":
		r := bytes.NewReader(in)
		v, err := value.Read(plainReader{r})
		return v, err, r.Len()
	}
	panic(caseError(how))
}

var decoders = []string{"copy", "nocopy", "reader", "plain"}

// codec: serialize a value and deserialize the bytes in every way
func opCodec(c Case) Result {
	v := c.desc("v").build()
	data, err := value.Pack(v)
	res := Result{"val": abs(v), "err": errKind(err), "pack": Bytes(data)}
	var first T
	var firstText string
	others := []interface{}{}
	eqs := []interface{}{}
	left := []int{}
	for i, how := range decoders {
		src := data
		if how == "reader" || how == "plain" {
			var buf bytes.Buffer
			if werr := value.Write(&buf, v); werr != nil {
				others = append(others, T{"write", T{errKind(werr)}})
			}
			src = append(buf.Bytes(), 0xc3) // a byte that is not of the value
		}
		d, derr, n := decodeBy(how, src)
		if how == "reader" || how == "plain" {
			left = append(left, n)
		}
		o := outcome(d, derr)
		if i == 0 {
			first, firstText = o, text(o)
		} else if text(o) != firstText {
			others = append(others, T{how, o})
		}
		if derr == nil {
			eqs = append(eqs, []bool{value.Equal(v, d), value.Equal(d, v)})
		}
	}
	res["dec"] = first
	res["others"] = others
	res["eqs"] = eqs
	res["left"] = left
	return res
}

// routes: serialize the same content by every entry point, however built
func opRoutes(c Case) Result {
	d := c.desc("v")
	base := d.build()
	data, err := value.Pack(base)
	res := Result{"val": abs(base), "err": errKind(err), "pack": Bytes(data)}
	others := []interface{}{}
	count := 0
	add := func(name string, b []byte, err error) {
		count++
		if err != nil {
			others = append(others, T{name, errKind(err)})
		} else if !bytes.Equal(b, data) {
			others = append(others, T{name, Bytes(b)})
		}
	}
	entry := func(prefix string, v value.Value) {
		b, err := value.Pack(v)
		add(prefix+"pack", b, err)
		var buf bytes.Buffer
		err = value.Write(&buf, v)
		add(prefix+"write", buf.Bytes(), err)
		var sbuf bytes.Buffer
		ch := make(chan value.Value, 1)
		ch <- v
		close(ch)
		err = value.WriteStream(&sbuf, ch)
		add(prefix+"stream", sbuf.Bytes(), err)
		b, err = hex.DecodeString(value.Hex(v))
		add(prefix+"hex", b, err)
		b, sum, err := value.Hash(v, crypto.SHA256)
		add(prefix+"hash", b, err)
		h := crypto.SHA256.New()
		h.Write(data)
		if !bytes.Equal(sum, h.Sum(nil)) {
			others = append(others, T{prefix + "digest", Bytes(sum)})
		}
		_, sum, err = value.Hash(v, crypto.SHA512)
		want := sha512.Sum512(data)
		if err != nil || !bytes.Equal(sum, want[:]) {
			others = append(others, T{prefix + "digest512", Bytes(sum)})
		}
		if v != nil {
			b, err = v.MarshalBinary()
			add(prefix+"marshal", b, err)
			b, err = value.PackStruct(v)
			add(prefix+"struct", b, err)
			var pbuf bytes.Buffer
			p := value.MessagePacker(&pbuf)
			v.Pack(p)
			add(prefix+"packer", pbuf.Bytes(), p.Error())
		}
	}
	entry("", base)
	for _, r := range []route{{flip: true}, {ops: 1}, {ops: 2, flip: true}, {ops: 3}, {ops: 4, flip: true}, {ops: -1}, {ops: -1, flip: true}} {
		name := "built" + text([]interface{}{r.flip, r.ops}) + "/"
		v := d.buildBy(r)
		b, err := value.Pack(v)
		add(name+"pack", b, err)
		if v != nil {
			b, err = v.MarshalBinary()
			add(name+"marshal", b, err)
		}
		switch x := v.(type) {
		case value.Map:
			b, err = value.Pack(value.SortedMapCopyOf(x))
			add(name+"sortedcopy", b, err)
			b, err = value.Pack(value.ImmutableMapCopyOf(x))
			add(name+"immutablecopy", b, err)
		}
	}
	if again, err := value.Unpack(data, true); err == nil && !hasEmptySparse(base) {
		entry("decoded/", again)
	}
	res["others"] = others
	res["routes"] = count
	return res
}

// an empty sparse list is the one value that decodes to another kind
func hasEmptySparse(v value.Value) bool {
	if v == nil {
		return false
	}
	switch v.Kind() {
	case value.LIST:
		if sparseList(v) {
			items := v.(value.List).Items()
			if len(items) == 0 {
				return true
			}
			for _, item := range items {
				if hasEmptySparse(item.Value()) {
					return true
				}
			}
			return false
		}
		for _, e := range v.(value.List).Values() {
			if hasEmptySparse(e) {
				return true
			}
		}
	case value.MAP:
		for _, e := range v.(value.Map).Entries() {
			if hasEmptySparse(e.Value()) {
				return true
			}
		}
	}
	return false
}

func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

const maxReported = 1 << 30

// unpack: decode any bytes in every way
func opUnpack(c Case) Result {
	in := []byte(c.bytes("in"))
	if c.has("rep") { // in repeated
		in = bytes.Repeat(in, c.num("rep"))
	}
	if c.has("then") {
		in = append(in, c.bytes("then")...)
	}
	var first T
	var firstText string
	var alloc uint64
	others := []interface{}{}
	for i, how := range decoders {
		var o T
		var v value.Value
		var err error
		var left int
		n := allocated(func() { v, err, left = decodeBy(how, in) })
		if n > alloc {
			alloc = n
		}
		if c.has("quiet") { // too deep to write down
			o = T{errKind(err)}
			if err == nil {
				o = T{"ok"}
			}
		} else {
			o = outcome(v, err)
		}
		if i == 0 {
			first, firstText = o, text(o)
		} else if text(o) != firstText {
			others = append(others, T{how, o})
		}
		_ = left
	}
	if alloc > maxReported {
		alloc = maxReported
	}
	return Result{"res": first, "others": others, "alloc": alloc, "size": len(in)}
}

// cuts: decode proper prefixes of an encoding; runs of equal outcomes are joined
func opCuts(c Case) Result {
	in := []byte(c.bytes("in"))
	step := 1
	if len(in) > 400 {
		step = len(in) / 400
	}
	runs := []interface{}{}
	for _, how := range decoders {
		var last string
		var from, to int
		flush := func() {
			if last != "" {
				runs = append(runs, T{how, from, to, last})
			}
		}
		for k := 0; k < len(in); k += step {
			_, err, _ := decodeBy(how, in[:k])
			kind := errKind(err)
			if err == nil {
				kind = "ok"
			}
			if kind != last {
				flush()
				last, from = kind, k
			}
			to = k
		}
		flush()
	}
	return Result{"runs": runs, "size": len(in)}
}

// source delivers bytes in the given pieces, and then ends or fails
type source struct {
	data   []byte
	pieces []int // sizes, the last one repeats
	at     int   // piece
	pos    int   // bytes delivered
	end    error // io.EOF or a failure
	more   []byte // what it delivers after a failure
	with   bool  // the end comes with the last piece
	zero   bool  // deliver nothing now and then, which a reader may do
	ended  bool  // the end was reported
	flip   bool
	calls  int
}

func (s *source) Read(b []byte) (int, error) {
	s.calls++
	if len(b) == 0 {
		return 0, nil
	}
	if s.zero {
		s.flip = !s.flip
		if s.flip {
			return 0, nil
		}
	}
	if s.pos == len(s.data) {
		return s.over(b)
	}
	n := 1
	if len(s.pieces) > 0 {
		n = s.pieces[s.at]
		if s.at+1 < len(s.pieces) {
			s.at++
		}
	}
	if n < 1 {
		n = 1
	}
	if n > len(b) {
		n = len(b)
	}
	n = copy(b[:n], s.data[s.pos:])
	s.pos += n
	if s.with && s.pos == len(s.data) {
		s.ended = true
		return n, s.end
	}
	return n, nil
}

// the end or failure, once; a source that failed may go on
func (s *source) over(b []byte) (int, error) {
	if s.ended && len(s.more) > 0 {
		n := copy(b, s.more)
		s.more = s.more[n:]
		return n, nil
	}
	s.ended = true
	return 0, s.end
}

type byteSource struct{ *source }

func (s byteSource) ReadByte() (byte, error) {
	if s.pos == len(s.data) {
		var b [1]byte
		_, err := s.over(b[:])
		return b[0], err
	}
	b := s.data[s.pos]
	s.pos++
	return b, nil
}

// frag: read successive values from a source that splits its bytes
func opFrag(c Case) Result {
	in := []byte(c.bytes("in"))
	var pieces []int
	c.get("pieces", &pieces)
	src := &source{data: in, pieces: pieces, end: io.EOF, with: c.flag("with"), zero: c.flag("zero")}
	if c.flag("fail") {
		src.end = errSource
		if c.has("more") && !src.with {
			src.more = c.bytes("more")
		}
	}
	var r io.Reader = src
	if c.flag("byter") {
		r = byteSource{src}
	}
	reads := []interface{}{}
	switch c.str("via") {
	case "read":
		for len(reads) <= len(in)+2 {
			v, err := value.Read(r)
			reads = append(reads, T{outcome(v, err), src.pos})
			if err != nil {
				break
			}
		}
	case "parse":
		u, p := value.MessageReader(r), value.MessageParser()
		for len(reads) <= len(in)+2 {
			v, err := value.Parse(u, p)
			reads = append(reads, T{outcome(v, err), src.pos})
			if err != nil {
				break
			}
		}
	case "stream":
		out := make(chan value.Value)
		done := make(chan error, 1)
		go func() { done <- value.ReadStream(r, out) }()
		for v := range out {
			reads = append(reads, T{outcome(v, nil), -1})
		}
		err := <-done
		reads = append(reads, T{outcome(nil, err), src.pos})
		if err == nil {
			reads[len(reads)-1] = T{T{"nil"}, src.pos}
		}
	}
	return Result{"reads": reads, "calls": src.calls}
}

// sink accepts limit bytes and then fails
type sink struct {
	limit  int
	whole  bool // a piece that does not fit is refused as a whole
	eager  bool // fails already when the limit is reached
	got    []byte
	failed bool
	later  int // writes after the failure
}

func (s *sink) Write(b []byte) (int, error) {
	if s.failed {
		if len(b) > 0 {
			s.later++
		}
		return 0, errSink
	}
	if s.limit >= 0 && (len(s.got)+len(b) > s.limit || s.eager && len(b) > 0 && len(s.got)+len(b) == s.limit) {
		n := s.limit - len(s.got)
		if s.whole && n < len(b) {
			n = 0
		}
		s.got = append(s.got, b[:n]...)
		s.failed = true
		return n, errSink
	}
	s.got = append(s.got, b...)
	return len(b), nil
}

// fault: write values to a destination that fails after every number of bytes
func opFault(c Case) Result {
	var ds []Desc
	c.get("vs", &ds)
	via := c.str("via")
	one := func(s *sink) (error, bool) {
		vs := make([]value.Value, len(ds))
		for i, d := range ds {
			vs[i] = d.build()
		}
		stuck := false
		switch via {
		case "write":
			for _, v := range vs {
				if err := value.Write(s, v); err != nil {
					return err, false
				}
			}
			return nil, false
		case "stream":
			ch := make(chan value.Value)
			stop := make(chan struct{})
			go func() {
				defer close(ch)
				for _, v := range vs {
					select {
					case ch <- v:
					case <-stop:
						return
					}
				}
			}()
			err := value.WriteStream(s, ch)
			close(stop)
			return err, stuck
		case "packer":
			p := value.MessagePacker(s)
			for _, v := range vs {
				if v == nil {
					p.PackNil()
				} else {
					v.Pack(p)
				}
			}
			return p.Error(), false
		case "struct":
			p := value.MessagePacker(s)
			for _, v := range vs {
				if v == nil {
					p.PackNil()
				} else {
					v.Pack(p)
				}
			}
			return p.Error(), false
		}
		panic(caseError(via))
	}
	full := &sink{limit: -1}
	err, _ := one(full)
	rows := []interface{}{}
	n := len(full.got)
	step := 1
	if n > 300 {
		step = n / 300
	}
	for _, how := range [][]bool{{false, false}, {true, false}, {false, true}} {
		for k := 0; k < n; k += step {
			s := &sink{limit: k, whole: how[0], eager: how[1]}
			if s.eager {
				s.limit++
			}
			err, _ := one(s)
			rows = append(rows, T{s.limit, len(s.got), errKind(err), s.later, bytes.HasPrefix(full.got, s.got)})
		}
	}
	return Result{"full": Bytes(full.got), "err": errKind(err), "rows": rows}
}

// calls: drive a packer call by call, with a fault after some bytes
func opCalls(c Case) Result {
	var calls []json.RawMessage
	c.get("calls", &calls)
	limit := c.num("limit")
	s := &sink{limit: limit, whole: c.has("whole") && c.flag("whole")}
	p := value.MessagePacker(s)
	errs := []string{}
	for _, raw := range calls {
		callPacker(p, raw)
		errs = append(errs, errKind(p.Error()))
	}
	return Result{"got": Bytes(s.got), "errs": errs, "later": s.later}
}

func callPacker(p value.Packer, raw json.RawMessage) {
	var parts []json.RawMessage
	check(json.Unmarshal(raw, &parts))
	var name string
	check(json.Unmarshal(parts[0], &name))
	var b Bytes
	var n int
	arg := func(dst interface{}) {
		if err := json.Unmarshal(parts[len(parts)-1], dst); err != nil {
			panic(caseError(err.Error()))
		}
	}
	switch name {
	case "nil":
		p.PackNil()
	case "bool":
		var f bool
		arg(&f)
		p.PackBool(f)
	case "long":
		arg(&b)
		p.PackLong(int64(unword(b)))
	case "double":
		arg(&b)
		p.PackDouble(float64frombits(unword(b)))
	case "str":
		arg(&b)
		p.PackStr(string(b))
	case "bin":
		arg(&b)
		p.PackBin(b)
	case "ext":
		arg(&b)
		p.PackExt(value.Ext(b[0]), b[1:])
	case "list":
		arg(&n)
		p.PackList(n)
	case "map":
		arg(&n)
		p.PackMap(n)
	case "raw":
		arg(&b)
		p.PackRaw(b)
	default:
		panic(caseError(name))
	}
}

// walkTokens asks an unpacker of at most size bytes for its tokens
func walkTokens(u value.Unpacker, size int) []interface{} {
	out := []interface{}{}
	p := value.MessageParser()
	for len(out) <= size+1 {
		f, h := u.Next()
		head := append(Bytes{}, h...)
		switch f {
		case value.EOF:
			return append(out, T{"eof"})
		case value.UnexpectedEOF:
			return append(out, T{"uneof"})
		case value.NilToken:
			out = append(out, T{"nil", head})
		case value.BoolToken:
			out = append(out, T{"bool", p.ParseBool(h)})
		case value.LongToken:
			n := p.ParseLong(h)
			if p.Error() != nil {
				return append(out, T{"err"})
			}
			out = append(out, T{"long", word(uint64(n))})
		case value.DoubleToken:
			out = append(out, T{"double", word(float64bits(p.ParseDouble(h)))})
		case value.FixExtToken:
			n, td := p.ParseExt(h)
			out = append(out, T{"ext", n, append(Bytes{}, td...)})
		case value.BinHeader, value.StrHeader, value.ExtHeader:
			var n int
			name := "bin"
			switch f {
			case value.BinHeader:
				n = p.ParseBin(h)
			case value.StrHeader:
				n, name = p.ParseStr(h), "str"
			default:
				n, _ = p.ParseExt(h)
				name = "ext"
			}
			m := n
			if f == value.ExtHeader {
				m++
			}
			b, err := u.Read(m)
			if err != nil {
				return append(out, T{errKind(err)})
			}
			out = append(out, T{name, n, append(Bytes{}, b...)})
		case value.ListHeader:
			out = append(out, T{"list", saturate(p.ParseList(h))})
		case value.MapHeader:
			out = append(out, T{"map", saturate(p.ParseMap(h))})
		default:
			return append(out, T{"what", int(f)})
		}
		if p.Error() != nil {
			return append(out, T{"err"})
		}
	}
	return out
}

// tokens: walk over the bytes with an unpacker, token by token
func opTokens(c Case) Result {
	in := []byte(c.bytes("in"))
	a := walkTokens(value.MessageUnpacker(in, c.flag("copy")), len(in))
	b := walkTokens(value.MessageReader(plainReader{bytes.NewReader(in)}), len(in))
	res := Result{"tokens": a}
	res["same"] = text(a) == text(b)
	if text(a) != text(b) {
		res["others"] = b
	}
	return res
}

func saturate(n int) int {
	if n > 2147483647 {
		return 2147483647
	}
	return n
}

var _ = atomic.AddInt64
var _ = time.Now
