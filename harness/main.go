// Command harness runs the operations described by the lines of a case file
// on the value library and records what it observes, one event per case.
// It decides nothing: the events are judged by the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"testing"
	"time"
)

// Case is a line of the case file: the operation and its arguments.
type Case map[string]json.RawMessage

// Result is what an operation observed.
type Result map[string]interface{}

type opFunc func(c Case) Result

var ops = map[string]opFunc{}

func (c Case) get(name string, dst interface{}) {
	raw, ok := c[name]
	if !ok {
		panic(caseError("no field " + name))
	}
	if err := json.Unmarshal(raw, dst); err != nil {
		panic(caseError(name + ": " + err.Error()))
	}
}

func (c Case) has(name string) bool { _, ok := c[name]; return ok }

func (c Case) str(name string) string  { var s string; c.get(name, &s); return s }
func (c Case) num(name string) int     { var n int; c.get(name, &n); return n }
func (c Case) flag(name string) bool   { var b bool; c.get(name, &b); return b }
func (c Case) bytes(name string) Bytes { var b Bytes; c.get(name, &b); return b }

// caseError is a fault of the case, not of the library.
type caseError string

var started int64 // number of the running case, for the watchdog
var startedAt int64

var theTest *testing.T

var (
	in      = flag.String("in", "", "case file")
	out     = flag.String("out", "", "event file, appended to")
	journal = flag.String("journal", "", "number of the case being run")
	skip    = flag.Int("skip", 0, "cases to skip")
	limit   = flag.Int("limit", 20, "seconds a case may take")
	stack   = flag.Int("stack", 0, "stack limit in MB")
)

func main() {}

func drive() {

	if *stack > 0 {
		debug.SetMaxStack(*stack << 20)
	}
	f, err := os.Open(*in)
	check(err)
	o, err := os.OpenFile(*out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	check(err)
	j, err := os.OpenFile(*journal, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	check(err)
	w := bufio.NewWriterSize(o, 1<<20)

	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			at := atomic.LoadInt64(&startedAt)
			if at != 0 && time.Since(time.Unix(0, at)) > time.Duration(*limit)*time.Second {
				fmt.Fprintln(os.Stderr, "harness: case hangs")
				os.Exit(7)
			}
		}
	}()

	r := bufio.NewReaderSize(f, 1<<20)
	for n := 0; ; n++ {
		line, err := r.ReadBytes('\n')
		if len(line) == 0 && err != nil {
			break
		}
		if n < *skip {
			continue
		}
		var c Case
		check(json.Unmarshal(line, &c))
		_, err = j.WriteAt([]byte(fmt.Sprintf("%-12d", n)), 0)
		check(err)
		atomic.StoreInt64(&startedAt, time.Now().UnixNano())
		res := run(c)
		atomic.StoreInt64(&startedAt, 0)
		for k, v := range c {
			if k == "echo" {
				continue
			}
			if _, ok := res[k]; !ok {
				res[k] = v
			}
		}
		data, err := json.Marshal(res)
		check(err)
		w.Write(data)
		w.WriteByte('\n')
		// a fatal error must not lose the events before it
		check(w.Flush())
	}
	_, err = j.WriteAt([]byte("done        "), 0)
	check(err)
	check(w.Flush())
	os.Exit(0)
}

func run(c Case) (res Result) {
	op := c.str("op")
	fn, ok := ops[op]
	if !ok {
		fmt.Fprintln(os.Stderr, "harness: no operation", op)
		os.Exit(2)
	}
	defer func() {
		if e := recover(); e != nil {
			if ce, ok := e.(caseError); ok {
				fmt.Fprintln(os.Stderr, "harness: bad case:", string(ce))
				os.Exit(2)
			}
			res = Result{"out": "panic", "what": fmt.Sprint(e)}
			if os.Getenv("HARNESS_STACK") != "" {
				fmt.Fprintln(os.Stderr, string(debug.Stack()))
			}
		}
	}()
	setFault(c)
	res = fn(c)
	if _, ok := res["out"]; !ok {
		res["out"] = "ok"
	}
	return res
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(2)
	}
}

// Bytes are written as an array of numbers, which the specification reads.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendInt(out, int64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *Bytes) UnmarshalJSON(data []byte) error {
	var ns []int
	if err := json.Unmarshal(data, &ns); err != nil {
		return err
	}
	*b = make([]byte, len(ns))
	for i, n := range ns {
		if n < 0 || n > 255 {
			return fmt.Errorf("not a byte: %d", n)
		}
		(*b)[i] = byte(n)
	}
	return nil
}
