package main

import (
	"io"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/codeallergy/value"
)

func init() {
	ops["stream"] = opStream
}

// inBubble runs f where waiting for all goroutines to block is possible.
func inBubble(f func()) (failure interface{}) {
	failure = "goroutines remain"
	synctest.Test(theTest, func(t *testing.T) {
		defer func() {
			if e := recover(); e != nil {
				failure = e
			}
		}()
		f()
		failure = nil
	})
	return failure
}

// transport carries bytes from a writer to a reader as the script allows.
type transport struct {
	mu       sync.Mutex
	cond     *sync.Cond
	data     []byte
	credit   int // bytes it accepts in all
	released int // bytes it delivers in all
	read     int // bytes delivered
	ended    string
	frag     int // bytes per delivery, 0 for any number
	with     bool
}

func newTransport(frag int) *transport {
	t := &transport{frag: frag}
	t.cond = sync.NewCond(&t.mu)
	return t
}

func (t *transport) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for {
		if t.ended != "" && len(b) > 0 {
			return n, errSink
		}
		m := t.credit - len(t.data)
		if m > len(b) {
			m = len(b)
		}
		if m > 0 {
			t.data = append(t.data, b[:m]...)
			b, n = b[m:], n+m
			t.cond.Broadcast()
		}
		if len(b) == 0 {
			return n, nil
		}
		t.cond.Wait()
	}
}

func (t *transport) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	t.mu.Lock()
	defer t.mu.Unlock()
	for {
		n := t.released
		if n > len(t.data) {
			n = len(t.data)
		}
		n -= t.read
		if n > 0 {
			if n > len(b) {
				n = len(b)
			}
			if t.frag > 0 && n > t.frag {
				n = t.frag
			}
			copy(b, t.data[t.read:t.read+n])
			t.read += n
			if t.with && t.ended != "" && t.read == len(t.data) {
				return n, t.end()
			}
			return n, nil
		}
		if t.ended != "" && t.read == len(t.data) {
			return 0, t.end()
		}
		t.cond.Wait()
	}
}

func (t *transport) end() error {
	if t.ended == "fail" {
		return errSource
	}
	return io.EOF
}

// change applies f to the transport and wakes those who wait for it.
func (t *transport) change(f func()) {
	t.mu.Lock()
	f()
	t.mu.Unlock()
	t.cond.Broadcast()
}

// stop ends the transport before what it has not delivered.
func (t *transport) stop(how string) {
	t.change(func() {
		if t.ended == "" {
			t.ended = how
			if t.released < len(t.data) {
				t.data = t.data[:t.released]
			}
		}
	})
}

type step struct {
	Do string
	N  int
}

// stream: both pumps between a producer, a transport and a consumer, step by step
func opStream(c Case) Result {
	var ds []Desc
	c.get("vs", &ds)
	var script []step
	var raw [][]interface{}
	c.get("script", &raw)
	for _, s := range raw {
		st := step{Do: s[0].(string)}
		if len(s) > 1 {
			st.N = int(s[1].(float64))
		}
		script = append(script, st)
	}
	cin, cout := c.num("cin"), c.num("cout")
	obs := []interface{}{}
	final := []interface{}{}
	failure := inBubble(func() {
		t := newTransport(c.num("frag"))
		t.with = c.flag("with")
		in := make(chan value.Value, cin)
		out := make(chan value.Value, cout)
		offers := make(chan int, len(script)+len(ds)+1)
		demands := make(chan bool, len(script)+len(ds)+4)
		wret, rret := "run", "run"
		closed := false
		got := []interface{}{}
		stop := make(chan bool)
		var mu sync.Mutex
		go func() {
			for i := range offers {
				if i < 0 {
					close(in)
					return
				}
				select {
				case in <- ds[i].build():
				case <-stop:
					return
				}
			}
		}()
		go func() {
			err := value.WriteStream(t, in)
			mu.Lock()
			wret = errKind(err)
			mu.Unlock()
		}()
		go func() {
			err := value.ReadStream(t, out)
			mu.Lock()
			rret = errKind(err)
			mu.Unlock()
		}()
		go func() {
			for range demands {
				v, ok := <-out
				mu.Lock()
				if ok {
					got = append(got, abs(v))
				} else {
					closed = true
				}
				mu.Unlock()
			}
		}()
		offered := 0
		shut := false
		for _, s := range script {
			switch s.Do {
			case "offer":
				offers <- offered
				offered++
			case "close":
				offers <- -1
				shut = true
			case "credit":
				t.change(func() { t.credit += s.N })
			case "release":
				t.change(func() { t.released += s.N })
			case "demand":
				demands <- true
			case "end":
				t.change(func() { t.ended = "eof" })
			case "fail", "cut":
				t.stop(s.Do)
			default:
				panic(caseError(s.Do))
			}
			synctest.Wait()
			mu.Lock()
			t.mu.Lock()
			obs = append(obs, map[string]interface{}{"w": len(t.data), "got": len(got), "wret": wret, "rret": rret, "closed": closed})
			t.mu.Unlock()
			mu.Unlock()
		}
		mu.Lock()
		final = append(final, got...)
		mu.Unlock()
		// let everything end
		t.stop("cut")
		t.change(func() { t.released += 1 << 30 })
		if !shut {
			close(offers)
			close(stop)
			synctest.Wait()
			// a writer that still waits for its input
			select {
			case in <- nil:
			default:
			}
			synctest.Wait()
			mu.Lock()
			running := wret == "run"
			mu.Unlock()
			if running {
				close(in)
			}
		} else {
			close(stop)
			close(offers)
		}
		synctest.Wait()
		for i := 0; i < len(ds)+cout+2; i++ {
			select {
			case <-out:
			default:
			}
			synctest.Wait()
		}
		close(demands)
		synctest.Wait()
	})
	if failure != nil {
		if ce, ok := failure.(caseError); ok {
			panic(ce)
		}
		return Result{"out": "panic", "what": text(failure)}
	}
	return Result{"obs": obs, "got": final}
}
