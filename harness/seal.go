package main

import (
	"bytes"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"strings"
	"sync"

	"github.com/codeallergy/value"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/nacl/box"
)

func init() { ops["seal"] = opSeal }

type keyPair struct{ pub, priv *[32]byte }

func bitFlipped(k *[32]byte, bit int) *[32]byte {
	c := *k
	if bit >= 0 {
		c[bit/8] ^= 1 << (bit % 8)
	}
	return &c
}

func unseal(data []byte, pub, priv *[32]byte) (v value.Value, kind string) {
	v, err := value.Unseal(data, pub, priv)
	switch {
	case errors.Is(err, value.ErrUnseal):
		if v != nil {
			return v, "value and error"
		}
		return nil, "unseal"
	case err != nil:
		return v, errKind(err)
	}
	return v, "ok"
}

// changes are all the ways of changing, cutting and extending the data
func changes(data []byte, each func(kind string, at int, changed []byte)) {
	n := len(data)
	for i := 0; i < n*8; i++ {
		c := append([]byte{}, data...)
		c[i/8] ^= 1 << (i % 8)
		each("bit", i, c)
	}
	for i := 0; i < n; i++ {
		each("first", i, append([]byte{}, data[:i]...))
		each("last", i, append([]byte{}, data[n-i:]...))
		each("less", i, append(append([]byte{}, data[:i]...), data[i+1:]...))
		each("twice", i, append(append([]byte{}, data[:i+1]...), data[i:]...))
	}
	for b := 0; b < 256; b++ {
		for _, k := range []int{1, 2, 3, 16} {
			run := bytes.Repeat([]byte{byte(b)}, k)
			each("run after", b, append(append([]byte{}, data...), run...))
			each("run before", b, append(run, data...))
		}
	}
	for _, t := range []string{"\r\n", "\n\r", "\r\n\r\n", " \n", "\x00\n", "==", "=\n", "\xef\xbb\xbf", "\x80\x00"} {
		each("text after", len(t), append(append([]byte{}, data...), t...))
		each("text before", len(t), append([]byte(t), data...))
	}
	for _, d := range [][]byte{[]byte(hex.EncodeToString(data)), []byte(strings.ToUpper(hex.EncodeToString(data))),
		[]byte(base64.StdEncoding.EncodeToString(data)), []byte(base64.RawStdEncoding.EncodeToString(data)),
		[]byte(base64.URLEncoding.EncodeToString(data)), []byte(value.Base64Prefix + base64.RawStdEncoding.EncodeToString(data)),
		append([]byte{0xc4, byte(n)}, data...), append([]byte{byte(n >> 8), byte(n)}, data...),
		append([]byte{0, 0, byte(n >> 8), byte(n)}, data...), append([]byte{byte(n), byte(n >> 8), 0, 0}, data...)} {
		each("wrapped", len(d), d)
	}
	for _, m := range []int{8, 16, 24, 32, 40} { // the parts in other places
		if m < n {
			each("rotated", m, append(append([]byte{}, data[n-m:]...), data[:n-m]...))
			c := append([]byte{}, data...)
			for i, j := 0, m-1; i < j; i, j = i+1, j-1 {
				c[i], c[j] = c[j], c[i]
			}
			if m > 0 && !bytes.Equal(c, data) {
				each("reversed", m, c)
			}
		}
	}
	each("double", 0, append(append([]byte{}, data...), data...))
	each("nil", 0, nil)
	for _, k := range []int{1, 2, 8, 16, 24, 64} {
		each("zeros after", k, append(append([]byte{}, data...), make([]byte, k)...))
		each("zeros before", k, append(make([]byte, k), data...))
		if k < n {
			each("more after", k, append(append([]byte{}, data...), data[n-k:]...))
		}
	}
	for i := 1; i < n; i++ {
		each("turned", i, append(append([]byte{}, data[i:]...), data[:i]...))
		c := append([]byte{}, data...)
		c[i], c[i-1] = c[i-1], c[i]
		if c[i] != c[i-1] {
			each("swapped", i, c)
		}
	}
}

func opSeal(c Case) Result {
	var steps []json.RawMessage
	c.get("steps", &steps)
	keys := map[int]keyPair{}
	party := func(n int) keyPair {
		if _, ok := keys[n]; !ok {
			pub, priv, err := box.GenerateKey(rand.Reader)
			check(err)
			keys[n] = keyPair{pub, priv}
		}
		return keys[n]
	}
	var arts [][]byte
	var from []value.Value // what the box of the artefact was sealed from
	var res []interface{}
	add := func(data []byte, v value.Value, r ...interface{}) {
		arts, from, res = append(arts, data), append(from, v), append(res, r)
	}
	for _, raw := range steps {
		var s []json.RawMessage
		check(json.Unmarshal(raw, &s))
		var op string
		check(json.Unmarshal(s[0], &op))
		num := func(i int) int {
			var n int
			if err := json.Unmarshal(s[i], &n); err != nil {
				panic(caseError(err.Error()))
			}
			return n
		}
		desc := func(i int) value.Value {
			var d Desc
			if err := json.Unmarshal(s[i], &d); err != nil {
				panic(caseError(err.Error()))
			}
			return d.build()
		}
		switch op {
		case "seal":
			v := desc(1)
			before := text(abs(v))
			to, own := *party(num(3)).pub, *party(num(2)).priv
			data, err := value.Seal(v, &to, &own)
			kind := errKind(err)
			if kind == "nil" {
				kind = "ok"
			}
			if text(abs(v)) != before || to != *party(num(3)).pub || own != *party(num(2)).priv {
				kind = "changed"
			}
			add(data, v, kind)
		case "flip":
			x := num(1) - 1
			d := append([]byte{}, arts[x]...)
			at := 0
			if len(d) > 0 {
				at = num(2) % len(d)
				d[at] ^= 1 << num(3)
			}
			add(d, from[x], "ok", at)
		case "cut":
			x, k := num(1)-1, num(2)
			if k > len(arts[x]) {
				k = len(arts[x])
			}
			add(append([]byte{}, arts[x][:len(arts[x])-k]...), from[x], "ok", k)
		case "grow":
			x := num(1) - 1
			var b Bytes
			check(json.Unmarshal(s[2], &b))
			add(append(append([]byte{}, arts[x]...), b...), from[x], "ok")
		case "head":
			x, k := num(1)-1, num(2)
			if k > len(arts[x]) {
				k = len(arts[x])
			}
			add(append([]byte{}, arts[x][k:]...), from[x], "ok")
		case "splice":
			x, y := num(1)-1, num(2)-1
			if len(arts[x]) < 24 || len(arts[y]) < 24 {
				panic(caseError("splicing what is too short"))
			}
			add(append(append([]byte{}, arts[x][:24]...), arts[y][24:]...), from[y], "ok")
		case "open":
			x := num(1) - 1
			pub := bitFlipped(party(num(2)).pub, num(4))
			priv := bitFlipped(party(num(3)).priv, num(5))
			pub0, priv0 := *pub, *priv
			// with room behind, that must stay as it is
			data := append(make([]byte, 0, len(arts[x])+32), arts[x]...)
			v, kind := unseal(data, pub, priv)
			if kind != "ok" {
				res = append(res, T{kind})
				break
			}
			same := bytes.Equal(data, arts[x]) && *pub == pub0 && *priv == priv0
			for _, b := range data[len(data):cap(data)] {
				same = same && b == 0
			}
			// what was opened does not depend on the sealed bytes any more
			for i := range data {
				data[i] = 0xa5
			}
			eq := value.Equal(v, from[x]) && value.Equal(from[x], v)
			res = append(res, T{"ok", abs(v), eq, same})
		case "all":
			x := num(1) - 1
			pub, priv := party(num(2)).pub, party(num(3)).priv
			wrong := []interface{}{}
			changes(arts[x], func(what string, at int, d []byte) {
				if _, kind := unseal(d, pub, priv); kind != "unseal" && len(wrong) < 20 {
					wrong = append(wrong, T{what, at, kind})
				}
			})
			for bit := 0; bit < 256; bit++ {
				if bit != 255 {
					if _, kind := unseal(arts[x], bitFlipped(pub, bit), priv); kind != "unseal" {
						wrong = append(wrong, T{"public", bit, kind})
					}
				}
				if bit > 2 && bit < 254 {
					if _, kind := unseal(arts[x], pub, bitFlipped(priv, bit)); kind != "unseal" {
						wrong = append(wrong, T{"private", bit, kind})
					}
				}
			}
			res = append(res, T{"ok", wrong})
		case "many":
			v := desc(1)
			own, to := party(num(2)), party(num(3))
			n := num(4)
			var mu sync.Mutex
			var wg sync.WaitGroup
			seen := map[string]bool{}
			for k := 0; k < 4; k++ {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					for i := k; i < n; i += 4 {
						data, err := value.Seal(v, to.pub, own.priv)
						if err != nil {
							return
						}
						mu.Lock()
						seen[string(data)] = true
						mu.Unlock()
					}
				}(k)
			}
			wg.Wait()
			res = append(res, T{len(seen)})
		case "fixed":
			// the same keys in every process
			v := desc(1)
			var priv [32]byte
			for i := range priv {
				priv[i] = byte(i + 1)
			}
			pub, err := curve25519.X25519(priv[:], curve25519.Basepoint)
			check(err)
			data, err := value.Seal(v, (*[32]byte)(pub), &priv)
			add(data, v, errKind(err), Bytes(data))
		default:
			panic(caseError("no step " + op))
		}
	}
	return Result{"res": res}
}
