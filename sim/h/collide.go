package h

import (
	"encoding/binary"
	"math/bits"

	"github.com/prometheus/prometheus/pkg/labels"
	"verif.local/sim/dsim"
)

// Label sets with the same 64 bit hash.  Prometheus' labels.Hash is xxhash64
// over the names and values, which can be run backwards: with two adjacent
// eight byte blocks of a value at our disposal, the second follows from any
// choice of the first.  (A user meets this by chance, very rarely, or because
// somebody arranged for it: label values are often taken from requests.)

const (
	xp1 = 11400714785074694791
	xp2 = 14029467366897019727
	xp3 = 1609587929392839161
	xp4 = 9650029242287828579
	xp5 = 2870177450012600261
)

func xinv(a uint64) uint64 { // inverse modulo 2^64
	x := a
	for i := 0; i < 6; i++ {
		x *= 2 - a*x
	}
	return x
}

func xround(acc, in uint64) uint64 { return bits.RotateLeft64(acc+in*xp2, 31) * xp1 }

// xprefix is the state of the hash of b just before its trailing blocks.
func xprefix(b []byte) uint64 {
	var h uint64
	n := len(b)
	if n >= 32 {
		var p1, p2 uint64 = xp1, xp2
		v := [4]uint64{p1 + p2, p2, 0, -p1}
		for ; len(b) >= 32; b = b[32:] {
			for i := range v {
				v[i] = xround(v[i], binary.LittleEndian.Uint64(b[8*i:]))
			}
		}
		h = bits.RotateLeft64(v[0], 1) + bits.RotateLeft64(v[1], 7) + bits.RotateLeft64(v[2], 12) + bits.RotateLeft64(v[3], 18)
		for _, x := range v {
			h = (h^xround(0, x))*xp1 + xp4
		}
	} else {
		h = xp5
	}
	return h + uint64(n)
}

const blockChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_./:,;=+*#@!?<>()[]{}|~^%$& '"

// collide returns two values for the label zzz which, added to base, give
// two label sets with the same hash.
func collide(w *dsim.Stream, base map[string]string) (a, b string, ok bool) {
	m := map[string]string{}
	for k, v := range base {
		m[k] = v
	}
	const name = "zzz"
	var enc []byte
	for _, l := range labels.FromMap(m) {
		if l.Name >= name {
			return "", "", false
		}
		enc = append(append(append(append(enc, l.Name...), 0xff), l.Value...), 0xff)
	}
	enc = append(append(enc, name...), 0xff)
	pad := (32 - len(enc)%32) % 32
	for i := 0; i < pad; i++ {
		enc = append(enc, 'p')
	}
	// the tail is now two blocks and the terminating 0xff
	rng := w.Intn(1 << 30)
	x := uint64(rng)*0x9e3779b97f4a7c15 + 1
	rnd := func() [8]byte {
		var k [8]byte
		for i := range k {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			k[i] = blockChars[(x>>20)%uint64(len(blockChars))]
		}
		return k
	}
	var allowed [256]bool
	for i := 0; i < len(blockChars); i++ {
		allowed[blockChars[i]] = true
	}
	h0 := xprefix(append(append([]byte(nil), enc...), make([]byte, 17)...))
	step := func(h uint64, k [8]byte) uint64 {
		return bits.RotateLeft64(h^xround(0, binary.LittleEndian.Uint64(k[:])), 27)*xp1 + xp4
	}
	i1, i2 := xinv(xp1), xinv(xp2)
	k1, k2 := rnd(), rnd()
	h1 := step(h0, k1)
	want := h1 ^ xround(0, binary.LittleEndian.Uint64(k2[:]))
	for try := 0; try < 400_000; try++ {
		c1 := rnd()
		if c1 == k1 {
			continue
		}
		r := want ^ step(h0, c1) // = round(0, c2)
		c2 := bits.RotateLeft64(r*i1, -31) * i2
		var cb [8]byte
		binary.LittleEndian.PutUint64(cb[:], c2)
		good := true
		for _, ch := range cb {
			good = good && allowed[ch]
		}
		if !good {
			continue
		}
		p := string(enc[len(enc)-pad:])
		a, b = p+string(k1[:])+string(k2[:]), p+string(c1[:])+string(cb[:])
		m[name] = a
		ha := labels.FromMap(m).Hash()
		m[name] = b
		return a, b, labels.FromMap(m).Hash() == ha
	}
	return "", "", false
}

// Collide gives some target two series whose label sets have the same hash.
func (n *Net) Collide() {
	w := n.r.W
	t := n.T[w.Intn(len(n.T))]
	if len(t.Series) == 0 {
		return
	}
	s := t.Series[w.Intn(len(t.Series))]
	if s.raw != "" && len(s.lbls) == 0 {
		return
	}
	a, b, ok := collide(w, n.labelsOf(t, s).Map())
	if !ok {
		return
	}
	for _, v := range []string{a, b} {
		c := tseries{name: s.name, lbls: append(append([][2]string(nil), s.lbls...), [2]string{"zzz", v})}
		raw := `zzz="` + v + `"`
		if s.raw != "" {
			raw = s.raw[1:len(s.raw)-1] + "," + raw
		}
		c.raw = "{" + raw + "}"
		t.Series = append(t.Series, c)
	}
	n.Collides = true
	n.r.Probe("colliding-hashes")
}
