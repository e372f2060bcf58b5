package main

import (
	"fmt"
	"go/types"
	"math/big"
	"time"
)

// C27: RIPEMD-160 as published, through the interface of hash.Hash.

const ripemdSpec = `package ripespec

import "ripemd160"

// Use feeds a message in three pieces, summing in between, and appends to a prefix.
func Use(a, b, c, prefix []byte) []byte {
	h := ripemd160.New()
	h.Write(a)
	if len(b) > 0 {
		h.Sum(nil)
		h.Write(b)
		h.Sum(nil)
	}
	if len(c) > 0 {
		h.Write(c)
	}
	return h.Sum(prefix)
}

// Again uses a hash that was used for another message before.
func Again(old, m []byte) []byte {
	h := ripemd160.New()
	h.Write(old)
	h.Sum(nil)
	h.Reset()
	n, err := h.Write(m)
	if n != len(m) || err != nil {
		return nil
	}
	return h.Sum(nil)
}

func Sizes() (int, int) {
	h := ripemd160.New()
	return h.Size(), h.BlockSize()
}

func rol(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }

func Want(m []byte) []byte {
	r := [80]int{
		0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13,
	}
	rr := [80]int{
		5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11,
	}
	s := [80]uint{
		11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6,
	}
	ss := [80]uint{
		8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11,
	}
	k := [5]uint32{0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}
	kk := [5]uint32{0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0}
	h := [5]uint32{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}

	// padding: a one bit, zeros, and the length in bits as 64-bit little endian
	n := len(m)
	total := (n + 9 + 63) / 64 * 64
	p := make([]byte, total)
	for i := 0; i < n; i++ {
		p[i] = m[i]
	}
	p[n] = 0x80
	bits := uint64(n) * 8
	for i := 0; i < 8; i++ {
		p[total-8+i] = byte(bits >> uint(8*i))
	}
	for at := 0; at < total; at += 64 {
		var x [16]uint32
		for i := 0; i < 16; i++ {
			for j := 3; j >= 0; j-- {
				x[i] = x[i]<<8 | uint32(p[at+4*i+j])
			}
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		aa, bb, cc, dd, ee := h[0], h[1], h[2], h[3], h[4]
		for j := 0; j < 80; j++ {
			t := rol(a+f(j/16, b, c, d)+x[r[j]]+k[j/16], s[j]) + e
			a, e, d, c, b = e, d, rol(c, 10), b, t
			t = rol(aa+f(4-j/16, bb, cc, dd)+x[rr[j]]+kk[j/16], ss[j]) + ee
			aa, ee, dd, cc, bb = ee, dd, rol(cc, 10), bb, t
		}
		t := h[1] + c + dd
		h[1] = h[2] + d + ee
		h[2] = h[3] + e + aa
		h[3] = h[4] + a + bb
		h[4] = h[0] + b + cc
		h[0] = t
	}
	out := make([]byte, 20)
	for i := 0; i < 20; i++ {
		out[i] = byte(h[i/4] >> uint(8*(i%4)))
	}
	return out
}

func f(round int, x, y, z uint32) uint32 {
	switch round {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}
`

func checkRipemd(p *Program) *Report {
	rep := newReport("the value graph of the digest, with 32-bit additions as sums modulo 2^32, equals that of the published algorithm for every message of a given length fed in given pieces")
	sumsOn = true
	defer func() { sumsOn = false }()
	var sp *specPkg
	rep.decide("specification", func() { sp = p.spec("ripespec", ripemdSpec) })
	if sp == nil {
		return rep
	}
	pos := "pkg/ripemd160"
	if f := p.function("pkg/ripemd160", "New"); f != nil {
		pos = p.pos(f.Pos())
	}
	byteSlice := types.NewSlice(types.Typ[types.Uint8])
	msg := func(s *scene, name string, n int) (*V, *V) {
		var e []*V
		for i := 0; i < n; i++ {
			if n > 1000 && i < n-20 {
				e = append(e, vConst(0, 8)) // for the length only
				continue
			}
			e = append(e, symInt(8, "message", vOpq(name, nil), vConst(int64(i), 64)))
		}
		seq := seqOf(segE(e...))
		if n == 0 {
			seq = seqEmpty
		}
		return s.ip.newSlice(s.st, byteSlice, seq), seq
	}
	compare := func(key, what string, s, w *scene, got, want *V) {
		s.noPanic(key)
		a, ok1 := explicit(narrowDeep(s.ip.sliceSeq(s.st, got, s.st.g), s.st.g))
		b, ok2 := explicit(narrowDeep(w.ip.sliceSeq(w.st, want, w.st.g), w.st.g))
		if !ok1 || !ok2 {
			unsup("digest of variable length")
		}
		rep.Analysed["equalities"]++
		rep.Analysed["message shapes"]++
		if len(a) != len(b) {
			rep.fail(key, pos, "%s: %d bytes instead of %d", what, len(a), len(b))
			return
		}
		same := true
		for i := range a {
			same = same && a[i] == b[i]
		}
		if same {
			return
		}
		for k := uint64(0); k < 4; k++ {
			pt := newPoint(func(y *symInfo) *big.Int {
				if y.op != "message" {
					unsup("digest depends on %s", y)
				}
				x := uint64(y.index)*0x9E3779B97F4A7C15 + k*0xD1B54A32D192ED03
				x ^= x >> 29
				return new(big.Int).SetUint64(x * k >> 24 & (1<<uint(y.width) - 1))
			})
			for i := range a {
				if x, y := pt.val(a[i]), pt.val(b[i]); x.Cmp(y) != 0 {
					rep.fail(key, pos, "%s is not the RIPEMD-160 of the message: byte %d is %#x instead of %#x for one message", what, i, x, y)
					return
				}
			}
		}
		rep.undecided(key, "the sums are written in another way")
	}
	use := func(a, b, c, pre int) {
		key := fmt.Sprintf("%d bytes", a)
		if b > 0 {
			key += fmt.Sprintf(", then %d", b)
		}
		if c > 0 {
			key += fmt.Sprintf(", then %d", c)
		}
		if pre > 0 {
			key += fmt.Sprintf(", after %d others", pre)
		}
		rep.decide(key, func() {
			s, w := newScene(p, rep), newScene(p, rep)
			s.ip.lowlevel = true // elsewhere the digest is an uninterpreted function
			s.ip.maxSteps, w.ip.maxSteps = 1<<30, 1<<30
			if a > 1000 {
				deadline = time.Now().Add(300 * time.Second)
			}
			x, xs := msg(s, "a", a)
			y, ys := msg(s, "b", b)
			z, zs := msg(s, "c", c)
			q, qs := msg(s, "prefix", pre)
			got := s.run(sp.ssa.Func("Use"), x, y, z, q)
			want := w.run(sp.ssa.Func("Want"), w.ip.newSlice(w.st, byteSlice, seqOf(xs, ys, zs)))
			if pre > 0 {
				want = w.ip.newSlice(w.st, byteSlice, seqOf(qs, w.ip.sliceSeq(w.st, want, w.st.g)))
			}
			compare(key, "digest", s, w, got, want)
		})
	}
	most, step := 136, 1
	if thorough() {
		most = 260
	}
	for n := 0; n <= most; n += step {
		use(n, 0, 0, 0)
	}
	for _, n := range []int{255, 256, 257, 300, 512, 8192} {
		use(n, 0, 0, 0)
	}
	for _, q := range [][4]int{{1, 1, 1, 0}, {0, 3, 0, 0}, {63, 1, 0, 0}, {63, 2, 0, 0}, {64, 1, 0, 0}, {1, 63, 0, 0}, {1, 64, 0, 0}, {10, 54, 64, 0}, {55, 1, 0, 0}, {56, 8, 56, 0},
		{30, 100, 0, 0}, {30, 34, 5, 0}, {100, 28, 1, 0}, {20, 108, 0, 0}, {5, 58, 65, 0}, {1, 2, 3, 5}, {0, 0, 0, 20}, {70, 0, 0, 3}, {127, 1, 64, 0}, {256, 256, 3, 0}, {60, 68, 64, 0}} {
		use(q[0], q[1], q[2], q[3])
	}
	for _, q := range [][2]int{{3, 10}, {64, 0}, {65, 64}, {120, 3}} {
		key := fmt.Sprintf("%d bytes after a reset", q[1])
		rep.decide(key, func() {
			s, w := newScene(p, rep), newScene(p, rep)
			s.ip.lowlevel = true // elsewhere the digest is an uninterpreted function
			s.ip.maxSteps, w.ip.maxSteps = 1<<30, 1<<30
			x, _ := msg(s, "old", q[0])
			y, ys := msg(s, "a", q[1])
			got := s.run(sp.ssa.Func("Again"), x, y)
			want := w.run(sp.ssa.Func("Want"), w.ip.newSlice(w.st, byteSlice, ys))
			compare(key, "digest", s, w, got, want)
		})
	}
	rep.decide("sizes", func() {
		s := newScene(p, rep)
		s.ip.lowlevel = true
		got := s.run(sp.ssa.Func("Sizes"))
		s.noPanic("sizes")
		s.same("sizes", pos, "size of the digest", got.kids[0], s, vConst(20, 64), bT)
		s.same("sizes", pos, "size of a block", got.kids[1], s, vConst(64, 64), bT)
	})
	rep.floor("message shapes", 100)
	return rep
}

func init() { checks["C27"] = checkRipemd }
