package vf

// Input generation for executing contracts.

// Gen produces inputs. It is deterministic in its seed.
type Gen struct {
	s    uint64
	Size int
	Ints []int64
	Strs []string
}

// NewGen makes a generator.
func NewGen(seed uint64, size int) *Gen {
	g := &Gen{s: seed*0x9E3779B97F4A7C15 + 0x1234567, Size: size}
	g.next()
	return g
}

func (g *Gen) next() uint64 {
	g.s += 0x9E3779B97F4A7C15
	z := g.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N is a number in [0,n).
func (g *Gen) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.next() % uint64(n))
}

// Int is a number in [lo,hi], biased to the ends.
func (g *Gen) Int(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	switch g.N(8) {
	case 0:
		return lo
	case 1:
		return hi
	case 2:
		return lo + g.N(min2(hi-lo, 3)+1)
	case 3:
		return hi - g.N(min2(hi-lo, 3)+1)
	case 4:
		if len(g.Ints) > 0 {
			v := int(g.Ints[g.N(len(g.Ints))]) + g.N(3) - 1
			if v >= lo && v <= hi {
				return v
			}
		}
	}
	return lo + int(g.next()%uint64(hi-lo+1))
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// Bool is a coin.
func (g *Gen) Bool() bool { return g.next()&1 == 1 }

// P is true with probability n/100.
func (g *Gen) P(n int) bool { return g.N(100) < n }

// U32 is any 32-bit value, biased to boundaries.
func (g *Gen) U32() uint32 {
	switch g.N(6) {
	case 0:
		return uint32(g.N(16))
	case 1:
		return ^uint32(0) - uint32(g.N(16))
	case 2:
		return uint32(1)<<uint(g.N(32)) - uint32(g.N(2))
	case 3:
		if len(g.Ints) > 0 {
			return uint32(g.Ints[g.N(len(g.Ints))]) + uint32(g.N(3)) - 1
		}
	}
	return uint32(g.next())
}

// U16 is any 16-bit value, biased.
func (g *Gen) U16() uint16 {
	if g.N(3) == 0 {
		return uint16(g.U32())
	}
	return uint16(g.U32() >> uint(g.N(17)))
}

// U64 is any 64-bit value, biased.
func (g *Gen) U64() uint64 {
	if g.Bool() {
		return uint64(g.U32())
	}
	return uint64(g.U32())<<32 | uint64(g.U32())
}

// Byte is any byte, biased to a few values.
func (g *Gen) Byte() byte {
	switch g.N(4) {
	case 0:
		return byte(g.N(4))
	case 1:
		return []byte{0, 0, 1, 3, 0x80, 0xff, 0x7f, 0xfe}[g.N(8)]
	}
	return byte(g.next())
}

// Len is a length up to max, mostly small and growing with Size.
func (g *Gen) Len(max int) int {
	m := g.Size
	if m < 1 {
		m = 1
	}
	if g.N(20) == 0 {
		m *= 4
	}
	if m > max {
		m = max
	}
	return g.N(m + 1)
}

// Bytes is a byte string of at most max bytes over one of several alphabets.
func (g *Gen) Bytes(max int) []byte {
	n := g.Len(max)
	b := make([]byte, n)
	mode := g.N(5)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.N(4))
		case 1:
			b[i] = []byte{0, 0, 0, 1, 3}[g.N(5)]
		case 2:
			b[i] = byte(g.next())
		case 3:
			b[i] = g.Byte()
		case 4:
			b[i] = 0
			if g.N(4) == 0 {
				b[i] = byte(1 << uint(g.N(8)))
			}
		}
	}
	return b
}

// Slack returns a copy of b placed inside a larger array, so that accidental
// writes past its end are visible to the caller through the second result.
func (g *Gen) Slack(b []byte) []byte {
	if b == nil {
		return nil
	}
	big := make([]byte, len(b), len(b)+8)
	copy(big, b)
	return big
}

// Pick chooses one string.
func (g *Gen) Pick(ss ...string) string {
	return ss[g.N(len(ss))]
}

// Str is a string of at most max bytes over printable and special characters.
func (g *Gen) Str(max int) string {
	if len(g.Strs) > 0 && g.N(4) == 0 {
		s := g.Strs[g.N(len(g.Strs))]
		if len(s) <= max {
			return s
		}
	}
	n := g.Len(max)
	b := make([]byte, n)
	const al = "abcXYZ019 -_;=,:/\"\\%.@?&"
	for i := range b {
		if g.N(12) == 0 {
			b[i] = byte(g.next())
		} else {
			b[i] = al[g.N(len(al))]
		}
	}
	return string(b)
}

// Word is a non-empty string of letters and digits.
func (g *Gen) Word(max int) string {
	n := 1 + g.N(max)
	b := make([]byte, n)
	const al = "abcdefXYZ0123456789-_."
	for i := range b {
		b[i] = al[g.N(len(al))]
	}
	return string(b)
}

// Bits writes fields of given widths most significant bit first.
type Bits struct {
	B []byte
	n int
}

// U appends an n-bit unsigned value.
func (w *Bits) U(n int, v uint64) {
	for i := n - 1; i >= 0; i-- {
		if w.n%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 == 1 {
			w.B[len(w.B)-1] |= 0x80 >> uint(w.n%8)
		}
		w.n++
	}
}

// UE appends an Exp-Golomb code.
func (w *Bits) UE(v uint64) {
	n := 0
	for t := v + 1; t > 1; t >>= 1 {
		n++
	}
	w.U(n, 0)
	w.U(n+1, v+1)
}

// SE appends a signed Exp-Golomb code.
func (w *Bits) SE(v int64) {
	if v > 0 {
		w.UE(uint64(2*v - 1))
	} else {
		w.UE(uint64(-2 * v))
	}
}

// Len is the number of bits written.
func (w *Bits) Len() int { return w.n }
