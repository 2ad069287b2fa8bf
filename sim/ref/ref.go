// Package ref is an independent, deliberately simple implementation of the secp256k1 group,
// used only by oracles. It shares no code with the repository or its dependencies.
package ref

import (
	"encoding/binary"
	"errors"
	"math/big"
	"math/bits"
)

func hex(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

var (
	// P is the field prime, N the group order.
	P = hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	N = hex("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	// G is the generator.
	G = Point{X: hex("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"),
		Y: hex("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")}
	// O is the neutral element.
	O     = Point{Inf: true}
	seven = big.NewInt(7)
)

// Point is an affine point or the neutral element.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

// OnCurve tells whether p is a group element with reduced coordinates.
func OnCurve(p Point) bool {
	if p.Inf {
		return true
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Mul(p.X, p.X)
	r.Mul(r, p.X).Add(r, seven)
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

// Eq compares.
func Eq(a, b Point) bool {
	if a.Inf || b.Inf {
		return a.Inf && b.Inf
	}
	return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
}

// Neg returns -a.
func Neg(a Point) Point {
	if a.Inf {
		return a
	}
	y := new(big.Int).Sub(P, a.Y)
	return Point{X: new(big.Int).Set(a.X), Y: y.Mod(y, P)}
}

// fe is a field element: four 64-bit limbs, little endian, always fully reduced.
type fe [4]uint64

const redC = 0x1000003D1 // 2^256 mod P

func toFe(v *big.Int) (r fe) {
	var b [32]byte
	new(big.Int).Mod(v, P).FillBytes(b[:])
	for i := 0; i < 4; i++ {
		r[i] = binary.BigEndian.Uint64(b[24-8*i:])
	}
	return
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(b[24-8*i:], a[i])
	}
	return new(big.Int).SetBytes(b[:])
}

var pfe = fe{0xFFFFFFFEFFFFFC2F, ^uint64(0), ^uint64(0), ^uint64(0)}

func (a fe) zero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

func (a fe) geP() bool {
	for i := 3; i >= 0; i-- {
		if a[i] != pfe[i] {
			return a[i] > pfe[i]
		}
	}
	return true
}

func fsub(a, b fe) (r fe) {
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	if c != 0 {
		c = 0
		for i := 0; i < 4; i++ {
			r[i], c = bits.Add64(r[i], pfe[i], c)
		}
	}
	return
}

func fadd(a, b fe) (r fe) {
	var c uint64
	for i := 0; i < 4; i++ {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	if c != 0 || r.geP() {
		var d uint64
		for i := 0; i < 4; i++ {
			r[i], d = bits.Sub64(r[i], pfe[i], d)
		}
	}
	return
}

func fmul(a, b fe) (r fe) {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var carry uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var c uint64
			lo, c = bits.Add64(lo, t[i+j], 0)
			hi += c
			lo, c = bits.Add64(lo, carry, 0)
			hi += c
			t[i+j], carry = lo, hi
		}
		t[i+4] = carry
	}
	// fold the high half: t = lo + hi*redC, twice
	var u [5]uint64
	var carry uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[4+i], redC)
		var c uint64
		lo, c = bits.Add64(lo, t[i], 0)
		hi += c
		lo, c = bits.Add64(lo, carry, 0)
		hi += c
		u[i], carry = lo, hi
	}
	u[4] = carry
	hi, lo := bits.Mul64(u[4], redC)
	var c uint64
	r[0], c = bits.Add64(u[0], lo, 0)
	r[1], c = bits.Add64(u[1], hi, c)
	r[2], c = bits.Add64(u[2], 0, c)
	r[3], c = bits.Add64(u[3], 0, c)
	if c != 0 {
		r[0], c = bits.Add64(r[0], redC, 0)
		r[1], c = bits.Add64(r[1], 0, c)
		r[2], c = bits.Add64(r[2], 0, c)
		r[3], _ = bits.Add64(r[3], 0, c)
	}
	if r.geP() {
		var d uint64
		for i := 0; i < 4; i++ {
			r[i], d = bits.Sub64(r[i], pfe[i], d)
		}
	}
	return
}

// Jacobian coordinates: x = X/Z^2, y = Y/Z^3; Z = 0 is the neutral element.
type jac struct{ x, y, z fe }

var jacO = jac{fe{1}, fe{1}, fe{}}

func toJac(p Point) jac {
	if p.Inf {
		return jacO
	}
	return jac{toFe(p.X), toFe(p.Y), fe{1}}
}

func (j jac) affine() Point {
	if j.z.zero() {
		return O
	}
	zi := toFe(new(big.Int).ModInverse(j.z.big(), P))
	zi2 := fmul(zi, zi)
	return Point{X: fmul(j.x, zi2).big(), Y: fmul(j.y, fmul(zi2, zi)).big()}
}

func dbl(a jac) jac {
	if a.z.zero() || a.y.zero() {
		return jacO
	}
	yy := fmul(a.y, a.y)
	s := fmul(a.x, yy)
	s = fadd(s, s)
	s = fadd(s, s)
	xx := fmul(a.x, a.x)
	m := fadd(fadd(xx, xx), xx)
	x := fsub(fsub(fmul(m, m), s), s)
	y4 := fmul(yy, yy)
	y4 = fadd(y4, y4)
	y4 = fadd(y4, y4)
	y4 = fadd(y4, y4)
	y := fsub(fmul(fsub(s, x), m), y4)
	z := fmul(a.y, a.z)
	return jac{x, y, fadd(z, z)}
}

func add(a, b jac) jac {
	if a.z.zero() {
		return b
	}
	if b.z.zero() {
		return a
	}
	z1, z2 := fmul(a.z, a.z), fmul(b.z, b.z)
	u1, u2 := fmul(a.x, z2), fmul(b.x, z1)
	s1, s2 := fmul(a.y, fmul(z2, b.z)), fmul(b.y, fmul(z1, a.z))
	h, r := fsub(u2, u1), fsub(s2, s1)
	if h.zero() {
		if r.zero() {
			return dbl(a)
		}
		return jacO
	}
	h2 := fmul(h, h)
	h3 := fmul(h2, h)
	v := fmul(u1, h2)
	x := fsub(fsub(fsub(fmul(r, r), h3), v), v)
	y := fsub(fmul(fsub(v, x), r), fmul(s1, h3))
	return jac{x, y, fmul(h, fmul(a.z, b.z))}
}

// Add returns a+b.
func Add(a, b Point) Point { return add(toJac(a), toJac(b)).affine() }

// Sub returns a-b.
func Sub(a, b Point) Point { return Add(a, Neg(b)) }

// Mul returns k*a for any integer k (taken modulo the group order).
func Mul(a Point, k *big.Int) Point {
	e := new(big.Int).Mod(k, N)
	acc := toJac(O)
	j := toJac(a)
	for i := e.BitLen() - 1; i >= 0; i-- {
		acc = dbl(acc)
		if e.Bit(i) == 1 {
			acc = add(acc, j)
		}
	}
	return acc.affine()
}

// Base returns k*G.
func Base(k *big.Int) Point { return Mul(G, k) }

// ErrBad is returned for byte strings that are not encodings of group elements.
var ErrBad = errors.New("ref: not a group element")

// Parse reads one encoded element from the front of b: the neutral element is four zero
// bytes, others are two big-endian lengths and two big-endian coordinates.
func Parse(b []byte) (Point, []byte, error) {
	if len(b) < 4 {
		return O, nil, ErrBad
	}
	lx := int64(binary.BigEndian.Uint32(b))
	if lx == 0 {
		return O, b[4:], nil
	}
	if len(b) < 8 {
		return O, nil, ErrBad
	}
	ly := int64(binary.BigEndian.Uint32(b[4:]))
	if int64(len(b)-8) < lx+ly {
		return O, nil, ErrBad
	}
	p := Point{X: new(big.Int).SetBytes(b[8 : 8+lx]), Y: new(big.Int).SetBytes(b[8+lx : 8+lx+ly])}
	if !OnCurve(p) {
		return O, nil, ErrBad
	}
	return p, b[8+lx+ly:], nil
}

// Enc encodes p in the same format.
func Enc(p Point) []byte {
	if p.Inf {
		return []byte{0, 0, 0, 0}
	}
	x, y := p.X.Bytes(), p.Y.Bytes()
	b := make([]byte, 8, 8+len(x)+len(y))
	binary.BigEndian.PutUint32(b, uint32(len(x)))
	binary.BigEndian.PutUint32(b[4:], uint32(len(y)))
	b = append(b, x...)
	return append(b, y...)
}

// EG is an ElGamal commitment.
type EG struct{ First, Second Point }

// ParseEG reads a commitment from the front of b.
func ParseEG(b []byte) (EG, []byte, error) {
	f, b, err := Parse(b)
	if err != nil {
		return EG{}, nil, err
	}
	s, b, err := Parse(b)
	return EG{f, s}, b, err
}

// EncEG encodes a commitment.
func EncEG(e EG) []byte { return append(Enc(e.First), Enc(e.Second)...) }

// Commit builds a commitment with base h.
func Commit(h Point, v, r *big.Int) EG { return EG{Base(r), Add(Mul(h, r), Base(v))} }

// EqEG compares.
func EqEG(a, b EG) bool { return Eq(a.First, b.First) && Eq(a.Second, b.Second) }

// AddEG composes.
func AddEG(a, b EG) EG { return EG{Add(a.First, b.First), Add(a.Second, b.Second)} }

// MulEG exponentiates.
func MulEG(a EG, k *big.Int) EG { return EG{Mul(a.First, k), Mul(a.Second, k)} }

// NegEG inverts.
func NegEG(a EG) EG { return EG{Neg(a.First), Neg(a.Second)} }

// Open returns value*G given the discrete logarithm of the commitment base.
func Open(e EG, eta *big.Int) Point { return Sub(e.Second, Mul(e.First, eta)) }

// LagrangeAtZero is the coefficient of node xs[i] for evaluation at 0.
func LagrangeAtZero(xs []int64, i int) *big.Int { return Lagrange(xs, i, 0) }

// Lagrange is the coefficient of node xs[i] for evaluation at x.
func Lagrange(xs []int64, i int, x int64) *big.Int {
	num, den := big.NewInt(1), big.NewInt(1)
	for j, v := range xs {
		if j == i {
			continue
		}
		num.Mul(num, big.NewInt(x-v))
		den.Mul(den, big.NewInt(xs[i]-v))
	}
	num.Mod(num, N)
	den.Mod(den, N)
	den.ModInverse(den, N)
	return num.Mul(num, den).Mod(num, N)
}

// Verify is textbook ECDSA verification of the already hashed message m.
func Verify(pk Point, m, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(m, w)
	u2 := new(big.Int).Mul(r, w)
	p := Add(Base(u1), Mul(pk, u2))
	if p.Inf {
		return false
	}
	return new(big.Int).Mod(p.X, N).Cmp(new(big.Int).Mod(r, N)) == 0
}
