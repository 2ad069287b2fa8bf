// Package paillier is a stand-in for github.com/binance-chain/tss-lib/crypto/paillier,
// which is not available offline: textbook Paillier with g = N+1, with tss-lib's
// signatures, argument checks and error conditions.
package paillier

import (
	"crypto/rand"
	"errors"
	"io"
	"math/big"
	"time"
)

// PublicKey is a Paillier public key.
type PublicKey struct{ N *big.Int }

// PrivateKey is a Paillier private key.
type PrivateKey struct {
	PublicKey
	LambdaN, PhiN *big.Int
}

var (
	// ErrMessageTooLong is returned when a message or a ciphertext is out of range.
	ErrMessageTooLong = errors.New("the message is too large or < 0")
	// ErrMessageMalFormed is returned when a ciphertext is not invertible.
	ErrMessageMalFormed = errors.New("the message is mal-formed")

	zero = big.NewInt(0)
	one  = big.NewInt(1)
)

func prime(r io.Reader, bits int) (*big.Int, error) {
	b := make([]byte, (bits+7)/8)
	for {
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		p := new(big.Int).SetBytes(b)
		p.Rsh(p, uint(len(b)*8-bits))
		p.SetBit(p, bits-1, 1)
		p.SetBit(p, bits-2, 1)
		p.SetBit(p, 0, 1)
		if p.ProbablyPrime(20) {
			return p, nil
		}
	}
}

// Hook, if set, may make a generation fail and sees every generated key (simulator only).
var Hook func(priv *PrivateKey) error

// GenerateKeyPair generates a key pair with a modulus of the given length.
func GenerateKeyPair(modulusBitLen int, timeout time.Duration, optionalConcurrency ...int) (*PrivateKey, *PublicKey, error) {
	priv, pub, err := GenerateFrom(rand.Reader, modulusBitLen)
	if err == nil && Hook != nil {
		if err = Hook(priv); err != nil {
			return nil, nil, err
		}
	}
	return priv, pub, err
}

// GenerateFrom generates a key pair from the given source (not in tss-lib; simulator only).
func GenerateFrom(r io.Reader, modulusBitLen int) (*PrivateKey, *PublicKey, error) {
	for {
		p, err := prime(r, modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		q, err := prime(r, modulusBitLen-modulusBitLen/2)
		if err != nil {
			return nil, nil, err
		}
		if p.Cmp(q) == 0 {
			continue
		}
		n := new(big.Int).Mul(p, q)
		p1, q1 := new(big.Int).Sub(p, one), new(big.Int).Sub(q, one)
		phi := new(big.Int).Mul(p1, q1)
		if new(big.Int).GCD(nil, nil, n, phi).Cmp(one) != 0 {
			continue
		}
		g := new(big.Int).GCD(nil, nil, p1, q1)
		pk := PublicKey{N: n}
		return &PrivateKey{PublicKey: pk, LambdaN: new(big.Int).Div(phi, g), PhiN: phi}, &PublicKey{N: new(big.Int).Set(n)}, nil
	}
}

// NSquare returns N^2.
func (pk *PublicKey) NSquare() *big.Int { return new(big.Int).Mul(pk.N, pk.N) }

// Encrypt encrypts m, 0 <= m < N.
func (pk *PublicKey) Encrypt(m *big.Int) (*big.Int, error) {
	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	var x *big.Int
	var err error
	for {
		if x, err = rand.Int(rand.Reader, pk.N); err != nil {
			return nil, err
		}
		if x.Sign() > 0 && new(big.Int).GCD(nil, nil, x, pk.N).Cmp(one) == 0 {
			break
		}
	}
	n2 := pk.NSquare()
	// (N+1)^m = 1 + mN mod N^2
	gm := new(big.Int).Mul(m, pk.N)
	gm.Add(gm, one).Mod(gm, n2)
	xn := new(big.Int).Exp(x, pk.N, n2)
	return gm.Mul(gm, xn).Mod(gm, n2), nil
}

// HomoMult returns an encryption of m times the plaintext of c1.
func (pk *PublicKey) HomoMult(m, c1 *big.Int) (*big.Int, error) {
	if m.Cmp(zero) == -1 || m.Cmp(pk.N) != -1 {
		return nil, ErrMessageTooLong
	}
	n2 := pk.NSquare()
	if c1.Cmp(zero) == -1 || c1.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	return new(big.Int).Exp(c1, m, n2), nil
}

// HomoAdd returns an encryption of the sum of the plaintexts of c1 and c2.
func (pk *PublicKey) HomoAdd(c1, c2 *big.Int) (*big.Int, error) {
	n2 := pk.NSquare()
	if c1.Cmp(zero) == -1 || c1.Cmp(n2) != -1 || c2.Cmp(zero) == -1 || c2.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	r := new(big.Int).Mul(c1, c2)
	return r.Mod(r, n2), nil
}

// Decrypt decrypts c.
func (priv *PrivateKey) Decrypt(c *big.Int) (*big.Int, error) {
	n2 := priv.NSquare()
	if c.Cmp(zero) == -1 || c.Cmp(n2) != -1 {
		return nil, ErrMessageTooLong
	}
	if new(big.Int).GCD(nil, nil, c, n2).Cmp(one) == 1 {
		return nil, ErrMessageMalFormed
	}
	l := func(u *big.Int) *big.Int {
		t := new(big.Int).Sub(u, one)
		return t.Div(t, priv.N)
	}
	lc := l(new(big.Int).Exp(c, priv.LambdaN, n2))
	lg := l(new(big.Int).Exp(new(big.Int).Add(priv.N, one), priv.LambdaN, n2))
	inv := new(big.Int).ModInverse(lg, priv.N)
	if inv == nil {
		return nil, ErrMessageMalFormed
	}
	m := lc.Mul(lc, inv)
	return m.Mod(m, priv.N), nil
}
