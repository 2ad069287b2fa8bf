package ref

import (
	"crypto/ecdsa"
	"math/big"
	"testing"
)

var _ = ecdsa.Sign

func TestRef(t *testing.T) {
	if !OnCurve(G) || !Mul(G, N).Inf || !Eq(Mul(G, new(big.Int).Sub(N, big.NewInt(1))), Neg(G)) {
		t.Fatal("order")
	}
	a := Base(big.NewInt(123456789))
	acc := O
	for i := 0; i < 20; i++ {
		if !Eq(acc, Mul(a, big.NewInt(int64(i)))) || !OnCurve(acc) {
			t.Fatal(i)
		}
		acc = Add(acc, a)
	}
	// 2G known answer
	if Base(big.NewInt(2)).X.Cmp(hex("C6047F9441ED7D6D3045406E95C07CD85C778E4B8CEF3CA7ABAC09B95C709EE5")) != 0 {
		t.Fatal("2G")
	}
	p, rest, err := Parse(append(Enc(a), 7))
	if err != nil || len(rest) != 1 || !Eq(p, a) {
		t.Fatal("enc")
	}
	// ECDSA round trip
	d, k, m := big.NewInt(987654321), big.NewInt(55555555), big.NewInt(424242)
	r := Base(k).X
	s := new(big.Int).Mul(r, d)
	s.Add(s, m).Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
	if !Verify(Base(d), m, r, s) || Verify(Base(d), big.NewInt(1), r, s) {
		t.Fatal("ecdsa")
	}
}
func BenchmarkMul(b *testing.B) {
	k := new(big.Int).Sub(N, big.NewInt(12345))
	for i := 0; i < b.N; i++ {
		Base(k)
	}
}
