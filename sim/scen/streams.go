package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"reflect"

	"aaa.verif/sim/core"
	"aaa.verif/sim/ref"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/commitment"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/crypto/zkpok"
	"gitlab.com/alephledger/threshold-ecdsa/pkg/curve"
)

// Objects on simulated streams (C06).

var shortPts []ref.Point

// shortPoints are group elements whose coordinates have short encodings.
func shortPoints() []ref.Point {
	if shortPts != nil {
		return shortPts
	}
	three := big.NewInt(3)
	for i, n := int64(1), 0; n < 12; i++ {
		x := big.NewInt(i)
		y2 := new(big.Int).Exp(x, three, ref.P)
		y2.Add(y2, big.NewInt(7)).Mod(y2, ref.P)
		y := new(big.Int).ModSqrt(y2, ref.P)
		if y == nil {
			continue
		}
		shortPts = append(shortPts, ref.Point{X: x, Y: y}, ref.Point{X: x, Y: new(big.Int).Sub(ref.P, y)})
		n++
	}
	exp := new(big.Int).Add(ref.P, big.NewInt(2))
	exp.Div(exp, big.NewInt(9))
	for i, n := int64(1), 0; n < 8; i++ {
		y := big.NewInt(i * i * i * 257)
		x3 := new(big.Int).Mul(y, y)
		x3.Sub(x3, big.NewInt(7)).Mod(x3, ref.P)
		x := new(big.Int).Exp(x3, exp, ref.P)
		if p := (ref.Point{X: x, Y: y}); ref.OnCurve(p) {
			shortPts = append(shortPts, p)
			n++
		}
	}
	q := ref.G
	for i := 0; i < 1500 && len(shortPts) < 48; i++ {
		q = ref.Add(q, ref.G)
		if len(q.X.Bytes()) < 32 || len(q.Y.Bytes()) < 32 {
			shortPts = append(shortPts, q)
		}
	}
	return shortPts
}

// somePoint draws a group element, special ones included.
func somePoint(r *rand.Rand) ref.Point {
	switch r.IntN(6) {
	case 0:
		return ref.O
	case 1, 2:
		s := shortPoints()
		return s[r.IntN(len(s))]
	}
	return ref.Base(Scalar(r))
}

// object is something that can be written to a stream.
type object struct {
	kind   string
	enc    func(w io.Writer) error
	dec    func(r io.Reader) (*object, error)
	ints   []*big.Int
	bytes  []byte // the encoding
	verify func() error
	val    interface{}
}

type objects struct {
	grp curve.Group
	egf *commitment.ElGamalFactory
}

func (o *objects) point(p curve.Point) *object {
	return &object{kind: "point", val: p,
		enc: func(w io.Writer) error { return o.grp.Encode(p, w) },
		dec: func(r io.Reader) (*object, error) {
			q, err := o.grp.Decode(r)
			if err != nil {
				return nil, err
			}
			return o.point(q), nil
		}}
}

func (o *objects) eg(c *commitment.ElGamal) *object {
	return &object{kind: "commitment", val: c, enc: c.Encode,
		dec: func(r io.Reader) (*object, error) {
			d := &commitment.ElGamal{}
			if err := d.Decode(r); err != nil {
				return nil, err
			}
			return o.eg(d), nil
		}}
}

func (o *objects) know(z *zkpok.ZKEGKnow, c *commitment.ElGamal) *object {
	return &object{kind: "ZKEGKnow", val: z, enc: z.Encode,
		verify: func() error { return z.Verify(o.egf, c) },
		dec: func(r io.Reader) (*object, error) {
			d := &zkpok.ZKEGKnow{}
			if err := d.Decode(r); err != nil {
				return nil, err
			}
			return o.know(d, c), nil
		}}
}

func (o *objects) refresh(z *zkpok.ZKEGRefresh, c1, c2 *commitment.ElGamal) *object {
	return &object{kind: "ZKEGRefresh", val: z, enc: z.Encode,
		verify: func() error { return z.Verify(o.egf, c1, c2) },
		dec: func(r io.Reader) (*object, error) {
			d := &zkpok.ZKEGRefresh{}
			if err := d.Decode(r); err != nil {
				return nil, err
			}
			return o.refresh(d, c1, c2), nil
		}}
}

func (o *objects) noop() *object {
	z := &zkpok.NoopZKproof{}
	return &object{kind: "noop", val: z, enc: z.Encode,
		dec: func(r io.Reader) (*object, error) {
			d := &zkpok.NoopZKproof{}
			if err := d.Decode(r); err != nil {
				return nil, err
			}
			return o.noop(), nil
		}}
}

// make creates an object of a kind; k selects its value.
func (o *objects) make(kind string, r *rand.Rand) (*object, error) {
	var ob *object
	switch kind {
	case "point":
		ob = o.point(ToCurve(somePoint(r)))
	case "eg":
		if r.IntN(2) == 0 {
			ob = o.eg(ToEG(ref.EG{First: somePoint(r), Second: somePoint(r)}))
		} else {
			ob = o.eg(o.egf.Create(Scalar(r), Scalar(r)))
		}
	case "know":
		v, s := Scalar(r), Scalar(r)
		c := o.egf.Create(v, s)
		z, err := zkpok.NewZKEGKnow(o.egf, c, v, s)
		if err != nil {
			return nil, err
		}
		ob = o.know(z, c)
	case "refresh":
		c := o.egf.Create(Scalar(r), Scalar(r))
		s := Scalar(r)
		c2 := o.egf.Neutral()
		c2.Compose(c, o.egf.Create(new(big.Int), s))
		z, err := zkpok.NewZKEGRefresh(o.egf, c, c2, s)
		if err != nil {
			return nil, err
		}
		ob = o.refresh(z, c, c2)
	default:
		ob = o.noop()
	}
	bigsIn(reflect.ValueOf(ob.val), 0, &ob.ints)
	var b sliceWriter
	if err := ob.enc(&b); err != nil {
		return nil, err
	}
	ob.bytes = b
	return ob, nil
}

// same tells in what way two objects differ.
func (o *objects) same(a, b *object) string {
	switch x := a.val.(type) {
	case *commitment.ElGamal:
		if !x.Equal(x, b.val.(*commitment.ElGamal)) {
			return "Equal says no"
		}
	case *zkpok.ZKEGKnow, *zkpok.ZKEGRefresh:
		var ints []*big.Int
		bigsIn(reflect.ValueOf(b.val), 0, &ints)
		if len(ints) != len(a.ints) {
			return "different number of components"
		}
		for i := range ints {
			if ints[i].Cmp(a.ints[i]) != 0 {
				return "different components"
			}
		}
		if (a.verify() == nil) != (b.verify() == nil) {
			return "verifies differently"
		}
	case *zkpok.NoopZKproof:
	default:
		if !o.grp.Equal(a.val, b.val) {
			return "Equal says no"
		}
	}
	var e sliceWriter
	if err := b.enc(&e); err != nil {
		return "does not encode: " + err.Error()
	}
	if !bytes.Equal(e, a.bytes) {
		return "encodes differently"
	}
	return ""
}

var errDisk = errors.New("sim: injected I/O error")

// faultyStream wraps a connection: it can fail once at a byte offset, or for good, and
// remembers what the code was told.
type faultyStream struct {
	rw      io.ReadWriter
	off     int
	fail    int // byte offset, -1: never
	once    bool
	fired   bool
	zero    bool // now and then returns 0, nil
	n       int
	sawErr  error
	party   *core.Party
	counter func(string)
}

func (f *faultyStream) due(n int) (int, bool) {
	if f.fail < 0 || (f.once && f.fired) || f.off+n <= f.fail {
		return n, false
	}
	return max(0, f.fail-f.off), true
}

func (f *faultyStream) Write(b []byte) (int, error) {
	n, bad := f.due(len(b))
	if bad {
		k := 0
		if n > 0 {
			k, _ = f.rw.Write(b[:n])
		}
		f.fired = true
		f.sawErr = errDisk
		f.off += k
		f.counter("fault.write_error")
		return k, errDisk
	}
	k, err := f.rw.Write(b)
	f.off += k
	if err != nil {
		f.sawErr = err
	}
	return k, err
}

func (f *faultyStream) Read(b []byte) (int, error) {
	f.n++
	if f.zero && f.n%5 == 2 {
		return 0, nil
	}
	if len(b) > 0 && f.fail >= 0 && !(f.once && f.fired) {
		if f.off >= f.fail {
			f.fired = true
			f.sawErr = errDisk
			f.counter("fault.read_error")
			return 0, errDisk
		}
		b = b[:min(len(b), f.fail-f.off)]
	}
	k, err := f.rw.Read(b)
	f.off += k
	if err != nil {
		f.sawErr = err
	}
	return k, err
}

// Plans: ops "obj" (A stream, B value, D kind), faults "wfail"/"rfail" (From stream, Off, N once).
var objKinds = []string{"point", "eg", "know", "refresh", "noop"}

func genStreams(r *rand.Rand, p *core.Plan) {
	k := 1 + r.IntN(3) // streams
	p.N = 2 * k
	GenNet(r, p)
	p.I = map[string]int64{"streams": int64(k), "share": int64(r.IntN(2)), "zero": int64(r.IntN(3) / 2), "bias": int64(pick(r, 0, 0, 2))}
	if p.Net.Fine > 0 {
		p.I["deep"] = 1
	}
	m := 1 + r.IntN(6)
	total := 0
	for i := 0; i < m; i++ {
		for s := 0; s < k; s++ {
			d := int64(r.IntN(len(objKinds)))
			if r.IntN(2) == 0 {
				d = int64(r.IntN(2))
			}
			total += []int{72, 144, 216, 216, 0}[d]
			p.Ops = append(p.Ops, core.Op{Kind: "obj", A: int64(s), B: int64(r.IntN(1 << 30)), D: d})
		}
	}
	if r.IntN(2) == 0 {
		return
	}
	for i, n := 0, 1+r.IntN(2); i < n; i++ {
		s := r.IntN(k)
		off := r.IntN(total/k + 2)
		if r.IntN(3) == 0 {
			off = r.IntN(12)
		}
		switch r.IntN(3) {
		case 0:
			p.Faults = append(p.Faults, core.Fault{Kind: "wfail", From: s, Off: off, N: r.IntN(2)})
		case 1:
			p.Faults = append(p.Faults, core.Fault{Kind: "rfail", From: s, Off: off, N: r.IntN(2)})
		case 2:
			p.Faults = append(p.Faults, core.Fault{Kind: "reset", From: 2 * s, To: 2*s + 1, Off: off, Mode: pickS(r, "fin", "rst", "lost")})
		}
	}
}

type streamRun struct {
	objs   []*object
	ends   []int // end offset of each object
	encErr []error
	encSaw []error
	ended  bool // the writer closed the stream after writing everything
}

func runStreams(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	k := int(p.I["streams"])
	o := &objects{curve.NewSecp256k1Group(), w.Egf()}
	runs := make([]*streamRun, k)
	prep := func(s int) bool {
		for i, op := range p.Ops {
			if op.Kind != "obj" || int(op.A) != s {
				continue
			}
			ob, err := o.make(objKinds[op.D], core.NewRand(p.Seed, 91, uint64(op.B)))
			if err != nil {
				w.Violate("C06/encode-fails", "object %d (%s) could not be made and encoded: %v", i, objKinds[op.D], err)
				return false
			}
			end := len(ob.bytes)
			if n := len(runs[s].ends); n > 0 {
				end += runs[s].ends[n-1]
			}
			runs[s].objs, runs[s].ends = append(runs[s].objs, ob), append(runs[s].ends, end)
		}
		return true
	}
	for s := 0; s < k; s++ {
		runs[s] = &streamRun{}
		BiasRand(w, 2*s, int(p.I["bias"]))
	}
	ready := make([]chan bool, k)
	for s := 0; s < k; s++ {
		s := s
		ready[s] = make(chan bool, 1)
		a, b := w.Connect(2*s, 2*s+1)
		fault := func(kind string) (int, bool) {
			for _, f := range p.Faults {
				if f.Kind == kind && f.From == s {
					return f.Off, f.N == 1
				}
			}
			return -1, false
		}
		w.Go(2*s, func(pt *core.Party) {
			pt.Yield()
			ok := true
			if s > 0 && p.I["share"] == 1 {
				// the very same objects on every stream
				for len(runs[0].objs) == 0 {
					pt.Yield()
					pt.CheckAlive()
				}
				runs[s].objs, runs[s].ends = runs[0].objs, runs[0].ends
			} else {
				ok = prep(s)
			}
			ready[s] <- ok
			if !ok {
				a.Close()
				return
			}
			off, once := fault("wfail")
			fs := &faultyStream{rw: a, fail: off, once: once, party: pt, counter: w.Count}
			for i, ob := range runs[s].objs {
				fs.sawErr = nil
				err := ob.enc(fs)
				pt.CheckAlive()
				if err != nil && fs.sawErr == nil {
					w.Violate("C06/encode-fails", "stream %d: encoding object %d (%s) failed although every write succeeded: %v", s, i, ob.kind, err)
				}
				if err == nil && fs.sawErr != nil {
					w.Violate("C06/write-error-ignored", "stream %d: encoding object %d (%s) succeeded although a write failed: %v", s, i, ob.kind, fs.sawErr)
				}
				if fs.sawErr != nil {
					e.Nontriv = true
					a.Close()
					return
				}
			}
			if a.Flush() == nil {
				runs[s].ended = true
			}
			a.Close()
		})
		w.Go(2*s+1, func(pt *core.Party) {
			for len(ready[s]) == 0 {
				pt.Yield()
				pt.CheckAlive()
			}
			defer b.Close() // or a writer waiting for the window waits forever
			if !<-ready[s] {
				return
			}
			off, once := fault("rfail")
			fs := &faultyStream{rw: b, fail: off, once: once, zero: p.I["zero"] == 1, party: pt, counter: w.Count}
			for i, ob := range runs[s].objs {
				fs.sawErr = nil
				got, err := ob.dec(fs)
				pt.CheckAlive()
				start := 0
				if i > 0 {
					start = runs[s].ends[i-1]
				}
				complete := fs.off >= runs[s].ends[i]
				if fs.off > runs[s].ends[i] {
					w.Violate("C06/reads-too-much", "stream %d: decoding object %d (%s) consumed %d bytes of the next object", s, i, ob.kind, fs.off-runs[s].ends[i])
					return
				}
				if err != nil {
					if complete && len(ob.bytes) > 0 {
						w.Violate("C06/intact-object-rejected", "stream %d: object %d (%s, %s) arrived completely but does not decode: %v", s, i, ob.kind, abbrev(ob.bytes), err)
					} else if fs.sawErr == nil && len(ob.bytes) > 0 {
						w.Violate("C06/intact-object-rejected", "stream %d: decoding object %d (%s, %s) failed after %d of %d bytes although the stream did not fail: %v", s, i, ob.kind, abbrev(ob.bytes), fs.off-start, len(ob.bytes), err)
					}
					e.Nontriv = true
					w.Count("probe.decode_failed")
					return
				}
				if !complete {
					w.Violate("C06/incomplete-object-accepted", "stream %d: object %d (%s) was accepted after %d of its %d bytes (read error: %v)", s, i, ob.kind, fs.off-start, len(ob.bytes), fs.sawErr)
					return
				}
				if why := o.same(ob, got); why != "" {
					w.Violate("C06/object-changed", "stream %d: object %d (%s, %s) is not the object that was written: %s", s, i, ob.kind, abbrev(ob.bytes), why)
					return
				}
				e.Nontriv = true
				w.Count("probe.object_checked")
			}
			fs.fail, fs.zero = -1, false
			buf := make([]byte, 16)
			for {
				n, err := fs.Read(buf)
				pt.CheckAlive()
				if n > 0 {
					w.Violate("C06/bytes-left-over", "stream %d: %d bytes left after the last object", s, n)
					return
				}
				if err != nil {
					return
				}
			}
		})
	}
	w.Finish(nil)
}

// ---- C07: hostile encodings and shared operands ----

// hostile makes bytes that may or may not encode a group element.
func hostile(r *rand.Rand) []byte {
	p := somePoint(r)
	enc := func(x, y []byte) []byte {
		b := []byte{byte(len(x) >> 24), byte(len(x) >> 16), byte(len(x) >> 8), byte(len(x)), byte(len(y) >> 24), byte(len(y) >> 16), byte(len(y) >> 8), byte(len(y))}
		return append(append(b, x...), y...)
	}
	pad := func(v *big.Int, n int) []byte {
		b := v.Bytes()
		if len(b) < n {
			b = append(make([]byte, n-len(b)), b...)
		}
		return b
	}
	if p.Inf {
		switch r.IntN(3) {
		case 0:
			return []byte{0, 0, 0, 0}
		case 1:
			return append([]byte{0, 0, 0, 0, 0, 0, 0, 1}, 5)
		}
		p = ref.Base(Scalar(r))
		if p.Inf {
			p = ref.G
		}
	}
	one := big.NewInt(1)
	x, y := new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
	switch r.IntN(16) {
	case 0:
		return ref.Enc(p)
	case 1:
		y.Add(y, one)
	case 2:
		x.Add(x, one)
	case 3:
		x.Add(x, ref.P)
	case 4:
		y.Add(y, ref.P)
	case 5:
		x, y = y, x
	case 6:
		y.SetInt64(0)
	case 7:
		x.SetInt64(0)
	case 8:
		return enc(pad(x, 32), pad(y, 32))
	case 9:
		return enc(pad(x, 33), pad(y, 33+r.IntN(8)))
	case 10:
		b := ref.Enc(p)
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
		return b
	case 11:
		b := ref.Enc(p)
		b[r.IntN(8)] ^= 1 << r.IntN(8)
		return b
	case 12:
		// a point of another curve y^2 = x^3 + b
		x.Mod(Wide(r, 40), ref.P)
		y.Mod(Wide(r, 40), ref.P)
	case 13:
		// small multiples: points of small order on the twist y^2 = x^3 + 2
		x.SetInt64(int64(r.IntN(5)))
		y.SetInt64(int64(r.IntN(5)))
	case 14:
		b := make([]byte, r.IntN(90))
		for i := range b {
			b[i] = byte(r.Uint32())
		}
		if len(b) > 8 && r.IntN(2) == 0 {
			copy(b, []byte{0, 0, 0, byte(r.IntN(40)), 0, 0, 0, byte(r.IntN(40))})
		}
		return b
	case 15:
		return enc(new(big.Int).Sub(ref.P, x).Bytes(), y.Bytes())
	}
	return enc(x.Bytes(), y.Bytes())
}

func genHostile(r *rand.Rand, p *core.Plan) {
	p.N = 2
	GenNetLight(r, p)
	p.I = map[string]int64{}
	for i, m := 0, 2+r.IntN(5); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: "hostile", A: int64(r.IntN(4)), B: int64(r.IntN(1 << 40))})
	}
}

// runHostile: party 0 sends hostile bytes, each in a stream of its own, party 1 decodes.
func runHostile(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	grp := curve.NewSecp256k1Group()
	egf := w.Egf()
	type item struct {
		kind int64
		b    []byte
		a, z *core.End
	}
	var items []*item
	for _, op := range p.Ops {
		r := core.NewRand(p.Seed, 92, uint64(op.B))
		it := &item{kind: op.A, b: hostile(r)}
		switch op.A {
		case 1:
			if r.IntN(2) == 0 {
				it.b = append(ref.Enc(somePoint(r)), it.b...)
			} else {
				it.b = append(it.b, ref.Enc(somePoint(r))...)
			}
		case 2, 3:
			z := []byte{0, 0, 0, 1, 0, 0, 0, 1, 7, 9}
			it.b = append(z, append(ref.Enc(somePoint(r)), it.b...)...)
		}
		it.a, it.z = w.Connect(0, 1)
		items = append(items, it)
	}
	w.Go(0, func(pt *core.Party) {
		for _, it := range items {
			it.a.Write(it.b)
			it.a.Flush()
			it.a.Close()
		}
	})
	w.Go(1, func(pt *core.Party) {
		for i, it := range items {
			r := core.NewRand(p.Seed, 93, uint64(i))
			var err error
			var pts []ref.Point
			accept := func(q curve.Point) {
				v, err := FromCurve(q)
				if err != nil {
					w.Violate("C07/bad-point-accepted", "decoding accepted %x, which is no group element (%v)", it.b, err)
					return
				}
				pts = append(pts, v)
				kk := Scalar(r)
				sum, err1 := FromCurve(grp.Add(q, grp.Gen()))
				mul, err2 := FromCurve(grp.ScalarMult(q, kk))
				neg, err3 := FromCurve(grp.Neg(q))
				if err1 != nil || !ref.Eq(sum, ref.Add(v, ref.G)) {
					w.Violate("C07/wrong-sum", "element decoded from %x plus the generator is wrong (%v)", it.b, err1)
				}
				if err2 != nil || !ref.Eq(mul, ref.Mul(v, kk)) {
					w.Violate("C07/wrong-multiple", "element decoded from %x times %x is wrong (%v)", it.b, kk, err2)
				}
				if err3 != nil || !ref.Eq(neg, ref.Neg(v)) {
					w.Violate("C07/wrong-negative", "the negative of the element decoded from %x is wrong (%v)", it.b, err3)
				}
				if !grp.Equal(q, ToCurve(v)) {
					w.Violate("C07/unreduced-point", "the element decoded from %x does not equal the same element decoded from its own encoding", it.b)
				}
			}
			switch it.kind {
			case 0:
				var q curve.Point
				if q, err = grp.Decode(it.z); err == nil {
					accept(q)
				}
			case 1:
				c := &commitment.ElGamal{}
				if err = c.Decode(it.z); err == nil {
					if _, err := FromEG(c); err != nil {
						w.Violate("C07/bad-point-accepted", "decoding a commitment accepted %x (%v)", it.b, err)
					}
					// arithmetic on it must stay in the group
					d := egf.Neutral()
					d.Exp(c, Scalar(r))
					d.Compose(d, c)
					if _, err := FromEG(d); err != nil {
						w.Violate("C07/leaves-group", "arithmetic on the commitment decoded from %x leaves the group (%v)", it.b, err)
					}
					pts = append(pts, ref.O)
				}
			case 2, 3:
				var z interface {
					Decode(io.Reader) error
					Encode(io.Writer) error
				} = &zkpok.ZKEGKnow{}
				if it.kind == 3 {
					z = &zkpok.ZKEGRefresh{}
				}
				if err = z.Decode(it.z); err == nil {
					var out sliceWriter
					if err := z.Encode(&out); err != nil || len(out) < 10 {
						w.Violate("C07/bad-point-accepted", "a proof decoded from %x does not encode (%v)", it.b, err)
					} else if _, _, err := ref.ParseEG(skipInts(out)); err != nil {
						w.Violate("C07/bad-point-accepted", "decoding a proof accepted %x, which contains no group element (%v)", it.b, err)
					}
					pts = append(pts, ref.O)
				}
			}
			pt.CheckAlive()
			if len(pts) > 0 {
				w.Count("probe.hostile_accepted")
			} else {
				w.Count("probe.hostile_rejected")
			}
			e.Nontriv = true
		}
	})
	w.Finish(nil)
}

// skipInts skips the two responses at the front of an encoded proof.
func skipInts(b []byte) []byte {
	if len(b) < 8 {
		return nil
	}
	n := 8 + int(b[3]) + int(b[7])
	if n > len(b) {
		return nil
	}
	return b[n:]
}

// someScalar draws a non-negative scalar, large ones included.
func someScalar(r *rand.Rand) *big.Int {
	switch r.IntN(10) {
	case 0:
		return new(big.Int).Set(ref.N)
	case 1:
		return new(big.Int).Add(ref.N, big.NewInt(int64(r.IntN(4))))
	case 2:
		return Wide(r, 33+r.IntN(40))
	case 3:
		return new(big.Int).Mul(ref.N, big.NewInt(int64(2+r.IntN(1000))))
	case 4:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(300)))
	}
	return Scalar(r)
}

func genShared(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(3)
	p.Policy = r.IntN(6)
	p.I = map[string]int64{"points": int64(2 + r.IntN(4)), "scalars": int64(1 + r.IntN(3))}
	if r.IntN(4) == 0 {
		p.I["deep"], p.Net.Fine = 1, pick(r, 1, 1, 2, 4)
	}
	for i, m := 0, 4+r.IntN(14); i < m; i++ {
		p.Ops = append(p.Ops, core.Op{Kind: pickS(r, "add", "add", "inv", "mul", "mul", "base", "neg", "eq", "order", "compose", "compose", "exp", "inverse", "create", "neutral", "encode"), A: int64(r.IntN(p.N)), B: int64(r.IntN(64)), C: int64(r.IntN(64)), D: int64(r.IntN(64))})
	}
}

// runShared: several tasks compute with the same operands; every result is compared with
// the reference, and the operands must stay what they were.
func runShared(e *Env) {
	p := e.Plan
	w := e.NewWorld(p)
	grp := curve.NewSecp256k1Group()
	egf := w.Egf()
	r := core.NewRand(p.Seed, 94)
	var rp []ref.Point
	var cp []curve.Point
	var re []ref.EG
	var ce []*commitment.ElGamal
	var rs, cs []*big.Int
	for i := int64(0); i < p.I["points"]; i++ {
		q := somePoint(r)
		if i > 0 && r.IntN(4) == 0 {
			q = ref.Neg(rp[r.IntN(len(rp))])
		}
		rp, cp = append(rp, q), append(cp, ToCurve(q))
		g := ref.EG{First: somePoint(r), Second: somePoint(r)}
		if i > 0 && r.IntN(4) == 0 {
			g = ref.NegEG(re[r.IntN(len(re))])
		}
		re, ce = append(re, g), append(ce, ToEG(g))
	}
	// the generator, the neutral element and the group order are shared as well
	rp, cp = append(rp, ref.G, ref.O), append(cp, grp.Gen(), grp.Neutral())
	re, ce = append(re, ref.EG{First: ref.O, Second: ref.O}), append(ce, egf.Neutral())
	for i := int64(0); i < p.I["scalars"]; i++ {
		s := someScalar(r)
		rs, cs = append(rs, s), append(cs, new(big.Int).Set(s))
	}
	rs, cs = append(rs, ref.N), append(cs, grp.Order())
	check := func(when string) {
		for i := range rp {
			if q, err := FromCurve(cp[i]); err != nil || !ref.Eq(q, rp[i]) {
				w.Violate("C07/operand-changed", "%s: a shared group element changed (%v)", when, err)
				return
			}
			if grp.Equal(cp[i], cp[(i+1)%len(cp)]) != ref.Eq(rp[i], rp[(i+1)%len(rp)]) {
				w.Violate("C07/wrong-equality", "%s: Equal of elements %d and %d is wrong", when, i, (i+1)%len(cp))
				return
			}
		}
		for i := range re {
			if q, err := FromEG(ce[i]); err != nil || !ref.EqEG(q, re[i]) {
				w.Violate("C07/operand-changed", "%s: a shared commitment changed (%v)", when, err)
				return
			}
		}
		for i := range rs {
			if rs[i].Cmp(cs[i]) != 0 {
				w.Violate("C07/operand-changed", "%s: a shared scalar changed from %x to %x", when, rs[i], cs[i])
				return
			}
		}
		if grp.Order().Cmp(ref.N) != 0 {
			w.Violate("C07/operand-changed", "%s: the group order is %x", when, grp.Order())
		}
		if q, err := FromEG(egf.Neutral()); err != nil || !q.First.Inf || !q.Second.Inf || !egf.IsNeutral(egf.Neutral()) {
			w.Violate("C07/operand-changed", "%s: the neutral commitment is not neutral (%v)", when, err)
		}
	}
	for i := 0; i < p.N; i++ {
		w.Go(i, func(pt *core.Party) {
			for k, op := range p.Ops {
				if int(op.A) != pt.ID {
					continue
				}
				pt.Yield()
				pt.CheckAlive()
				a, b := int(op.B)%len(cp), int(op.C)%len(cp)
				ea, eb := int(op.B)%len(ce), int(op.C)%len(ce)
				s := int(op.D) % len(cs)
				name := fmt.Sprintf("operation %d (%s)", k, op.Kind)
				got := func(q curve.Point, want ref.Point) {
					v, err := FromCurve(q)
					if err != nil || !ref.Eq(v, want) {
						w.Violate("C07/wrong-result", "%s gave a wrong result (%v)", name, err)
					}
					if !grp.Equal(q, ToCurve(want)) {
						w.Violate("C07/wrong-equality", "%s: the result does not equal the same element decoded", name)
					}
					e.Nontriv = true
					w.Count("probe.result_checked")
				}
				gotEG := func(c *commitment.ElGamal, want ref.EG) {
					v, err := FromEG(c)
					if err != nil || !ref.EqEG(v, want) {
						w.Violate("C07/wrong-result", "%s gave a wrong result (%v)", name, err)
					}
					if !c.Equal(c, ToEG(want)) || egf.IsNeutral(c) != (want.First.Inf && want.Second.Inf) {
						w.Violate("C07/wrong-equality", "%s: the resulting commitment compares wrongly", name)
					}
					e.Nontriv = true
					w.Count("probe.result_checked")
				}
				switch op.Kind {
				case "add":
					got(grp.Add(cp[a], cp[b]), ref.Add(rp[a], rp[b]))
				case "inv":
					got(grp.Add(cp[a], grp.Neg(cp[a])), ref.O)
				case "mul":
					got(grp.ScalarMult(cp[a], cs[s]), ref.Mul(rp[a], new(big.Int).Mod(rs[s], ref.N)))
				case "base":
					got(grp.ScalarBaseMult(cs[s]), ref.Base(new(big.Int).Mod(rs[s], ref.N)))
				case "neg":
					got(grp.Neg(cp[a]), ref.Neg(rp[a]))
				case "eq":
					if grp.Equal(cp[a], cp[b]) != ref.Eq(rp[a], rp[b]) {
						w.Violate("C07/wrong-equality", "%s is wrong", name)
					}
				case "order":
					got(grp.ScalarMult(cp[a], grp.Order()), ref.O)
				case "compose":
					want := ref.AddEG(re[ea], re[eb])
					var c *commitment.ElGamal
					switch op.D % 4 {
					case 0: // the receiver is the first operand
						c = egf.Neutral()
						c.Compose(c, ce[ea])
						c.Compose(c, ce[eb])
					case 1: // the second
						c = egf.Neutral()
						c.Compose(ce[ea], c)
						c.Compose(ce[eb], c)
					case 2:
						c = egf.Neutral()
						d := c.Compose(ce[ea], ce[eb])
						gotEG(d, want)
					case 3: // both
						c = ToEG(re[ea])
						c.Compose(c, c)
						want = ref.AddEG(re[ea], re[ea])
					}
					gotEG(c, want)
				case "exp":
					want := ref.MulEG(re[ea], new(big.Int).Mod(rs[s], ref.N))
					c := egf.Neutral()
					if op.C%2 == 0 {
						c.Exp(ce[ea], cs[s])
					} else {
						c.Compose(c, ce[ea])
						c.Exp(c, cs[s])
					}
					gotEG(c, want)
				case "inverse":
					c := egf.Neutral()
					if op.C%2 == 0 {
						c.Inverse(ce[ea])
					} else {
						c.Compose(c, ce[ea])
						c.Inverse(c)
					}
					gotEG(c, ref.NegEG(re[ea]))
				case "create":
					v := int(op.C) % len(cs)
					m := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.N) }
					gotEG(egf.Create(cs[v], cs[s]), ref.Commit(w.H, m(rs[v]), m(rs[s])))
				case "neutral":
					c := egf.Neutral()
					c.Compose(c, ce[ea])
					gotEG(c, re[ea])
					gotEG(egf.Neutral(), ref.EG{First: ref.O, Second: ref.O})
				case "encode":
					// other tasks run between the writes
					yw := &yieldWriter{pt: pt}
					if err := ce[ea].Encode(yw); err != nil || !bytes.Equal(yw.b, ref.EncEG(re[ea])) {
						w.Violate("C07/wrong-result", "%s: wrong encoding %x (%v)", name, yw.b, err)
					}
				}
				check("after " + name)
			}
		})
	}
	w.Finish(nil)
}

type yieldWriter struct {
	pt *core.Party
	b  []byte
}

func (y *yieldWriter) Write(b []byte) (int, error) {
	c := append([]byte(nil), b...)
	y.pt.Yield()
	y.pt.CheckAlive()
	if !bytes.Equal(b, c) {
		// the slice handed to a writer belongs to the writer until it returns
		y.b = append(y.b, b...)
		return len(b), nil
	}
	y.b = append(y.b, b...)
	return len(b), nil
}

func init() {
	register("C06", &Scenario{Name: "streams", Weight: 1, Gen: genStreams, Run: runStreams})
	register("C07", &Scenario{Name: "hostile", Weight: 1, Gen: genHostile, Run: runHostile})
	register("C07", &Scenario{Name: "shared", Weight: 1, Gen: genShared, Run: runShared})
}
