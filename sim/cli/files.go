// Package cli simulates the programs in /repo/cmd: key generation onto a faulty disk, and
// whole deployments of the signing program.
package cli

import (
	"errors"
	"fmt"
	"math/big"
	"math/rand/v2"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"aaa.verif/sim/core"
	"aaa.verif/sim/detrand"
	genkeys "aaa.verif/sim/gen/genkeys"
	tec0 "aaa.verif/sim/gen/tec0"
	"aaa.verif/sim/scen"
	"aaa.verif/sim/simos"

	"github.com/binance-chain/tss-lib/crypto/paillier"
)

func init() {
	scen.Register("C20", &scen.Scenario{Name: "files", Weight: 10, Gen: genFiles, Directed: directedFiles, Run: runFiles})
	scen.Register("C20", &scen.Scenario{Name: "interrupted", Weight: 5, Gen: genFiles, Run: runInterrupted})
	scen.Register("C20", &scen.Scenario{Name: "damaged", Weight: 6, Gen: genFiles, Run: runDamaged})
	scen.Register("C20", &scen.Scenario{Name: "invocations", Weight: 1, Gen: genFiles, Run: runInvocation})
}

const addrFile = "addresses.txt"

// Addresses of a committee: variant 0 means the defaults.
func addresses(seed uint64, n, variant int) []string {
	r := core.NewRand(seed, 31)
	out := make([]string, n)
	for i := range out {
		port := strconv.Itoa(1 + r.IntN(65535))
		switch k := r.IntN(6); {
		case variant == 0:
			out[i] = "127.0.0.1:" + strconv.Itoa(10000+i)
		case k == 0:
			out[i] = fmt.Sprintf("[fe80::%x:%x%%eth0]:%s", r.IntN(1<<16), i, port)
		case k == 1:
			out[i] = fmt.Sprintf("host-%d.%s.example.org:%s", i, strings.Repeat("x", r.IntN(60)), port)
		case k == 2:
			out[i] = fmt.Sprintf("h%d:%s", i, port)
		case k == 3:
			out[i] = fmt.Sprintf("HÔTE-%d.例え:%s", i, port)
		default:
			out[i] = fmt.Sprintf("%d.%d.%d.%d:%s", r.IntN(256), r.IntN(256), r.IntN(256), i%256, port)
		}
	}
	return out
}

// addressFile renders an address file. missing tells that it holds too few addresses.
func addressFile(seed uint64, addrs []string, style int) (text string, missing bool) {
	r := core.NewRand(seed, 32)
	nl := "\n"
	if style == 2 {
		nl = "\r\n"
	}
	n := len(addrs)
	if style == 5 {
		n, missing = r.IntN(n), true
	}
	for i, a := range addrs[:n] {
		if i > 0 {
			text += nl
		}
		text += a
	}
	switch style {
	case 1: // no newline at the end
	case 3: // more lines than needed
		text += "\n10.9.9.9:99\n10.9.9.8:98\n"
	default:
		text += nl
	}
	return text, missing
}

func genFiles(r *rand.Rand, p *core.Plan) {
	p.N = 2 + r.IntN(6)
	if r.IntN(20) == 0 {
		p.N = 8 + r.IntN(30)
	}
	if r.IntN(3) > 0 {
		p.I["addr"] = 1
		p.I["style"] = int64(r.IntN(6))
	}
	p.I["n2"] = int64(2 + r.IntN(6))
	p.I["part"] = int64(r.IntN(40))
	p.I["cut"] = int64(r.IntN(1 << 20))
	p.I["victim"] = int64(r.IntN(p.N))
	p.I["load_fault"] = int64(r.IntN(6))
	ops := 2*p.N + 8
	f := core.Fault{}
	switch r.IntN(12) {
	case 0, 1:
		f = core.Fault{Kind: "write", N: 1 + r.IntN(8*p.N), Mode: "eio"}
	case 2:
		f = core.Fault{Kind: "full", N: 1 + r.IntN(250*p.N)}
	case 3:
		f = core.Fault{Kind: "create", N: 1 + r.IntN(p.N+1), Mode: "eacces"}
	case 4, 5:
		f = core.Fault{Kind: "close", N: 1 + r.IntN(p.N+1), Mode: "eio"}
	case 6:
		f = core.Fault{Kind: "read", N: 1 + r.IntN(3), Mode: "eio"}
	case 7:
		f = core.Fault{Kind: "keygen", N: 1 + r.IntN(p.N)}
	case 8:
		f = core.Fault{Kind: "entropy", N: 1 + r.IntN(40*p.N)}
	case 9:
		f = core.Fault{Kind: "open", N: 1, Mode: "eacces"}
	}
	if f.Kind != "" {
		p.Faults = append(p.Faults, f)
	}
	p.I["crash_at"] = int64(1 + r.IntN(4*ops))
}

func directedFiles() []*core.Plan {
	var l []*core.Plan
	for _, n := range []int64{2, 3, 10, 11, 100, 300, 1100} {
		l = append(l, &core.Plan{N: int(n), I: map[string]int64{"addr": n % 2, "n2": 2}})
	}
	return l
}

// machine is one computer with its disk and the keys generated on it.
type machine struct {
	e     *scen.Env
	disk  *simos.Disk
	keys  []*paillier.PrivateKey
	rng   *rand.Rand
	draws int
	fail  map[int]bool // draws that fail
}

func newMachine(e *scen.Env) *machine {
	m := &machine{e: e, disk: simos.NewDisk(), rng: core.NewRand(e.Plan.Seed, 33), fail: map[int]bool{}}
	detrand.Source = func(b []byte) (int, error) {
		m.draws++
		if m.fail[m.draws] {
			e.Stats["fault.entropy"]++
			return 0, core.ErrEntropy
		}
		for i := range b {
			b[i] = byte(m.rng.Uint32())
		}
		return len(b), nil
	}
	return m
}

// proc starts a process on the machine.
func (m *machine) proc(args ...string) *simos.Proc {
	return &simos.Proc{Disk: m.disk, Args: args, Uniform: m.e.Chooser().Uniform, ShortRead: true, FDs: 1024,
		Log: m.e.Log, OnExit: func(int) {}}
}

type outcome struct {
	code  int
	panic string
}

// run executes a program to its end.
func (m *machine) run(p *simos.Proc, what string, f func(p *simos.Proc)) outcome {
	var o outcome
	p.OnExit = func(c int) { o.code = c }
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				o.panic = fmt.Sprint(r)
				st := string(debug.Stack())
				if strings.Contains(o.panic, "harness:") || core.PanicClass(o.panic, st) == "" {
					m.e.V("HARNESS", "%s: %v\n%s", what, r, st)
				}
			}
		}()
		f(p)
	}()
	<-done
	p.Die()
	m.e.Log("%s ended: code %d, panic %q, stderr %q", what, o.code, o.panic, p.Err)
	for k, n := range p.Fired {
		m.e.Stats["fault."+k] += n
	}
	return o
}

// generate runs gen_keys and tells whether it reported success.
func (m *machine) generate(n int, faults []core.Fault, addrs []string, withFile bool, crashAt int) (ok bool, p *simos.Proc) {
	args := []string{"gen_keys", strconv.Itoa(n)}
	if withFile {
		args = append(args, addrFile)
	}
	p = m.proc(args...)
	m.keys = nil
	genAt := 0
	m.draws, m.fail = 0, map[int]bool{}
	for _, f := range faults {
		switch f.Kind {
		case "write", "create", "close", "read", "open":
			err := error(syscall.EIO)
			if f.Mode == "eacces" {
				err = syscall.EACCES
			}
			p.Faults = append(p.Faults, simos.Fault{Kind: f.Kind, N: f.N, Err: err, Part: int(m.e.Plan.I["part"])})
		case "full":
			m.disk.Cap = m.disk.Written + f.N
		case "keygen":
			genAt = f.N
		case "entropy":
			m.fail[f.N] = true
		}
	}
	if crashAt > 0 {
		p.Faults = append(p.Faults, simos.Fault{Kind: "any", N: crashAt, Part: int(m.e.Plan.I["part"])})
	}
	calls := 0
	paillier.Hook = func(k *paillier.PrivateKey) error {
		calls++
		if calls == genAt {
			m.e.Stats["fault.keygen"]++
			return errors.New("timeout or error while generating the safe primes")
		}
		m.keys = append(m.keys, &paillier.PrivateKey{PublicKey: paillier.PublicKey{N: new(big.Int).Set(k.N)}, LambdaN: new(big.Int).Set(k.LambdaN), PhiN: new(big.Int).Set(k.PhiN)})
		return nil
	}
	o := m.run(p, "gen_keys", genkeys.SimRun)
	paillier.Hook = nil
	m.disk.Cap = 0
	if o.panic != "" {
		m.e.V("panic", "gen_keys panicked: %s", o.panic)
	}
	return o.panic == "" && o.code == 0 && len(p.Err) == 0, p
}

// loaded is what the signing program makes of the files.
type loaded struct {
	err  error
	pid  int
	priv *paillier.PrivateKey
	pubs []*paillier.PublicKey
	adrs []string
	pan  string
}

var (
	privT = reflect.TypeOf((*paillier.PrivateKey)(nil))
	pubsT = reflect.TypeOf([]*paillier.PublicKey(nil))
	strsT = reflect.TypeOf([]string(nil))
	errT  = reflect.TypeOf((*error)(nil)).Elem()
)

// parts lists the types of a result of a reader: of its fields, or its own.
func parts(t reflect.Type) []reflect.Type {
	u := t
	if u.Kind() == reflect.Ptr {
		u = u.Elem()
	}
	if u.Kind() != reflect.Struct || t == privT {
		return []reflect.Type{t}
	}
	var out []reflect.Type
	for i := 0; i < u.NumField(); i++ {
		out = append(out, u.Field(i).Type)
	}
	return out
}

// same tells whether a type is the one that is looked for; any integer may be a process id.
func same(t, want reflect.Type) bool {
	if want.Kind() == reflect.Int {
		return t.Kind() >= reflect.Int && t.Kind() <= reflect.Uint64
	}
	return t == want
}

func holds(t reflect.Type, want ...reflect.Type) bool {
	for _, f := range want {
		ok := false
		for i := 0; i < t.NumOut()-1; i++ {
			for _, u := range parts(t.Out(i)) {
				ok = ok || same(u, f)
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// loader finds the function that reads a key file (member) or the committee file.
func loader(fs ...reflect.Type) (reflect.Value, bool) {
	for _, l := range tec0.SimLoaders {
		v := reflect.ValueOf(l)
		if t := v.Type(); t.NumIn() == 1 && t.NumOut() >= 2 && holds(t, fs...) {
			return v, true
		}
	}
	return reflect.Value{}, false
}

func field(outs []reflect.Value, t reflect.Type) interface{} {
	for _, v := range outs[:len(outs)-1] {
		if same(v.Type(), t) {
			return plain(v)
		}
		if v.Type() == privT || nilish(v) {
			continue
		}
		for v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			continue
		}
		if !v.CanAddr() {
			w := reflect.New(v.Type()).Elem()
			w.Set(v)
			v = w
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); same(f.Type(), t) {
				return plain(reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem())
			}
		}
	}
	return nil
}

func plain(v reflect.Value) interface{} {
	switch {
	case v.CanInt():
		return int(v.Int())
	case v.CanUint():
		return int(v.Uint())
	}
	return v.Interface()
}

func nilish(v reflect.Value) bool { return v.Kind() == reflect.Ptr && v.IsNil() }

// load runs one of the signing program's readers on a file.
func (m *machine) load(file string, faults []simos.Fault, member bool) (l loaded, have bool) {
	types := []reflect.Type{pubsT, strsT}
	if member {
		types = []reflect.Type{privT, reflect.TypeOf(0)}
	}
	fn, have := loader(types...)
	if !have {
		m.e.Stats["no_loader"]++
		return l, false
	}
	p := m.proc("tecdsa")
	p.Faults = faults
	o := m.run(p, "load "+file, func(p *simos.Proc) {
		tec0.SimBind(p)
		out := fn.Call([]reflect.Value{reflect.ValueOf(file)})
		if err, _ := out[len(out)-1].Interface().(error); err != nil {
			l.err = err
			return
		}
		if nilish(out[0]) && out[len(out)-1].Type() != errT {
			l.err = errors.New("nothing loaded")
			return
		}
		if member {
			l.pid, _ = field(out, types[1]).(int)
			l.priv, _ = field(out, privT).(*paillier.PrivateKey)
		} else {
			l.pubs, _ = field(out, pubsT).([]*paillier.PublicKey)
			l.adrs, _ = field(out, strsT).([]string)
		}
	})
	l.pan = o.panic
	if o.panic == "" && o.code != 0 {
		l.err = fmt.Errorf("exit %d", o.code)
	}
	m.e.Log("load %s: err %v pid %d", file, l.err, l.pid)
	return l, true
}

func sameKey(a, b *paillier.PrivateKey) bool {
	eq := func(x, y *big.Int) bool { return x != nil && y != nil && x.Cmp(y) == 0 }
	return a != nil && b != nil && eq(a.N, b.N) && eq(a.LambdaN, b.LambdaN) && eq(a.PhiN, b.PhiN)
}

func (m *machine) keyIndex(k *paillier.PrivateKey, keys []*paillier.PrivateKey) int {
	for i := range keys {
		if sameKey(k, keys[i]) {
			return i
		}
	}
	return -1
}

func pk(pid int) string { return strconv.Itoa(pid) + ".pk" }

// verify loads everything back and compares.
func (m *machine) verify(n int, addrs []string, when string) {
	e := m.e
	if len(m.keys) < n {
		e.V("keys", "%s: gen_keys reported success for %d members having generated %d keys", when, n, len(m.keys))
		return
	}
	c, have := m.load("keys_addrs", nil, false)
	switch {
	case !have:
	case c.pan != "":
		e.V("panic", "%s: reading keys_addrs of %d members panics: %s", when, n, c.pan)
		return
	case c.err != nil:
		e.V("committee-refused", "%s: keys_addrs of %d members (addresses %q) does not load: %v", when, n, head(addrs), c.err)
		return
	default:
		if len(c.pubs) != n || len(c.adrs) != n {
			e.V("committee", "%s: a committee of %d loads as %d keys and %d addresses", when, n, len(c.pubs), len(c.adrs))
			return
		}
		for i := range addrs {
			if c.adrs[i] != addrs[i] {
				e.V("address", "%s: the address of member %d of %d loads as %q, not %q", when, i, n, c.adrs[i], addrs[i])
				return
			}
		}
	}
	seen := map[int]int{}
	for pid := 0; pid < n; pid++ {
		l, ok := m.load(pk(pid), nil, true)
		if !ok {
			return
		}
		switch {
		case l.pan != "":
			e.V("panic", "%s: reading the key file of member %d of %d panics: %s", when, pid, n, l.pan)
			return
		case l.err != nil:
			e.V("key-refused", "%s: the key file of member %d of %d does not load: %v", when, pid, n, l.err)
			return
		case l.pid != pid:
			e.V("pid", "%s: the file of member %d of %d loads as process %d", when, pid, n, l.pid)
			return
		}
		k := m.keyIndex(l.priv, m.keys)
		if k < 0 {
			e.V("private-key", "%s: the private key of member %d of %d is not one that was generated: %s", when, pid, n, m.describe(l.priv))
			return
		}
		if o, dup := seen[k]; dup {
			e.V("private-key", "%s: members %d and %d of %d have the same private key", when, o, pid, n)
			return
		}
		seen[k] = pid
		if have && (c.pubs[pid] == nil || c.pubs[pid].N == nil || c.pubs[pid].N.Cmp(l.priv.N) != 0) {
			e.V("public-key", "%s: the public key of member %d of %d is not that of its private key", when, pid, n)
			return
		}
		if pid < 3 {
			msg := new(big.Int).SetUint64(core.Mix(e.Plan.Seed, uint64(pid)))
			ct, err := l.priv.PublicKey.Encrypt(msg)
			if err == nil {
				msg2, err2 := l.priv.Decrypt(ct)
				if err2 != nil || msg2.Cmp(msg) != 0 {
					e.V("private-key", "%s: what is encrypted to member %d of %d does not decrypt (%v)", when, pid, n, err2)
					return
				}
			}
		}
	}
	e.Stats["verified_members"] += n
	e.Nontriv = true
}

func head(a []string) []string {
	if len(a) > 4 {
		return a[:4]
	}
	return a
}

func (m *machine) describe(k *paillier.PrivateKey) string {
	for i, g := range m.keys {
		if k != nil && k.N != nil && k.N.Cmp(g.N) == 0 {
			return fmt.Sprintf("its modulus is that of key %d, LambdaN equal %v, PhiN equal %v", i, k.LambdaN != nil && k.LambdaN.Cmp(g.LambdaN) == 0, k.PhiN != nil && k.PhiN.Cmp(g.PhiN) == 0)
		}
	}
	return "no key with that modulus was generated"
}

// setup puts the address file on the disk.
func (m *machine) setup(n int) (addrs []string, withFile, missing bool) {
	p := m.e.Plan
	addrs = addresses(p.Seed, n, int(p.I["addr"]))
	if p.I["addr"] != 0 {
		text, miss := addressFile(p.Seed, addrs, int(p.I["style"]))
		m.disk.Files[addrFile] = &simos.Inode{Data: []byte(text), Synced: len(text), Mode: os.FileMode(0o644)}
		return addrs, true, miss
	}
	return addrs, false, false
}

func fired(p *simos.Proc, e *scen.Env) bool {
	for _, n := range p.Fired {
		if n > 0 {
			return true
		}
	}
	return e.Stats["fault.entropy"]+e.Stats["fault.keygen"] > 0
}

func runFiles(e *scen.Env) {
	p := e.Plan
	n := p.N
	if n < 2 {
		return
	}
	m := newMachine(e)
	addrs, withFile, missing := m.setup(n)
	ok, proc := m.generate(n, p.Faults, addrs, withFile, 0)
	e.Stats["generated"]++
	if !ok && (fired(proc, e) || missing) {
		e.Stats["reported"]++
		e.Nontriv = true
		return
	}
	if ok && missing {
		e.V("too-few-addresses", "gen_keys reports success for %d members with an address file of fewer lines", n)
		return
	}
	when := "fault-free run"
	if fired(proc, e) {
		when = fmt.Sprintf("after %v, which gen_keys did not report", proc.Fired)
	}
	m.verify(n, addrs, when)
}

func runInterrupted(e *scen.Env) {
	p := e.Plan
	n := p.N
	n2 := int(p.I["n2"])
	if n < 2 || n2 < 2 {
		return
	}
	m := newMachine(e)
	addrs, withFile, _ := m.setup(n)
	var all []*paillier.PrivateKey
	if p.I["cut"]%2 == 0 { // an earlier complete set
		m.generate(n2, nil, addrs, false, 0)
		all = append(all, m.keys...)
	}
	m.generate(n, nil, addrs, withFile, int(p.I["crash_at"]))
	all = append(all, m.keys...)
	m.disk.Lose(e.Chooser().Uniform)
	// whatever is there must not crash the reader nor load as another key
	for pid := 0; pid < max(n, n2); pid++ {
		if m.disk.Files[pk(pid)] == nil {
			continue
		}
		l, ok := m.load(pk(pid), nil, true)
		if !ok {
			break
		}
		if l.pan != "" {
			e.V("panic", "reading a key file left by an interrupted run panics: %s", l.pan)
			return
		}
		if l.err == nil && m.keyIndex(l.priv, all) < 0 {
			e.V("torn-key", "the key file of member %d left by an interrupted run loads as a key that was never generated", pid)
			return
		}
	}
	if m.disk.Files["keys_addrs"] != nil {
		if l, _ := m.load("keys_addrs", nil, false); l.pan != "" {
			e.V("panic", "reading a committee file left by an interrupted run panics: %s", l.pan)
			return
		}
	}
	addrs, withFile, missing := m.setup(n)
	ok, _ := m.generate(n, nil, addrs, withFile, 0)
	if ok && missing {
		e.V("too-few-addresses", "gen_keys reports success for %d members with an address file of fewer lines", n)
		return
	}
	if missing {
		e.Nontriv = true
		return
	}
	m.verify(n, addrs, "over the files of interrupted runs")
}

func runDamaged(e *scen.Env) {
	p := e.Plan
	n := p.N
	if n < 2 {
		return
	}
	m := newMachine(e)
	p.I["style"] = 0
	addrs, withFile, _ := m.setup(n)
	if ok, _ := m.generate(n, nil, addrs, withFile, 0); !ok {
		return // judged by the other scenarios
	}
	victim := pk(int(p.I["victim"]) % n)
	ino := m.disk.Files[victim]
	if ino == nil {
		return
	}
	whole := append([]byte(nil), ino.Data...)
	key := len(whole)
	if i := strings.IndexAny(string(whole), " \t\n"); i >= 0 {
		key = i
	}
	cut := int(p.I["cut"])
	r := core.NewRand(p.Seed, 34)
	switch p.I["load_fault"] {
	case 0: // cut inside the key
		at := cut % key
		if r.IntN(2) == 0 { // where the encoding itself is complete
			at -= at % 4
		}
		ino.Data = whole[:at:at]
		if r.IntN(3) > 0 { // with the rest of the line in place
			ino.Data = append(append([]byte(nil), ino.Data...), whole[key:]...)
		}
		e.Stats["fault.cut_file"]++
		l, ok := m.load(victim, nil, true)
		if !ok {
			return
		}
		if l.pan != "" {
			e.V("panic", "reading a key file cut after %d of %d bytes panics: %s", len(ino.Data), len(whole), l.pan)
		} else if l.err == nil && m.keyIndex(l.priv, m.keys) < 0 {
			e.V("torn-key", "a key cut after %d of %d characters loads as a key that was never generated", at, key)
		}
	case 1: // read error: the result is an error or exact
		fk := simos.Fault{Kind: "read", N: 1 + cut%4, Err: syscall.EIO}
		fc := simos.Fault{Kind: "read", N: 1 + cut%5, Err: syscall.EIO}
		if r.IntN(2) == 0 {
			fk.Kind, fc.Kind = "sector", "sector"
			fk.N = r.IntN(len(whole) + 1)
			if r.IntN(2) == 0 { // in the process id, or between it and the key
				fk.N = max(0, len(whole)-r.IntN(6))
			}
			if f := m.disk.Files["keys_addrs"]; f != nil {
				fc.N = r.IntN(len(f.Data) + 1)
				if ls := strings.SplitAfter(string(f.Data), "\n"); r.IntN(2) == 0 && len(ls) > 1 {
					// in an address, or at the end of a line
					fc.N = len(strings.Join(ls[:1+r.IntN(len(ls)-1)], "")) - r.IntN(3)
				}
			}
		}
		l, ok := m.load(victim, []simos.Fault{fk}, true)
		if ok && l.err == nil && l.pan == "" && (m.keyIndex(l.priv, m.keys) < 0 || pk(l.pid) != victim) {
			e.V("read-error", "a key file that could not be read loads as another key or process")
		}
		c, ok := m.load("keys_addrs", []simos.Fault{fc}, false)
		if ok && c.err == nil && c.pan == "" {
			bad := len(c.pubs) != n || len(c.adrs) != n
			for i := 0; !bad && i < n; i++ {
				bad = c.adrs[i] != addrs[i]
			}
			if bad {
				e.V("read-error", "a committee file that could not be read loads as another committee")
			}
		}
		if l.pan+c.pan != "" {
			e.V("panic", "reading panics: %s", l.pan+c.pan)
		}
	case 2: // something else in the place of a part
		file := victim
		what := ""
		w := []string{"x", "-", "0x1", "1.5", "99999999999999999999999", "one", "!"}[r.IntN(7)]
		switch f := strings.Fields(string(whole)); {
		case len(f) != 2:
			return // another format
		case cut%2 == 0 || m.disk.Files["keys_addrs"] == nil:
			what = fmt.Sprintf("a key file with %q for a process id", w)
			ino.Data = []byte(f[0] + " " + w + "\n")
			if r.IntN(4) == 0 {
				what = "a key file with an illegible key"
				ino.Data = []byte("\x7f*" + f[0][2:] + " " + f[1] + "\n")
			}
		default:
			file = "keys_addrs"
			ls := strings.Fields(string(m.disk.Files[file].Data))
			i := r.IntN(len(ls))
			pr := strings.Split(ls[i], "|")
			if len(ls) != n || len(pr) != 2 {
				return
			}
			ls[i] = []string{pr[0], pr[0] + "|", "|" + pr[1], pr[0] + "|noport", pr[0][:2] + "*" + pr[0][3:] + "|" + pr[1]}[r.IntN(5)]
			what = fmt.Sprintf("a committee file with the line %q", ls[i])
			m.disk.Files[file].Data = []byte(strings.Join(ls, "\n") + "\n")
		}
		e.Stats["fault.replaced_part"]++
		l, ok := m.load(file, nil, file == victim)
		switch {
		case !ok:
		case l.pan != "":
			e.V("panic", "reading %s panics: %s", what, l.pan)
		case l.err == nil:
			e.V("accepted", "%s is accepted", what)
		}
	default: // any damage: no crash
		file := victim
		if cut%2 == 0 {
			file = "keys_addrs"
		}
		if m.disk.Files[file] == nil {
			return
		}
		d := append([]byte(nil), m.disk.Files[file].Data...)
		for k := 1 + r.IntN(4); k > 0 && len(d) > 0; k-- {
			i := r.IntN(len(d))
			switch r.IntN(4) {
			case 0:
				d[i] = byte(r.Uint32())
			case 1:
				d = append(d[:i:i], d[i+1:]...)
			case 2:
				d = d[:i]
			case 3:
				d = append(d[:i:i], append([]byte{" |\n=A:"[r.IntN(6)]}, d[i:]...)...)
			}
		}
		m.disk.Files[file].Data = d
		e.Stats["fault.damaged_file"]++
		if l, _ := m.load(file, nil, file != "keys_addrs"); l.pan != "" {
			e.V("panic", "reading a damaged %s panics: %s", strings.TrimLeft(file, "0123456789"), l.pan)
		}
	}
	ino.Data = whole
	e.Nontriv = true
}

// runInvocation starts gen_keys with arguments that cannot be used.
func runInvocation(e *scen.Env) {
	p := e.Plan
	if p.N < 2 {
		return
	}
	m := newMachine(e)
	_, withFile, _ := m.setup(p.N)
	r := core.NewRand(p.Seed, 35)
	count := strconv.Itoa(p.N)
	all := [][]string{{}, {""}, {"x"}, {"three"}, {"-"}, {"-1"}, {"0"}, {"1"}, {count + "x"}, {count + ".5"}, {"-" + count},
		{"999999999999999999999999"}, {count, "no-such-file"}, {count, "no-such-file", "more"}, {"1", "no-such-file"}}
	args := all[r.IntN(len(all))]
	if withFile && r.IntN(2) == 0 {
		args = append([]string{[]string{"", "x", "0", "1", "-2"}[r.IntN(5)]}, addrFile)
		if r.IntN(3) == 0 {
			args = []string{count, addrFile, addrFile}
		}
	}
	before := len(m.disk.Files)
	pr := m.proc(append([]string{"gen_keys"}, args...)...)
	paillier.Hook = nil
	o := m.run(pr, "gen_keys", genkeys.SimRun)
	e.Nontriv = true
	switch {
	case o.panic != "":
		e.V("panic", "gen_keys %q panicked: %s", args, o.panic)
	case o.code == 0 && len(pr.Err) == 0:
		e.V("silent", "gen_keys %q reports no error", args)
	case len(m.disk.Files) != before:
		e.V("files", "gen_keys %q reports an error and leaves files %v", args, m.disk.Names())
	}
}
