// Package sync stands in for the standard package of that name in the code under test. Its
// locks are the same to their users, but a goroutine that waits for one counts as waiting
// towards testing/synctest, so that a lock held while its holder waits for a message delays
// nothing but those who need the lock, and a deadlock ends the run as one.
package sync

import (
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
)

type (
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
	Locker    = sync.Locker
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

func OnceValue[T any](f func() T) func() T { return sync.OnceValue(f) }

func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }

var (
	epoch atomic.Int64
	over  atomic.Pointer[chan struct{}]
)

// Begin starts a world: locks left behind by the one before are free again.
func Begin() {
	c := make(chan struct{})
	epoch.Add(1)
	busyMx.Lock()
	clear(busy)
	busyMx.Unlock()
	if old := over.Swap(&c); old != nil {
		close(*old)
	}
}

// End ends all goroutines that wait for a lock.
func End() {
	if c := over.Swap(nil); c != nil {
		close(*c)
	}
}

type waiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex is granted in the order of arrival.
type RWMutex struct {
	mu      sync.Mutex
	epoch   int64
	readers int
	writer  bool
	queue   []waiter
}

func (m *RWMutex) enter() {
	m.mu.Lock()
	if e := epoch.Load(); m.epoch != e {
		m.epoch, m.readers, m.writer, m.queue = e, 0, false, nil
	}
}

func (m *RWMutex) free(write bool) bool {
	if write {
		return !m.writer && m.readers == 0
	}
	return !m.writer
}

func (m *RWMutex) take(write bool) {
	if write {
		m.writer = true
	} else {
		m.readers++
	}
}

func (m *RWMutex) lock(write bool) {
	m.enter()
	if len(m.queue) == 0 && m.free(write) {
		m.take(write)
		m.mu.Unlock()
		return
	}
	w := waiter{make(chan struct{}), write}
	m.queue = append(m.queue, w)
	m.mu.Unlock()
	if c := over.Load(); c != nil {
		select {
		case <-w.ch:
		case <-*c:
			runtime.Goexit()
		}
		return
	}
	<-w.ch
}

func (m *RWMutex) try(write bool) bool {
	m.enter()
	defer m.mu.Unlock()
	if len(m.queue) > 0 || !m.free(write) {
		return false
	}
	m.take(write)
	return true
}

func (m *RWMutex) unlock(write bool) {
	e := m.epoch
	m.enter()
	defer m.mu.Unlock()
	if e != m.epoch || over.Load() == nil && !m.writer && m.readers == 0 {
		return // locked in a world that is gone, or not locked because it ended
	}
	if write {
		if !m.writer {
			panic("sync: unlock of unlocked mutex")
		}
		m.writer = false
	} else {
		if m.readers == 0 {
			panic("sync: RUnlock of unlocked RWMutex")
		}
		m.readers--
	}
	for len(m.queue) > 0 && m.free(m.queue[0].write) {
		w := m.queue[0]
		m.queue = m.queue[1:]
		m.take(w.write)
		close(w.ch)
	}
}

func (m *RWMutex) Lock()          { m.lock(true) }
func (m *RWMutex) TryLock() bool  { return m.try(true) }
func (m *RWMutex) Unlock()        { m.unlock(true) }
func (m *RWMutex) RLock()         { m.lock(false) }
func (m *RWMutex) TryRLock() bool { return m.try(false) }
func (m *RWMutex) RUnlock()       { m.unlock(false) }

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// Mutex is granted in the order of arrival.
type Mutex struct{ m RWMutex }

func (m *Mutex) Lock()         { m.m.lock(true) }
func (m *Mutex) TryLock() bool { return m.m.try(true) }
func (m *Mutex) Unlock()       { m.m.unlock(true) }

// Once runs a function once.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// Hooks are what the simulator does at the scheduling points put between the statements of
// the code under test (none outside of runs that ask for it).
type Hooks struct {
	Active func(site int) bool
	Yield  func(site int)
	Spawn  func() string
	Adopt  func(name string)
}

var hooks atomic.Pointer[Hooks]

// SetHooks installs h (nil: nothing happens at scheduling points).
func SetHooks(h *Hooks) { hooks.Store(h) }

// Yield is a scheduling point.
func Yield(site int) {
	if h := hooks.Load(); h != nil && h.Active(site) {
		h.Yield(site)
	}
}

// Pass returns v: what it was computed from may change before it is stored.
func Pass[T any](site int, v T) T {
	Yield(site)
	return v
}

// Deep is set in the sites of pkg/curve and pkg/crypto, which only some runs schedule.
const Deep = 1 << 30

var (
	busyMx sync.Mutex
	busy   = map[uintptr]bool{}
)

func mapAt(m any) uintptr {
	v := reflect.ValueOf(m).Elem()
	if v.Kind() != reflect.Map || v.IsNil() {
		return 0
	}
	return v.Pointer()
}

// MapBegin precedes a statement that changes the map m points to (if it is one): whoever else
// does the same before it is over, would end the process.
func MapBegin(site int, m any) {
	h := hooks.Load()
	if h == nil || !h.Active(site) {
		return
	}
	at := mapAt(m)
	if at == 0 {
		return
	}
	busyMx.Lock()
	again := busy[at]
	busy[at] = true
	busyMx.Unlock()
	if again {
		panic("concurrent map writes")
	}
	over := false
	defer func() {
		if !over {
			unbusy(at)
		}
	}()
	h.Yield(site)
	over = true
}

// MapEnd follows that statement.
func MapEnd(m any) {
	if hooks.Load() != nil {
		if at := mapAt(m); at != 0 {
			unbusy(at)
		}
	}
}

func unbusy(at uintptr) {
	busyMx.Lock()
	delete(busy, at)
	busyMx.Unlock()
}

// Spawn names a goroutine that is about to be started.
func Spawn() string {
	if h := hooks.Load(); h != nil {
		return h.Spawn()
	}
	return ""
}

// Adopt gives the calling goroutine its name.
func Adopt(name string) {
	if h := hooks.Load(); h != nil && name != "" {
		h.Adopt(name)
	}
}

// Named is f for a goroutine that has yet to get its name.
func Named[F any](name string, f F) F {
	v := reflect.ValueOf(f)
	if name == "" || v.Kind() != reflect.Func || v.IsNil() {
		return f
	}
	return reflect.MakeFunc(v.Type(), func(args []reflect.Value) []reflect.Value {
		Adopt(name)
		if v.Type().IsVariadic() {
			return v.CallSlice(args)
		}
		return v.Call(args)
	}).Interface().(F)
}
