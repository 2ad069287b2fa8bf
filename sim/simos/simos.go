// Package simos is the operating system the simulated command-line programs see: a disk
// with faults, standard streams, arguments and process exit.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Disk is what survives a process.
type Disk struct {
	mu    sync.Mutex
	Files map[string]*Inode
	// Written counts the bytes written so far; at Cap the disk is full (0: never).
	Written, Cap int
}

// Inode is one file.
type Inode struct {
	Data   []byte
	Synced int // bytes known to be durable
	Mode   fs.FileMode
}

// NewDisk returns an empty disk.
func NewDisk() *Disk { return &Disk{Files: map[string]*Inode{}} }

// Clone copies a disk.
func (d *Disk) Clone() *Disk {
	c := NewDisk()
	for n, f := range d.Files {
		c.Files[n] = &Inode{Data: append([]byte(nil), f.Data...), Synced: f.Synced, Mode: f.Mode}
	}
	return c
}

// Names lists the files.
func (d *Disk) Names() []string {
	var l []string
	for n := range d.Files {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

// Lose applies a crash of the machine: of what was not synced any prefix may survive.
func (d *Disk) Lose(uniform func(int) int) {
	for _, n := range d.Names() {
		f := d.Files[n]
		if k := len(f.Data) - f.Synced; k > 0 {
			f.Data = f.Data[:f.Synced+uniform(k+1)]
		}
	}
}

// Fault is a planned failure of the Nth operation (from 1) of a kind.
type Fault struct {
	Kind string // "create", "open", "write", "read", "close", "rename", "any" (crash), "sector" (bytes from N on)
	N    int
	Err  error // nil: the process dies
	Part int   // bytes of the write that still reach the disk
}

// Proc is one process.
type Proc struct {
	Disk    *Disk
	Args    []string
	Uniform func(n int) int // decisions (short reads)
	Log     func(format string, a ...interface{})
	OnExit  func(code int) // must not return
	Faults  []Fault
	FDs     int // limit on open files
	Fired   map[string]int

	mu        sync.Mutex
	count     map[string]int
	open      int
	MaxOpen   int
	Out, Err  []byte
	Dead      bool
	signals   []chan<- Signal
	ShortRead bool
}

// Signal is os.Signal.
type Signal interface {
	String() string
	Signal()
}

// File is an open file.
type File struct {
	p      *Proc
	name   string
	ino    *Inode
	pos    int
	std    int // 1, 2: standard streams
	closed bool
	wr, rd bool
	app    bool
}

func (p *Proc) log(f string, a ...interface{}) {
	if p.Log != nil {
		p.Log(f, a...)
	}
}

func (p *Proc) alive() {
	p.mu.Lock()
	d := p.Dead
	p.mu.Unlock()
	if d {
		runtime.Goexit()
	}
}

// op counts an operation and returns the fault planned for it.
func (p *Proc) op(kind string) *Fault {
	p.alive()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.count == nil {
		p.count = map[string]int{}
	}
	if p.Fired == nil {
		p.Fired = map[string]int{}
	}
	p.count[kind]++
	p.count["any"]++
	for i := range p.Faults {
		f := &p.Faults[i]
		if (f.Kind == kind || f.Kind == "any") && p.count[f.Kind] == f.N {
			if f.Err == nil {
				p.Fired["crash"]++
			} else {
				p.Fired["disk_"+kind]++
			}
			p.log("fault %s #%d: %v", kind, f.N, f.Err)
			return f
		}
	}
	return nil
}

// badByte tells whether a part of a file reaches a byte that cannot be read.
func (p *Proc) badByte(pos, n int) *Fault {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i := range p.Faults {
		if f := &p.Faults[i]; f.Kind == "sector" && pos+n > f.N {
			if p.Fired == nil {
				p.Fired = map[string]int{}
			}
			p.Fired["disk_sector"]++
			return f
		}
	}
	return nil
}

// Ops is the number of operations so far.
func (p *Proc) Ops(kind string) int { return p.count[kind] }

// Die ends the process.
func (p *Proc) Die() {
	p.mu.Lock()
	p.Dead = true
	sig := p.signals
	p.signals = nil
	p.mu.Unlock()
	for _, c := range sig {
		func() {
			defer func() { recover() }()
			close(c)
		}()
	}
}

// Exit is os.Exit.
func (p *Proc) Exit(code int) {
	p.alive()
	p.log("exit %d", code)
	p.OnExit(code)
	runtime.Goexit()
}

func (p *Proc) crash() {
	p.log("killed")
	p.OnExit(-9)
	runtime.Goexit()
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func clean(n string) string {
	for strings.HasPrefix(n, "./") {
		n = n[2:]
	}
	return n
}

// Open flags, as in package os on Linux.
const (
	RDONLY = syscall.O_RDONLY
	WRONLY = syscall.O_WRONLY
	RDWR   = syscall.O_RDWR
	APPEND = syscall.O_APPEND
	CREATE = syscall.O_CREAT
	EXCL   = syscall.O_EXCL
	TRUNC  = syscall.O_TRUNC
)

// OpenFile opens a file.
func (p *Proc) OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	name = clean(name)
	kind := "open"
	if flag&CREATE != 0 {
		kind = "create"
	}
	if f := p.op(kind); f != nil {
		if f.Err == nil {
			p.crash()
		}
		return nil, perr("open", name, f.Err)
	}
	p.Disk.mu.Lock()
	defer p.Disk.mu.Unlock()
	p.mu.Lock()
	full := p.FDs > 0 && p.open >= p.FDs
	p.mu.Unlock()
	if full {
		return nil, perr("open", name, syscall.EMFILE)
	}
	ino := p.Disk.Files[name]
	if ino == nil {
		if flag&CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		ino = &Inode{Mode: perm}
		p.Disk.Files[name] = ino
	} else if flag&CREATE != 0 && flag&EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	acc := flag & 3
	f := &File{p: p, name: name, ino: ino, rd: acc == RDONLY || acc == RDWR, wr: acc == WRONLY || acc == RDWR, app: flag&APPEND != 0}
	if flag&TRUNC != 0 && f.wr {
		ino.Data, ino.Synced = nil, 0
	}
	p.mu.Lock()
	p.open++
	p.MaxOpen = max(p.MaxOpen, p.open)
	p.mu.Unlock()
	p.log("open %s flags %x", name, flag)
	return f, nil
}

// Std returns a standard stream.
func (p *Proc) Std(n int) *File { return &File{p: p, name: fmt.Sprintf("/dev/std%d", n), std: n + 1} }

// Name is the file's name.
func (f *File) Name() string { return f.name }

// Fd is a descriptor.
func (f *File) Fd() uintptr {
	if f == nil {
		return ^uintptr(0)
	}
	return 77
}

// Write writes.
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	p := f.p
	if f.std == 2 || f.std == 3 {
		p.alive()
		p.mu.Lock()
		defer p.mu.Unlock()
		if f.std == 2 {
			p.Out = append(p.Out, b...)
		} else {
			p.Err = append(p.Err, b...)
		}
		return len(b), nil
	}
	if f.closed {
		p.alive()
		return 0, perr("write", f.name, fs.ErrClosed)
	}
	if !f.wr {
		p.alive()
		return 0, perr("write", f.name, syscall.EBADF)
	}
	ft := p.op("write")
	n := len(b)
	var err error
	p.Disk.mu.Lock()
	if ft != nil {
		n = min(n, ft.Part)
		err = ft.Err
	}
	if d := p.Disk; d.Cap > 0 && d.Written+n > d.Cap {
		n = max(0, d.Cap-d.Written)
		if err == nil {
			err = syscall.ENOSPC
		}
		p.mu.Lock()
		p.Fired["disk_full"]++
		p.mu.Unlock()
	}
	p.Disk.Written += n
	if f.app {
		f.pos = len(f.ino.Data)
	}
	for len(f.ino.Data) < f.pos {
		f.ino.Data = append(f.ino.Data, 0)
	}
	k := copy(f.ino.Data[f.pos:], b[:n])
	f.ino.Data = append(f.ino.Data, b[k:n]...)
	f.ino.Synced = min(f.ino.Synced, f.pos)
	f.pos += n
	p.Disk.mu.Unlock()
	p.log("write %s %d of %d: %v", f.name, n, len(b), err)
	if ft != nil && ft.Err == nil {
		p.crash()
	}
	if err != nil {
		return n, perr("write", f.name, err)
	}
	return n, nil
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.pos
	f.pos = int(off)
	n, err := f.Write(b)
	f.pos = old
	return n, err
}

// Read reads, possibly less than asked for.
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	p := f.p
	if f.std != 0 {
		return 0, io.EOF
	}
	if f.closed {
		p.alive()
		return 0, perr("read", f.name, fs.ErrClosed)
	}
	if ft := p.op("read"); ft != nil {
		if ft.Err == nil {
			p.crash()
		}
		return 0, perr("read", f.name, ft.Err)
	}
	if len(b) == 0 {
		return 0, nil
	}
	p.Disk.mu.Lock()
	defer p.Disk.mu.Unlock()
	rest := len(f.ino.Data) - f.pos
	if rest <= 0 {
		return 0, io.EOF
	}
	n := min(rest, len(b))
	if bad := p.badByte(f.pos, n); bad != nil { // what follows cannot be read
		if bad.N <= f.pos {
			return 0, perr("read", f.name, bad.Err)
		}
		n = bad.N - f.pos
	}
	if p.ShortRead && n > 1 {
		switch p.Uniform(4) {
		case 1:
			n = 1 + p.Uniform(n)
		case 2:
			n = 1
		}
	}
	copy(b[:n], f.ino.Data[f.pos:])
	f.pos += n
	return n, nil
}

// Seek moves the offset.
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 1:
		off += int64(f.pos)
	case 2:
		off += int64(len(f.ino.Data))
	}
	if off < 0 {
		return 0, perr("seek", f.name, syscall.EINVAL)
	}
	f.pos = int(off)
	return off, nil
}

// Sync makes the content durable.
func (f *File) Sync() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if ft := f.p.op("sync"); ft != nil {
		if ft.Err == nil {
			f.p.crash()
		}
		return perr("sync", f.name, ft.Err)
	}
	f.ino.Synced = len(f.ino.Data)
	return nil
}

// Truncate cuts the file.
func (f *File) Truncate(n int64) error {
	f.p.alive()
	for int64(len(f.ino.Data)) < n {
		f.ino.Data = append(f.ino.Data, 0)
	}
	f.ino.Data = f.ino.Data[:n]
	f.ino.Synced = min(f.ino.Synced, int(n))
	return nil
}

// Chmod does nothing of interest.
func (f *File) Chmod(m fs.FileMode) error { f.ino.Mode = m; return nil }

// Stat describes the file.
func (f *File) Stat() (fs.FileInfo, error) { return info{f.name, f.ino}, nil }

// Close closes. A delayed write error may surface here; then the end of the data is lost.
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if f.std != 0 {
		return nil
	}
	p := f.p
	p.mu.Lock()
	d := p.Dead
	p.mu.Unlock()
	if d {
		return nil
	}
	if f.closed {
		return perr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	p.mu.Lock()
	p.open--
	p.mu.Unlock()
	var ft *Fault
	if f.wr {
		ft = p.op("close")
	}
	if ft != nil {
		if ft.Err == nil {
			p.crash()
		}
		if k := len(f.ino.Data) - f.ino.Synced; k > 0 {
			f.ino.Data = f.ino.Data[:len(f.ino.Data)-min(k, max(1, ft.Part))]
		}
		p.log("close %s: %v", f.name, ft.Err)
		return perr("close", f.name, ft.Err)
	}
	p.log("close %s", f.name)
	return nil
}

type info struct {
	n string
	i *Inode
}

func (i info) Name() string       { return i.n }
func (i info) Size() int64        { return int64(len(i.i.Data)) }
func (i info) Mode() fs.FileMode  { return i.i.Mode }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// Stat is os.Stat.
func (p *Proc) Stat(n string) (fs.FileInfo, error) {
	p.alive()
	n = clean(n)
	if f := p.Disk.Files[n]; f != nil {
		return info{n, f}, nil
	}
	return nil, perr("stat", n, syscall.ENOENT)
}

// Remove is os.Remove.
func (p *Proc) Remove(n string) error {
	if ft := p.op("remove"); ft != nil {
		if ft.Err == nil {
			p.crash()
		}
		return perr("remove", n, ft.Err)
	}
	n = clean(n)
	if p.Disk.Files[n] == nil {
		return perr("remove", n, syscall.ENOENT)
	}
	delete(p.Disk.Files, n)
	return nil
}

// Rename is os.Rename.
func (p *Proc) Rename(a, b string) error {
	if ft := p.op("rename"); ft != nil {
		if ft.Err == nil {
			p.crash()
		}
		return perr("rename", a, ft.Err)
	}
	a, b = clean(a), clean(b)
	f := p.Disk.Files[a]
	if f == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	delete(p.Disk.Files, a)
	p.Disk.Files[b] = f
	p.log("rename %s %s", a, b)
	return nil
}

// ReadFile is os.ReadFile.
func (p *Proc) ReadFile(n string) ([]byte, error) {
	f, err := p.OpenFile(n, RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile is os.WriteFile.
func (p *Proc) WriteFile(n string, b []byte, perm fs.FileMode) error {
	f, err := p.OpenFile(n, WRONLY|CREATE|TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}

// Notify is signal.Notify.
func (p *Proc) Notify(c chan<- Signal) {
	p.mu.Lock()
	p.signals = append(p.signals, c)
	p.mu.Unlock()
}

// ErrUnsupported is for what the simulated system does not have.
var ErrUnsupported = errors.New("harness: not supported by the simulated system")
