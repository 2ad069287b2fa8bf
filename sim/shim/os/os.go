// Package os replaces package os in a simulated program.
package os

import (
	"io/fs"
	real "os"

	"aaa.verif/sim/simos"
)

// P is the process this copy of the program runs as.
var P *simos.Proc

// Args, Stdin, Stdout and Stderr are the program's.
var (
	Args                  []string
	Stdin, Stdout, Stderr *File
)

// Bind attaches the program to a process.
func Bind(p *simos.Proc) {
	P = p
	Args = p.Args
	Stdin, Stdout, Stderr = p.Std(0), p.Std(1), p.Std(2)
}

type (
	File         = simos.File
	FileMode     = fs.FileMode
	FileInfo     = fs.FileInfo
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	Signal       = simos.Signal
	SyscallError = real.SyscallError
	LinkError    = real.LinkError
)

const (
	O_RDONLY = simos.RDONLY
	O_WRONLY = simos.WRONLY
	O_RDWR   = simos.RDWR
	O_APPEND = simos.APPEND
	O_CREATE = simos.CREATE
	O_EXCL   = simos.EXCL
	O_SYNC   = real.O_SYNC
	O_TRUNC  = simos.TRUNC

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2

	ModePerm          = fs.ModePerm
	DevNull           = real.DevNull
	PathSeparator     = real.PathSeparator
	PathListSeparator = real.PathListSeparator
)

var (
	ErrInvalid          = fs.ErrInvalid
	ErrPermission       = fs.ErrPermission
	ErrExist            = fs.ErrExist
	ErrNotExist         = fs.ErrNotExist
	ErrClosed           = fs.ErrClosed
	ErrDeadlineExceeded = real.ErrDeadlineExceeded
	Interrupt           = real.Interrupt
	Kill                = real.Kill

	IsExist      = real.IsExist
	IsNotExist   = real.IsNotExist
	IsPermission = real.IsPermission
	IsTimeout    = real.IsTimeout
	Expand       = real.Expand
)

func Create(n string) (*File, error) { return P.OpenFile(n, O_RDWR|O_CREATE|O_TRUNC, 0o666) }
func Open(n string) (*File, error)   { return P.OpenFile(n, O_RDONLY, 0) }
func OpenFile(n string, flag int, perm FileMode) (*File, error) {
	return P.OpenFile(n, flag, perm)
}
func ReadFile(n string) ([]byte, error)                 { return P.ReadFile(n) }
func WriteFile(n string, b []byte, perm FileMode) error { return P.WriteFile(n, b, perm) }
func Stat(n string) (FileInfo, error)                   { return P.Stat(n) }
func Lstat(n string) (FileInfo, error)                  { return P.Stat(n) }
func Remove(n string) error                             { return P.Remove(n) }
func Rename(a, b string) error                          { return P.Rename(a, b) }
func Exit(code int)                                     { P.Exit(code) }
func Chmod(n string, m FileMode) error                  { return nil }
func MkdirAll(n string, m FileMode) error               { return nil }
func Mkdir(n string, m FileMode) error                  { return nil }
func Getenv(k string) string                            { return "" }
func LookupEnv(k string) (string, bool)                 { return "", false }
func Environ() []string                                 { return nil }
func Getpid() int                                       { return 1000 }
func Hostname() (string, error)                         { return "sim", nil }
func Getwd() (string, error)                            { return "/", nil }
func CreateTemp(dir, pat string) (*File, error)         { return Create(dir + "tmp." + pat) }
func TempDir() string                                   { return "" }
func NewSyscallError(s string, err error) error         { return real.NewSyscallError(s, err) }
func Truncate(n string, size int64) error {
	f, err := P.OpenFile(n, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}
