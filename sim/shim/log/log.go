// Package log replaces log in a simulated program: it writes to the process's standard
// error and ends the process, not the simulator.
package log

import (
	"fmt"
	"io"
	real "log"

	"aaa.verif/sim/simos"
)

// P is the process.
var P *simos.Proc

var std *Logger

// Bind attaches the package to a process.
func Bind(p *simos.Proc) {
	P = p
	std = New(p.Std(2), "", LstdFlags)
}

const (
	Ldate         = real.Ldate
	Ltime         = real.Ltime
	Lmicroseconds = real.Lmicroseconds
	Llongfile     = real.Llongfile
	Lshortfile    = real.Lshortfile
	LUTC          = real.LUTC
	Lmsgprefix    = real.Lmsgprefix
	LstdFlags     = real.LstdFlags
)

// Logger is log.Logger.
type Logger struct{ *real.Logger }

func New(w io.Writer, prefix string, flag int) *Logger { return &Logger{real.New(w, prefix, flag)} }

func (l *Logger) exit(s string) {
	l.Output(3, s)
	P.Exit(1)
}

func (l *Logger) Fatal(a ...interface{})            { l.exit(fmt.Sprint(a...)) }
func (l *Logger) Fatalf(f string, a ...interface{}) { l.exit(fmt.Sprintf(f, a...)) }
func (l *Logger) Fatalln(a ...interface{})          { l.exit(fmt.Sprintln(a...)) }

func Default() *Logger                  { return std }
func Print(a ...interface{})            { std.Print(a...) }
func Printf(f string, a ...interface{}) { std.Printf(f, a...) }
func Println(a ...interface{})          { std.Println(a...) }
func Fatal(a ...interface{})            { std.Fatal(a...) }
func Fatalf(f string, a ...interface{}) { std.Fatalf(f, a...) }
func Fatalln(a ...interface{})          { std.Fatalln(a...) }
func Panic(a ...interface{})            { std.Panic(a...) }
func Panicf(f string, a ...interface{}) { std.Panicf(f, a...) }
func Panicln(a ...interface{})          { std.Panicln(a...) }
func Output(depth int, s string) error  { return std.Output(depth+1, s) }
func SetOutput(w io.Writer)             { std.SetOutput(w) }
func SetFlags(flag int)                 { std.SetFlags(flag) }
func SetPrefix(prefix string)           { std.SetPrefix(prefix) }
func Flags() int                        { return std.Flags() }
func Prefix() string                    { return std.Prefix() }
func Writer() io.Writer                 { return std.Writer() }
