// Package fmt replaces fmt in a simulated program: the standard streams are the process's.
package fmt

import (
	real "fmt"

	"aaa.verif/sim/simos"
)

// P is the process.
var P *simos.Proc

type (
	Formatter  = real.Formatter
	GoStringer = real.GoStringer
	ScanState  = real.ScanState
	Scanner    = real.Scanner
	State      = real.State
	Stringer   = real.Stringer
)

var (
	Errorf       = real.Errorf
	Fprint       = real.Fprint
	Fprintf      = real.Fprintf
	Fprintln     = real.Fprintln
	Fscan        = real.Fscan
	Fscanf       = real.Fscanf
	Fscanln      = real.Fscanln
	Sprint       = real.Sprint
	Sprintf      = real.Sprintf
	Sprintln     = real.Sprintln
	Sscan        = real.Sscan
	Sscanf       = real.Sscanf
	Sscanln      = real.Sscanln
	Append       = real.Append
	Appendf      = real.Appendf
	Appendln     = real.Appendln
	FormatString = real.FormatString
)

func Print(a ...interface{}) (int, error)            { return real.Fprint(P.Std(1), a...) }
func Printf(f string, a ...interface{}) (int, error) { return real.Fprintf(P.Std(1), f, a...) }
func Println(a ...interface{}) (int, error)          { return real.Fprintln(P.Std(1), a...) }
func Scan(a ...interface{}) (int, error)             { return real.Fscan(P.Std(0), a...) }
func Scanf(f string, a ...interface{}) (int, error)  { return real.Fscanf(P.Std(0), f, a...) }
func Scanln(a ...interface{}) (int, error)           { return real.Fscanln(P.Std(0), a...) }
