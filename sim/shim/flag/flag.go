// Package flag replaces package flag in a simulated program: every run starts with the
// command line of its process.
package flag

import (
	real "flag"
	"io"
	"time"

	"aaa.verif/sim/simos"
)

// P is the process.
var P *simos.Proc

type (
	FlagSet       = real.FlagSet
	Flag          = real.Flag
	Value         = real.Value
	Getter        = real.Getter
	ErrorHandling = real.ErrorHandling
)

const (
	ContinueOnError = real.ContinueOnError
	ExitOnError     = real.ExitOnError
	PanicOnError    = real.PanicOnError
)

var (
	ErrHelp    = real.ErrHelp
	NewFlagSet = real.NewFlagSet

	// Usage prints nothing.
	Usage = func() {}
	// CommandLine holds the flags of the current run.
	CommandLine = fresh()
	initial     *FlagSet
)

func fresh() *FlagSet {
	f := real.NewFlagSet("prog", real.ContinueOnError)
	f.SetOutput(io.Discard)
	return f
}

// Bind starts a run.
func Bind(p *simos.Proc) {
	P = p
	if initial == nil {
		initial = CommandLine // registered by the program's package initialisation
	}
	CommandLine = fresh()
	initial.VisitAll(func(f *Flag) {
		f.Value.Set(f.DefValue)
		CommandLine.Var(f.Value, f.Name, f.Usage)
	})
}

func Parse() {
	if err := CommandLine.Parse(P.Args[1:]); err != nil {
		P.Std(2).WriteString(err.Error() + "\n")
		P.Exit(2)
	}
}
func Parsed() bool                                         { return CommandLine.Parsed() }
func Args() []string                                       { return CommandLine.Args() }
func NArg() int                                            { return CommandLine.NArg() }
func NFlag() int                                           { return CommandLine.NFlag() }
func Arg(i int) string                                     { return CommandLine.Arg(i) }
func Lookup(n string) *Flag                                { return CommandLine.Lookup(n) }
func Set(n, v string) error                                { return CommandLine.Set(n, v) }
func PrintDefaults()                                       {}
func Visit(f func(*Flag))                                  { CommandLine.Visit(f) }
func VisitAll(f func(*Flag))                               { CommandLine.VisitAll(f) }
func Var(v Value, n, u string)                             { CommandLine.Var(v, n, u) }
func Func(n, u string, f func(string) error)               { CommandLine.Func(n, u, f) }
func String(n, d, u string) *string                        { return CommandLine.String(n, d, u) }
func StringVar(p *string, n, d, u string)                  { CommandLine.StringVar(p, n, d, u) }
func Int(n string, d int, u string) *int                   { return CommandLine.Int(n, d, u) }
func IntVar(p *int, n string, d int, u string)             { CommandLine.IntVar(p, n, d, u) }
func Int64(n string, d int64, u string) *int64             { return CommandLine.Int64(n, d, u) }
func Int64Var(p *int64, n string, d int64, u string)       { CommandLine.Int64Var(p, n, d, u) }
func Uint(n string, d uint, u string) *uint                { return CommandLine.Uint(n, d, u) }
func UintVar(p *uint, n string, d uint, u string)          { CommandLine.UintVar(p, n, d, u) }
func Uint64(n string, d uint64, u string) *uint64          { return CommandLine.Uint64(n, d, u) }
func Uint64Var(p *uint64, n string, d uint64, u string)    { CommandLine.Uint64Var(p, n, d, u) }
func Bool(n string, d bool, u string) *bool                { return CommandLine.Bool(n, d, u) }
func BoolVar(p *bool, n string, d bool, u string)          { CommandLine.BoolVar(p, n, d, u) }
func Float64(n string, d float64, u string) *float64       { return CommandLine.Float64(n, d, u) }
func Float64Var(p *float64, n string, d float64, u string) { CommandLine.Float64Var(p, n, d, u) }
func Duration(n string, d time.Duration, u string) *time.Duration {
	return CommandLine.Duration(n, d, u)
}
func DurationVar(p *time.Duration, n string, d time.Duration, u string) {
	CommandLine.DurationVar(p, n, d, u)
}
