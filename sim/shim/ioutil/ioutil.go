// Package ioutil replaces io/ioutil in a simulated program.
package ioutil

import (
	"io"
	"io/fs"

	"aaa.verif/sim/simos"
)

// P is the process.
var P *simos.Proc

var (
	Discard   = io.Discard
	NopCloser = io.NopCloser
	ReadAll   = io.ReadAll
)

func ReadFile(n string) ([]byte, error)                    { return P.ReadFile(n) }
func WriteFile(n string, b []byte, perm fs.FileMode) error { return P.WriteFile(n, b, perm) }
