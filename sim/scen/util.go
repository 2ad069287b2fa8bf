package scen

import (
	"bytes"
	"io"
	"runtime/debug"
)

func newReader(b []byte) io.Reader { return bytes.NewReader(b) }

func stack() string { return string(debug.Stack()) }
