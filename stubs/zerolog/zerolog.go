// Package zerolog is a stand-in for type-checking cmd/tecdsa offline.
package zerolog

// Logger does nothing.
type Logger struct{}

// Nop returns a Logger that does nothing.
func Nop() Logger { return Logger{} }
