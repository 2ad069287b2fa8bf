// Package detrand replaces crypto/rand.Reader by a router the simulator controls.
//
// The repository captures crypto/rand.Reader in a package variable during its own
// initialisation. Go initialises packages in import-path order among those whose
// dependencies are ready; this package depends only on packages that every user of
// crypto/rand depends on as well, and its path ("aaa.verif/...") sorts first, so the
// router is in place before any package of the repository is initialised.
package detrand

import (
	"crypto/rand"
	"io"
)

var real io.Reader

// Source, when set, serves every read of randomness in the process.
var Source func(p []byte) (int, error)

type router struct{}

func (router) Read(p []byte) (int, error) {
	if f := Source; f != nil {
		return f(p)
	}
	return real.Read(p)
}

func init() {
	real = rand.Reader
	rand.Reader = router{}
}
