// Package tcp is a stand-in for gitlab.com/alephledger/core-go/pkg/network/tcp, which is not
// available offline. The simulator provides the network.
package tcp

import (
	"errors"

	"github.com/rs/zerolog"
	"gitlab.com/alephledger/core-go/pkg/network"
)

// Hook is the simulated network; without it there is none.
var Hook func(localAddress string, remoteAddresses []string) (network.Server, error)

// NewServer binds localAddress; Dial(pid) of the result connects to remoteAddresses[pid].
func NewServer(localAddress string, remoteAddresses []string, log zerolog.Logger) (network.Server, error) {
	if Hook != nil {
		return Hook(localAddress, remoteAddresses)
	}
	return nil, errors.New("stub: no tcp here")
}
