// Package network is a stand-in for gitlab.com/alephledger/core-go/pkg/network,
// which is not available offline. It declares the interfaces the repository uses;
// the simulator provides the implementation.
package network

// Connection is a buffered, ordered byte stream to one process (TCP-like: Read may
// return fewer bytes than asked for, Write may buffer until Flush).
type Connection interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Flush() error
	Close() error
}

// Server establishes connections.
type Server interface {
	Dial(pid uint16) (Connection, error)
	Listen() (Connection, error)
	Stop()
}
