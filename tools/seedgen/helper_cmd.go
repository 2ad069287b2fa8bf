package @NAME@

import (
	"errors"
	"io/ioutil"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"testing"
	"time"

	"gitlab.com/alephledger/core-go/pkg/network"
	"gitlab.com/alephledger/core-go/pkg/network/tcp"
)

// TestMain lets the test binary act as the program itself.
func TestMain(m *testing.M) {
	if os.Getenv("DEMO_PROGRAM") == "1" {
		tcp.Hook = loopback
		main()
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// program starts the program in a directory; its standard error goes to the file stderr there.
func program(t *testing.T, dir string, args ...string) *exec.Cmd {
	t.Helper()
	c := exec.Command(os.Args[0], args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "DEMO_PROGRAM=1")
	f, err := os.Create(filepath.Join(dir, "stderr"))
	if err != nil {
		t.Fatal(err)
	}
	c.Stderr = f
	c.Stdout = f
	if err := c.Start(); err != nil {
		t.Fatal(err)
	}
	f.Close()
	return c
}

// wait tells whether the program ended by itself and well.
func wait(c *exec.Cmd, limit time.Duration) (ended bool, err error) {
	d := make(chan error, 1)
	go func() { d <- c.Wait() }()
	select {
	case err := <-d:
		return true, err
	case <-time.After(limit):
		c.Process.Kill()
		<-d
		return false, nil
	}
}

func content(t *testing.T, path ...string) string {
	t.Helper()
	b, err := ioutil.ReadFile(filepath.Join(path...))
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

type tcpConn struct{ net.Conn }

func (tcpConn) Flush() error { return nil }

type tcpServer struct {
	l     *net.TCPListener
	addrs []string
}

func loopback(local string, addrs []string) (network.Server, error) {
	a, err := net.ResolveTCPAddr("tcp", local)
	if err != nil {
		return nil, err
	}
	l, err := net.ListenTCP("tcp", a)
	if err != nil {
		return nil, err
	}
	return &tcpServer{l, addrs}, nil
}

func (s *tcpServer) Dial(pid uint16) (network.Connection, error) {
	if int(pid) >= len(s.addrs) {
		return nil, errors.New("no such party")
	}
	c, err := net.DialTimeout("tcp", s.addrs[pid], 100*time.Millisecond)
	if err != nil {
		time.Sleep(10 * time.Millisecond)
		return nil, err
	}
	return tcpConn{c}, nil
}

func (s *tcpServer) Listen() (network.Connection, error) {
	s.l.SetDeadline(time.Now().Add(100 * time.Millisecond))
	c, err := s.l.Accept()
	if err != nil {
		return nil, err
	}
	return tcpConn{c}, nil
}

func (s *tcpServer) Stop() { s.l.Close() }

// ports returns free addresses of the loopback network.
func ports(t *testing.T, n int) []string {
	t.Helper()
	var out []string
	var ls []net.Listener
	for i := 0; i < n; i++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			t.Fatal(err)
		}
		ls = append(ls, l)
		out = append(out, l.Addr().String())
	}
	for _, l := range ls {
		l.Close()
	}
	return out
}
