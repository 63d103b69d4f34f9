// Added to package net through `go build -overlay` by the verification
// framework in /verif: an in-memory network can stand in for the kernel's.

package net

import (
	"context"
	"time"
)

// SimNetwork is the simulated network.
type SimNetwork interface {
	Dial(ctx context.Context, network, address string) (Conn, error)
	Listen(network, address string) (Listener, error)
	ListenUDP(network string, laddr *UDPAddr) (SimPacketConn, error)
	LookupHost(host string) ([]string, error)
}

// SimPacketConn is a simulated UDP socket.
type SimPacketConn interface {
	ReadFrom(b []byte) (int, *UDPAddr, error)
	Close() error
	LocalAddr() *UDPAddr
	SetReadDeadline(t time.Time) error
	SetReadBuffer(bytes int) error
}

// SimNet replaces the kernel's network when it is set.
var SimNet SimNetwork

func simListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	s, err := SimNet.ListenUDP(network, laddr)
	if err != nil {
		return nil, &OpError{Op: "listen", Net: network, Source: nil, Addr: laddr.opAddr(), Err: err}
	}
	fd := &netFD{sim: s, net: network, laddr: s.LocalAddr()}
	return newUDPConn(fd), nil
}
