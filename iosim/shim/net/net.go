package net

import (
	"context"
	"net"
	"time"

	"verif.local/io/sys"
)

type conn struct{ net.Conn }

func (conn) Close() error                       { return nil }
func (conn) SetDeadline(time.Time) error        { return nil }
func (conn) SetReadDeadline(time.Time) error    { return nil }
func (conn) SetWriteDeadline(time.Time) error   { return nil }

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	if err := sys.Dial(address, timeout); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	return conn{}, nil
}

func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }

// Dialer connects to simulated ports.
type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	KeepAlive time.Duration
	LocalAddr net.Addr
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

func (d *Dialer) DialContext(_ context.Context, network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

type listener struct{ port int }

func (l *listener) Accept() (net.Conn, error) { return nil, net.ErrClosed }
func (l *listener) Close() error              { sys.Unlisten(l.port); return nil }
func (l *listener) Addr() net.Addr            { return &net.TCPAddr{Port: l.port} }

func Listen(network, address string) (net.Listener, error) {
	port, err := sys.Listen(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return &listener{port}, nil
}

func InterfaceAddrs() ([]net.Addr, error) {
	return []net.Addr{
		&net.IPNet{IP: net.IPv4(127, 0, 0, 1), Mask: net.CIDRMask(8, 32)},
		&net.IPNet{IP: net.IPv4(10, 0, 0, 2), Mask: net.CIDRMask(24, 32)},
	}, nil
}
