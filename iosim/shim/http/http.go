package http

import (
	"net"
	"net/http"

	"verif.local/io/sys"
)

// ListenAndServe binds a simulated port and serves until it fails or the
// process ends.
func ListenAndServe(addr string, h Handler) error {
	sys.Handler = h
	_, err := sys.Serve(addr)
	if err == nil {
		return http.ErrServerClosed
	}
	return &net.OpError{Op: "listen", Net: "tcp", Err: err}
}

func ListenAndServeTLS(addr, certFile, keyFile string, h Handler) error {
	return ListenAndServe(addr, h)
}
