package zip

import (
	"archive/zip"

	"verif.local/io/sys"
)

// ReadCloser is zip.ReadCloser on a simulated file.
type ReadCloser struct {
	f *sys.File
	zip.Reader
}

func (r *ReadCloser) Close() error { return r.f.Close() }

func OpenReader(name string) (*ReadCloser, error) {
	f, err := sys.Open(name, 0, 0)
	if err != nil {
		return nil, err
	}
	fi, err := f.Stat()
	if err != nil {
		f.Close()
		return nil, err
	}
	z, err := zip.NewReader(f, fi.Size())
	if err != nil {
		f.Close()
		return nil, err
	}
	return &ReadCloser{f, *z}, nil
}
