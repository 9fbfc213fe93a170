package ioutil

import (
	"io/fs"

	"verif.local/io/os"
	"verif.local/io/sys"
)

func ReadFile(name string) ([]byte, error)                          { return sys.ReadFile(name) }
func WriteFile(name string, data []byte, perm fs.FileMode) error    { return sys.WriteFile(name, data, perm) }
func TempFile(dir, pattern string) (*os.File, error)                { return sys.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)                   { return sys.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	ds, err := sys.ReadDir(name)
	if err != nil {
		return nil, err
	}
	var out []fs.FileInfo
	for _, d := range ds {
		fi, err := d.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	return out, nil
}
