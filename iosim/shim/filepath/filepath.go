package filepath

import (
	"io/fs"
	"path/filepath"
	"sort"
	"syscall"

	"verif.local/io/sys"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	return filepath.Join(sys.Cur().Cwd, p), nil
}

func EvalSymlinks(p string) (string, error) {
	if p == "" {
		return "", nil
	}
	return sys.EvalSymlinks(p)
}

func WalkDir(root string, fn fs.WalkDirFunc) error {
	info, err := sys.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walkDir(root, fs.FileInfoToDirEntry(info), fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walkDir(path string, d fs.DirEntry, fn fs.WalkDirFunc) error {
	if err := fn(path, d, nil); err != nil || !d.IsDir() {
		if err == filepath.SkipDir && d.IsDir() {
			err = nil
		}
		return err
	}
	dirs, err := sys.ReadDir(path)
	if err != nil {
		err = fn(path, d, err)
		if err != nil {
			if err == filepath.SkipDir && d.IsDir() {
				err = nil
			}
			return err
		}
	}
	for _, d1 := range dirs {
		path1 := filepath.Join(path, d1.Name())
		if err := walkDir(path1, d1, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}

func Walk(root string, fn filepath.WalkFunc) error {
	info, err := sys.Lstat(root)
	if err != nil {
		err = fn(root, nil, err)
	} else {
		err = walk(root, info, fn)
	}
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, info fs.FileInfo, fn filepath.WalkFunc) error {
	if !info.IsDir() {
		return fn(path, info, nil)
	}
	ds, err := sys.ReadDir(path)
	err1 := fn(path, info, err)
	if err != nil || err1 != nil {
		return err1
	}
	for _, d := range ds {
		filename := filepath.Join(path, d.Name())
		fi, err := sys.Lstat(filename)
		if err != nil {
			if err := fn(filename, fi, err); err != nil && err != filepath.SkipDir {
				return err
			}
		} else {
			err = walk(filename, fi, fn)
			if err != nil {
				if !fi.IsDir() || err != filepath.SkipDir {
					return err
				}
			}
		}
	}
	return nil
}

func Glob(pattern string) ([]string, error) {
	dir, file := filepath.Split(pattern)
	if dir == "" {
		dir = "."
	} else if dir != "/" {
		dir = dir[:len(dir)-1]
	}
	dirs := []string{dir}
	for i := 0; i < len(dir); i++ {
		if dir[i] == '*' || dir[i] == '?' || dir[i] == '[' {
			var err error
			dirs, err = Glob(dir)
			if err != nil {
				return nil, err
			}
			break
		}
	}
	var out []string
	for _, d := range dirs {
		ds, _ := sys.ReadDir(d)
		for _, e := range ds {
			ok, err := filepath.Match(file, e.Name())
			if err != nil {
				return nil, err
			}
			if ok {
				out = append(out, filepath.Join(d, e.Name()))
			}
		}
	}
	sort.Strings(out)
	return out, nil
}

var _ = syscall.ENOENT
