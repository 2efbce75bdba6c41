// Package zz_vfilepath models the parts of path/filepath that consult the file system.
package zz_vfilepath

import (
	"path/filepath"

	vos "github.com/xtfly/log4g/internal/zz_vos"
)

func Abs(p string) (string, error) {
	if filepath.IsAbs(p) {
		return filepath.Clean(p), nil
	}
	wd, err := vos.Getwd()
	if err != nil {
		return "", err
	}
	return filepath.Join(wd, p), nil
}

func EvalSymlinks(p string) (string, error) { return filepath.Clean(p), nil }

func Glob(pattern string) ([]string, error) {
	dir, pat := filepath.Split(pattern)
	d := dir
	if d == "" {
		d = "."
	}
	l, err := vos.ReadDir(d)
	if err != nil {
		return nil, nil
	}
	var r []string
	for _, e := range l {
		ok, err := filepath.Match(pat, e.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			r = append(r, dir+e.Name())
		}
	}
	return r, nil
}
