// Package zz_vioutil models io/ioutil on the file-system model.
package zz_vioutil

import (
	vos "github.com/xtfly/log4g/internal/zz_vos"
)

func ReadFile(name string) ([]byte, error) { return vos.ReadFile(name) }

func WriteFile(name string, data []byte, perm vos.FileMode) error {
	return vos.WriteFile(name, data, perm)
}

func TempFile(dir, pattern string) (*vos.File, error) { return vos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)     { return vos.MkdirTemp(dir, pattern) }

func ReadDir(name string) ([]vos.FileInfo, error) {
	l, err := vos.ReadDir(name)
	var r []vos.FileInfo
	for _, d := range l {
		fi, _ := d.Info()
		r = append(r, fi)
	}
	return r, err
}
