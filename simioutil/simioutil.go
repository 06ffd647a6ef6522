// Package simioutil is io/ioutil on the simulated system.
package simioutil

import (
	"io/fs"

	"verif/simos"
)

func ReadFile(name string) ([]byte, error) { return simos.ReadFile(name) }
func WriteFile(name string, b []byte, p fs.FileMode) error {
	return simos.WriteFile(name, b, p)
}

func TempFile(dir, pattern string) (*simos.File, error) { return simos.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)       { return simos.MkdirTemp(dir, pattern) }
func ReadDir(name string) ([]fs.FileInfo, error) {
	var l []fs.FileInfo
	es, err := simos.ReadDir(name)
	for _, e := range es {
		i, _ := e.Info()
		l = append(l, i)
	}
	return l, err
}
