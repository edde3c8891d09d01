// Package sioutil holds the simulated parts of io/ioutil.
package sioutil

import (
	"io/fs"
	"simrt/sos"
)

func ReadFile(n string) ([]byte, error)                 { return sos.ReadFile(n) }
func WriteFile(n string, b []byte, p fs.FileMode) error { return sos.WriteFile(n, b, p) }
func TempFile(d, p string) (*sos.File, error)           { return sos.CreateTemp(d, p) }
func TempDir(d, p string) (string, error)               { return sos.MkdirTemp(d, p) }
func ReadDir(n string) ([]fs.FileInfo, error) {
	es, err := sos.ReadDir(n)
	var r []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}
