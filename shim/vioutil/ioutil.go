// Package vioutil replaces io/ioutil.
package vioutil

import (
	"io"
	"io/fs"
	"vshim/vos"
)

var Discard io.Writer = io.Discard

func NopCloser(r io.Reader) io.ReadCloser     { return io.NopCloser(r) }
func ReadAll(r io.Reader) ([]byte, error)     { return io.ReadAll(r) }
func ReadFile(n string) ([]byte, error)       { return vos.ReadFile(n) }
func TempDir(d, p string) (string, error)     { return vos.MkdirTemp(d, p) }
func TempFile(d, p string) (*vos.File, error) { return vos.CreateTemp(d, p) }
func WriteFile(n string, b []byte, m fs.FileMode) error {
	return vos.WriteFile(n, b, m)
}
func ReadDir(n string) ([]fs.FileInfo, error) {
	es, err := vos.ReadDir(n)
	var l []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		l = append(l, i)
	}
	return l, err
}
