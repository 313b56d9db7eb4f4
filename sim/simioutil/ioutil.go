// Package ioutil stands in for io/ioutil on the simulated disk.
package ioutil

import (
	"io"
	"io/fs"

	os "github.com/tdewolff/font/zzverif/simos"
)

var Discard io.Writer = io.Discard

func ReadAll(r io.Reader) ([]byte, error)      { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser      { return io.NopCloser(r) }
func ReadFile(filename string) ([]byte, error) { return os.ReadFile(filename) }
func WriteFile(filename string, data []byte, perm fs.FileMode) error {
	return os.WriteFile(filename, data, perm)
}
func TempFile(dir, pattern string) (*os.File, error) { return os.CreateTemp(dir, pattern) }
func TempDir(dir, pattern string) (string, error)    { return os.MkdirTemp(dir, pattern) }
func ReadDir(dirname string) ([]fs.FileInfo, error) {
	es, err := os.ReadDir(dirname)
	if err != nil {
		return nil, err
	}
	var res []fs.FileInfo
	for _, e := range es {
		i, err := e.Info()
		if err != nil {
			return nil, err
		}
		res = append(res, i)
	}
	return res, nil
}
