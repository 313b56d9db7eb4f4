// Package zlib is compress/zlib with the decompressed bytes counted.
package zlib

import (
	"io"

	zlib "compress/zlib"

	"github.com/tdewolff/font/zzverif/simrt"
)

const (
	NoCompression      = zlib.NoCompression
	BestSpeed          = zlib.BestSpeed
	BestCompression    = zlib.BestCompression
	DefaultCompression = zlib.DefaultCompression
	HuffmanOnly        = zlib.HuffmanOnly
)

var (
	ErrChecksum   = zlib.ErrChecksum
	ErrDictionary = zlib.ErrDictionary
	ErrHeader     = zlib.ErrHeader
)

type Resetter = zlib.Resetter
type Writer = zlib.Writer

var (
	NewWriter          = zlib.NewWriter
	NewWriterLevel     = zlib.NewWriterLevel
	NewWriterLevelDict = zlib.NewWriterLevelDict
)

type reader struct{ io.ReadCloser }

func (r reader) Read(b []byte) (int, error) {
	n, err := r.ReadCloser.Read(b)
	simrt.AddInflated(n)
	return n, err
}

func (r reader) Reset(src io.Reader, dict []byte) error {
	return r.ReadCloser.(zlib.Resetter).Reset(src, dict)
}

func NewReader(r io.Reader) (io.ReadCloser, error) { return NewReaderDict(r, nil) }

func NewReaderDict(r io.Reader, dict []byte) (io.ReadCloser, error) {
	z, err := zlib.NewReaderDict(r, dict)
	if err != nil {
		return nil, err
	}
	return reader{z}, nil
}
