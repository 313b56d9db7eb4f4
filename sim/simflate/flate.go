// Package flate is compress/flate with the decompressed bytes counted.
package flate

import (
	"io"

	flate "compress/flate"

	"github.com/tdewolff/font/zzverif/simrt"
)

const (
	NoCompression      = flate.NoCompression
	BestSpeed          = flate.BestSpeed
	BestCompression    = flate.BestCompression
	DefaultCompression = flate.DefaultCompression
	HuffmanOnly        = flate.HuffmanOnly
)

type CorruptInputError = flate.CorruptInputError
type InternalError = flate.InternalError
type Reader = flate.Reader
type Resetter = flate.Resetter
type Writer = flate.Writer

var (
	NewWriter     = flate.NewWriter
	NewWriterDict = flate.NewWriterDict
)

type reader struct{ io.ReadCloser }

func (r reader) Read(b []byte) (int, error) {
	n, err := r.ReadCloser.Read(b)
	simrt.AddInflated(n)
	return n, err
}

func (r reader) Reset(src io.Reader, dict []byte) error {
	return r.ReadCloser.(flate.Resetter).Reset(src, dict)
}

func NewReader(r io.Reader) io.ReadCloser { return reader{flate.NewReader(r)} }

func NewReaderDict(r io.Reader, dict []byte) io.ReadCloser {
	return reader{flate.NewReaderDict(r, dict)}
}
