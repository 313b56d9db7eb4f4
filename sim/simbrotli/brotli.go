// Package brotli is github.com/andybalholm/brotli with the decompressed bytes counted.
package brotli

import (
	"io"

	brotli "github.com/andybalholm/brotli"

	"github.com/tdewolff/font/zzverif/simrt"
)

const (
	BestSpeed          = brotli.BestSpeed
	BestCompression    = brotli.BestCompression
	DefaultCompression = brotli.DefaultCompression
)

type Writer = brotli.Writer
type WriterOptions = brotli.WriterOptions
type Encoder = brotli.Encoder
type FastEncoder = brotli.FastEncoder

var (
	NewWriter        = brotli.NewWriter
	NewWriterLevel   = brotli.NewWriterLevel
	NewWriterOptions = brotli.NewWriterOptions
	NewWriterV2      = brotli.NewWriterV2
)

type Reader struct{ r *brotli.Reader }

func NewReader(src io.Reader) *Reader { return &Reader{brotli.NewReader(src)} }

func (r *Reader) Reset(src io.Reader) error { return r.r.Reset(src) }

func (r *Reader) Read(b []byte) (int, error) {
	n, err := r.r.Read(b)
	simrt.AddInflated(n)
	return n, err
}
