package simrt

// Inflated counts the bytes that decompressors delivered since it was last reset.
var Inflated uint64

// AddInflated counts n more bytes and one scheduling point.
//
//go:norace
func AddInflated(n int) {
	if n > 0 {
		Inflated += uint64(n)
	}
	Y(-1)
}
