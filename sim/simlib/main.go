// Command simlib runs the simulations of the font package.
package main

import (
	"github.com/tdewolff/font/zzverif/harness"
	"github.com/tdewolff/font/zzverif/props"
)

func main() { harness.Main(props.All, props.Infos) }
