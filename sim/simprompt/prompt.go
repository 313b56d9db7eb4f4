// Package prompt stands in for github.com/tdewolff/prompt: the confirmation question is answered from
// the simulated standard input by the same rules; terminal control sequences are left out.
package prompt

import (
	"strings"

	fmt "github.com/tdewolff/font/zzverif/simfmt"
)

// Asked counts the questions of the run.
var Asked []string

func YesNo(label string, deflt bool) bool {
	Asked = append(Asked, label)
	hint := "[y/N]"
	if deflt {
		hint = "[Y/n]"
	}
	fmt.Printf("%v %v: ", label, hint)
	var res string
	fmt.Scanln(&res)
	res = strings.ToLower(strings.TrimSpace(res))
	switch res {
	case "":
		return deflt
	case "y", "yes":
		return true
	}
	return false
}
