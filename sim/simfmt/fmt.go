// Package fmt stands in for fmt in the command line tool: standard streams are the simulator's.
package fmt

import (
	real "fmt"
	"io"

	os "github.com/tdewolff/font/zzverif/simos"
)

type (
	State      = real.State
	Formatter  = real.Formatter
	Stringer   = real.Stringer
	GoStringer = real.GoStringer
	ScanState  = real.ScanState
	Scanner    = real.Scanner
)

func Errorf(format string, a ...any) error                      { return real.Errorf(format, a...) }
func Sprintf(format string, a ...any) string                    { return real.Sprintf(format, a...) }
func Sprint(a ...any) string                                    { return real.Sprint(a...) }
func Sprintln(a ...any) string                                  { return real.Sprintln(a...) }
func Fprintf(w io.Writer, format string, a ...any) (int, error) { return real.Fprintf(w, format, a...) }
func Fprint(w io.Writer, a ...any) (int, error)                 { return real.Fprint(w, a...) }
func Fprintln(w io.Writer, a ...any) (int, error)               { return real.Fprintln(w, a...) }
func Printf(format string, a ...any) (int, error)               { return real.Fprintf(os.Stdout, format, a...) }
func Print(a ...any) (int, error)                               { return real.Fprint(os.Stdout, a...) }
func Println(a ...any) (int, error)                             { return real.Fprintln(os.Stdout, a...) }
func Append(b []byte, a ...any) []byte                          { return real.Append(b, a...) }
func Appendf(b []byte, format string, a ...any) []byte          { return real.Appendf(b, format, a...) }
func Appendln(b []byte, a ...any) []byte                        { return real.Appendln(b, a...) }
func Sscanf(str, format string, a ...any) (int, error)          { return real.Sscanf(str, format, a...) }
func Sscan(str string, a ...any) (int, error)                   { return real.Sscan(str, a...) }
func Sscanln(str string, a ...any) (int, error)                 { return real.Sscanln(str, a...) }
func Fscanf(r io.Reader, format string, a ...any) (int, error)  { return real.Fscanf(r, format, a...) }
func Fscan(r io.Reader, a ...any) (int, error)                  { return real.Fscan(r, a...) }
func Fscanln(r io.Reader, a ...any) (int, error)                { return real.Fscanln(r, a...) }
func Scanf(format string, a ...any) (int, error)                { return real.Fscanf(os.Stdin, format, a...) }
func Scan(a ...any) (int, error)                                { return real.Fscan(os.Stdin, a...) }
func Scanln(a ...any) (int, error)                              { return real.Fscanln(os.Stdin, a...) }
func FormatString(state State, verb rune) string                { return real.FormatString(state, verb) }
