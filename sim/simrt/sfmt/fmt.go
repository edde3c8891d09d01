// Package sfmt captures what the program prints.
package sfmt

import (
	"fmt"
	"simrt"
	"simrt/sos"
)

// Print prints.
func Print(a ...any) (int, error) { simrt.SP(); return sos.Stdout.Write([]byte(fmt.Sprint(a...))) }

// Printf prints.
func Printf(f string, a ...any) (int, error) {
	simrt.SP()
	return sos.Stdout.Write([]byte(fmt.Sprintf(f, a...)))
}

// Println prints.
func Println(a ...any) (int, error) { simrt.SP(); return sos.Stdout.Write([]byte(fmt.Sprintln(a...))) }
