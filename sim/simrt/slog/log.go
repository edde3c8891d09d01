// Package slog holds the simulated parts of package log.
package slog

import (
	"fmt"
	"simrt"
	"simrt/sos"
)

func out(s string) {
	simrt.SP()
	if len(s) == 0 || s[len(s)-1] != '\n' {
		s += "\n"
	}
	sos.Stderr.Write([]byte(s))
}

func Print(a ...any)            { out(fmt.Sprint(a...)) }
func Printf(f string, a ...any) { out(fmt.Sprintf(f, a...)) }
func Println(a ...any)          { out(fmt.Sprintln(a...)) }
func Fatal(a ...any)            { out(fmt.Sprint(a...)); simrt.Exit(1) }
func Fatalf(f string, a ...any) { out(fmt.Sprintf(f, a...)); simrt.Exit(1) }
func Fatalln(a ...any)          { out(fmt.Sprintln(a...)); simrt.Exit(1) }
