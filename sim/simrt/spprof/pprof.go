// Package spprof replaces runtime/pprof: profiling does nothing.
package spprof

import "io"

// Profile is a dummy.
type Profile struct{}

func StartCPUProfile(w io.Writer) error           { return nil }
func StopCPUProfile()                             {}
func WriteHeapProfile(w io.Writer) error          { return nil }
func Lookup(name string) *Profile                 { return &Profile{} }
func (*Profile) WriteTo(w io.Writer, d int) error { return nil }
