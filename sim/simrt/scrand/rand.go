// Package scrand is the simulated crypto/rand.
package scrand

import (
	"io"
	"simrt"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.Rand64() >> 56)
	}
	return len(p), nil
}

// Reader is the random stream.
var Reader io.Reader = rd{}

// Read fills p.
func Read(p []byte) (int, error) { return Reader.Read(p) }
