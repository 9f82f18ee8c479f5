// Package rand is crypto/rand with a deterministic source.
package rand

import (
	real "crypto/rand"
	"io"
	"math/big"
	mrand "math/rand"

	"verif.local/v/mc"
)

var g = mrand.New(mrand.NewSource(7))

func init() { mc.OnReset(func() { g = mrand.New(mrand.NewSource(7)) }) }

type reader struct{}

func (reader) Read(p []byte) (int, error) { return g.Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return g.Read(p) }

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return real.Int(r, max) }

func Text() string { return real.Text() }
