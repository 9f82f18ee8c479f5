// Package mmap is golang.org/x/exp/mmap over the in-memory file system.
package mmap

import (
	"errors"
	"io"

	"verif.local/v/shim/os"
)

type ReaderAt struct {
	data   []byte
	closed bool
}

func Open(name string) (*ReaderAt, error) {
	b, err := os.ReadFile(name)
	if err != nil {
		return nil, err
	}
	return &ReaderAt{data: b}, nil
}

func (r *ReaderAt) Close() error  { r.closed = true; r.data = nil; return nil }
func (r *ReaderAt) Len() int      { return len(r.data) }
func (r *ReaderAt) At(i int) byte { return r.data[i] }

func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.closed {
		return 0, errors.New("mmap: closed")
	}
	if off < 0 || int64(len(r.data)) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
