// Package mmap is a stand-in of golang.org/x/exp/mmap, which is used by the file storage only.
package mmap

import (
	"errors"
	"io"
	"os"
)

type ReaderAt struct{ data []byte }

func (r *ReaderAt) Close() error  { return nil }
func (r *ReaderAt) Len() int      { return len(r.data) }
func (r *ReaderAt) At(i int) byte { return r.data[i] }
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || int64(len(r.data)) < off {
		return 0, errors.New("mmap: invalid ReadAt offset")
	}
	n := copy(p, r.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func Open(filename string) (*ReaderAt, error) {
	d, err := os.ReadFile(filename)
	if err != nil {
		return nil, err
	}
	return &ReaderAt{d}, nil
}
