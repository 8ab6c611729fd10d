package gen

import (
	"errors"
	"io"

	"pgregory.net/rapid"
)

// Chunks describes how a reader hands out its data.
type Chunks struct {
	// sizes of the reads, used again and again. Everything at once if empty.
	Sizes []int `json:",omitempty"`
	// the end of file is reported with the last bytes and not by a read of its own
	EOFWithData bool `json:",omitempty"`
	// every n-th read returns nothing
	Empty int `json:",omitempty"`
}

// DrawChunks draws a way to split the input into reads.
func DrawChunks(rt *rapid.T) Chunks {
	var c Chunks
	switch rapid.SampledFrom([]int{0, 1, 2, 2, 3}).Draw(rt, "chunks") {
	case 1:
		c.Sizes = []int{1}
	case 2:
		c.Sizes = rapid.SliceOfN(rapid.IntRange(1, 40), 1, 8).Draw(rt, "chunkSizes")
	case 3:
		c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 7, 100, 511, 512, 1000, 4096, 8191, 8192, 8193, 20000}), 1, 4).Draw(rt, "chunkSizes")
	}
	c.EOFWithData = rapid.Bool().Draw(rt, "eofWithData")
	if rapid.IntRange(0, 7).Draw(rt, "emptyReads") == 7 {
		c.Empty = rapid.IntRange(2, 5).Draw(rt, "empty")
	}
	return c
}

// ErrBroken is the error of readers that fail.
var ErrBroken = errors.New("connection broke")

// Reader is a reader that follows Chunks and counts what is done with it.
type Reader struct {
	Data   []byte
	Chunks Chunks
	// position at which Fail is reported, if that is set
	FailAt int
	Fail   error

	pos       int
	reads     int
	AfterEnd  int // reads after the end (or the error) was reported
	ended     error
	LimitHits bool
}

// NewReader makes a reader for the data.
func NewReader(data []byte, c Chunks) *Reader { return &Reader{Data: data, Chunks: c} }

// TooManyReads is what a Reader panics with if it is read on and on after its end.
var TooManyReads = errors.New("the reader was read again and again after its end")

func (r *Reader) Read(p []byte) (int, error) {
	if r.ended != nil {
		r.AfterEnd++
		if r.AfterEnd > 10000 {
			panic(TooManyReads)
		}
		return 0, r.ended
	}
	r.reads++
	if len(p) == 0 {
		r.AfterEnd++
		if r.AfterEnd > 10000 {
			panic(errors.New("the reader was asked for nothing again and again"))
		}
		return 0, nil
	}
	if r.Chunks.Empty > 0 && r.reads%r.Chunks.Empty == 0 {
		return 0, nil
	}
	end := len(r.Data)
	if r.Fail != nil && r.FailAt < end {
		end = r.FailAt
	}
	n := end - r.pos
	if s := r.Chunks.Sizes; len(s) > 0 {
		if size := s[r.reads%len(s)]; n > size {
			n = size
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.Data[r.pos:r.pos+n])
	r.pos += n
	if r.pos == end && (n == 0 || r.Chunks.EOFWithData) {
		r.ended = io.EOF
		if r.Fail != nil {
			r.ended = r.Fail
		}
		return n, r.ended
	}
	return n, nil
}
