package engine

import (
	"testing"
	"testing/synctest"
)

// Bubble runs f with virtual time. It returns the error of f, or an error if f panics or
// leaves goroutines behind that never finish.
func Bubble(e *Env, f func() error) (err error) {
	var inner error
	defer func() {
		if inner != nil {
			if r := recover(); r != nil {
				_ = r // goroutines that were left behind are a consequence of the error
			}
			err = inner
		}
	}()
	synctest.Test(e.T, func(*testing.T) { inner = Protect(f) })
	return inner
}

// Bin is a string of arbitrary bytes that survives JSON.
type Bin string

func (b Bin) MarshalText() ([]byte, error) {
	out := make([]byte, 0, len(b)+2)
	const hex = "0123456789abcdef"
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c < 0x20 || c >= 0x7f || c == '%' || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
			out = append(out, '%', hex[c>>4], hex[c&15])
		} else {
			out = append(out, c)
		}
	}
	return out, nil
}

func (b *Bin) UnmarshalText(in []byte) error {
	out := make([]byte, 0, len(in))
	val := func(c byte) byte {
		if c >= 'a' {
			return c - 'a' + 10
		}
		return c - '0'
	}
	for i := 0; i < len(in); i++ {
		if in[i] == '%' && i+2 < len(in) {
			out = append(out, val(in[i+1])<<4|val(in[i+2]))
			i += 2
		} else {
			out = append(out, in[i])
		}
	}
	*b = Bin(out)
	return nil
}
