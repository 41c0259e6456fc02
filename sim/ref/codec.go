// Package ref is a small, independent implementation of RFC 9420 used as the
// executable reference model and as the peer population of the simulator. It
// shares no code with the library under test: it has its own codec, its own
// HPKE (crypto/hpke) and its own tree, key schedule and framing.
package ref

import (
	"errors"
	"fmt"
)

var errShort = errors.New("ref: short input")

// W is a byte writer.
type W struct{ B []byte }

func (w *W) U8(v uint8)   { w.B = append(w.B, v) }
func (w *W) U16(v uint16) { w.B = append(w.B, byte(v>>8), byte(v)) }
func (w *W) U32(v uint32) { w.B = append(w.B, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (w *W) U64(v uint64) { w.U32(uint32(v >> 32)); w.U32(uint32(v)) }
func (w *W) Raw(b []byte) { w.B = append(w.B, b...) }

// Sloppy tells Sloppily which length, vector or presence byte to encode in a
// way the protocol forbids, and how.
type Sloppy struct {
	At   int
	Kind int
	seen int
}

var sloppy *Sloppy

// Sloppily runs an encoder with one sloppy encoding and reports how many
// places there were to choose from. If At is not one of them the output is
// as usual.
func Sloppily(s Sloppy, f func() []byte) ([]byte, int) {
	sloppy = &s
	defer func() { sloppy = nil }()
	return f(), s.seen
}

func (s *Sloppy) here() bool {
	if s == nil {
		return false
	}
	s.seen++
	return s.seen-1 == s.At
}

func (w *W) sloppyLen(n int) {
	switch kind := sloppy.Kind % 3; {
	case kind == 0 && n < 1<<6:
		w.U16(uint16(n) | 0x4000)
	case kind <= 1 && n < 1<<14:
		w.U32(uint32(n) | 0x80000000)
	default:
		w.U64(uint64(n) | 0xc000000000000000)
	}
}

// VarInt writes an RFC 9000 style length as profiled by RFC 9420.
func (w *W) VarInt(n int) {
	if sloppy.here() {
		w.sloppyLen(n)
		return
	}
	switch {
	case n < 1<<6:
		w.U8(uint8(n))
	case n < 1<<14:
		w.U16(uint16(n) | 0x4000)
	case n < 1<<30:
		w.U32(uint32(n) | 0x80000000)
	default:
		panic("ref: length too large")
	}
}

// Vec writes opaque<V>.
func (w *W) Vec(b []byte) { w.VarInt(len(b)); w.Raw(b) }

// Sub writes a <V> vector whose body is written by f.
func (w *W) Sub(f func(w *W)) {
	var c W
	f(&c)
	if sloppy.here() {
		// the last element is not complete
		switch sloppy.Kind % 3 {
		case 0:
			c.U8(0)
		case 1:
			c.U8(1)
		default:
			c.B = c.B[:max(0, len(c.B)-1)]
		}
	}
	w.Vec(c.B)
}

func (w *W) Bool(b bool) {
	if sloppy.here() {
		// neither absent nor present
		w.U8([]uint8{2, 0x80, 0xff}[sloppy.Kind%3])
		return
	}
	if b {
		w.U8(1)
	} else {
		w.U8(0)
	}
}

// R is a strict byte reader. The first failure sticks.
type R struct {
	B   []byte
	Err error
}

func (r *R) fail(err error) {
	if r.Err == nil {
		r.Err = err
	}
	r.B = nil
}

func (r *R) take(n int) []byte {
	if r.Err != nil || n < 0 || len(r.B) < n {
		r.fail(errShort)
		return nil
	}
	b := r.B[:n]
	r.B = r.B[n:]
	return b
}

func (r *R) U8() uint8 {
	b := r.take(1)
	if b == nil {
		return 0
	}
	return b[0]
}

func (r *R) U16() uint16 {
	b := r.take(2)
	if b == nil {
		return 0
	}
	return uint16(b[0])<<8 | uint16(b[1])
}

func (r *R) U32() uint32 { return uint32(r.U16())<<16 | uint32(r.U16()) }
func (r *R) U64() uint64 { return uint64(r.U32())<<32 | uint64(r.U32()) }

func (r *R) VarInt() int {
	b := r.U8()
	if r.Err != nil {
		return 0
	}
	switch b >> 6 {
	case 0:
		return int(b & 0x3f)
	case 1:
		v := int(b&0x3f)<<8 | int(r.U8())
		if r.Err == nil && v < 1<<6 {
			r.fail(errors.New("ref: non-minimal varint"))
		}
		return v
	case 2:
		v := int(b&0x3f)<<24 | int(r.U8())<<16
		v |= int(r.U16())
		if r.Err == nil && v < 1<<14 {
			r.fail(errors.New("ref: non-minimal varint"))
		}
		return v
	}
	r.fail(errors.New("ref: bad varint"))
	return 0
}

// Vec reads opaque<V>, copying it.
func (r *R) Vec() []byte {
	n := r.VarInt()
	b := r.take(n)
	if b == nil {
		if r.Err == nil {
			return []byte{}
		}
		return nil
	}
	return append([]byte{}, b...)
}

// Sub reads a <V> vector and calls f until it is exhausted.
func (r *R) Sub(f func(r *R)) {
	n := r.VarInt()
	if r.Err != nil {
		return
	}
	var body []byte
	if n > 0 {
		body = r.take(n)
		if body == nil {
			return
		}
	}
	s := &R{B: body}
	for len(s.B) > 0 && s.Err == nil {
		f(s)
	}
	if s.Err != nil {
		r.fail(s.Err)
	}
}

func (r *R) Bool() bool {
	switch v := r.U8(); v {
	case 0:
		return false
	case 1:
		return true
	default:
		r.fail(fmt.Errorf("ref: bad optional %d", v))
		return false
	}
}

// Done reports the sticky error, or an error if bytes are left.
func (r *R) Done() error {
	if r.Err != nil {
		return r.Err
	}
	if len(r.B) != 0 {
		return fmt.Errorf("ref: %d excess bytes", len(r.B))
	}
	return nil
}
