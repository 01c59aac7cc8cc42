package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strings"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/zzverif/h"
)

type op struct {
	k int
	n uint64
	b []byte
}

func (o op) String() string { return fmt.Sprintf("%d(%d,%x)", o.k, o.n, o.b) }

func le(n uint64, w int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], n)
	return append([]byte{}, b[:w]...)
}

func varint(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n < 1<<16:
		return append([]byte{0xfd}, le(n, 2)...)
	case n < 1<<32:
		return append([]byte{0xfe}, le(n, 4)...)
	}
	return append([]byte{0xff}, le(n, 8)...)
}

func (o op) enc() []byte {
	switch o.k {
	case 0:
		return le(o.n, 1)
	case 1:
		return le(o.n, 2)
	case 2:
		return le(o.n, 4)
	case 3:
		return le(o.n, 8)
	case 4:
		return varint(o.n)
	case 5:
		return o.b
	}
	return append(varint(uint64(len(o.b))), o.b...)
}

func (o op) write(w *xbase.Buffer) {
	switch o.k {
	case 0:
		w.WriteU8(uint8(o.n))
	case 1:
		w.WriteU16(uint32(o.n))
	case 2:
		w.WriteU32(uint32(o.n))
	case 3:
		w.WriteU64(o.n)
	case 4:
		w.WriteVarInt(o.n)
	case 5:
		w.WriteBytes(o.b)
	case 6:
		w.WriteVarBytes(o.b)
	case 7:
		w.WriteVarString(string(o.b))
	}
}

// read reads one value of the op's type; it returns the value written out and an error.
func (o op) read(r *xbase.Buffer) (interface{}, error) {
	switch o.k {
	case 0:
		v, err := r.ReadU8()
		return uint64(v), err
	case 1:
		v, err := r.ReadU16()
		return uint64(v), err
	case 2:
		v, err := r.ReadU32()
		return uint64(v), err
	case 3:
		return r.ReadU64()
	case 4:
		return r.ReadVarInt()
	case 5:
		v, err := r.ReadBytes(len(o.b))
		return v, err
	case 6:
		return r.ReadVarBytes()
	}
	v, err := r.ReadVarString()
	return []byte(v), err
}

func same(o op, v interface{}) bool {
	if o.k <= 4 {
		m := o.n
		if o.k < 3 {
			m &= 1<<(8<<uint(o.k)) - 1
		}
		return v.(uint64) == m
	}
	return bytes.Equal(v.([]byte), o.b)
}

// expected outcome of reading op k (l for ReadBytes) at the front of rest
func oracle(k int, l int, rest []byte) (val interface{}, used int, ok bool) {
	fixed := func(w int) (interface{}, int, bool) {
		if len(rest) < w {
			return nil, 0, false
		}
		var b [8]byte
		copy(b[:], rest[:w])
		return binary.LittleEndian.Uint64(b[:]), w, true
	}
	vi := func() (uint64, int, bool) {
		if len(rest) == 0 {
			return 0, 0, false
		}
		w := map[byte]int{0xfd: 2, 0xfe: 4, 0xff: 8}[rest[0]]
		if w == 0 {
			return uint64(rest[0]), 1, true
		}
		if len(rest) < 1+w {
			return 0, 0, false
		}
		var b [8]byte
		copy(b[:], rest[1:1+w])
		return binary.LittleEndian.Uint64(b[:]), 1 + w, true
	}
	switch k {
	case 0, 1, 2, 3:
		return fixed(1 << uint(k))
	case 4:
		n, u, ok := vi()
		return n, u, ok
	case 5:
		if l < 0 || l > len(rest) {
			return nil, 0, false
		}
		return rest[:l], l, true
	}
	n, u, ok2 := vi()
	if !ok2 || n > uint64(len(rest)-u) {
		return nil, 0, false
	}
	return rest[u : u+int(n)], u + int(n), true
}

func main() {
	h.Main("C01", func(t *h.T) {
		for it := 0; it < t.N(20000) && t.Time(0.5); it++ {
			var ops []op
			n := 1 + t.R.Intn(8)
			for i := 0; i < n; i++ {
				o := op{k: t.R.Intn(8), n: t.U64()}
				if o.k >= 5 {
					o.b = t.Bytes(t.Len(40, 0, 1, 252, 253, 254, 255, 256))
					if t.R.Intn(400) == 0 {
						o.b = t.Bytes([]int{65535, 65536, 65537}[t.R.Intn(3)])
					}
				}
				ops = append(ops, o)
			}
			var names []string
			for _, o := range ops {
				names = append(names, o.String())
			}
			t.Case("write-read", strings.Join(names, " "), func() string {
				w := xbase.NewBuffer()
				var want []byte
				for i, o := range ops {
					o.write(w)
					want = append(want, o.enc()...)
					if !bytes.Equal(w.Bytes(), want) {
						return fmt.Sprintf("after write %d the buffer is %x, want %x", i, w.Bytes(), want)
					}
					if w.Len() != len(want) {
						return fmt.Sprintf("after write %d Len is %d, want %d", i, w.Len(), len(want))
					}
				}
				for _, r := range []*xbase.Buffer{w, xbase.NewBufferReader(append([]byte{}, want...))} {
					pos := 0
					for i, o := range ops {
						v, err := o.read(r)
						if err != nil {
							return fmt.Sprintf("read %d failed: %v", i, err)
						}
						if !same(o, v) {
							return fmt.Sprintf("read %d gives %v", i, v)
						}
						pos += len(o.enc())
						if r.Seek() != pos {
							return fmt.Sprintf("read %d leaves position %d, want %d", i, r.Seek(), pos)
						}
						if !bytes.Equal(r.Remaining(), want[pos:]) {
							return fmt.Sprintf("after read %d Remaining is wrong", i)
						}
						if r.End() != (pos >= len(want)) {
							return "End is wrong"
						}
					}
					if !bytes.Equal(r.Bytes(), want) {
						return "reading changed the bytes"
					}
					for k := 0; k < 8; k++ {
						o := op{k: k, b: []byte{0}}
						if _, err := o.read(r); err == nil {
							return fmt.Sprintf("read %d past the end succeeds", k)
						}
						if r.Seek() != pos {
							return fmt.Sprintf("failed read %d at the end moves the position to %d", k, r.Seek())
						}
					}
				}
				for _, v := range []uint64{ops[0].n, ops[n-1].n} {
					if xbase.VarIntSerializeSize(v) != len(varint(v)) {
						return fmt.Sprintf("VarIntSerializeSize(%d)=%d", v, xbase.VarIntSerializeSize(v))
					}
				}
				w.Reset()
				if w.Len() != 0 || w.Seek() != 0 || len(w.Bytes()) != 0 || !w.End() {
					return "Reset leaves contents"
				}
				ops[0].write(w)
				if !bytes.Equal(w.Bytes(), ops[0].enc()) {
					return "write after Reset"
				}
				return ""
			})
		}
		lens := []int{-1, -2, -1 << 63, 1<<63 - 1, 1 << 62, 1 << 32, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}
		for it := 0; it < t.N(60000) && t.Time(1); it++ {
			data := t.Bytes(t.Len(24, 0, 1, 2, 3, 8, 9))
			if len(data) > 0 && t.R.Intn(3) == 0 {
				data[0] = []byte{0xfd, 0xfe, 0xff}[t.R.Intn(3)]
			}
			if len(data) > 8 && t.R.Intn(4) == 0 {
				data[0] = 0xff
				copy(data[1:], le(t.U64(), 8))
			}
			n := 1 + t.R.Intn(4)
			ks := make([]int, n)
			ls := make([]int, n)
			for i := range ks {
				ks[i] = t.R.Intn(8)
				ls[i] = lens[t.R.Intn(len(lens))]
			}
			t.Case("read-any", fmt.Sprintf("data=%x reads=%v lens=%v", data, ks, ls), func() string {
				r := xbase.NewBufferReader(append([]byte{}, data...))
				for i, k := range ks {
					pos := r.Seek()
					want, used, ok := oracle(k, ls[i], data[pos:])
					var got interface{}
					var err error
					if k == 5 {
						got, err = r.ReadBytes(ls[i])
					} else {
						got, err = op{k: k}.read(r)
					}
					if (err == nil) != ok {
						return fmt.Sprintf("read %d (type %d): error %v, want success %v", i, k, err, ok)
					}
					if !ok {
						if r.Seek() < pos || r.Seek() > len(data) {
							return fmt.Sprintf("failed read %d moves the position from %d to %d", i, pos, r.Seek())
						}
						continue
					}
					if r.Seek() != pos+used {
						return fmt.Sprintf("read %d consumes %d bytes, want %d", i, r.Seek()-pos, used)
					}
					if k <= 4 && got.(uint64) != want.(uint64) || k > 4 && !bytes.Equal(got.([]byte), want.([]byte)) {
						return fmt.Sprintf("read %d gives %v want %v", i, got, want)
					}
					if !bytes.Equal(r.Bytes(), data) {
						return "reading changed the bytes"
					}
				}
				return ""
			})
		}
	})
}
