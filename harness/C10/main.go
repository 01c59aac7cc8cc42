package main

import (
	"bytes"
	"fmt"
	"runtime"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func diff(what string, got, want []byte) string {
	if bytes.Equal(got, want) {
		return ""
	}
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	e := func(b []byte) []byte {
		if i+40 < len(b) {
			return b[i : i+40]
		}
		return b[i:]
	}
	return fmt.Sprintf("%s: differs at byte %d (lengths %d and %d): %x, should be %x", what, i, len(got), len(want), e(got), e(want))
}

// roundTrip checks parsing of o's bytes and of every prefix taken by cuts.
func roundTrip(t *h.T, o *oracle.Tx, codes, stale [][]byte) string {
	tx, _ := oracle.Build(o, codes, stale)
	full, bare := o.Bytes(true), o.Bytes(false)
	if m := diff("Serialize", tx.Serialize(), full); m != "" {
		return m
	}
	if m := diff("SerializeNoWitness", tx.SerializeNoWitness(), bare); m != "" {
		return m
	}
	if tx.HasWitness() != o.HasWit() {
		return fmt.Sprint("HasWitness is ", tx.HasWitness())
	}
	// a fresh transaction and one that held another before
	other, oc, os := oracle.GenTx(t, 1)
	used, _ := oracle.Build(other, oc, os)
	for i, p := range []*xcore.Transaction{xcore.NewTransaction(), used} {
		parse, want := p.DeserializeNoWitness, bare
		if o.HasWit() {
			parse, want = p.Deserialize, full
		}
		in := append([]byte(nil), want...)
		if err := parse(in); err != nil {
			return fmt.Sprint("parsing its own bytes fails: ", err)
		}
		if !bytes.Equal(in, want) {
			return "parsing changes its input"
		}
		if m := diff(fmt.Sprint("parsed and serialized again ", i), p.Serialize(), want); m != "" {
			return m
		}
		if m := diff(fmt.Sprint("parsed and serialized again without witnesses ", i), p.SerializeNoWitness(), bare); m != "" {
			return m
		}
		if p.HasWitness() != o.HasWit() {
			return "parsing changes whether there are witnesses"
		}
	}
	p := xcore.NewTransaction()
	if err := p.DeserializeNoWitness(bare); err != nil {
		return fmt.Sprint("parsing the bytes without witnesses fails: ", err)
	}
	if m := diff("parsed without witnesses", p.Serialize(), bare); m != "" {
		return m
	}
	return ""
}

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// arbitrary parses any bytes in both formats.
func arbitrary(b []byte) string {
	for _, wit := range []bool{true, false} {
		want, werr := oracle.ParseTx(b, wit)
		tx := xcore.NewTransaction()
		var err error
		n := alloc(func() {
			if wit {
				err = tx.Deserialize(b)
			} else {
				err = tx.DeserializeNoWitness(b)
			}
		})
		if n > uint64(len(b))*400+1<<16 {
			return fmt.Sprintf("parsing %d bytes (witness format %v) allocates %d bytes", len(b), wit, n)
		}
		if (err == nil) != (werr == nil) {
			return fmt.Sprintf("parsing (witness format %v): %v, the format says: %v", wit, err, werr)
		}
		if err != nil {
			continue
		}
		if m := diff(fmt.Sprintf("parsed (witness format %v) and serialized", wit), tx.Serialize(), want.Bytes(true)); m != "" {
			return m
		}
		if m := diff(fmt.Sprintf("parsed (witness format %v) and serialized without witnesses", wit), tx.SerializeNoWitness(), want.Bytes(false)); m != "" {
			return m
		}
	}
	return ""
}

func main() {
	h.Main("C10", func(t *h.T) {
		// announced counts and lengths without the data
		for _, n := range [][]byte{{0xfc}, {0xfd, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0x01}, {0xfe, 0xff, 0xff, 0xff, 0xff},
			{0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}} {
			in := append(make([]byte, 36), 0, 0, 0, 0, 0)
			out := append(make([]byte, 8), 0)
			cat := func(p ...[]byte) []byte { return bytes.Join(p, nil) }
			v, mk := []byte{1, 0, 0, 0}, []byte{0, 1}
			for _, pad := range [][]byte{nil, make([]byte, 300)} {
				for _, b := range [][]byte{
					cat(v, n), cat(v, mk, n), cat(v, []byte{1}, in[:36], n), cat(v, mk, []byte{1}, in[:36], n),
					cat(v, []byte{0}, n), cat(v, mk, []byte{0}, n), cat(v, []byte{0, 1}, out[:8], n), cat(v, mk, []byte{0, 1}, out[:8], n),
					cat(v, mk, []byte{1}, in, []byte{0}, n), cat(v, mk, []byte{1}, in, []byte{0, 1}, n), cat(v, mk, []byte{1}, in, []byte{0, 2, 0}, n),
				} {
					b := append(b, pad...)
					t.Case("announced", h.Hex(b), func() string { return arbitrary(b) })
				}
			}
		}
		for i := 0; i < t.N(1500) && t.Time(0.6); i++ {
			o, codes, stale := oracle.GenTx(t, i%2)
			t.Case("roundtrip", o.String(), func() string { return roundTrip(t, o, codes, stale) })
		}
		for i := 0; i < t.N(4000) && t.Time(0.95); i++ {
			var b []byte
			switch t.R.Intn(4) {
			case 0:
				b = t.Bytes(t.R.Intn(120))
			default:
				o, _, _ := oracle.GenTx(t, 1)
				b = o.Bytes(t.R.Intn(4) != 0)
				for len(b) > 30000 {
					o, _, _ = oracle.GenTx(t, 1)
					b = o.Bytes(true)
				}
				switch t.R.Intn(4) {
				case 0:
					b = b[:t.R.Intn(len(b))]
				case 1:
					b = append(b, t.Bytes(t.R.Intn(6))...)
				case 2:
					for k := 0; k <= t.R.Intn(4); k++ {
						b[t.R.Intn(len(b))] = []byte{0, 1, 2, 0xfc, 0xfd, 0xfe, 0xff}[t.R.Intn(7)]
					}
				default:
					b[t.R.Intn(len(b))] ^= 1 << uint(t.R.Intn(8))
				}
			}
			t.Case("parse", h.Hex(b), func() string { return arbitrary(b) })
		}
	})
}
