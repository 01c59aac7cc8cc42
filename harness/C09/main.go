package main

import (
	"errors"
	"fmt"

	"github.com/keyfuse/tokucore/xvm"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

type setup struct {
	m, n     int
	ok       [][]bool // signature s verifies under key k
	sigs     [][]byte
	keys     [][]byte
	hashFail int // a hash type refused by the hash function, or -1
}

// engine identifies keys and signatures by their first byte.
func (s *setup) engine() *xvm.Engine {
	e := xvm.NewEngine()
	e.EnableDebug()
	e.SetSigHashFn(func(ht byte) ([]byte, error) {
		if int(ht) == s.hashFail {
			return nil, errors.New("no hash")
		}
		return []byte{ht, 9}, nil
	})
	e.SetSigVerifyFn(func(hash, sig, pub []byte) error {
		if len(sig) != 2 || len(hash) != 2 || hash[1] != 9 || hash[0] != sig[1] || len(pub) != 2 {
			return errors.New("garbage")
		}
		if s.ok[sig[0]][pub[0]] {
			return nil
		}
		return errors.New("bad signature")
	})
	return e
}

func gen(t *h.T, m, n int, p int) *setup {
	s := &setup{m: m, n: n, hashFail: -1}
	for i := 0; i < m; i++ {
		row := make([]bool, n)
		for k := range row {
			row[k] = t.R.Intn(10) < p
		}
		s.ok = append(s.ok, row)
		ht := byte(t.R.Intn(256))
		s.sigs = append(s.sigs, []byte{byte(i), ht, ht})
	}
	for k := 0; k < n; k++ {
		s.keys = append(s.keys, []byte{byte(k), 0x77})
	}
	return s
}

func num(n int) []byte {
	d := oracle.Num(int64(n))
	return oracle.Push(d)
}

func (s *setup) run(verify bool, under int, mNum, nNum []byte) (stack string, err error, locking []byte) {
	var b []byte
	for i := 0; i < under; i++ {
		b = append(b, 0x02, 0xdd, byte(i))
	}
	b = append(b, 0x01, 0x66) // the extra item
	for _, x := range s.sigs {
		b = append(b, oracle.Push(x)...)
	}
	b = append(b, mNum...)
	for _, x := range s.keys {
		b = append(b, oracle.Push(x)...)
	}
	b = append(b, nNum...)
	if verify {
		b = append(b, 0xaf, 0x51)
	} else {
		b = append(b, 0xae)
	}
	e := s.engine()
	err = e.Execute(b)
	tr := e.Traces()
	if len(tr) > 0 {
		stack = tr[len(tr)-1].Stack
	}
	return stack, err, b
}

func (s *setup) String() string {
	return fmt.Sprintf("m=%d n=%d sigs=%x verifies=%v", s.m, s.n, s.sigs, s.ok)
}

func (s *setup) check(verify bool, under int) string {
	want := oracle.Match(s.m, s.n, func(i, k int) bool { return len(s.sigs[i]) > 0 && s.ok[i][k] })
	stack, err, b := s.run(verify, under, num(s.m), num(s.n))
	if (err == nil) != want {
		return fmt.Sprintf("%x: %v, the signatures match: %v", b, err, want)
	}
	if verify && !want {
		return ""
	}
	var st [][]byte
	for i := 0; i < under; i++ {
		st = append(st, []byte{0xdd, byte(i)})
	}
	if want {
		st = append(st, []byte{1})
	} else {
		st = append(st, nil)
	}
	if stack != oracle.Show(st) {
		return fmt.Sprintf("%x leaves %s, should be %s", b, stack, oracle.Show(st))
	}
	return ""
}

func main() {
	h.Main("C09", func(t *h.T) {
		// every outcome matrix of small sizes
		for n := 0; n <= 4; n++ {
			for m := 0; m <= n; m++ {
				if m*n > 12 {
					continue
				}
				for bitsv := 0; bitsv < 1<<uint(m*n); bitsv++ {
					s := gen(t, m, n, 0)
					for i := 0; i < m; i++ {
						for k := 0; k < n; k++ {
							s.ok[i][k] = bitsv>>uint(i*n+k)&1 == 1
						}
					}
					verify, under := bitsv%3 == 1, bitsv%4
					t.Case("matrix", s.String(), func() string { return s.check(verify, under) })
				}
			}
		}
		for i := 0; i < t.N(20000) && t.Time(0.7); i++ {
			n := t.R.Intn(21)
			m := t.R.Intn(n + 1)
			s := gen(t, m, n, []int{1, 3, 5, 9, 10}[t.R.Intn(5)])
			if t.R.Intn(2) == 0 { // a planned matching, sometimes broken
				ks := t.R.Perm(n)[:m]
				for a := range ks {
					for b := range ks[:a] {
						if ks[a] < ks[b] {
							ks[a], ks[b] = ks[b], ks[a]
						}
					}
				}
				for a, k := range ks {
					s.ok[a][k] = true
				}
			}
			for k := range s.sigs {
				if t.R.Intn(30) == 0 {
					s.sigs[k] = nil
				}
			}
			t.Case("random", s.String(), func() string { return s.check(i%3 == 0, i%5) })
		}
		// malformed counts
		counts := [][]byte{{0x00}, {0x51}, {0x52}, {0x53}, {0x60}, {1, 17}, {1, 20}, {1, 21}, {1, 22}, {0x4f}, {1, 0x81}, {1, 0x80}, {2, 1, 0}, {1, 0}, {1, 0x82}, {4, 0xff, 0xff, 0xff, 0x7f}, {4, 0xff, 0xff, 0xff, 0xff},
			{5, 0, 0, 0, 0, 1}, {5, 1, 0, 0, 0, 0x80}, {2, 0, 0x80}, {3, 1, 0, 0x80}, {4, 0, 0, 0, 0x80}}
		for _, a := range counts {
			for _, b := range counts {
				for sz := 0; sz < 5; sz++ {
					s := gen(t, sz, sz, 10)
					t.Case("counts", fmt.Sprintf("m=%x n=%x items=%d", a, b, sz), func() string {
						_, err, script := s.run(false, 1, a, b)
						vm := &oracle.VM{Check: func(sig, pub []byte) bool {
							return len(sig) == 3 && len(pub) == 2 && sig[1] == sig[2] && int(sig[0]) < sz && int(pub[0]) < sz && s.ok[sig[0]][pub[0]]
						}}
						want := vm.Run(script) == nil && vm.Final(true)
						if (err == nil) != want {
							return fmt.Sprintf("%x: %v, should succeed: %v", script, err, want)
						}
						return ""
					})
				}
			}
		}
		// a failing hash function and absent functions are errors
		for i := 0; i < 50; i++ {
			n := 1 + t.R.Intn(5)
			s := gen(t, 1+t.R.Intn(n), n, 0)
			for a := range s.sigs {
				s.ok[a][a] = true
			}
			s.hashFail = int(s.sigs[len(s.sigs)-1][1])
			t.Case("hash-error", s.String(), func() string {
				if _, err, b := s.run(false, 0, num(s.m), num(s.n)); err == nil {
					return fmt.Sprintf("%x succeeds though no hash is available", b)
				}
				e := xvm.NewEngine()
				if e.Execute([]byte{0x00, 3, 1, 2, 3, 0x51, 2, 1, 1, 0x51, 0xae}) == nil {
					return "succeeds without signature functions"
				}
				return ""
			})
		}
	})
}
