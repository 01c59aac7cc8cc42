//go:debug cryptocustomrand=1
package main

import (
	"bytes"
	"crypto/rand"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

// source stands for the operating system's random source: a fixed stream for
// each seed, delivered in short reads, failing after a while.
type source struct {
	r    *mrand.Rand
	used int
	step int   // longest read, 0 for any
	left int   // bytes until it fails, negative for never
	flip int   // index of a byte to change, negative for none
	err  error // what it fails with
	cont int   // bytes the last short read left out
	solo *mrand.Rand
}

func newSource(seed int64) *source {
	return &source{r: mrand.New(mrand.NewSource(seed)), solo: mrand.New(mrand.NewSource(seed + 1)), left: -1, flip: -1}
}

func (s *source) Read(b []byte) (int, error) {
	if s.left == 0 {
		return 0, s.err
	}
	if len(b) == 1 && s.cont == 0 {
		// The library reads or skips such a byte at random (MaybeReadByte).
		s.solo.Read(b)
		return 1, nil
	}
	n := len(b)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	if s.left > 0 && n > s.left {
		n = s.left
	}
	s.r.Read(b[:n])
	if s.flip >= s.used && s.flip < s.used+n {
		b[s.flip-s.used] ^= 0x55
	}
	s.used += n
	if s.left > 0 {
		s.left -= n
	}
	s.cont = len(b) - n
	return n, nil
}

var system = rand.Reader

// with runs f over the given source.
func with(s *source, f func()) {
	rand.Reader = s
	defer func() { rand.Reader = system }()
	f()
}

var errSource = errors.New("the random source failed")

// drawn is one thing made from random bytes.
type drawn struct {
	name string
	min  int // bytes it must take at least
	f    func() ([]byte, error)
}

func things() []drawn {
	var ds []drawn
	for bits := 128; bits <= 256; bits += 32 {
		bits := bits
		ds = append(ds, drawn{fmt.Sprintf("entropy of %d bits", bits), bits / 8, func() ([]byte, error) { return bip39.NewEntropy(bits) }})
	}
	ds = append(ds, drawn{"random extended key", 32, func() ([]byte, error) {
		k, err := bip32.NewHDKeyRand()
		if err != nil || k == nil {
			return nil, err
		}
		return []byte(k.ToString(network.TestNet)), nil
	}})
	for _, l := range []bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE} {
		l := l
		ds = append(ds, drawn{fmt.Sprintf("mnemonic of word list %v", l), 16, func() ([]byte, error) {
			m, err := bip39.NewBIP39(l)
			if err != nil || m == nil {
				return nil, err
			}
			return bip39.EntropyFromMnemonic(m.ToString())
		}})
	}
	for _, bits := range []int{64, 256} {
		bits := bits
		ds = append(ds, drawn{fmt.Sprintf("paillier key of %d bits", bits), 2 * bits / 16, func() ([]byte, error) {
			pk, _, err := paillier.GenerateKeyPair(bits)
			if err != nil || pk == nil {
				return nil, err
			}
			return pk.N.Bytes(), nil
		}})
	}
	fixed, _ := new(big.Int).SetString("323271489127839437648192873498126481", 10)
	pk := &paillier.PubKey{N: fixed, G: new(big.Int).Add(fixed, big.NewInt(1)), NN: new(big.Int).Mul(fixed, fixed)}
	ds = append(ds, drawn{"paillier encryption", 15, func() ([]byte, error) {
		c, err := pk.Encrypt(big.NewInt(7))
		if err != nil || c == nil {
			return nil, err
		}
		return c.Bytes(), nil
	}})
	return ds
}

func party() drawn {
	return drawn{"two-party phase 2", 256, func() ([]byte, error) {
		p := xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes([]byte{5}))
		c, _, _ := p.Phase2(make([]byte, 32))
		if c == nil {
			return nil, errSource
		}
		return c.Bytes(), nil
	}}
}

// child runs thing number i with a source failing after left bytes. A failure
// may end the process.
func child(i, left int, seed int64, kind string) {
	ds := append(things(), party())
	s := newSource(seed)
	s.left = left
	s.err = errSource
	if kind == "eof" {
		s.err = os.ErrClosed
	}
	with(s, func() {
		b, err := ds[i].f()
		if err == nil && len(b) > 0 {
			fmt.Printf("VALUE %x\n", b)
		}
	})
	os.Exit(0)
}

func main() {
	if len(os.Args) == 6 && os.Args[1] == "child" {
		i, _ := strconv.Atoi(os.Args[2])
		left, _ := strconv.Atoi(os.Args[3])
		seed, _ := strconv.ParseInt(os.Args[4], 10, 64)
		child(i, left, seed, os.Args[5])
	}
	h.Main("C31", func(t *h.T) {
		ds := things()
		self, _ := os.Executable()
		fails := func(d drawn, i, left int, seed int64) {
			for _, kind := range []string{"error", "eof"} {
				t.Case("a failing source is reported", fmt.Sprintf("%s, source %d failing (%s) after %d bytes", d.name, seed, kind, left), func() string {
					c := exec.Command(self, "child", strconv.Itoa(i), strconv.Itoa(left), strconv.FormatInt(seed, 10), kind)
					out, _ := c.Output()
					if strings.Contains(string(out), "VALUE") {
						return "a value was produced: " + string(out)
					}
					return ""
				})
			}
		}
		for i, d := range ds {
			d := d
			get := func(s *source) (b []byte, used int, err error) {
				with(s, func() { b, err = d.f() })
				return b, s.used, err
			}
			var all [][]byte
			n := 48
			for k := 0; k < n; k++ {
				seed := t.R.Int63()
				t.Case("drawn from the source", fmt.Sprintf("%s from source %d", d.name, seed), func() string {
					a, used, err := get(newSource(seed))
					if err != nil {
						return err.Error()
					}
					if used < d.min {
						return fmt.Sprintf("took only %d bytes from the source, needs %d", used, d.min)
					}
					all = append(all, a)
					if k%8 == 0 {
						time.Sleep(2 * time.Millisecond)
					}
					b, _, err := get(newSource(seed))
					if err != nil || !bytes.Equal(a, b) {
						return fmt.Sprintf("the same source gave %x and then %x (%v)", a, b, err)
					}
					s := newSource(seed)
					s.step = 1 + k%5
					c, _, err := get(s)
					if err != nil || !bytes.Equal(a, c) {
						return fmt.Sprintf("short reads give %x, whole reads %x (%v)", c, a, err)
					}
					return ""
				})
			}
			t.Case("every part is random", d.name, func() string {
				if len(all) < n {
					return ""
				}
				seen := map[string]bool{}
				for _, a := range all {
					if seen[string(a)] {
						return fmt.Sprintf("%x occurs twice", a)
					}
					seen[string(a)] = true
				}
				if strings.HasPrefix(d.name, "entropy") || strings.HasPrefix(d.name, "mnemonic") {
					for p := range all[0] {
						or, and := byte(0), byte(0xff)
						for _, a := range all {
							if len(a) != len(all[0]) {
								return "the length varies"
							}
							or |= a[p]
							and &= a[p]
						}
						if or != 0xff || and != 0 {
							return fmt.Sprintf("byte %d never takes some bits (or %02x, and %02x)", p, or, and)
						}
					}
				}
				return ""
			})
			// Every byte taken matters (for the values not searched for).
			if !strings.HasPrefix(d.name, "paillier") {
				seed := t.R.Int63()
				a, _, _ := get(newSource(seed))
				for p := 0; p < d.min; p++ {
					t.Case("every byte taken matters", fmt.Sprintf("%s, source %d, byte %d", d.name, seed, p), func() string {
						s := newSource(seed)
						s.flip = p
						b, _, err := get(s)
						if err != nil {
							return err.Error()
						}
						if bytes.Equal(a, b) {
							return "changing it changes nothing"
						}
						return ""
					})
				}
			}
			seed := t.R.Int63()
			_, used, err := get(newSource(seed))
			if err == nil {
				for _, left := range []int{0, 1, used / 2, used - 1} {
					if left < used {
						fails(d, i, left, seed)
					}
				}
			}
		}
		p := party()
		fails(p, len(ds), 0, 1)
		fails(p, len(ds), 100, 1)
		for _, seed := range []int64{11} {
			s := newSource(seed)
			with(s, func() { p.f() })
			fails(p, len(ds), s.used-1, seed)
			fails(p, len(ds), s.used-200, seed)
		}

		// The randomiser of an encryption ranges over the whole of (0, N).
		for round := 0; round < 3; round++ {
			var pk *paillier.PubKey
			with(newSource(t.R.Int63()), func() {
				for pk == nil {
					pk, _, _ = paillier.GenerateKeyPair(26)
				}
			})
			n := pk.N.Int64()
			p := int64(3)
			for n%p != 0 {
				p += 2
			}
			q := n / p
			lambda := big.NewInt((p - 1) * (q - 1))
			inv := new(big.Int).ModInverse(pk.N, lambda)
			if inv == nil {
				continue
			}
			seed := t.R.Int63()
			t.Case("randomiser range", fmt.Sprintf("N=%d source %d", n, seed), func() string {
				low, high, or := n, int64(0), int64(0)
				seen := map[int64]int{}
				bad := ""
				with(newSource(seed), func() {
					for i := 0; i < 600; i++ {
						c, err := pk.Encrypt(big.NewInt(int64(i)))
						if err != nil {
							bad = err.Error()
							return
						}
						// c = g^m r^n, so r = (c mod n)^(1/n) mod n as g = 1 mod n.
						r := new(big.Int).Mod(c, pk.N)
						x := r.Exp(r, inv, pk.N).Int64()
						seen[x]++
						or |= x
						if x < low {
							low = x
						}
						if x > high {
							high = x
						}
					}
				})
				if bad != "" {
					return bad
				}
				if low > n/20 || high < n-n/20 {
					return fmt.Sprintf("randomisers lie between %d and %d only", low, high)
				}
				if len(seen) < 590 {
					return fmt.Sprintf("only %d different randomisers", len(seen))
				}
				bits := int64(1)<<uint(new(big.Int).SetInt64(n).BitLen()-1) - 1
				if or&bits != bits {
					return fmt.Sprintf("some bits of the randomisers are never set (%b)", or)
				}
				return ""
			})
		}
		// Primes range over all numbers of their size.
		t.Case("prime range", "paillier keys of 40 bits", func() string {
			ps := map[int64]bool{}
			low, high := int64(1<<40), int64(0)
			for i := 0; i < 120; i++ {
				var pk *paillier.PubKey
				var err error
				with(newSource(t.R.Int63()), func() { pk, _, err = paillier.GenerateKeyPair(40) })
				if err != nil {
					continue
				}
				n := pk.N.Int64()
				p := int64(3)
				for n%p != 0 {
					p += 2
				}
				for _, x := range []int64{p, n / p} {
					ps[x] = true
					if x < low {
						low = x
					}
					if x > high {
						high = x
					}
				}
			}
			if len(ps) < 200 {
				return fmt.Sprintf("only %d different primes", len(ps))
			}
			top := int64(1 << 20)
			if low > top*16/20 || high < top*19/20 {
				return fmt.Sprintf("primes lie between %d and %d only", low, high)
			}
			return ""
		})
		_ = oracle.N
	})
}
