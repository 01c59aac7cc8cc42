package main

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"fmt"
	"hash"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

func short(b []byte) string {
	if len(b) > 300 {
		return fmt.Sprintf("%x... (%d bytes)", b[:300], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func main() {
	h.Main("C29", func(t *h.T) {
		helpers := func(m []byte) {
			t.Case("helpers", short(m), func() string {
				keep := append([]byte{}, m...)
				s := sha256.Sum256(m)
				d := sha256.Sum256(s[:])
				for i := 0; i < 2; i++ {
					for _, e := range []struct {
						name      string
						got, want []byte
					}{
						{"Sha256", xcrypto.Sha256(m), s[:]},
						{"DoubleSha256", xcrypto.DoubleSha256(m), d[:]},
						{"Ripemd160", xcrypto.Ripemd160(m), oracle.Ripemd160(m)},
						{"Hash160", xcrypto.Hash160(m), oracle.Ripemd160(s[:])},
					} {
						if !bytes.Equal(e.got, e.want) {
							return fmt.Sprintf("%s gave %x, should be %x", e.name, e.got, e.want)
						}
					}
				}
				if !bytes.Equal(m, keep) {
					return "the input was changed"
				}
				if x := xcrypto.BytesToBigInt(m); x.Cmp(oracle.Int(m)) != 0 {
					return "BytesToBigInt gave " + x.String()
				}
				return ""
			})
		}
		// Every length around the block and padding boundaries.
		for n := 0; n <= 300; n++ {
			helpers(t.Bytes(n))
			helpers(make([]byte, n))
			helpers(bytes.Repeat([]byte{0xff}, n))
		}
		for i := 0; i < t.N(40); i++ {
			helpers(t.Bytes(t.R.Intn(5000)))
		}
		helpers(t.Bytes(1 << 20))
		t.Case("sizes", "", func() string {
			x := ripemd160.New()
			if x.Size() != 20 || x.BlockSize() != 64 || ripemd160.Size != 20 || ripemd160.BlockSize != 64 || xcrypto.Ripemd160Size() != 20 {
				return "wrong size"
			}
			return ""
		})

		split := func(m []byte, cuts []int, sums []bool, prefix []byte) {
			t.Case("writes", fmt.Sprintf("message %s in pieces of %v, digests read after %v", short(m), cuts, sums), func() string {
				x := ripemd160.New()
				at := 0
				keep := append([]byte{}, m...)
				for i, c := range cuts {
					n, err := x.Write(m[at : at+c])
					if n != c || err != nil {
						return fmt.Sprintf("write of %d bytes returned %d %v", c, n, err)
					}
					at += c
					if sums[i] {
						for j := 0; j < 2; j++ {
							in := append([]byte{}, prefix...)
							if got, want := x.Sum(in), append(append([]byte{}, prefix...), oracle.Ripemd160(m[:at])...); !bytes.Equal(got, want) {
								return fmt.Sprintf("digest after %d bytes is %x, should be %x", at, got, want)
							}
						}
					}
				}
				if got, want := x.Sum(nil), oracle.Ripemd160(m[:at]); !bytes.Equal(got, want) {
					return fmt.Sprintf("digest is %x, should be %x", got, want)
				}
				if !bytes.Equal(m, keep) {
					return "the message was changed"
				}
				x.Reset()
				if got, want := x.Sum(nil), oracle.Ripemd160(nil); !bytes.Equal(got, want) {
					return fmt.Sprintf("digest after a reset is %x", got)
				}
				if _, err := x.Write(m); err != nil {
					return err.Error()
				}
				if got, want := x.Sum(nil), oracle.Ripemd160(m); !bytes.Equal(got, want) {
					return fmt.Sprintf("digest after a reset and one write is %x, should be %x", got, want)
				}
				return ""
			})
		}
		// Two pieces, every split of every length up to three blocks (stepped).
		for n := 0; n <= 200; n += 1 + n/70 {
			m := t.Bytes(n)
			for c := 0; c <= n; c += 1 + n/40 {
				split(m, []int{c, n - c}, []bool{n%3 == 0, true}, nil)
			}
		}
		for _, n := range []int{63, 64, 65, 127, 128, 129, 192} {
			m := t.Bytes(n)
			for c := 0; c <= n; c++ {
				split(m, []int{c, n - c}, []bool{true, true}, []byte{1, 2, 3})
			}
			ones := make([]int, n)
			s := make([]bool, n)
			for i := range ones {
				ones[i] = 1
				s[i] = i%7 == 0
			}
			split(m, ones, s, nil)
		}
		for i := 0; i < t.N(300); i++ {
			m := t.Bytes(t.R.Intn(700))
			var cuts []int
			var sums []bool
			for left := len(m); left > 0; {
				c := []int{0, 1, 55, 56, 63, 64, 65, t.R.Intn(130), t.R.Intn(20)}[t.R.Intn(9)]
				if c > left {
					c = left
				}
				cuts = append(cuts, c)
				sums = append(sums, t.R.Intn(3) == 0)
				left -= c
			}
			split(m, cuts, sums, t.Bytes(t.R.Intn(3)))
		}

		hs := []struct {
			name string
			f    func() hash.Hash
			size int
		}{{"sha256", sha256.New, 32}, {"sha512", sha512.New, 64}, {"sha1", sha1.New, 20}, {"md5", md5.New, 16}, {"ripemd160", ripemd160.New, 20}}
		kdf := func(pw, salt []byte, iter, n, which int) {
			x := hs[which]
			t.Case("pbkdf2", fmt.Sprintf("password %x salt %x iterations %d length %d over %s", pw, salt, iter, n, x.name), func() string {
				kp, ks := append([]byte{}, pw...), append([]byte{}, salt...)
				want := oracle.PBKDF2(pw, salt, iter, n, x.f)
				for i := 0; i < 2; i++ {
					if got := pbkdf2.Key(pw, salt, iter, n, x.f); !bytes.Equal(got, want) {
						return fmt.Sprintf("got %x, should be %x", got, want)
					}
				}
				if !bytes.Equal(kp, pw) || !bytes.Equal(ks, salt) {
					return "an argument was changed"
				}
				return ""
			})
		}
		for w, x := range hs {
			for _, n := range []int{0, 1, x.size - 1, x.size, x.size + 1, 2*x.size - 1, 2 * x.size, 2*x.size + 1, 3 * x.size, 5*x.size + 3} {
				for _, iter := range []int{1, 2, 3, 7} {
					kdf(t.Bytes(t.R.Intn(30)), t.Bytes(t.R.Intn(30)), iter, n, w)
				}
			}
			for _, l := range []int{0, 1, 63, 64, 65, 127, 128, 129, 200} {
				kdf(t.Bytes(l), t.Bytes(8), 2, x.size+5, w)
				kdf(t.Bytes(8), t.Bytes(l), 2, x.size+5, w)
			}
		}
		// More than 256 blocks, so that the block number has a second byte.
		kdf([]byte("password"), []byte("salt"), 2, 260*16, 3)
		kdf([]byte("password"), []byte("salt"), 1, 65540*16, 3)
		kdf([]byte("password"), []byte("salt"), 4096, 40, 0)
		kdf([]byte("mnemonic"), []byte("mnemonicTREZOR"), 2048, 64, 1)
		for i := 0; i < t.N(200) && t.Time(0.8); i++ {
			kdf(t.Bytes(t.R.Intn(150)), t.Bytes(t.R.Intn(100)), 1+t.R.Intn(40), t.R.Intn(200), t.R.Intn(len(hs)))
		}
	})
}
