package main

import (
	"bytes"
	"crypto/sha512"
	"fmt"
	"math/big"
	"strings"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

// encode is BIP39 by bit strings.
func encode(list []string, ent []byte) []string {
	bits := ""
	for _, b := range ent {
		bits += fmt.Sprintf("%08b", b)
	}
	cs := ""
	for _, b := range oracle.Sha(ent) {
		cs += fmt.Sprintf("%08b", b)
	}
	bits += cs[:len(ent)/4]
	var w []string
	for i := 0; i < len(bits); i += 11 {
		n := 0
		for _, c := range bits[i : i+11] {
			n = n*2 + int(c-'0')
		}
		w = append(w, list[n])
	}
	return w
}

func permitted(n int) bool { return n == 12 || n == 15 || n == 18 || n == 21 || n == 24 }

// decode is the reverse; ok false when the phrase is to be refused.
func decode(list []string, phrase string) (ent []byte, sumBits string, ok bool) {
	w := strings.Fields(phrase)
	if !permitted(len(w)) {
		return nil, "", false
	}
	ix := map[string]int{}
	for i, x := range list {
		ix[x] = i
	}
	bits := ""
	for _, x := range w {
		n, found := ix[x]
		if !found {
			return nil, "", false
		}
		bits += fmt.Sprintf("%011b", n)
	}
	n := len(w) * 11 * 32 / 33
	for i := 0; i < n; i += 8 {
		b := 0
		for _, c := range bits[i : i+8] {
			b = b*2 + int(c-'0')
		}
		ent = append(ent, byte(b))
	}
	return ent, bits[n:], strings.Join(encode(list, ent), " ") == strings.Join(w, " ")
}

// judge compares everything that accepts a phrase.
func judge(list []string, phrase, pw string, seeds bool) string {
	want, _, ok := decode(list, phrase)
	got, err := bip39.EntropyFromMnemonic(phrase)
	if (err == nil) != ok {
		return fmt.Sprintf("EntropyFromMnemonic: accepted is %v, should be %v (%v)", err == nil, ok, err)
	}
	if ok && !bytes.Equal(got, want) {
		return fmt.Sprintf("entropy %x, should be %x", got, want)
	}
	arr, err := bip39.MnemonicToByteArray(phrase)
	if (err == nil) != ok {
		return fmt.Sprintf("MnemonicToByteArray: accepted is %v, should be %v (%v)", err == nil, ok, err)
	}
	if ok {
		cs := uint(len(want) / 4)
		v := new(big.Int).Lsh(new(big.Int).SetBytes(want), cs)
		v.Or(v, big.NewInt(int64(oracle.Sha(want)[0]>>(8-cs))))
		w := v.FillBytes(make([]byte, len(want)+1))
		if !bytes.Equal(arr, w) {
			return fmt.Sprintf("byte array %x, should be %x", arr, w)
		}
		raw, err := bip39.MnemonicToByteArray(phrase, true)
		if err != nil || !bytes.Equal(raw, want) {
			return fmt.Sprintf("raw byte array %x (%v), should be %x", raw, err, want)
		}
	}
	if seeds || !ok {
		s, err := bip39.NewSeedWithErrorChecking(phrase, pw)
		if (err == nil) != ok {
			return fmt.Sprintf("NewSeedWithErrorChecking: accepted is %v, should be %v (%v)", err == nil, ok, err)
		}
		if ok {
			if w := oracle.PBKDF2([]byte(phrase), []byte("mnemonic"+pw), 2048, 64, sha512.New); !bytes.Equal(s, w) {
				return fmt.Sprintf("seed %x, should be %x", s, w)
			}
		}
	}
	f := strings.Fields(phrase)
	valid := permitted(len(f))
	for _, x := range f {
		if i, found := bip39.GetWordIndex(x); !found {
			valid = false
		} else if list[i] != x {
			return fmt.Sprintf("index of %q is %d", x, i)
		}
	}
	// IsMnemonicValid judges the count and the words; refusing a wrong checksum too is fine
	if g := bip39.IsMnemonicValid(phrase); g && !valid || !g && ok {
		return fmt.Sprintf("IsMnemonicValid says %v", g)
	}
	return ""
}

func main() {
	h.Main("C19", func(t *h.T) {
		lists := [][]string{words.English, words.Chinese, words.Japanese}
		t.Case("word list", "English", func() string {
			if g := fmt.Sprintf("%x", oracle.Sha([]byte(strings.Join(words.English, "\n")+"\n"))); g != "2f5eed53a4727b4bf8880d8f3f199efc90e58503646d9ff8eff3a2ed3b24dbda" {
				return "the English list is not BIP39's: its hash is " + g
			}
			for i, l := range lists {
				seen := map[string]bool{}
				for _, w := range l {
					seen[w] = true
				}
				if len(l) != 2048 || len(seen) != 2048 {
					return fmt.Sprintf("list %d has %d words, %d different", i, len(l), len(seen))
				}
			}
			return ""
		})
		entropy := func(n int) []byte {
			b := t.Bytes(n)
			switch t.R.Intn(6) {
			case 0:
				for i := range b {
					b[i] = 0
				}
				b[t.R.Intn(n)] = byte(t.R.Intn(256))
			case 1:
				for i := 0; i < t.R.Intn(n); i++ {
					b[i] = 0
				}
			case 2:
				for i := range b {
					b[i] = 0xff
				}
			}
			return b
		}
		for li, list := range lists {
			bip39.SetWordList(list)
			for i := 0; i < t.N(1200) && t.Time(0.2+0.15*float64(li)); i++ {
				e := entropy([]int{16, 20, 24, 28, 32}[t.R.Intn(5)])
				pw := []string{"", "TREZOR", "p\u00e4ss", string(t.Bytes(5))}[t.R.Intn(4)]
				t.Case("entropy", fmt.Sprintf("list %d entropy %x password %q", li, e, pw), func() string {
					keep := append([]byte{}, e...)
					m, err := bip39.NewMnemonic(e)
					if err != nil {
						return "cannot encode: " + err.Error()
					}
					if !bytes.Equal(keep, e) {
						return "the entropy was changed"
					}
					if w := strings.Join(encode(list, e), " "); m != w {
						return "mnemonic " + m + ", should be " + w
					}
					return judge(list, m, pw, i%20 == 0)
				})
			}
			for i := 0; i < t.N(1500) && t.Time(0.25+0.15*float64(li)); i++ {
				w := encode(list, entropy([]int{16, 20, 24, 28, 32}[t.R.Intn(5)]))
				sep := " "
				switch t.R.Intn(9) {
				case 0:
					w[t.R.Intn(len(w))] = list[t.R.Intn(2048)]
				case 1:
					w[len(w)-1] = list[t.R.Intn(2048)]
				case 2:
					w[t.R.Intn(len(w))] += "x"
				case 3:
					w = w[:t.R.Intn(len(w))]
				case 4:
					w = append(w, list[t.R.Intn(2048)])
				case 5:
					for j := 0; j < 3; j++ {
						w = append(w, list[t.R.Intn(2048)])
					}
				case 6:
					sep = []string{"  ", "\t", "\n", " \n ", ",", "", "\u3000"}[t.R.Intn(7)]
				case 7:
					a, b := t.R.Intn(len(w)), t.R.Intn(len(w))
					w[a], w[b] = w[b], w[a]
				case 8:
					n := t.R.Intn(30)
					w = nil
					for j := 0; j < n; j++ {
						w = append(w, list[t.R.Intn(2048)])
					}
				}
				p := strings.Join(w, sep)
				if t.R.Intn(12) == 0 {
					p = " " + p
				}
				if t.R.Intn(12) == 0 {
					p += "\n"
				}
				if t.R.Intn(20) == 0 {
					p = strings.ToUpper(p)
				}
				t.Case("phrase", fmt.Sprintf("list %d %q", li, p), func() string { return judge(list, p, "", false) })
			}
		}
		bip39.SetWordList(words.English)
		for n := 0; n < 70; n++ {
			e := t.Bytes(n)
			t.Case("entropy length", fmt.Sprint(n), func() string {
				m, err := bip39.NewMnemonic(e)
				ok := n >= 16 && n <= 32 && n%4 == 0
				if (err == nil) != ok || !ok && m != "" {
					return fmt.Sprintf("mnemonic %q, error %v", m, err)
				}
				return ""
			})
		}
		for _, n := range []int{-128, -32, -1, 0, 1, 32, 64, 96, 127, 128, 129, 136, 144, 160, 192, 224, 248, 255, 256, 257, 264, 288, 512} {
			t.Case("new entropy", fmt.Sprint(n), func() string {
				e, err := bip39.NewEntropy(n)
				ok := n >= 128 && n <= 256 && n%32 == 0
				if (err == nil) != ok || ok && len(e) != n/8 {
					return fmt.Sprintf("%x, error %v", e, err)
				}
				return ""
			})
		}
		for i := 0; i < t.N(12); i++ {
			pw, ph := string(t.Bytes(t.R.Intn(300))), string(t.Bytes(t.R.Intn(300)))
			t.Case("seed", fmt.Sprintf("%x %x", ph, pw), func() string {
				if g, w := bip39.NewSeed(ph, pw), oracle.PBKDF2([]byte(ph), []byte("mnemonic"+pw), 2048, 64, sha512.New); !bytes.Equal(g, w) {
					return fmt.Sprintf("seed %x, should be %x", g, w)
				}
				return ""
			})
		}
		for i, l := range []bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE} {
			list := lists[i]
			t.Case("builder", fmt.Sprint("list ", i), func() string {
				b, err := bip39.NewBIP39(l)
				if err != nil {
					return err.Error()
				}
				if _, _, ok := decode(list, b.ToString()); !ok {
					return "generated phrase is not valid: " + b.ToString()
				}
				if w := oracle.PBKDF2([]byte(b.ToString()), []byte("mnemonicTREZOR"), 2048, 64, sha512.New); !bytes.Equal(b.Seed(), w) {
					return "seed of the generated phrase"
				}
				return ""
			})
		}
	})
}
