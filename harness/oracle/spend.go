package oracle

import (
	"crypto/sha256"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/zzverif/h"
)

// Key is a private key with its points' encodings.
type Key struct {
	D    *big.Int
	Q    Pt
	C, U []byte
	Prv  *xcrypto.PrvKey
}

var keys []*Key

// Keys is a pool of keys.
func Keys(t *h.T) []*Key {
	for len(keys) < 24 {
		b := t.Bytes(32)
		d := Int(b)
		if d.Sign() == 0 || d.Cmp(N) >= 0 {
			continue
		}
		q := Mul(G, d)
		keys = append(keys, &Key{d, q, Compressed(q), Uncompressed(q), xcrypto.PrvKeyFromBytes(b)})
	}
	return keys
}

// Sha is a single SHA-256.
func Sha(b []byte) []byte { x := sha256.Sum256(b); return x[:] }

// Coin is an output to spend: kind 0 p2pkh, 1 p2sh multisig, 2 p2wpkh, 3 p2wsh multisig.
type Coin struct {
	Kind   int
	Comp   bool
	Keys   []*Key // all keys of the output
	M      int
	Redeem []byte
	Lock   []byte
	Amount uint64
}

// Multisig is the m-of-n script.
func Multisig(m int, pubs [][]byte) []byte {
	b := []byte{byte(0x50 + m)}
	for _, p := range pubs {
		b = append(b, Push(p)...)
	}
	return append(b, byte(0x50+len(pubs)), 0xae)
}

// P2PKH is the pay-to-public-key-hash script.
func P2PKH(h []byte) []byte {
	return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac)
}

// GenCoin makes a coin of the given kind.
func GenCoin(t *h.T, kind int) *Coin {
	c := &Coin{Kind: kind, Comp: true, Amount: t.U64()}
	ks := append([]*Key(nil), Keys(t)...)
	t.R.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	switch kind {
	case 0, 2:
		c.Keys, c.M = ks[:1], 1
		if kind == 0 {
			c.Comp = t.R.Intn(2) == 0
		}
		h160 := Hash160(c.pub(ks[0]))
		if kind == 0 {
			c.Lock = P2PKH(h160)
		} else {
			c.Lock = append([]byte{0, 20}, h160...)
		}
	default:
		n := []int{1, 2, 3, 3, 5, 15}[t.R.Intn(6)]
		c.Keys = ks[:n]
		c.M = 1 + t.R.Intn(n)
		c.Comp = n > 3 || t.R.Intn(2) == 0
		var pubs [][]byte
		for _, k := range c.Keys {
			pubs = append(pubs, c.pub(k))
		}
		c.Redeem = Multisig(c.M, pubs)
		if kind == 1 {
			c.Lock = append(append([]byte{0xa9, 20}, Hash160(c.Redeem)...), 0x87)
		} else {
			c.Lock = append([]byte{0, 32}, Sha(c.Redeem)...)
		}
	}
	return c
}

func (c *Coin) pub(k *Key) []byte {
	if c.Comp {
		return k.C
	}
	return k.U
}

// Pub is the key's encoding used by the coin.
func (c *Coin) Pub(k *Key) []byte { return c.pub(k) }

// Wit says whether the coin is spent by a witness.
func (c *Coin) Wit() bool { return c.Kind >= 2 }

// Code is the script its signature hash covers.
func (c *Coin) Code() []byte {
	switch c.Kind {
	case 0:
		return c.Lock
	case 2:
		return P2PKH(c.Lock[2:])
	}
	return c.Redeem
}

// SigHash is the hash a signature for the coin at input idx is over.
func (c *Coin) SigHash(tx *Tx, idx int, ht uint32) []byte {
	if c.Wit() {
		return tx.Segwit0(idx, c.Code(), c.Amount, ht)
	}
	return tx.Legacy(idx, c.Code(), ht)
}

// Pick chooses M keys in order.
func (c *Coin) Pick(t *h.T) []*Key {
	idx := t.R.Perm(len(c.Keys))[:c.M]
	use := map[int]bool{}
	for _, i := range idx {
		use[i] = true
	}
	var r []*Key
	for i, k := range c.Keys {
		if use[i] {
			r = append(r, k)
		}
	}
	return r
}

// SigOK says whether sig (with its hash type byte) is valid for pub over the coin's hash.
func (c *Coin) SigOK(tx *Tx, idx int, sig, pub []byte) bool {
	if len(sig) < 1 {
		return false
	}
	r, s, ok := ParseDER(sig[:len(sig)-1])
	if !ok {
		return false
	}
	q, ok := ParsePub(pub)
	return ok && Verify(q, c.SigHash(tx, idx, uint32(sig[len(sig)-1])), r, s)
}
