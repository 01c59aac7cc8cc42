package main

import (
	"bytes"
	"fmt"
	"reflect"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

var commands = []string{"version", "verack", "inv", "getdata", "getheaders", "headers", "reject", "tx", "ping", "pong"}

func cut(b []byte) string {
	if len(b) > 800 {
		return fmt.Sprintf("%x... (%d bytes)", b[:800], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func norm(m xprotocol.Message) xprotocol.Message {
	switch v := m.(type) {
	case *xprotocol.MsgTx:
		if len(v.Data) == 0 {
			v.Data = nil
		}
	case *xprotocol.MsgInv:
		if len(v.Invs) == 0 {
			v.Invs = nil
		}
	case *xprotocol.MsgGetData:
		if len(v.InvList) == 0 {
			v.InvList = nil
		}
	case *xprotocol.MsgHeaders:
		if len(v.Headers) == 0 {
			v.Headers = nil
		}
	case *xprotocol.MsgReject:
		if len(v.Hash) == 0 {
			v.Hash = nil
		}
	}
	return m
}

func main() {
	h.Main("C27", func(t *h.T) {
		// protocol limits
		for _, n := range []int{50000, 50001, 49999} {
			iv := make([]*xprotocol.InvVect, n)
			for i := range iv {
				iv[i] = xprotocol.NewInvVect(1, make([]byte, 32))
			}
			w := &oracle.W{}
			w.Var(uint64(n))
			for range iv {
				w.U32(1).Raw(make([]byte, 32))
			}
			t.Case("limit-inv", fmt.Sprint(n), func() string {
				for _, split := range []int{0, 1, n / 2, n - 1, n} {
					a, g := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData()
					e1, g1 := a.AddInvVect(iv[:split]...), g.AddInvVect(iv[:split]...)
					e2, g2 := a.AddInvVect(iv[split:]...), g.AddInvVect(iv[split:]...)
					if len(a.Invs) > 50000 || len(g.InvList) > 50000 {
						return fmt.Sprintf("adding %d+%d vectors grows the list to %d / %d", split, n-split, len(a.Invs), len(g.InvList))
					}
					if n <= 50000 && (e1 != nil || e2 != nil || g1 != nil || g2 != nil || len(a.Invs) != n || len(g.InvList) != n) {
						return fmt.Sprint("adding within the limit fails: ", e1, e2, g1, g2)
					}
					if n > 50000 && (e1 == nil && e2 == nil || g1 == nil && g2 == nil) {
						return "adding beyond the limit reports no error"
					}
				}
				a, g := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData()
				e1, e2 := a.Decode(w.B), g.Decode(w.B)
				if (e1 == nil) != (n <= 50000) || (e2 == nil) != (n <= 50000) || len(a.Invs) > 50000 || len(g.InvList) > 50000 {
					return fmt.Sprint("decoding: ", e1, e2, len(a.Invs), len(g.InvList))
				}
				return ""
			})
		}
		for _, n := range []int{1999, 2000, 2001, 4000} {
			hd := make([]*xprotocol.BlockHeader, n)
			w := &oracle.W{}
			w.Var(uint64(n))
			for i := range hd {
				hd[i] = &xprotocol.BlockHeader{PrevBlock: make([]byte, 32), MerkleRoot: make([]byte, 32)}
				w.Raw(make([]byte, 81))
			}
			t.Case("limit-headers", fmt.Sprint(n), func() string {
				for _, split := range []int{0, 1, n / 2, n - 1, n} {
					a := xprotocol.NewMsgHeaders()
					e1 := a.AddBlockHeader(hd[:split]...)
					e2 := a.AddBlockHeader(hd[split:]...)
					if len(a.Headers) > 2000 {
						return fmt.Sprintf("adding %d+%d headers grows the list to %d", split, n-split, len(a.Headers))
					}
					if n <= 2000 && (e1 != nil || e2 != nil || len(a.Headers) != n) {
						return fmt.Sprint("adding within the limit fails: ", e1, e2)
					}
					if n > 2000 && e1 == nil && e2 == nil {
						return "adding beyond the limit reports no error"
					}
				}
				a := xprotocol.NewMsgHeaders()
				if e := a.Decode(w.B); (e == nil) != (n <= 2000) || len(a.Headers) > 2000 {
					return fmt.Sprint("decoding: ", e, len(a.Headers))
				}
				return ""
			})
		}
		t.Case("limit-locators", "", func() string {
			m := xprotocol.NewMsgGetHeaders(network.MainNet)
			for i := 0; i < 200; i++ {
				m.AddBlockLocatorHash(make([]byte, 32))
			}
			if len(m.Encode()) > 4+3+101*32+32 {
				return fmt.Sprintf("the locator list grew: %d bytes", len(m.Encode()))
			}
			return ""
		})
		t.Case("empty-getheaders", "", func() string {
			m := xprotocol.NewMsgGetHeaders(network.MainNet)
			n := m.Size()
			if e := m.Encode(); len(e) != n || m.Size() != n {
				return fmt.Sprintf("size %d (then %d), encoding has %d bytes", n, m.Size(), len(e))
			}
			return ""
		})
		t.Case("new-version", "", func() string {
			m := xprotocol.NewMsgVersion(network.TestNet)
			if len(m.AddressYou) != 16 || len(m.AddressMe) != 16 || m.PortMe != 18333 || m.Version != network.TestNet.ProtocolVersion || m.UserAgent != network.TestNet.UserAgent {
				return fmt.Sprintf("%+v", m)
			}
			return ""
		})
		for i := 0; i < oracle.Kinds; i++ {
			m := oracle.Empty(i, xprotocol.NewMsgUnhandle("q"))
			t.Case("command", fmt.Sprintf("%T", m), func() string {
				want := []string{"version", "verack", "inv", "getdata", "getheaders", "headers", "reject", "tx", "ping", "pong", "q"}[i]
				if m.Command() != want {
					return "command is " + m.Command()
				}
				return ""
			})
		}
		var pool [][]byte
		for k := 0; k < t.N(6000) && t.Time(0.6); k++ {
			kind := k % oracle.Kinds
			m, wire := oracle.GenMsg(t, kind)
			if m == nil {
				t.Case("generate", fmt.Sprint(kind), func() string { return "cannot build a message within the limits" })
				continue
			}
			if len(wire) < 1000 {
				pool = append(pool, wire)
			}
			t.Case("roundtrip", fmt.Sprintf("%T %s", m, cut(wire)), func() string {
				size := m.Size()
				e := m.Encode()
				if !bytes.Equal(e, wire) {
					return fmt.Sprintf("encodes to %s", cut(e))
				}
				if size != len(e) {
					return fmt.Sprintf("size %d, encoding has %d bytes", size, len(e))
				}
				g := oracle.Empty(kind, m)
				if err := g.Decode(e); err != nil {
					return "decoding its own encoding: " + err.Error()
				}
				if g.Size() != len(e) {
					return fmt.Sprintf("decoded size %d, encoding has %d bytes", g.Size(), len(e))
				}
				if !reflect.DeepEqual(norm(m), norm(g)) {
					return fmt.Sprintf("decodes to %+v, want %+v", g, m)
				}
				if e2 := g.Encode(); !bytes.Equal(e2, wire) {
					return fmt.Sprintf("encodes again to %s", cut(e2))
				}
				if b, ok := m.(*xprotocol.MsgHeaders); ok {
					for _, hd := range b.Headers[:min(3, len(b.Headers))] {
						w := &oracle.W{}
						w.U32(hd.Version).Raw(hd.PrevBlock).Raw(hd.MerkleRoot).U32(hd.Timestamp).U32(hd.Bits).U32(hd.Nonce)
						if !bytes.Equal(hd.BlockHash(), oracle.DSha(w.B)) {
							return "block hash is not the double hash of the 80-byte header"
						}
					}
				}
				if kind != 1 && kind < 10 && kind != 7 {
					for _, n := range []int{0, 1, len(e) / 2, len(e) - 1} {
						if n < len(e) && oracle.Empty(kind, m).Decode(e[:n]) == nil {
							return fmt.Sprintf("decoding the first %d of %d bytes reports no error", n, len(e))
						}
					}
				}
				return ""
			})
		}
		// any bytes
		for k := 0; k < t.N(60000) && t.Time(0.95); k++ {
			var b []byte
			switch t.R.Intn(4) {
			case 0:
				b = t.Bytes(t.Len(200))
			case 1:
				w := &oracle.W{}
				b = w.Var(t.U64()).Raw(t.Bytes(t.Len(100))).B
			default:
				b = append([]byte{}, pool[t.R.Intn(len(pool))]...)
				for j := t.R.Intn(4); j > 0 && len(b) > 0; j-- {
					p := t.R.Intn(len(b))
					if t.R.Intn(2) == 0 {
						p = t.R.Intn(min(len(b), 10))
					}
					b[p] = []byte{0, 1, 0xfc, 0xfd, 0xfe, 0xff, 0x80}[t.R.Intn(7)]
				}
				if t.R.Intn(3) == 0 {
					b = b[:t.R.Intn(len(b)+1)]
				}
			}
			kind := t.R.Intn(oracle.Kinds)
			t.Case("any-bytes", fmt.Sprintf("kind %d %s", kind, cut(b)), func() string {
				m := oracle.Empty(kind, xprotocol.NewMsgUnhandle("q"))
				if err := m.Decode(b); err != nil {
					return ""
				}
				if l, ok := m.(*xprotocol.MsgGetHeaders); ok && m.Size() == 4+1+32+32 {
					_ = l // an empty locator list is encoded as the zero hash
					return ""
				}
				if len(b) < m.Size() {
					return fmt.Sprintf("%d bytes decode to a message of size %d", len(b), m.Size())
				}
				g := oracle.Empty(kind, xprotocol.NewMsgUnhandle("q"))
				if err := g.Decode(m.Encode()); err != nil || !reflect.DeepEqual(norm(m), norm(g)) {
					return fmt.Sprintf("decoded message does not survive: %v, %+v, %+v", err, m, g)
				}
				return ""
			})
		}
	})
}
