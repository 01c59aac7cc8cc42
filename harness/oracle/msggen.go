package oracle

import (
	"bytes"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/zzverif/h"
)

// GenMsg makes a random message and its wire form.
func GenMsg(t *h.T, kind int) (xprotocol.Message, []byte) {
	w := &W{}
	n32 := func() uint32 { return uint32(t.U64()) }
	count := func(max int) int { return t.Len(20, 0, 1, 2, max, max-1, 252, 253, 254) }
	if max := 0; max == 1 {
		return nil, nil
	}
	switch kind {
	case 0:
		m := &xprotocol.MsgVersion{Version: n32(), Services: t.U64(), Timestamp: t.U64(), ServicesYou: t.U64(), AddressYou: t.Bytes(16), PortYou: n32() & 0xffff,
			ServicesMe: t.U64(), AddressMe: t.Bytes(16), PortMe: n32() & 0xffff, Nonce: t.U64(), UserAgent: string(t.Bytes(t.Len(300, 0, 252, 253, 254, 255, 256))), LastBlock: n32(), Relay: byte(t.R.Intn(256))}
		w.U32(m.Version).U64(m.Services).U64(m.Timestamp).U64(m.ServicesYou).Raw(m.AddressYou).U8(byte(m.PortYou >> 8)).U8(byte(m.PortYou)).
			U64(m.ServicesMe).Raw(m.AddressMe).U8(byte(m.PortMe >> 8)).U8(byte(m.PortMe)).U64(m.Nonce).VarBytes([]byte(m.UserAgent)).U32(m.LastBlock).U8(m.Relay)
		return m, w.B
	case 1:
		return xprotocol.NewMsgVerAck(), nil
	case 2, 3:
		n := count(600)
		if t.R.Intn(60) == 0 {
			n = 50000 - t.R.Intn(2)
		}
		var l []*xprotocol.InvVect
		w.Var(uint64(n))
		for i := 0; i < n; i++ {
			v := xprotocol.NewInvVect(xprotocol.InvType(n32()), t.Bytes(32))
			l = append(l, v)
			w.U32(uint32(v.Type)).Raw(v.Hash)
		}
		if kind == 2 {
			m := xprotocol.NewMsgInv()
			if m.AddInvVect(l...) != nil {
				return nil, nil
			}
			return m, w.B
		}
		m := xprotocol.NewMsgGetData()
		if m.AddInvVect(l...) != nil {
			return nil, nil
		}
		return m, w.B
	case 4:
		n := t.Len(100, 1, 2, 100, 101)
		if n == 0 {
			n = 1
		}
		v := n32()
		m := xprotocol.NewMsgGetHeaders(&network.Network{ProtocolVersion: v})
		w.U32(v).Var(uint64(n))
		for i := 0; i < n; i++ {
			x := t.Bytes(32)
			w.Raw(x)
			if m.AddBlockLocatorHash(x) != nil {
				return nil, nil
			}
		}
		if t.R.Intn(2) == 0 {
			w.Raw(make([]byte, 32))
			return m, w.B
		}
		// a stop hash can only come from the wire
		w.Raw(t.Bytes(32))
		m = xprotocol.NewMsgGetHeaders(&network.Network{ProtocolVersion: ^v})
		if m.Decode(w.B) != nil {
			return nil, nil
		}
		return m, w.B
	case 5:
		n := count(300)
		if t.R.Intn(40) == 0 {
			n = 2000 - t.R.Intn(2)
		}
		m := xprotocol.NewMsgHeaders()
		w.Var(uint64(n))
		for i := 0; i < n; i++ {
			b := &xprotocol.BlockHeader{Version: n32(), PrevBlock: t.Bytes(32), MerkleRoot: t.Bytes(32), Timestamp: n32(), Bits: n32(), Nonce: n32()}
			w.U32(b.Version).Raw(b.PrevBlock).Raw(b.MerkleRoot).U32(b.Timestamp).U32(b.Bits).U32(b.Nonce).U8(0)
			if m.AddBlockHeader(b) != nil {
				return nil, nil
			}
		}
		return m, w.B
	case 6:
		cmd := []string{"tx", "block", "version", "", "inv", string(bytes.Repeat([]byte{'x'}, 253))}[t.R.Intn(6)]
		m := xprotocol.NewMsgReject(cmd, xprotocol.RejectCode(t.R.Intn(256)), string(t.Bytes(t.Len(300, 0, 252, 253, 255, 256))))
		w.VarBytes([]byte(cmd)).U8(m.Code).VarBytes([]byte(m.Reason))
		if cmd == "tx" || cmd == "block" {
			m.Hash = t.Bytes(32)
			w.Raw(m.Hash)
		}
		return m, w.B
	case 7:
		m := xprotocol.NewMsgTx(t.Bytes(t.Len(500, 0, 1)))
		return m, append([]byte{}, m.Data...)
	case 8:
		m := xprotocol.NewMsgPing(t.U64())
		return m, w.U64(m.Nonce).B
	case 9:
		m := xprotocol.NewMsgPong(t.U64())
		return m, w.U64(m.Nonce).B
	}
	return xprotocol.NewMsgUnhandle([]string{"block", "getblocks", "sendheaders", "x", "abcdefghijkl"}[t.R.Intn(5)]), nil
}

// Empty is an empty message of the kind.
func Empty(kind int, m xprotocol.Message) xprotocol.Message {
	switch kind {
	case 0:
		return &xprotocol.MsgVersion{}
	case 1:
		return &xprotocol.MsgVerAck{}
	case 2:
		return &xprotocol.MsgInv{}
	case 3:
		return &xprotocol.MsgGetData{}
	case 4:
		return &xprotocol.MsgGetHeaders{}
	case 5:
		return &xprotocol.MsgHeaders{}
	case 6:
		return &xprotocol.MsgReject{}
	case 7:
		return &xprotocol.MsgTx{}
	case 8:
		return &xprotocol.MsgPing{}
	case 9:
		return &xprotocol.MsgPong{}
	}
	return xprotocol.NewMsgUnhandle(m.Command())
}

// Kinds is the number of kinds GenMsg knows.
const Kinds = 11
