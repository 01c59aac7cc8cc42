package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"reflect"
	"runtime"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/zzverif/h"
	"github.com/keyfuse/tokucore/zzverif/oracle"
)

// conn is an in-memory net.Conn delivering at most step bytes a read.
type conn struct {
	in   []byte
	out  bytes.Buffer
	step int
}

func (c *conn) Read(p []byte) (int, error) {
	if len(c.in) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if c.step > 0 && n > c.step {
		n = c.step
	}
	n = copy(p[:n], c.in)
	c.in = c.in[n:]
	return n, nil
}
func (c *conn) Write(p []byte) (int, error)        { return c.out.Write(p) }
func (c *conn) Close() error                       { return nil }
func (c *conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (c *conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func cut(b []byte) string {
	if len(b) > 1000 {
		return fmt.Sprintf("%x... (%d bytes)", b[:1000], len(b))
	}
	return fmt.Sprintf("%x", b)
}

func same(a, b xprotocol.Message) bool {
	return reflect.TypeOf(a) == reflect.TypeOf(b) && a.Command() == b.Command() && bytes.Equal(a.Encode(), b.Encode())
}

func main() {
	h.Main("C28", func(t *h.T) {
		magics := [][]byte{network.MainNet.Magic, network.TestNet.Magic, {1, 2, 3, 4}, {0, 0, 0, 0}}
		var frames [][]byte
		for k := 0; k < t.N(2500) && t.Time(0.5); k++ {
			magic := magics[t.R.Intn(len(magics))]
			n := 1 + t.R.Intn(4)
			var ms []xprotocol.Message
			var want []byte
			for i := 0; i < n; i++ {
				m, wire := oracle.GenMsg(t, t.R.Intn(oracle.Kinds))
				if m == nil {
					continue
				}
				ms = append(ms, m)
				f := oracle.Frame(magic, m.Command(), wire)
				if len(f) < 600 {
					frames = append(frames, f)
				}
				want = append(want, f...)
			}
			step := []int{0, 1, 3, 7, 1000}[t.R.Intn(5)]
			t.Case("frames", fmt.Sprintf("magic %x %s", magic, cut(want)), func() string {
				c := &conn{step: step}
				s := xprotocol.NewStream(c, magic)
				for _, m := range ms {
					if err := s.WriteMessage(m); err != nil {
						return "write: " + err.Error()
					}
				}
				if !bytes.Equal(c.out.Bytes(), want) {
					return "written bytes are " + cut(c.out.Bytes())
				}
				tail := t.Bytes(t.Len(30))
				c.in = append(append([]byte{}, want...), tail...)
				for i, m := range ms {
					g, err := s.ReadMessage()
					if err != nil {
						return fmt.Sprintf("reading message %d: %v", i, err)
					}
					if !same(g, m) {
						return fmt.Sprintf("message %d reads as %T %+v, want %T %+v", i, g, g, m, m)
					}
				}
				if g, err := s.ReadMessage(); err == nil {
					return fmt.Sprintf("trailing bytes %x read as %+v", tail, g)
				}
				return ""
			})
		}
		bad := func(what string, b []byte, magic []byte) {
			t.Case("bad-"+what, cut(b), func() string {
				c := &conn{in: append([]byte{}, b...)}
				var m0, m1 runtime.MemStats
				runtime.ReadMemStats(&m0)
				g, err := xprotocol.NewStream(c, magic).ReadMessage()
				runtime.ReadMemStats(&m1)
				if err == nil {
					return fmt.Sprintf("accepted as %T %+v", g, g)
				}
				if d := m1.TotalAlloc - m0.TotalAlloc; d > 80<<20 {
					return fmt.Sprintf("%d bytes allocated for a frame of %d bytes", d, len(b))
				}
				return ""
			})
		}
		magic := network.MainNet.Magic
		base := oracle.Frame(magic, "ping", []byte{1, 2, 3, 4, 5, 6, 7, 8})
		for n := 0; n < len(base); n++ {
			bad("truncated", base[:n], magic)
		}
		for i := 0; i < 4; i++ {
			for _, x := range []byte{1, 0x80, 0xff} {
				b := append([]byte{}, base...)
				b[i] ^= x
				bad("magic", b, magic)
				b = append([]byte{}, base...)
				b[20+i] ^= x
				bad("checksum", b, magic)
			}
		}
		bad("magic", oracle.Frame(network.TestNet.Magic, "ping", make([]byte, 8)), magic)
		bad("magic", oracle.Frame(magic, "ping", make([]byte, 8)), network.TestNet.Magic)
		for _, size := range []uint32{0xffffffff, 0x80000000, 0x7fffffff, 1 << 30, 1 << 28, 200 << 20} {
			w := &oracle.W{}
			w.Raw(magic).Raw([]byte("ping\x00\x00\x00\x00\x00\x00\x00\x00")).U32(size).Raw([]byte{1, 2, 3, 4}).Raw(make([]byte, 40))
			bad("length", w.B, magic)
		}
		// an over-limit payload is refused even when it is all there
		big := make([]byte, 33<<20)
		bad("over-limit", oracle.Frame(magic, "tx", big), magic)
		t.Case("limit", "4000000", func() string {
			c := &conn{}
			s := xprotocol.NewStream(c, magic)
			m := xprotocol.NewMsgTx(big[:4000000])
			if err := s.WriteMessage(m); err != nil {
				return "write: " + err.Error()
			}
			if !bytes.Equal(c.out.Bytes(), oracle.Frame(magic, "tx", big[:4000000])) {
				return "wrong frame"
			}
			c.in = c.out.Bytes()
			if g, err := s.ReadMessage(); err != nil || !same(g, m) {
				return fmt.Sprint("read: ", err)
			}
			return ""
		})
		t.Case("connection", "", func() string {
			c := &conn{}
			n := network.TestNet
			m := xprotocol.NewMsgPing(77)
			if err := xprotocol.NewConnection(n, c, nil, nil).Send(m); err != nil {
				return err.Error()
			}
			if !bytes.Equal(c.out.Bytes(), oracle.Frame(n.Magic, "ping", m.Encode())) {
				return "wrong frame"
			}
			c.in = append(append([]byte{}, c.out.Bytes()...), c.out.Bytes()...)
			got, done := 0, 0
			xprotocol.NewConnection(n, c, func(_ *xprotocol.Connection, g xprotocol.Message) {
				if same(g, m) {
					got++
				}
			}, func(*xprotocol.Connection) { done++ }).ReadLoop()
			if got != 2 || done != 1 {
				return fmt.Sprintf("%d messages delivered, %d disconnects", got, done)
			}
			return ""
		})
		// mutated frames: whatever is accepted has the right magic, length and checksum
		for k := 0; k < t.N(40000) && t.Time(0.95); k++ {
			b := append([]byte{}, frames[t.R.Intn(len(frames))]...)
			for j := t.R.Intn(3); j >= 0; j-- {
				switch t.R.Intn(4) {
				case 0:
					b = b[:t.R.Intn(len(b)+1)]
				case 1:
					b = append(b, t.Bytes(t.Len(8))...)
				default:
					if len(b) > 0 {
						b[t.R.Intn(len(b))] ^= 1 << uint(t.R.Intn(8))
					}
				}
			}
			t.Case("mutated", cut(b), func() string {
				c := &conn{in: append([]byte{}, b...)}
				g, err := xprotocol.NewStream(c, magic).ReadMessage()
				if err != nil {
					return ""
				}
				n := 0
				ok := len(b) >= 24 && bytes.Equal(b[:4], magic)
				if ok {
					n = int(b[16]) | int(b[17])<<8 | int(b[18])<<16 | int(b[19])<<24
					ok = len(b) >= 24+n && bytes.Equal(oracle.DSha(b[24 : 24+n])[:4], b[20:24])
				}
				if !ok {
					return fmt.Sprintf("a frame whose magic, length or checksum is wrong was accepted as %T", g)
				}
				if g.Command() != string(bytes.TrimRight(b[4:16], "\x00")) {
					return "command " + g.Command()
				}
				return ""
			})
		}
	})
}
