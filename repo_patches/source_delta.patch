From fd4bc9b0d421f6fb5690df0282bc751fc00adbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 01/59] fix: Buffer.check rejects negative read lengths

ReadBytes and ReadVarBytes with a decoded length of 2^63 or more turned it
into a negative int, which passed the bounds check and panicked in make.
---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..021b3da 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > (b.length-b.seek) {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From 7714f336164f11a03aaf03792a4dd233d763d6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 02/59] fix: ScriptNum.Bytes no longer panics on the smallest
 int64

---
 xvm/scriptnum.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xvm/scriptnum.go b/xvm/scriptnum.go
index 3ee6217..a292c7d 100644
--- a/xvm/scriptnum.go
+++ b/xvm/scriptnum.go
@@ -38,9 +38,9 @@ func (n ScriptNum) Bytes() []byte {
 		return nil
 	}
 	neg := n < 0
-	absvalue := n
+	absvalue := uint64(n)
 	if neg {
-		absvalue = -n
+		absvalue = -absvalue
 	}
 
 	// Encode to little endian.
-- 
2.43.0


From bed79c163f7719f511aaa7682c8540e3ff457f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 03/59] fix: give OP_1NEGATE an opcode entry so the pushes
 ScriptBuilder emits for -1 can be read and run

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..3f68382 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -18,3 +18,9 @@ func opN(vm *Engine) error {
 	vm.dstack.PushInt(ScriptNum((vm.instruction.op.value - (OP_1 - 1))))
 	return nil
 }
+
+// op1Negate -- pushes the number -1 onto the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
-- 
2.43.0


From 30f900f4c25c46ca386b6a299e120f4a4c8b66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 04/59] fix: refuse frames with another network's magic, an
 over-limit length or an over-long command

---
 xprotocol/stream.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..f109689 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,9 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+	// maxPayloadSize is the largest payload a message may have.
+	maxPayloadSize = 32 * 1024 * 1024
+	commandSize    = 12
 )
 
 // Stream --
@@ -71,7 +74,10 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
-	command := make([]byte, 12)
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch[got:%x,want:%x]", magic, s.magic)
+	}
+	command := make([]byte, commandSize)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
 	}
@@ -79,6 +85,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
 		return nil, err
 	}
+	if size > maxPayloadSize {
+		return nil, fmt.Errorf("stream.read.payload.too.large[size:%v,max:%v]", size, maxPayloadSize)
+	}
 	check := make([]byte, 4)
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
@@ -109,11 +118,17 @@ func (s *Stream) WriteMessage(msg Message) error {
 
 	var b bytes.Buffer
 	b.Write(s.magic)
-	command := make([]byte, 12)
+	if len(msg.Command()) > commandSize {
+		return fmt.Errorf("stream.write.command.too.long[%v]", msg.Command())
+	}
+	command := make([]byte, commandSize)
 	copy(command, []byte(msg.Command()))
 	b.Write(command)
 
 	datas := msg.Encode()
+	if len(datas) > maxPayloadSize {
+		return fmt.Errorf("stream.write.payload.too.large[size:%v,max:%v]", len(datas), maxPayloadSize)
+	}
 	if err := binary.Write(&b, binary.LittleEndian, uint32(len(datas))); err != nil {
 		return err
 	}
-- 
2.43.0


From f424278bc481d855959c151a5c3c7dd66a5bc83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 05/59] fix: decode received ping and pong messages

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..3bbaa23 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -29,6 +29,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgTx{}
 	case CommandHeaders:
 		return &MsgHeaders{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandReject:
 		return &MsgReject{}
 	}
-- 
2.43.0


From 906c642efffb06663ec7b312cea85f836480288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 06/59] fix: the size of reject, verack, getheaders and
 unhandled messages is the length of their encoding

---
 xprotocol/msggetheaders.go | 4 ++++
 xprotocol/msgreject.go     | 7 ++++++-
 xprotocol/msgunhandle.go   | 2 +-
 xprotocol/msgverack.go     | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..3d090f9 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -77,6 +77,10 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 func (m *MsgGetHeaders) Size() int {
 	size := 4
 	size += xbase.VarIntSerializeSize(uint64(len(m.blockLocatorHashes)))
+	if len(m.blockLocatorHashes) == 0 {
+		// Encode adds the zero hash.
+		size += 32
+	}
 	for _, hdr := range m.blockLocatorHashes {
 		size += len(hdr)
 	}
diff --git a/xprotocol/msgreject.go b/xprotocol/msgreject.go
index 9a50602..40d07cc 100644
--- a/xprotocol/msgreject.go
+++ b/xprotocol/msgreject.go
@@ -77,7 +77,12 @@ func (m *MsgReject) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgReject) Size() int {
-	return len(m.Cmd) + 1 + len(m.Reason) + len(m.Hash)
+	size := xbase.VarIntSerializeSize(uint64(len(m.Cmd))) + len(m.Cmd) + 1 +
+		xbase.VarIntSerializeSize(uint64(len(m.Reason))) + len(m.Reason)
+	if m.Cmd == CommandBlock || m.Cmd == CommandTx {
+		size += len(m.Hash)
+	}
+	return size
 }
 
 // Command -- returns the protocal command string of this message.
diff --git a/xprotocol/msgunhandle.go b/xprotocol/msgunhandle.go
index d8c31b1..19b7728 100644
--- a/xprotocol/msgunhandle.go
+++ b/xprotocol/msgunhandle.go
@@ -29,7 +29,7 @@ func (m *MsgUnhandle) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgUnhandle) Size() int {
-	return len(m.command)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
diff --git a/xprotocol/msgverack.go b/xprotocol/msgverack.go
index ceddcf9..d9fb118 100644
--- a/xprotocol/msgverack.go
+++ b/xprotocol/msgverack.go
@@ -25,7 +25,7 @@ func (m *MsgVerAck) Decode(data []byte) error {
 
 // Size -- the size of the message.
 func (m *MsgVerAck) Size() int {
-	return len(CommandVersionAck)
+	return 0
 }
 
 // Command -- returns the protocol command of this message.
-- 
2.43.0


From 0d77d30c5f71b34a920b049335b5fea1b1b985d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 07/59] fix: decode the stop hash of a getheaders message

---
 xprotocol/msggetheaders.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 3d090f9..773a553 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -70,6 +70,11 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(len(m.blockStopHash))
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
-- 
2.43.0


From e2c184a06283d1b6890d31b89f950979425bb1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:14 +0000
Subject: [PATCH 08/59] fix: adding or decoding several headers or inventory
 vectors cannot exceed the message limit

---
 xprotocol/msggetdata.go    | 1 +
 xprotocol/msggetheaders.go | 1 +
 xprotocol/msgheaders.go    | 6 +++++-
 xprotocol/msginv.go        | 3 ++-
 4 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msggetdata.go b/xprotocol/msggetdata.go
index 4253f16..796ea88 100644
--- a/xprotocol/msggetdata.go
+++ b/xprotocol/msggetdata.go
@@ -51,6 +51,7 @@ func (m *MsgGetData) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.InvList = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 773a553..1db701f 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -61,6 +61,7 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	m.blockLocatorHashes = nil
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..b5a1058 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
@@ -60,6 +60,10 @@ func (m *MsgHeaders) Decode(data []byte) error {
 		return err
 	}
 
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
+	m.Headers = nil
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
 		if header.Version, err = buffer.ReadU32(); err != nil {
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..bb56404 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
@@ -51,6 +51,7 @@ func (m *MsgInv) Decode(data []byte) error {
 	if count > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
+	m.Invs = nil
 	for i := 0; i < int(count); i++ {
 		var typ uint32
 		var hash []byte
-- 
2.43.0


From 0e8f7a8f27df7661f4e914d91c9c5702559241be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 09/59] fix: version message carries 16-byte addresses and
 ports in network byte order

---
 xprotocol/msgversion.go | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/xprotocol/msgversion.go b/xprotocol/msgversion.go
index 7dc8c0e..29b5077 100644
--- a/xprotocol/msgversion.go
+++ b/xprotocol/msgversion.go
@@ -6,6 +6,7 @@
 package xprotocol
 
 import (
+	"net"
 	"time"
 
 	"github.com/keyfuse/tokucore/network"
@@ -68,9 +69,9 @@ func NewMsgVersion(network *network.Network) *MsgVersion {
 	return &MsgVersion{
 		Version:    network.ProtocolVersion,
 		Timestamp:  uint64(time.Now().Unix()),
-		AddressYou: []byte(ip),
+		AddressYou: net.ParseIP(ip).To16(),
 		PortYou:    network.Port,
-		AddressMe:  []byte(ip),
+		AddressMe:  net.ParseIP(ip).To16(),
 		PortMe:     network.Port,
 		UserAgent:  network.UserAgent,
 		LastBlock:  1,
@@ -85,10 +86,10 @@ func (m *MsgVersion) Encode() []byte {
 	buffer.WriteU64(m.Timestamp)
 	buffer.WriteU64(m.ServicesYou)
 	buffer.WriteBytes(m.AddressYou)
-	buffer.WriteU16(m.PortYou)
+	writePort(buffer, m.PortYou)
 	buffer.WriteU64(m.ServicesMe)
 	buffer.WriteBytes(m.AddressMe)
-	buffer.WriteU16(m.PortMe)
+	writePort(buffer, m.PortMe)
 	buffer.WriteU64(m.Nonce)
 	buffer.WriteVarString(m.UserAgent)
 	buffer.WriteU32((m.LastBlock))
@@ -116,7 +117,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressYou, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortYou, err = buffer.ReadU16(); err != nil {
+	if m.PortYou, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.ServicesMe, err = buffer.ReadU64(); err != nil {
@@ -125,7 +126,7 @@ func (m *MsgVersion) Decode(data []byte) error {
 	if m.AddressMe, err = buffer.ReadBytes(16); err != nil {
 		return err
 	}
-	if m.PortMe, err = buffer.ReadU16(); err != nil {
+	if m.PortMe, err = readPort(buffer); err != nil {
 		return err
 	}
 	if m.Nonce, err = buffer.ReadU64(); err != nil {
@@ -155,3 +156,21 @@ func (m *MsgVersion) Size() int {
 func (m *MsgVersion) Command() string {
 	return CommandVersion
 }
+
+// writePort -- ports are in network byte order on the wire.
+func writePort(buffer *xbase.Buffer, port uint32) {
+	buffer.WriteU8(uint8(port >> 8))
+	buffer.WriteU8(uint8(port))
+}
+
+func readPort(buffer *xbase.Buffer) (uint32, error) {
+	hi, err := buffer.ReadU8()
+	if err != nil {
+		return 0, err
+	}
+	lo, err := buffer.ReadU8()
+	if err != nil {
+		return 0, err
+	}
+	return uint32(hi)<<8 | uint32(lo), nil
+}
-- 
2.43.0


From 32634310de3bc9c80affbd530c0b01dbcab1be34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 10/59] fix: a getheaders message cannot exceed the protocol's
 number of block locators

---
 xprotocol/msggetheaders.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 1db701f..74deaac 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -6,10 +6,15 @@
 package xprotocol
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 )
 
+// MaxBlockLocatorsPerMsg -- the maximum number of block locator hashes in a getheaders message.
+const MaxBlockLocatorsPerMsg = 101
+
 // MsgGetHeaders --
 type MsgGetHeaders struct {
 	protocolVersion    uint32
@@ -26,6 +31,9 @@ func NewMsgGetHeaders(net *network.Network) *MsgGetHeaders {
 
 // AddBlockLocatorHash -- adds the block locator hash to message.
 func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
+	if len(m.blockLocatorHashes)+1 > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	m.blockLocatorHashes = append(m.blockLocatorHashes, hash)
 	return nil
 }
-- 
2.43.0


From a4b6413e1da3363b6d929b21d54f9d0d6a62d089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:34 +0000
Subject: [PATCH 11/59] fix: a pending read does not block sends on the same
 connection

---
 xprotocol/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index f109689..897d51b 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -47,7 +47,8 @@ const (
 type Stream struct {
 	magic  []byte
 	conn   net.Conn
-	mutex  sync.Mutex
+	rmutex sync.Mutex
+	wmutex sync.Mutex
 	reader *bufio.Reader
 	writer *bufio.Writer
 }
@@ -64,8 +65,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.rmutex.Lock()
+	defer s.rmutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -110,8 +111,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.wmutex.Lock()
+	defer s.wmutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From f1c9b00b064a75c22bfe5efce8beb19d43f10962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:05 +0000
Subject: [PATCH 12/59] fix: a getheaders message announcing more locators than
 the limit is an error

---
 xprotocol/msggetheaders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 74deaac..7049f26 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -69,6 +69,9 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	m.blockLocatorHashes = nil
 	for i := 0; i < int(count); i++ {
 		var hash []byte
-- 
2.43.0


From f5542b5fb9d89518357e1a2a0bc208d36758e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 13/59] fix: parsing a transaction allocates by what it reads,
 not by announced counts

---
 xcore/transaction.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..29ffc99 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -522,9 +522,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -538,7 +538,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -547,9 +547,9 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -557,7 +557,7 @@ func (tx *Transaction) Deserialize(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
@@ -570,11 +570,12 @@ func (tx *Transaction) Deserialize(data []byte) error {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
@@ -634,9 +635,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.inputs = nil
 	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
+		for i := uint64(0); i < ins; i++ {
 			txIn := &TxIn{}
 			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
 				return err
@@ -650,7 +651,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
 				return err
 			}
-			tx.inputs[i] = txIn
+			tx.inputs = append(tx.inputs, txIn)
 		}
 	}
 
@@ -659,9 +660,9 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
+	tx.outputs = nil
 	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
+		for i := uint64(0); i < outs; i++ {
 			txOut := &TxOut{}
 			if txOut.Value, err = buffer.ReadU64(); err != nil {
 				return err
@@ -669,7 +670,7 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
 				return err
 			}
-			tx.outputs[i] = txOut
+			tx.outputs = append(tx.outputs, txOut)
 		}
 	}
 
-- 
2.43.0


From 25791c0445023865042a6132a2cc548cdbca561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 14/59] fix: a transaction is serialized with witnesses exactly
 when an input carries one, also after parsing

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 29ffc99..ef213a4 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -434,7 +434,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if len(in.Witness) > 0 {
 			return true
 		}
 	}
-- 
2.43.0


From 9dc9e05deeccb8ce1140b3dd4351ac0c5cd03802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:31 +0000
Subject: [PATCH 15/59] fix: transaction sizes and weight match the serialized
 bytes of witness transactions

---
 xcore/transaction.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index ef213a4..a6df51f 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -747,8 +747,13 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		// The unlocking script of a witness input is in its witness.
+		unlocking := in.RawUnlockingScript
+		if in.HasWitness() {
+			unlocking = nil
+		}
+		size += xbase.VarIntSerializeSize(uint64(len(unlocking)))
+		size += len(unlocking)
 		size += 4
 	}
 
@@ -784,19 +789,21 @@ func (tx *Transaction) WitnessSize() int {
 
 // Weight -- defined as Base transaction size * 3 + Total transaction size.
 func (tx *Transaction) Weight() int {
-	baseSize := tx.BaseSize()
-	witnessSize := tx.WitnessSize()
-	return baseSize*(witnessScaleFactor-1) + (baseSize + witnessSize)
+	return tx.BaseSize()*(witnessScaleFactor-1) + tx.Size()
 }
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
 func (tx *Transaction) Size() int {
-	return tx.BaseSize() + tx.WitnessSize()
+	size := tx.BaseSize() + tx.WitnessSize()
+	if tx.HasWitness() {
+		size += 2 // witness marker and flag
+	}
+	return size
 }
 
 // Fees -- returns the transaction fees.
-- 
2.43.0


From 0459fd9d0e3eedb82dce4a9eb242ff8465c10f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 16/59] fix: the legacy signature hash commits to the
 transaction for every hash type

---
 xcore/transaction.go | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index a6df51f..c447746 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -278,15 +278,35 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 }
 
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
+// If the index is out of the inputs, returns nil.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
+	if idx < 0 || idx >= len(tx.inputs) {
+		return nil
+	}
+	anyOneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+	single := (hashType & sigHashMask) == SigHashSingle
+	none := (hashType & sigHashMask) == SigHashNone
+
+	// There is no output to sign, by consensus the hash is the number one.
+	if single && idx >= len(tx.outputs) {
+		hash := make([]byte, hashSize)
+		hash[0] = 0x01
+		return hash
+	}
+
 	buffer := xbase.NewBuffer()
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if anyOneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
+	}
+	for i, in := range tx.inputs {
+		if i == idx || !anyOneCanPay {
 			buffer.WriteBytes(in.Hash)
 			buffer.WriteU32(in.Index)
 			if i == idx {
@@ -299,9 +319,29 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 			} else {
 				buffer.WriteVarBytes(nil)
 			}
-			buffer.WriteU32(in.Sequence)
+			// The other inputs can update their sequence.
+			if i != idx && (single || none) {
+				buffer.WriteU32(0)
+			} else {
+				buffer.WriteU32(in.Sequence)
+			}
 		}
+	}
 
+	// outputs
+	switch {
+	case none:
+		buffer.WriteVarInt(0)
+	case single:
+		// Only the output of the same index is signed, the outputs before are empty ones.
+		buffer.WriteVarInt(uint64(idx) + 1)
+		for i := 0; i < idx; i++ {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+		}
+		buffer.WriteU64(tx.outputs[idx].Value)
+		buffer.WriteVarBytes(tx.outputs[idx].Script)
+	default:
 		buffer.WriteVarInt(uint64(len(tx.outputs)))
 		for _, out := range tx.outputs {
 			buffer.WriteU64(out.Value)
-- 
2.43.0


From 6dc52cea70d43455f9835753ae10e2c5d3510002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 17/59] fix: the witness signature hash is computed from the
 present transaction and covers the output of SINGLE

---
 xcore/transaction.go | 91 +++++++++++++++++++++-----------------------
 1 file changed, 43 insertions(+), 48 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index c447746..2c1cb26 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -356,68 +353,66 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 }
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
+// If the index is out of the inputs, returns nil.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
 	var zeroHash [32]byte
+	if idx < 0 || idx >= len(tx.inputs) {
+		return nil
+	}
 	txIn := tx.inputs[idx]
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
+	// If anyone can pay isn't active, then it covers all the outpoints,
+	// otherwise we just write zeroes for the prev outs.
+	hashPrevouts := zeroHash[:]
 	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
-	// hashSequence.
+	// If the sighash isn't anyone can pay, single, or none, then it covers
+	// all the sequences, otherwise write all zeroes for the hashSequence.
+	hashSequence := zeroHash[:]
 	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// If the current signature mode isn't single, or none, then it covers
+	// all the outputs. If it is single, we'll serialize and add only the
+	// target output index to the signature pre-image.
+	hashOutputs := zeroHash[:]
+	if (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	} else if (hashType&sigHashMask) == SigHashSingle && idx < len(tx.outputs) {
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From 9589fbf97416d7a321e0be8284af55c21e00b3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 18/59] fix: signing or setting an input out of the transaction
 is an error

---
 xcore/transaction.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 2c1cb26..f857af8 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -137,6 +137,11 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	// Sanity check.
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -204,6 +209,11 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	// Sanity check.
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -243,6 +253,11 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
+	// Sanity check.
+	if inputs := len(tx.inputs); idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+
 	txIn := tx.inputs[idx]
 
 	// Sanity check.
@@ -422,10 +437,15 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
+	// With SINGLE there must be an output to sign.
+	if outputs := len(tx.outputs); (hashType&sigHashMask) == SigHashSingle && idx >= outputs {
+		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, outputs)
+	}
+
 	txIn := tx.inputs[idx]
 	txIn.SignatureHash = tx.RawSignatureHash(idx, hashType)
 	signature, err := xcrypto.EcdsaSign(prv, txIn.SignatureHash)
@@ -442,7 +462,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 
 	// Sanity Check
 	inputs := len(tx.inputs)
-	if idx >= inputs {
+	if idx < 0 || idx >= inputs {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
 	}
 
-- 
2.43.0


From 6223a7630881fdf8f28126e0e4985d4599270ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 19/59] fix: a failure to build the unlocking script is
 reported

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index f857af8..a4d3aed 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -271,7 +271,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-- 
2.43.0


From e61950e71696c2906678e920b67d0b36cc1d2b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:16 +0000
Subject: [PATCH 20/59] fix: embedding an ecdsa signature does not write into
 the caller's slice

---
 xcore/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index a4d3aed..1032eea 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -284,7 +284,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := append(append([]byte(nil), ecdsaSig...), byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
-- 
2.43.0


From d96216cac8e7b3b9f0ef7f0a67c667f4674787d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 21/59] fix: a wrong number of signatures or witness items for
 a public key hash is an error

---
 xcore/error.go            |  6 ++++++
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go | 16 ++++++++++++++++
 3 files changed, 27 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..8ba84c8 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -21,6 +21,9 @@ const (
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED    int = 4105
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED        int = 4106
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW                int = 4107
+	ER_SCRIPT_SIGNATURES_MISMATCH                  int = 4108
+	ER_SCRIPT_REDEEM_MISMATCH                      int = 4109
+	ER_SCRIPT_WITNESS_MALFORMED                    int = 4110
 	ER_TRANSACTION_SIGN_OUT_INDEX                  int = 5000
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY               int = 5001
 	ER_TRANSACTION_VERIFY_FAILED                   int = 5002
@@ -48,6 +51,9 @@ var Errors = map[int]*xerror.Error{
 	ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED:    {Num: ER_SCRIPT_STANDARD_ADDRESS_TYPE_UNSUPPORTED, State: "TS000", Message: "script.standard.unsupported.address.type[%v]"},
 	ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED:        {Num: ER_SCRIPT_STANDARD_PUBKEYS_LE_NREQUIRED, State: "TS000", Message: "script.standard.pubkeys[%v].less.than.nrequired[%v]"},
 	ER_SCRIPT_SIGNATURE_TYPE_UNKNOW:                {Num: ER_SCRIPT_SIGNATURE_TYPE_UNKNOW, State: "TS000", Message: "script.signature.type.unknow[%v]"},
+	ER_SCRIPT_SIGNATURES_MISMATCH:                  {Num: ER_SCRIPT_SIGNATURES_MISMATCH, State: "TS000", Message: "script.signatures.want[%v].got[%v]"},
+	ER_SCRIPT_REDEEM_MISMATCH:                      {Num: ER_SCRIPT_REDEEM_MISMATCH, State: "TS000", Message: "script.redeem.mismatch.want.hash[%x]"},
+	ER_SCRIPT_WITNESS_MALFORMED:                    {Num: ER_SCRIPT_WITNESS_MALFORMED, State: "TS000", Message: "script.witness.malformed.items[%v]"},
 	ER_TRANSACTION_SIGN_OUT_INDEX:                  {Num: ER_TRANSACTION_SIGN_OUT_INDEX, State: "TTX00", Message: "transaction.sign.idx[%v].out.index[%v]"},
 	ER_TRANSACTION_SIGN_REDEEM_EMPTY:               {Num: ER_TRANSACTION_SIGN_REDEEM_EMPTY, State: "TTX00", Message: "transaction.sign.idx[%v].redeem.can.not.be.nil.since.keys[%v]>1"},
 	ER_TRANSACTION_VERIFY_FAILED:                   {Num: ER_TRANSACTION_VERIFY_FAILED, State: "TTX00", Message: "transaction.verify.for.input[%v].referencing[%v].at[%v].failed"},
diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..a31812a 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +57,10 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	// One key, one signature.
+	if len(signs) != 1 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURES_MISMATCH, 1, len(signs))
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..a9510ad 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -50,12 +51,20 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	// One key, one signature.
+	if len(signs) != 1 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURES_MISMATCH, 1, len(signs))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	// One key, one signature.
+	if len(signs) != 1 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURES_MISMATCH, 1, len(signs))
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
@@ -80,6 +89,13 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	// Not signed.
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	if len(witness) != 2 {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_WITNESS_MALFORMED, len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
-- 
2.43.0


From e755a61f1360b7bc759291bcae1d119beb5b0be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:49 +0000
Subject: [PATCH 22/59] fix: signing a script hash reports a redeem script of
 another hash and a wrong number of signatures

---
 xcore/script_multsig.go  |  9 +++++++++
 xcore/script_p2sh.go     | 11 +++++++++++
 xcore/script_p2wsh_v0.go |  6 ++++++
 3 files changed, 26 insertions(+)

diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..6bac2b7 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -125,3 +125,12 @@ func isMultiSig(instrs []xvm.Instruction) bool {
 	}
 	return true
 }
+
+// multiSigRequired -- returns the number of the required signatures if the redeem is a multisig script.
+func multiSigRequired(redeem []byte) (int, bool) {
+	instrs, err := xvm.NewScriptReader(redeem).AllInstructions()
+	if err != nil || !isMultiSig(instrs) {
+		return 0, false
+	}
+	return asSmallInt(&instrs[0]), true
+}
diff --git a/xcore/script_p2sh.go b/xcore/script_p2sh.go
index 3a39214..c3bdca7 100644
--- a/xcore/script_p2sh.go
+++ b/xcore/script_p2sh.go
@@ -6,6 +6,10 @@
 package xcore
 
 import (
+	"bytes"
+
+	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -52,6 +56,13 @@ func (s *PayToScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: OP_0 <A sig> <C sig> <redeemScript>
 // witness:   (empty)
 func (s *PayToScriptHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if !bytes.Equal(xcrypto.Hash160(redeem), s.hash) {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_REDEEM_MISMATCH, s.hash)
+	}
+	// A multisig redeem takes exactly the required signatures.
+	if nrequired, ok := multiSigRequired(redeem); ok && len(signs) != nrequired {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURES_MISMATCH, nrequired, len(signs))
+	}
 	builder := xvm.NewScriptBuilder()
 	if len(signs) > 0 {
 		builder.AddOp(xvm.OP_0)
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..978690d 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -10,6 +10,7 @@ import (
 	"fmt"
 
 	"github.com/keyfuse/tokucore/xcrypto"
+	"github.com/keyfuse/tokucore/xerror"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -70,6 +71,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetWitnessUnlockingScriptBytes(signs []
 		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetUnlockingScriptBytes.error:sha256(redeem)!=s.hash")
 	}
 
+	// A multisig redeem takes exactly the required signatures.
+	if nrequired, ok := multiSigRequired(redeem); ok && len(signs) != nrequired {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_SIGNATURES_MISMATCH, nrequired, len(signs))
+	}
+
 	var witness [][]byte
 	if len(signs) > 0 {
 		// Dummy for CHECKMULTSIG.
-- 
2.43.0


From 8a67aea1dba097df2a6cf0c29fc163097c43bc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:51 +0000
Subject: [PATCH 23/59] fix: a witness script hash output can not be spent with
 a script of another hash

---
 xcore/script_p2wsh_v0.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 978690d..2e97b5e 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -48,6 +48,10 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// The output commits to sha256(redeem), the script run for it commits to the hash160.
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, xerror.NewError(Errors, ER_SCRIPT_REDEEM_MISMATCH, s.hash)
+	}
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
-- 
2.43.0


From fac423ce4bcc806e6d2de4d3522f706ee4249072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:54 +0000
Subject: [PATCH 24/59] fix: the witness of every witness script is read, not
 only of multisig ones

---
 xcore/script_p2wsh_v0.go | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 2e97b5e..00b3cb3 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -109,19 +109,16 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	// Not signed.
+	if len(witness) == 0 {
+		return nil, nil
+	}
+	// The items and the redeem(the last item).
+	builder := xvm.NewScriptBuilder()
+	for _, item := range witness {
+		builder.AddData(item)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
-- 
2.43.0


From f42b561d35bdd05e5e303669e9fc26c9fb3a04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:34 +0000
Subject: [PATCH 25/59] fix: a script ending inside a conditional fails, it can
 not skip the locking script

---
 xvm/engine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..10af114 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -156,6 +156,9 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	if len(vm.cstack) > 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "end.of.script.reached.in.conditional.execution")
+	}
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
@@ -184,5 +187,6 @@ func (vm *Engine) branchShouldSkip() bool {
 
 func (vm *Engine) reset() {
 	vm.pc = 0
+	vm.cstack = nil
 	vm.dstack.Clean()
 }
-- 
2.43.0


From 8d07e2f2055b5b71ca6181ad3f0c9a56e7e83c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:37 +0000
Subject: [PATCH 26/59] fix: verifying does not write into the unlocking
 script's slice

---
 xvm/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 10af114..a21a351 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -95,7 +95,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 
 	// Reset.
 	vm.reset()
-	script := append(unlocking, locking...)
+	script := append(append([]byte(nil), unlocking...), locking...)
 	if err := vm.execute(script, true); err != nil {
 		return err
 	}
-- 
2.43.0


From 05a4d232c38050605e924b2d750b4bc2153380bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:39 +0000
Subject: [PATCH 27/59] fix: the redeem script of a P2SH output is executed
 whatever the stack depth, and only for P2SH outputs

---
 xvm/engine.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index a21a351..ea507ab 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -101,7 +101,7 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -185,6 +185,15 @@ func (vm *Engine) branchShouldSkip() bool {
 	return vm.cstack[len(vm.cstack)-1] != OpCondTrue
 }
 
+// isScriptHash -- returns whether the locking is a P2SH one:
+// OP_HASH160 <20-byte hash> OP_EQUAL
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
+
 func (vm *Engine) reset() {
 	vm.pc = 0
 	vm.cstack = nil
-- 
2.43.0


From 12f1680390e6a279b1a43fdccf126e6e4e3524b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:10 +0000
Subject: [PATCH 28/59] fix: OP_CHECKMULTISIG refuses counts out of range and
 empty signatures instead of panicking

---
 xvm/instruction_crypto.go | 40 ++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..11a2075 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -12,6 +12,9 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// maxPubKeysPerMultiSig -- the maximum number of public keys of a multisig.
+const maxPubKeysPerMultiSig = 20
+
 // Stack:
 // [... signature pubkey] -> [... bool]
 func opHash160(vm *Engine) error {
@@ -74,12 +77,22 @@ func opCheckSigVerify(vm *Engine) error {
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys[%v].out.of.range", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:negative.signatures[%v]", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -121,17 +137,19 @@ func opCheckMultiSig(vm *Engine) error {
 	// Signature verify.
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
-		sig := signatures[sigIdx]
-		hashType := sig[len(sig)-1]
-		sigDER := sig[:len(sig)-1]
-
-		hash, err := vm.sigHasher(hashType)
-		if err != nil {
-			return err
-		}
-
-		if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
-			sigIdx++
+		// An empty signature is not valid for any pubkey.
+		if sig := signatures[sigIdx]; len(sig) > 0 {
+			hashType := sig[len(sig)-1]
+			sigDER := sig[:len(sig)-1]
+
+			hash, err := vm.sigHasher(hashType)
+			if err != nil {
+				return err
+			}
+
+			if err := vm.sigVerifier(hash, sigDER, pubKeys[pubKeyIdx]); err == nil {
+				sigIdx++
+			}
 		}
 		pubKeyIdx++
 		if (n - pubKeyIdx) < (m - sigIdx) {
-- 
2.43.0


From 0d6d97e0be5971494ad965913e332506128f3922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:11 +0000
Subject: [PATCH 29/59] fix: a segwit address without a witness version is an
 error

---
 xbase/witness.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..4854574 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,6 +15,9 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) < 1 {
+		return "", 0, nil, fmt.Errorf("missing witness version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
-- 
2.43.0


From d2ea805e49793ea94ed361f9fd08d09684a89eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:14 +0000
Subject: [PATCH 30/59] fix: bech32 encoding does not write into the caller's
 data

---
 xbase/bech32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..cfce241 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte(nil), data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0


From c5564a548e0e4505705ec6975e623971b6c636c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:16 +0000
Subject: [PATCH 31/59] fix: a segwit address whose human-readable part only
 begins like the network's is refused

---
 xcore/address.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/address.go b/xcore/address.go
index 16cf908..691272c 100644
--- a/xcore/address.go
+++ b/xcore/address.go
@@ -36,10 +36,13 @@ func DecodeAddress(addr string, net *network.Network) (Address, error) {
 	if oneIndex == 2 {
 		prefix := addr[:oneIndex]
 		if prefix == net.Bech32HRPSegwit {
-			_, version, witnessProgram, err := xbase.WitnessDecode(addr)
+			hrp, version, witnessProgram, err := xbase.WitnessDecode(addr)
 			if err != nil {
 				return nil, err
 			}
+			if hrp != net.Bech32HRPSegwit {
+				return nil, xerror.NewError(Errors, ER_ADDRESS_FORMAT_MALFORMED, addr)
+			}
 			switch version {
 			case 0x00:
 				switch len(witnessProgram) {
-- 
2.43.0


From 4145de26bb4ceb30bb1af98eeacd97acb5abbbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 32/59] fix: amounts that overflow are an error of the
 transaction builder

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 11 +++++++++++
 2 files changed, 13 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 8ba84c8..89b003b 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -34,6 +34,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW         int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -64,6 +65,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW:         {Num: ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, State: "TTB00", Message: "transaction.builder.amount[%v].overflow.total[%v]"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..53f3d0c 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -7,6 +7,7 @@ package xcore
 
 import (
 	"encoding/hex"
+	"math"
 
 	"github.com/keyfuse/tokucore/xbase"
 	"github.com/keyfuse/tokucore/xcrypto"
@@ -118,6 +119,10 @@ func (b *TransactionBuilder) SetChange(addr Address) *TransactionBuilder {
 
 // SendFees -- set the amount fee of this send.
 func (b *TransactionBuilder) SendFees(fees uint64) *TransactionBuilder {
+	// More than any max fee.
+	if fees > math.MaxInt64 {
+		fees = math.MaxInt64
+	}
 	b.sendFees = int64(fees)
 	return b
 }
@@ -195,6 +200,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
+				if grpinput.value > uint64(math.MaxInt64-totalIn) {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, grpinput.value, totalIn)
+				}
 				totalIn += int64(grpinput.value)
 
 				// inputs.
@@ -228,6 +236,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
+				if grpoutput.value > uint64(math.MaxInt64-totalOut) {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OVERFLOW, grpoutput.value, totalOut)
+				}
 				totalOut += int64(grpoutput.value)
 			}
 		}
-- 
2.43.0


From 2ecb8c6c687ae3efb5d1d650c62eade39c27c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 33/59] fix: an estimated fee out of range does not become
 negative

---
 xcore/estimate.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/estimate.go b/xcore/estimate.go
index bc27edf..2ec8acd 100644
--- a/xcore/estimate.go
+++ b/xcore/estimate.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"math"
+
 	"github.com/keyfuse/tokucore/xbase"
 )
 
@@ -131,5 +133,8 @@ func EstimateFees(estimateSize int64, relayFeePerKb int64) int64 {
 	if relayFeePerKb > 0 {
 		fees = (float64(relayFeePerKb) / float64(1000)) * float64(estimateSize)
 	}
+	if fees >= math.MaxInt64 {
+		return math.MaxInt64
+	}
 	return int64(fees)
 }
-- 
2.43.0


From 48cefe2a2cedf7b60b7e7e208f27ec6a2c31b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:55 +0000
Subject: [PATCH 34/59] fix: a nil change address is an error, not a panic

---
 xcore/transactionbuilder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 53f3d0c..87424a3 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -284,7 +284,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From 2ea64abf7bb5544f3bde8937adae2404d35c3ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:58 +0000
Subject: [PATCH 35/59] fix: the padding of a merkle level has no parent

---
 xcrypto/merkle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..332cb67 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -55,6 +55,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil {
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From 141403a5f412afe0f2f6bfe394d417709b34570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 36/59] fix: the merkle tree of no hashes does not panic

---
 xcrypto/merkle.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index 332cb67..98e1f08 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,9 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{{nil}}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
-- 
2.43.0


From ef2172d52bc9e26d3e25552ce790ddac08748df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:04 +0000
Subject: [PATCH 37/59] fix: a schnorr signature has 64 bytes

---
 xcrypto/signature_schnorr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 2a73302abc01fd7f3d1bf2ba9b6245463ee1264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:06 +0000
Subject: [PATCH 38/59] fix: schnorr verification refuses r equal to p and s
 equal to n

---
 xcrypto/schnorr/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..c9787e3 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -89,7 +89,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
-- 
2.43.0


From 81b354470228d916e40d835b9971794c4ff37b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:08 +0000
Subject: [PATCH 39/59] fix: negating a schnorr nonce does not change the
 party's nonce

---
 xcrypto/schnorr/schnorr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index c9787e3..4dc6b32 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -127,7 +127,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From 218ed5c532e0eb17e558e468231824c64683e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:11 +0000
Subject: [PATCH 40/59] fix: the challenge of an aggregate schnorr signature is
 over the aggregate nonce

---
 xcrypto/mpc_schnorr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
-- 
2.43.0


From 4947b5f2fe3e67b48e615a211a6da13ab5ff8767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:13 +0000
Subject: [PATCH 41/59] fix: R of a shared ecdsa signature is reduced modulo
 the group order

---
 xcrypto/mpc_ecdsa.go        | 2 +-
 xcrypto/scriptless_ecdsa.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..a369e94 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -158,7 +158,7 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 		return nil, errors.New("calculated S is zero")
 	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = new(big.Int).Mod(shareR.X, N)
 	esig.S = s
 	return esig.Serialize()
 }
diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..d96edc5 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -138,7 +138,7 @@ func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([
 		return nil, errors.New("calculated S is zero")
 	}
 	esig := NewSignatureEcdsa()
-	esig.R = shareR.X
+	esig.R = new(big.Int).Mod(shareR.X, N)
 	esig.S = s
 	return esig.Serialize()
 }
-- 
2.43.0


From f0d9be5a95376df7791eae0d4290e79c0526794f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:16 +0000
Subject: [PATCH 42/59] fix: a zero secret or signature does not panic in the
 scriptless phases

---
 xcrypto/scriptless_ecdsa.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index d96edc5..d5ba8e5 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -63,6 +63,9 @@ func (alice *EcdsaAlice) ScriptlessPhase6(alicesig *big.Int, bobsig *big.Int) *b
 	N := alice.N
 	t := new(big.Int).Set(alicesig)
 	bobsiginv := new(big.Int).ModInverse(bobsig, N)
+	if bobsiginv == nil {
+		return nil
+	}
 	t = t.Mul(t, bobsiginv).Mod(t, N)
 	return t
 }
@@ -116,6 +119,9 @@ func (bob *EcdsaBob) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.Int)
 	encprv := bob.encprv
 	secret := bob.secret
 	tinv := new(big.Int).ModInverse(secret, N)
+	if tinv == nil {
+		return nil, errors.New("secret is not invertible")
+	}
 
 	sig, err := encprv.Decrypt(sign2)
 	if err != nil {
-- 
2.43.0


From a8317e06979a56ccf6bb2558dcb6aeff500852d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 43/59] fix: bytes around the DER form of an ecdsa signature
 are an error

---
 xcrypto/signature_ecdsa.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..063a0b6 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,19 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	if _, err := asn1.Unmarshal(sign, sig); err != nil {
+		return err
+	}
+
+	// Strict: nothing but the DER form of the pair.
+	der, err := sig.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.der.malformed")
+	}
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From 5084f3a2a73932fe269658d6c68e56786a8504c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 44/59] fix: 0x05 is not a public key format

---
 xcrypto/pubkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcrypto/pubkey.go b/xcrypto/pubkey.go
index 622da2a..034c755 100644
--- a/xcrypto/pubkey.go
+++ b/xcrypto/pubkey.go
@@ -49,7 +49,7 @@ func PubKeyFromBytes(key []byte) (*PubKey, error) {
 	switch pkLen {
 	case pubKeyBytesLenUncompressed:
 		// Format invalid.
-		if format != pubkeyUncompressed && format != pubkeyHybrid {
+		if key[0] != pubkeyUncompressed && format != pubkeyHybrid {
 			return nil, fmt.Errorf("pubkey.format.invalid:%v", format)
 		}
 
-- 
2.43.0


From 3b19be0a6d5cc310f59c3e862a37af7d6c52b5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:24 +0000
Subject: [PATCH 45/59] fix: a compressed point of the wrong size or without a
 root is refused

---
 xcrypto/secp256k1/sec.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 77ee42f..92995fb 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -37,6 +37,9 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	curveParams := curve.Params()
 
 	// Check format.
+	if len(data) != 1+(curveParams.BitSize+7)>>3 {
+		return nil, nil
+	}
 	if (data[0] &^ 1) != 2 {
 		return nil, nil
 	}
@@ -46,7 +49,9 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-	Y.ModSqrt(ySquared, curveParams.P)
+	if Y.ModSqrt(ySquared, curveParams.P) == nil {
+		return nil, nil
+	}
 
 	// Y is odd or even.
 	if Y.Bit(0) != uint(data[0]&1) {
-- 
2.43.0


From 3c2f7994a7e606af9db9882147f7f0f12b9fbb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 46/59] fix: a paillier ciphertext is below the square of the
 modulus

---
 xcrypto/paillier/homomorphism.go | 8 ++++----
 xcrypto/paillier/paillier.go     | 7 ++++++-
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index f0cc373..eedb996 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -14,7 +14,7 @@ import (
 // MultPlaintext -- returns the ciphertext the will decipher to multiplication
 // of the plaintexts (i.e. if ct = Enc(m1), then Dec(MultPlaintext(ct, m2)) = m1 * m2 mod N).
 func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.validCiphertext(ct) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -24,7 +24,7 @@ func (pk *PubKey) MultPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // AddPlaintext -- returns the ciphertext the will decipher to addition
 // of the plaintexts (i.e if ct = Enc(m1), then Dec(AddPlaintext(ct, m2)) = m1 + m2 mod N)
 func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.validCiphertext(ct) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -36,7 +36,7 @@ func (pk *PubKey) AddPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // DivPlaintext -- returns the ciphertext the will decipher to division of the plaintexts
 // (i.e if ct = Enc(m1), then Dec(DivPlaintext(ct, m2)) = m1 / m2 mod N)
 func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !pk.validCiphertext(ct) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
@@ -47,7 +47,7 @@ func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 // the corresponding plaintext messages (`m1`, `m2`) ciphered to (`ct1`, `ct2`)
 // (i.e if ct1 = Enc(m1) and ct2 = Enc(m2), then Dec(Add(ct1, ct2)) = m1 + m2 mod N)
 func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
-	if ct1 == nil || ct2 == nil || ct1.Cmp(zero) != 1 || ct2.Cmp(zero) != 1 {
+	if !pk.validCiphertext(ct1) || !pk.validCiphertext(ct2) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	z := new(big.Int).Mul(ct1, ct2)
diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 07f964c..0113836 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -85,7 +85,7 @@ func (pk *PubKey) Encrypt(msg *big.Int) (*big.Int, error) {
 
 // Decrypt -- returns the plaintext corresponding to the ciphertext (ct).
 func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
-	if ct == nil || ct.Cmp(zero) != 1 {
+	if !sk.pk.validCiphertext(ct) {
 		return nil, fmt.Errorf("ciphertext.invalid")
 	}
 
@@ -97,6 +97,11 @@ func (sk *PrvKey) Decrypt(ct *big.Int) (*big.Int, error) {
 	return m, nil
 }
 
+// validCiphertext -- a ciphertext is in (0, n^2).
+func (pk *PubKey) validCiphertext(ct *big.Int) bool {
+	return ct != nil && ct.Cmp(zero) == 1 && ct.Cmp(pk.NN) == -1
+}
+
 // phi -- computes Euler's totient function `φ(p,q) = (p-1)*(q-1)`.
 func phi(x, y *big.Int) *big.Int {
 	p1 := new(big.Int).Sub(x, one)
-- 
2.43.0


From febdd51716a55f2d7cf294b90636922fbac302c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 47/59] fix: paillier key generation refuses equal primes

---
 xcrypto/paillier/paillier.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 0113836..156c9b5 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -43,6 +43,10 @@ func GenerateKeyPair(bitlen int) (*PubKey, *PrvKey, error) {
 		return nil, nil, err
 	}
 
+	if p.Cmp(q) == 0 {
+		return nil, nil, fmt.Errorf("primes.equal")
+	}
+
 	n := new(big.Int).Mul(p, q)
 	nn := new(big.Int).Mul(n, n)
 	g := new(big.Int).Add(n, one)
-- 
2.43.0


From 9ee2163f0c903446890ddca9b7dd67982c0e4adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:47 +0000
Subject: [PATCH 48/59] fix: the paillier randomiser is invertible

---
 xcrypto/paillier/paillier.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xcrypto/paillier/paillier.go b/xcrypto/paillier/paillier.go
index 156c9b5..ec460cc 100644
--- a/xcrypto/paillier/paillier.go
+++ b/xcrypto/paillier/paillier.go
@@ -130,5 +130,14 @@ func getPrimer(bits int) (*big.Int, error) {
 // TODO(BohuTANG): ensure {gcd(r,n)=1}
 // https://en.wikipedia.org/wiki/Paillier_cryptosystem#Encryption
 func getRandom(n *big.Int) (*big.Int, error) {
-	return rand.Int(rand.Reader, n)
+	// In (0, n) and coprime to n.
+	for {
+		r, err := rand.Int(rand.Reader, n)
+		if err != nil {
+			return nil, err
+		}
+		if new(big.Int).GCD(nil, nil, r, n).Cmp(one) == 0 {
+			return r, nil
+		}
+	}
 }
-- 
2.43.0


From 1dd0df6bd33fd152d4a9477a31e05cb977face16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:50 +0000
Subject: [PATCH 49/59] fix: a number without inverse does not panic in
 paillier division and subtraction

---
 xcrypto/paillier/homomorphism.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/xcrypto/paillier/homomorphism.go b/xcrypto/paillier/homomorphism.go
index eedb996..217383a 100644
--- a/xcrypto/paillier/homomorphism.go
+++ b/xcrypto/paillier/homomorphism.go
@@ -40,7 +40,10 @@ func (pk *PubKey) DivPlaintext(ct *big.Int, msg *big.Int) (*big.Int, error) {
 		return nil, fmt.Errorf("input.invalid")
 	}
 	m := new(big.Int).Set(msg)
-	return new(big.Int).Exp(ct, m.ModInverse(m, pk.NN), pk.NN), nil
+	if m.ModInverse(m, pk.NN) == nil {
+		return nil, fmt.Errorf("input.invalid")
+	}
+	return new(big.Int).Exp(ct, m, pk.NN), nil
 }
 
 // Add -- returns a ciphertext `ct3` that will decipher to the sum of
@@ -61,6 +64,9 @@ func (pk *PubKey) Add(ct1, ct2 *big.Int) (*big.Int, error) {
 // Note that the ciphertext produced by this operation will only make sense if m1>m2.
 func (pk *PubKey) Sub(ct1, ct2 *big.Int) *big.Int {
 	neg := new(big.Int).ModInverse(ct2, pk.NN)
+	if neg == nil {
+		return nil
+	}
 	neg.Mul(ct1, neg)
 	return neg.Mod(neg, pk.NN)
 }
-- 
2.43.0


From ef6f15b26fb6662d4b5d456e08f79a92ef554daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 50/59] fix: an empty step of a derivation path is an error,
 not a panic

---
 xcore/bip32/hdkey.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..7de79a8 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -178,7 +178,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
-- 
2.43.0


From b6c7c3fabbbd500be3633d23ea17323720a58444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:56 +0000
Subject: [PATCH 51/59] fix: a hardened path index out of range is an error

---
 xcore/bip32/hdkey.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 7de79a8..2d1af3f 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -188,6 +188,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From df486c0f662b50d0ed4ea4b4b61aa890987fcff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:59 +0000
Subject: [PATCH 52/59] fix: deriving beyond the depth limit or to an unusable
 child key is an error

---
 xcore/bip32/hdkey.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 2d1af3f..7bbce1a 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -9,6 +9,8 @@ import (
 	"bytes"
 	"crypto/rand"
 	"fmt"
+	"math"
+	"math/big"
 	"strconv"
 	"strings"
 
@@ -125,6 +127,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is one byte.
+	if k.depth == math.MaxUint8 {
+		return nil, fmt.Errorf("hdkey.derive.depth.exceeded")
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
@@ -142,22 +149,27 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 	}
 
 	prvkeyBytes := intermediary[:32]
+	if new(big.Int).SetBytes(prvkeyBytes).Cmp(k.PublicKey().Curve.Params().N) >= 0 {
+		return nil, fmt.Errorf("hdkey.derive.child.index[%v].unusable", childIdx)
+	}
 	if k.isPrivate {
 		pubkeyBytes := k.prvkey.PubKey().Serialize()
 		fingerprint := xcrypto.Hash160(pubkeyBytes)
 		childKey.parentFP = fingerprint[:4]
 		childKey.prvkey = k.prvkey.Add(prvkeyBytes)
+		if childKey.prvkey.D.Sign() == 0 {
+			return nil, fmt.Errorf("hdkey.derive.child.index[%v].unusable", childIdx)
+		}
 	} else {
 		pubkeyBytes := k.pubkey.Serialize()
 		fingerprint := xcrypto.Hash160(pubkeyBytes)
 		childKey.parentFP = fingerprint[:4]
 
 		privkey := xcrypto.PrvKeyFromBytes(prvkeyBytes)
-		p2, err := xcrypto.PubKeyFromBytes(privkey.PubKey().SerializeUncompressed())
-		if err != nil {
-			return nil, err
+		childKey.pubkey = k.pubkey.Add(privkey.PubKey())
+		if childKey.pubkey.X.Sign() == 0 && childKey.pubkey.Y.Sign() == 0 {
+			return nil, fmt.Errorf("hdkey.derive.child.index[%v].unusable", childIdx)
 		}
-		childKey.pubkey = k.pubkey.Add(p2)
 	}
 	return childKey, nil
 }
-- 
2.43.0


From e33284c481dddeb9920cdd70f0b6d6e10c9601de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 53/59] fix: an extended private key out of range is refused

---
 xcore/bip32/hdkey.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 7bbce1a..f8e9ccd 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -72,6 +72,9 @@ func NewHDKey(seed []byte) *HDKey {
 	keyBytes := intermediary[:32]
 	chainCode := intermediary[32:]
 	prvkey := xcrypto.PrvKeyFromBytes(keyBytes)
+	if prvkey.D.Sign() == 0 || prvkey.D.Cmp(prvkey.Curve.Params().N) >= 0 {
+		return nil
+	}
 	return &HDKey{
 		childNum:  []byte{0x00, 0x00, 0x00, 0x00},
 		parentFP:  []byte{0x00, 0x00, 0x00, 0x00},
@@ -316,6 +319,9 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	if data[45] == byte(0) {
 		k.isPrivate = true
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
+		if k.prvkey.D.Sign() == 0 || k.prvkey.D.Cmp(k.prvkey.Curve.Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.private.key.out.of.range")
+		}
 	} else {
 		k.isPrivate = false
 		pubkey, err := xcrypto.PubKeyFromBytes(data[45:78])
-- 
2.43.0


From a49e552f16dce4e6acde544e037c6a3e05ac5a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:04 +0000
Subject: [PATCH 54/59] fix: mnemonic entropy comes from the system's secure
 random source

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..a3c22c2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From 4af2a4df22b4a9bd0057b33d295705684c809c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:06 +0000
Subject: [PATCH 55/59] fix: a mnemonic is split the same way everywhere

---
 xcore/bip39/bip39.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a3c22c2..45a2c59 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -211,7 +211,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 // An error is returned if the mnemonic is invalid.
 func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	var (
-		mnemonicSlice    = strings.Split(mnemonic, " ")
+		mnemonicSlice    = strings.Fields(mnemonic)
 		entropyBitSize   = len(mnemonicSlice) * 11
 		checksumBitSize  = entropyBitSize % 32
 		fullByteSize     = (entropyBitSize-checksumBitSize)/8 + 1
-- 
2.43.0


From fcecd5e584501b0da568757e6158c0dd5fa8d70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:08 +0000
Subject: [PATCH 56/59] fix: an rpc response without a result or with a failed
 http status is an error

---
 xrpc/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..5272e52 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,11 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if rawResp.StatusCode != http.StatusOK {
+		return nil, fmt.Errorf("rpc.http.status[%v]", rawResp.Status)
+	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.result.empty")
+	}
 	return resp, nil
 }
-- 
2.43.0


From e347cef70a572da2d3301435a4f84e2c68ce1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 57/59] fix: a random extended key is never nil without an
 error

---
 xcore/bip32/hdkey.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index f8e9ccd..6faff57 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -91,7 +91,11 @@ func NewHDKeyRand() (*HDKey, error) {
 	if _, err := rand.Read(seed); err != nil {
 		return nil, err
 	}
-	return NewHDKey(seed), nil
+	hdkey := NewHDKey(seed)
+	if hdkey == nil {
+		return nil, fmt.Errorf("hdkey.seed.unusable")
+	}
+	return hdkey, nil
 }
 
 // Derive -- returns a derived child extended key at the given index.
-- 
2.43.0


From d03071c2f1fff003b2197c2b441e6e0a7c565419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 58/59] fix: block header hashes are decoded as the hex strings
 the server sends

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From cc1701b0fcb8640db44b8e76d7d3589d1031937c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 59/59] fix: a compressed point whose x is not below the field
 size is refused

---
 xcrypto/secp256k1/sec.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xcrypto/secp256k1/sec.go b/xcrypto/secp256k1/sec.go
index 92995fb..4859f34 100644
--- a/xcrypto/secp256k1/sec.go
+++ b/xcrypto/secp256k1/sec.go
@@ -46,6 +46,9 @@ func SecUnmarshal(curve elliptic.Curve, data []byte) (*big.Int, *big.Int) {
 
 	// y^2 = x^3 + b
 	X.SetBytes(data[1:])
+	if X.Cmp(curveParams.P) >= 0 {
+		return nil, nil
+	}
 	ySquared := big.NewInt(0)
 	ySquared.Exp(X, three, nil)
 	ySquared.Add(ySquared, curveParams.B)
-- 
2.43.0

