From c57ddfa387676c84dd2c6fe7a3c764d34b475639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 01/29] fix: reject negative RESP lengths other than -1

A bulk string header such as $-2 made the reader slice its buffer with a negative
bound and panic; an array header such as *-2 was accepted as an empty array.
---
 pkg/protocol/reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 92c4a96..68398ac 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -94,6 +94,8 @@ func (r *respReader) readString() (RedisString, error) {
 		// real string section
 		if sLen == -1 {
 			return NewNullBulkRedisString(), nil
+		} else if sLen < 0 {
+			return nil, fmt.Errorf("invalid bulk string length. token=%s", curToken)
 		} else if err := r.readBytes(int(sLen) + 2); err == nil {
 			return NewBulkRedisString(r.token[:sLen]), nil
 		} else {
@@ -131,6 +133,8 @@ func (r *respReader) readArray() (RedisArray, error) {
 	if aLen == -1 {
 		// null array
 		return NewNullRedisArray(), nil
+	} else if aLen < 0 {
+		return nil, fmt.Errorf("invalid array length. token=%s", curToken)
 	}
 
 	var objects []RedisObject
-- 
2.43.0


From 92089bcecfdce9e91ce286407d6b150f2c84358d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:40 +0000
Subject: [PATCH 02/29] fix: LexicalCompare tells an empty string from a
 non-empty one

The length of the common prefix is 0 when one of the strings is empty, which was
returned as if both strings were equal.
---
 pkg/util/util.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/util/util.go b/pkg/util/util.go
index 3bc988b..8f5a469 100644
--- a/pkg/util/util.go
+++ b/pkg/util/util.go
@@ -69,11 +69,16 @@ func LexicalCompare(lhs, rhs string) int {
 
 	if lhsLen == rhsLen {
 		return 0
-	} else if lhsLen < rhsLen {
-		return -lhsLen
+	} else if length == 0 {
+		// One of the strings is empty, so they differ at the very first position
+		length = 1
 	}
 
-	return rhsLen
+	if lhsLen < rhsLen {
+		return -length
+	}
+
+	return length
 }
 
 // ParseInt64 will parse a string into a int64, just a strconv.PraseInt wrapper.
-- 
2.43.0


From 2d7c0a6091215c9c5584b41bbb6a8a45b147a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 03/29] fix: list search must not compare the sentinel nodes
 with the value

LREM and LINSERT with the value "dummy string" matched the sentinels: a nil
pointer panic or an element inserted outside of the list.
---
 pkg/container/list.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 4b80379..231a950 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -107,7 +107,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 		count = l.size
 	}
 
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail && removed < count {
 		if cur.data.Equals(key) {
@@ -126,7 +126,7 @@ func (l *linkedList) deleteFromHead(count int, key *StringContainer) int {
 func (l *linkedList) deleteFromTail(count int, key *StringContainer) int {
 	removed := 0
 
-	cur := l.tail
+	cur := l.tail.prev
 
 	for cur != l.head && removed < count {
 		if cur.data.Equals(key) {
@@ -276,7 +276,7 @@ func (l *linkedList) PopTail() (*StringContainer, error) {
 }
 
 func (l *linkedList) Insert(pivot, data *StringContainer, after bool) (int, error) {
-	cur := l.head
+	cur := l.head.next
 
 	for cur != l.tail {
 		if cur.data.Equals(pivot) {
-- 
2.43.0


From 84bb6e9136a41080b4259d728a572a3034aa6107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 04/29] fix: resolve the right end of a list range only once

A right end before the beginning of the list was resolved a second time, so
that LRANGE k 0 -4 on three elements returned elements instead of nothing.
---
 pkg/container/list.go | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 231a950..9d8bd8b 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -159,12 +159,6 @@ func (l *linkedList) extract(index int) *listNode {
 
 // Avoid traverse twice
 func (l *linkedList) extractSegment(left, right int) (*listNode, *listNode) {
-	right = util.NewIndex(right).ResolveRaw(l.size)
-
-	if right >= l.size {
-		right = l.size - 1
-	}
-
 	normLeft, normRight := util.NewSlice(left, right).Resolve(l.size)
 
 	if normLeft != -1 && normRight != -1 {
-- 
2.43.0


From c9ada78b90088a232e2d041a070140abf5b9f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 05/29] fix: LREM with the smallest 64-bit count removes from
 the tail

Negating the smallest integer does not make it positive, so nothing was
removed.
---
 pkg/container/list.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/container/list.go b/pkg/container/list.go
index 9d8bd8b..f1815a0 100644
--- a/pkg/container/list.go
+++ b/pkg/container/list.go
@@ -311,6 +311,10 @@ func (l *linkedList) Remove(count int, key *StringContainer) int {
 	if count >= 0 {
 		removed = l.deleteFromHead(count, key)
 	} else {
+		// also keeps the negation in range for the smallest int
+		if count < -l.size {
+			count = -l.size
+		}
 		removed = l.deleteFromTail(-count, key)
 	}
 
-- 
2.43.0


From 3f654402463986018b74cac5b3332a6d95bbd3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 06/29] fix: refuse counter commands whose result does not fit
 in 64 bits

INCR, INCRBY, DECR and DECRBY wrapped around silently; now the value is left
unchanged and the reply is "value is not an integer or out of range".
---
 pkg/container/string.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pkg/container/string.go b/pkg/container/string.go
index a946b89..f17fa7f 100644
--- a/pkg/container/string.go
+++ b/pkg/container/string.go
@@ -2,7 +2,9 @@ package container
 
 import (
 	"errors"
+	"fmt"
 	"hash/fnv"
+	"math"
 
 	"github.com/lxdlam/vertex/pkg/util"
 
@@ -17,6 +19,9 @@ var (
 	// ErrNotAInt will be raised if invoke Int() on a string object that cannot be cast to a string
 	ErrNotAInt = errors.New("string_container: cannot cast the value to a string")
 
+	// ErrIntOverflow will be raised if the result of an Increase or a Decrease does not fit into 64 bits
+	ErrIntOverflow = fmt.Errorf("%w: increment or decrement would overflow", ErrNotAInt)
+
 	// ErrRangeInvalid will be raised in GetRange if the given range is invalid
 	ErrRangeInvalid = errors.New("string_container: the given range is invalid")
 )
@@ -129,6 +134,11 @@ func (s *StringContainer) AsIntObject() (protocol.RedisInteger, error) {
 // The string will be updated too.
 func (s *StringContainer) Increase(increment int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (increment > 0 && val > math.MaxInt64-increment) || (increment < 0 && val < math.MinInt64-increment) {
+			return 0, ErrIntOverflow
+		}
+
 		s.intVar.Increase(increment)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
@@ -141,6 +151,11 @@ func (s *StringContainer) Increase(increment int64) (int64, error) {
 // The string will be updated too.
 func (s *StringContainer) Decrease(decrement int64) (int64, error) {
 	if s.IsInt() {
+		val := s.intVar.Get()
+		if (decrement < 0 && val > math.MaxInt64+decrement) || (decrement > 0 && val < math.MinInt64+decrement) {
+			return 0, ErrIntOverflow
+		}
+
 		s.intVar.Decrease(decrement)
 		s.update(s.intVar.AsString())
 		return s.intVar.Get(), nil
-- 
2.43.0


From 97e295091105c8fb9efa3104e446deca45788cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 07/29] fix: HSET, SADD and SREM refuse an empty key instead of
 crashing

---
 pkg/command/hash.go |  5 +++++
 pkg/command/set.go  | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/pkg/command/hash.go b/pkg/command/hash.go
index f143b49..50ebed8 100644
--- a/pkg/command/hash.go
+++ b/pkg/command/hash.go
@@ -121,6 +121,11 @@ func (h *hsetCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (h *hsetCommand) Execute() {
+	if h.accessObject == nil {
+		h.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if h.accessObject.Type() != h.TargetContainerType() {
 		h.err = fmt.Errorf("target container type mismatch. expected=%d, got=%d", h.TargetContainerType(), h.accessObject.Type())
 		return
diff --git a/pkg/command/set.go b/pkg/command/set.go
index 44d8a10..50a550f 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -192,6 +192,11 @@ func (s *saddCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *saddCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
@@ -467,6 +472,11 @@ func (s *sremCommand) ParseArguments(objects []protocol.RedisObject) error {
 }
 
 func (s *sremCommand) Execute() {
+	if s.accessObject == nil {
+		s.err = fmt.Errorf("nil access object")
+		return
+	}
+
 	if s.accessObject.Type() != s.TargetContainerType() {
 		s.err = fmt.Errorf("target container type mismatcs. expected=%d, got=%d", s.TargetContainerType(), s.accessObject.Type())
 		return
-- 
2.43.0


From 42fad9a38304725c49423b5fc13a224eaa278342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 08/29] fix: SPOP and SRANDMEMBER answer null for an emptied
 set

---
 pkg/command/set.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/command/set.go b/pkg/command/set.go
index 50a550f..dfff383 100644
--- a/pkg/command/set.go
+++ b/pkg/command/set.go
@@ -601,7 +601,7 @@ func (s *spopCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).Pop(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
@@ -723,7 +723,7 @@ func (s *srandmemberCommand) Execute() {
 	ret := s.accessObject.(container.SetContainer).RandomMember(s.count)
 
 	if !s.countSet {
-		if ret[0] == nil {
+		if len(ret) == 0 {
 			s.result = protocol.NewNullBulkRedisString()
 		} else {
 			s.result = protocol.NewBulkRedisString(ret[0].String())
-- 
2.43.0


From 13db7a468116bbde6bc2b1989650e197ae29be06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:12 +0000
Subject: [PATCH 09/29] fix: LTRIM is a modifying command and must be logged

---
 pkg/command/list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/command/list.go b/pkg/command/list.go
index 8ceac19..2003e08 100644
--- a/pkg/command/list.go
+++ b/pkg/command/list.go
@@ -1010,7 +1010,7 @@ func (l *ltrimCommand) ToLog() string {
 }
 
 func (l *ltrimCommand) Type() CommandType {
-	return AccessCommandType
+	return ModifyCommandType
 }
 
 func (l *ltrimCommand) Keys() []string {
-- 
2.43.0


From da180197e0662a7115dc51c221cdc1e2cfb40e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 10/29] fix: write log records in the order the requests are
 executed

---
 pkg/db/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 5d40462..1638ec8 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -122,7 +122,7 @@ func (e *engine) handleRequest(objects []protocol.RedisObject) (protocol.RedisOb
 	}
 
 	if c.Type() == command.ModifyCommandType {
-		go e.writeLog(name, 1, objects)
+		e.writeLog(name, 1, objects)
 	}
 
 	db := e.getOrCreateDB(1)
-- 
2.43.0


From 1c500515ff5d09d022c6634b71256895d17d1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 11/29] fix: stopping an engine without a master or a file must
 not panic

---
 pkg/db/engine.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index 1638ec8..b2e7b2e 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -197,8 +197,14 @@ Outer:
 }
 
 func (e *engine) Stop() {
-	e.master.Stop()
-	_ = e.file.Flush()
+	if e.master != nil {
+		e.master.Stop()
+	}
+
+	if e.file != nil {
+		_ = e.file.Flush()
+	}
+
 	close(e.shutChan)
 }
 
-- 
2.43.0


From c76f8c05ddc26be1a44cecc23563142ee973261f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:45 +0000
Subject: [PATCH 12/29] fix: keep line breaks out of error replies

---
 pkg/db/engine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index b2e7b2e..db6e90e 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -288,7 +288,9 @@ func handleError(err error) protocol.RedisError {
 	}
 
 	// TODO: do not send raw error
-	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%+v", err))
+	// The raw error may quote client data, but an error reply ends at the first line break
+	raw := strings.NewReplacer("\r", " ", "\n", " ").Replace(fmt.Sprintf("%+v", err))
+	return protocol.NewRedisError(fmt.Sprintf("ERR vertex server internal error, err=%s", raw))
 }
 
 func (e *engine) SetFile(file *os.File, filePath string) {
-- 
2.43.0


From b0830f3e760108529b987711557223f66af6db7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 13/29] fix: log records must be able to carry arguments that
 are not valid UTF-8

---
 pkg/db/engine.go  |  5 +++--
 pkg/log/log.go    | 13 +++++++++----
 pkg/log/log.pb.go | 14 +++++++-------
 pkg/log/log.proto |  4 ++--
 4 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index db6e90e..ae4f8bd 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -1,6 +1,7 @@
 package db
 
 import (
+	"bytes"
 	"errors"
 	"fmt"
 	"net"
@@ -259,11 +260,11 @@ func (e *engine) BuildFromLog(logs []*log.VertexLog) {
 	common.Infof("rebuild database by log end, success=%d", success)
 }
 
-func convertArguments(s []string) []protocol.RedisObject {
+func convertArguments(s [][]byte) []protocol.RedisObject {
 	var ret []protocol.RedisObject
 
 	for _, item := range s {
-		obj, err := protocol.Parse(strings.NewReader(item))
+		obj, err := protocol.Parse(bytes.NewReader(item))
 		if err != nil {
 			continue
 		}
diff --git a/pkg/log/log.go b/pkg/log/log.go
index 20ddf23..a8b902b 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -35,19 +35,24 @@ func NewLog(name string, index int, objects []protocol.RedisObject) *VertexLog {
 	vl.Name = name
 	vl.Index = int32(index)
 
-	var arguments []string
+	var arguments [][]byte
 	for _, item := range objects[1:] {
-		arguments = append(arguments, item.String())
+		arguments = append(arguments, item.Byte())
 	}
 
 	vl.Arguments = arguments
-	vl.RawRequest = protocol.NewRedisArray(objects).String()
+	vl.RawRequest = protocol.NewRedisArray(objects).Byte()
 
 	return vl
 }
 
 func FormatLog(vl *VertexLog) string {
-	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(vl.Arguments, ","), strconv.Quote(vl.RawRequest))
+	var arguments []string
+	for _, item := range vl.Arguments {
+		arguments = append(arguments, string(item))
+	}
+
+	return fmt.Sprintf("VectexLog{id=%s, time=%d, host=%s, name=%s, index=%d, arguments=[%s], raw_request=%s}", vl.Id, vl.Time, vl.Host, vl.Name, vl.Index, util.QuoteJoin(arguments, ","), strconv.Quote(string(vl.RawRequest)))
 }
 
 // PackLog will package a log into the below form:
diff --git a/pkg/log/log.pb.go b/pkg/log/log.pb.go
index 7f63dc0..f2ca8fd 100644
--- a/pkg/log/log.pb.go
+++ b/pkg/log/log.pb.go
@@ -36,8 +36,8 @@ type VertexLog struct {
 	Host       string   `protobuf:"bytes,3,opt,name=host,proto3" json:"host,omitempty"`
 	Name       string   `protobuf:"bytes,4,opt,name=name,proto3" json:"name,omitempty"`
 	Index      int32    `protobuf:"varint,5,opt,name=index,proto3" json:"index,omitempty"`
-	Arguments  []string `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
-	RawRequest string   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
+	Arguments  [][]byte `protobuf:"bytes,6,rep,name=arguments,proto3" json:"arguments,omitempty"` // The arguments are RESP string represent
+	RawRequest []byte   `protobuf:"bytes,255,opt,name=raw_request,json=rawRequest,proto3" json:"raw_request,omitempty"`
 }
 
 func (x *VertexLog) Reset() {
@@ -107,18 +107,18 @@ func (x *VertexLog) GetIndex() int32 {
 	return 0
 }
 
-func (x *VertexLog) GetArguments() []string {
+func (x *VertexLog) GetArguments() [][]byte {
 	if x != nil {
 		return x.Arguments
 	}
 	return nil
 }
 
-func (x *VertexLog) GetRawRequest() string {
+func (x *VertexLog) GetRawRequest() []byte {
 	if x != nil {
 		return x.RawRequest
 	}
-	return ""
+	return nil
 }
 
 var File_log_proto protoreflect.FileDescriptor
@@ -133,9 +133,9 @@ var file_log_proto_rawDesc = []byte{
 	0x65, 0x18, 0x04, 0x20, 0x01, 0x28, 0x09, 0x52, 0x04, 0x6e, 0x61, 0x6d, 0x65, 0x12, 0x14, 0x0a,
 	0x05, 0x69, 0x6e, 0x64, 0x65, 0x78, 0x18, 0x05, 0x20, 0x01, 0x28, 0x05, 0x52, 0x05, 0x69, 0x6e,
 	0x64, 0x65, 0x78, 0x12, 0x1c, 0x0a, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74, 0x73,
-	0x18, 0x06, 0x20, 0x03, 0x28, 0x09, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
+	0x18, 0x06, 0x20, 0x03, 0x28, 0xc, 0x52, 0x09, 0x61, 0x72, 0x67, 0x75, 0x6d, 0x65, 0x6e, 0x74,
 	0x73, 0x12, 0x20, 0x0a, 0x0b, 0x72, 0x61, 0x77, 0x5f, 0x72, 0x65, 0x71, 0x75, 0x65, 0x73, 0x74,
-	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0x09, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
+	0x18, 0xff, 0x01, 0x20, 0x01, 0x28, 0xc, 0x52, 0x0a, 0x72, 0x61, 0x77, 0x52, 0x65, 0x71, 0x75,
 	0x65, 0x73, 0x74, 0x42, 0x22, 0x5a, 0x20, 0x67, 0x69, 0x74, 0x68, 0x75, 0x62, 0x2e, 0x63, 0x6f,
 	0x6d, 0x2f, 0x6c, 0x78, 0x64, 0x6c, 0x61, 0x6d, 0x2f, 0x76, 0x65, 0x72, 0x74, 0x65, 0x78, 0x2f,
 	0x70, 0x6b, 0x67, 0x2f, 0x6c, 0x6f, 0x67, 0x62, 0x06, 0x70, 0x72, 0x6f, 0x74, 0x6f, 0x33,
diff --git a/pkg/log/log.proto b/pkg/log/log.proto
index 1e3bf6d..bd76c0b 100644
--- a/pkg/log/log.proto
+++ b/pkg/log/log.proto
@@ -9,7 +9,7 @@ message VertexLog {
     string host = 3;
     string name = 4;
     int32 index = 5;
-    repeated string arguments = 6; // The arguments are RESP string represent
+    repeated bytes arguments = 6; // The arguments are RESP string represent
 
-    string raw_request = 255;
+    bytes raw_request = 255;
 }
\ No newline at end of file
-- 
2.43.0


From 72fd88689b0f9f81ec5f40382ae9fbf6ebe015ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 14/29] fix: a future ends exactly once, fulfilled or cancelled

---
 pkg/concurrency/future.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pkg/concurrency/future.go b/pkg/concurrency/future.go
index 3210155..1431c5d 100644
--- a/pkg/concurrency/future.go
+++ b/pkg/concurrency/future.go
@@ -2,6 +2,7 @@ package concurrency
 
 import (
 	"errors"
+	"sync/atomic"
 	"time"
 )
 
@@ -40,7 +41,15 @@ type Future interface {
 	WaitFor(d time.Duration) error
 }
 
+const (
+	futurePending int32 = iota
+	futureFulfilled
+	futureCancelled
+)
+
 type future struct {
+	// state decides the outcome, only the goroutine that moves it away from futurePending closes its channel
+	state      int32
 	task       Task
 	result     interface{}
 	err        error
@@ -67,26 +76,24 @@ func NewFuture(task Task) Future {
 func (f *future) start() {
 	go func() {
 		f.result, f.err = f.task.Run()
-		select {
-		// Already cancelled, leaves the doneChan open
-		case <-f.cancelChan:
-			return
-		default:
+		// If it's already cancelled, leaves the doneChan open
+		if atomic.CompareAndSwapInt32(&f.state, futurePending, futureFulfilled) {
 			close(f.doneChan)
 		}
 	}()
 }
 
 func (f *future) Cancel() error {
-	select {
-	case <-f.doneChan:
-		return ErrFulfilled
-	case <-f.cancelChan:
-		return ErrCancelled
-	default:
+	if atomic.CompareAndSwapInt32(&f.state, futurePending, futureCancelled) {
 		close(f.cancelChan)
 		return nil
 	}
+
+	if atomic.LoadInt32(&f.state) == futureFulfilled {
+		return ErrFulfilled
+	}
+
+	return ErrCancelled
 }
 
 func (f *future) Get() (interface{}, error) {
-- 
2.43.0


From 51bce2e38bd935be3ba6a503dd0cd1a348fbe313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 15/29] fix: sending to a closed data channel always reports
 Closed

---
 pkg/concurrency/data_channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 7e5d0f8..9e79f65 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -127,6 +127,13 @@ func (r *receiver) Close() {
 }
 
 func (s *sender) Send(event Event) int {
+	// A closed channel always wins, the select below chooses randomly if the event can be delivered as well
+	select {
+	case <-s.closeChannel:
+		return Closed
+	default:
+	}
+
 	select {
 	case <-s.closeChannel:
 		return Closed
-- 
2.43.0


From 81b4a2ab68f7f68ce255d7e316b9c1f5cc10b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:25 +0000
Subject: [PATCH 16/29] fix: concurrent writers must not corrupt the size of a
 sync data map

---
 pkg/types/data_map.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/types/data_map.go b/pkg/types/data_map.go
index fa2726e..306c8ab 100644
--- a/pkg/types/data_map.go
+++ b/pkg/types/data_map.go
@@ -108,6 +108,8 @@ func (ldm *lockedDataMap) Len() int {
 type syncDataMap struct {
 	container sync.Map
 	size      int32
+	// mutex serializes the writers, so checking a key and updating it is one step
+	mutex sync.Mutex
 }
 
 // NewSyncDataMap returns a new syncDataMap instance
@@ -118,6 +120,9 @@ func NewSyncDataMap() *syncDataMap {
 // Set will do insert and size increment
 // It will do a check if the key is exist to determine if we need to increase the size
 func (sdm *syncDataMap) Set(key string, value interface{}) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if !sdm.Has(key) {
 		atomic.AddInt32(&sdm.size, 1)
 	}
@@ -139,6 +144,9 @@ func (sdm *syncDataMap) Has(key string) bool {
 // Remove will first check if the key is exist
 // Then do remove works, it requires one more read overhead
 func (sdm *syncDataMap) Remove(key string) {
+	sdm.mutex.Lock()
+	defer sdm.mutex.Unlock()
+
 	if sdm.Has(key) {
 		sdm.container.Delete(key)
 		atomic.AddInt32(&sdm.size, -1)
-- 
2.43.0


From da2535f4b2ef3dcee6681b2a9a950848454a3c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 17/29] fix: collect closed subscribers of a topic without a
 data race

---
 pkg/concurrency/topic.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index cdc0622..ebf8a77 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -76,17 +76,10 @@ func (t *topic) Remove() {
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	var closedKeys []string
+	var closedLock sync.Mutex
 	var wg sync.WaitGroup
 	var successCount int32
 
-	ch := make(chan string)
-
-	go func() {
-		for key := range ch {
-			closedKeys = append(closedKeys, key)
-		}
-	}()
-
 	t.subscribers.Range(func(k interface{}, s interface{}) bool {
 		wg.Add(1)
 
@@ -96,7 +89,9 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 		go func() {
 			status := subscriber.Send(e)
 			if status == Closed {
-				ch <- name
+				closedLock.Lock()
+				closedKeys = append(closedKeys, name)
+				closedLock.Unlock()
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
 			} else {
@@ -111,7 +106,6 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 
 	wg.Wait()
 	successChan <- successCount
-	close(ch)
 
 	go t.batchRemove(closedKeys)
 }
-- 
2.43.0


From b83ef167efe063ae7316e99a500a8be0a1b5d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 18/29] fix: a name subscribed again must not be forgotten with
 its closed predecessor

---
 pkg/concurrency/topic.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/pkg/concurrency/topic.go b/pkg/concurrency/topic.go
index ebf8a77..6105065 100644
--- a/pkg/concurrency/topic.go
+++ b/pkg/concurrency/topic.go
@@ -40,20 +40,29 @@ func NewTopic(name string) Topic {
 type topic struct {
 	name        string
 	subscribers sync.Map
+
+	// subscribeLock keeps a new subscription from being removed in place of the closed one it replaces
+	subscribeLock sync.Mutex
 }
 
 func (t *topic) Subscribe(name string) Receiver {
 	r, s := NewDataChannel()
-	t.subscribers.Store(name, s)
+	t.subscribe(name, s)
 	return r
 }
 
 func (t *topic) SubscribeWithOptions(name string, size int, duration time.Duration) Receiver {
 	r, s := NewDataChannelWithOption(size, duration)
-	t.subscribers.Store(name, s)
+	t.subscribe(name, s)
 	return r
 }
 
+func (t *topic) subscribe(name string, s Sender) {
+	t.subscribeLock.Lock()
+	t.subscribers.Store(name, s)
+	t.subscribeLock.Unlock()
+}
+
 func (t *topic) Publish(e Event) (fut Future) {
 	ch := make(chan int32, 1)
 
@@ -75,7 +84,7 @@ func (t *topic) Remove() {
 }
 
 func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
-	var closedKeys []string
+	closedSenders := make(map[string]Sender)
 	var closedLock sync.Mutex
 	var wg sync.WaitGroup
 	var successCount int32
@@ -90,7 +99,7 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 			status := subscriber.Send(e)
 			if status == Closed {
 				closedLock.Lock()
-				closedKeys = append(closedKeys, name)
+				closedSenders[name] = subscriber
 				closedLock.Unlock()
 			} else if status == Expired {
 				common.Infof("send event to subscriber expired. topic=%s, subscriber=%s", t.name, name)
@@ -107,11 +116,16 @@ func (t *topic) distributeEvent(e Event, successChan chan<- int32) {
 	wg.Wait()
 	successChan <- successCount
 
-	go t.batchRemove(closedKeys)
+	go t.batchRemove(closedSenders)
 }
 
-func (t *topic) batchRemove(removeKeys []string) {
-	for _, name := range removeKeys {
-		t.subscribers.Delete(name)
+func (t *topic) batchRemove(removeSenders map[string]Sender) {
+	t.subscribeLock.Lock()
+	defer t.subscribeLock.Unlock()
+
+	for name, sender := range removeSenders {
+		if current, ok := t.subscribers.Load(name); ok && current == sender {
+			t.subscribers.Delete(name)
+		}
 	}
 }
-- 
2.43.0


From 2b6ca41b691a23f614446e2f4a318e5f17eeb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:43 +0000
Subject: [PATCH 19/29] fix: keep the sorted set's links, spans and ranks right

---
 pkg/container/sorted_set.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pkg/container/sorted_set.go b/pkg/container/sorted_set.go
index d13a7cb..93831da 100644
--- a/pkg/container/sorted_set.go
+++ b/pkg/container/sorted_set.go
@@ -61,6 +61,11 @@ type skipListNode struct {
 	prev  *skipListNode
 }
 
+// precedes reports if the node comes before a node of the given score and entry
+func (sln *skipListNode) precedes(score float64, entry *StringContainer) bool {
+	return sln.score < score || (sln.score == score && sln.data.CompareTo(entry) < 0)
+}
+
 func (sln *skipListNode) release() {
 	sln.data = nil
 	sln.prev = nil
@@ -111,9 +116,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 			rank[level] = rank[level+1]
 		}
 
-		for cur.next[level].node != sl.tail &&
-			(cur.next[level].node.score < score ||
-				(cur.next[level].node.score == score && cur.next[level].node.data.CompareTo(entry) < 0)) {
+		for cur.next[level].node != sl.tail && cur.next[level].node.precedes(score, entry) {
 			rank[level] += cur.next[level].span
 			cur = cur.next[level].node
 		}
@@ -155,7 +158,7 @@ func (sl *skipList) insert(score float64, entry *StringContainer) {
 	// |               | rank[0] - rank[level] + 1 |               | update[level].next[level].span - (rank[0] - rank[level]) |               |
 	// |               |                           |               |                                                          |               |
 	// +---------------+                           +---------------+                                                          +---------------+
-	for level := 0; level < sl.level; level++ {
+	for level := 0; level < newLevel; level++ {
 		cur.next = append(cur.next, skipListLevel{})
 		cur.next[level].node = update[level].next[level].node
 		update[level].next[level].node = cur
@@ -188,6 +191,8 @@ func (sl *skipList) delete(node *skipListNode, update []*skipListNode) {
 		}
 	}
 
+	node.next[0].node.prev = node.prev
+
 	for sl.level > 1 && sl.head.next[sl.level-1].node == sl.tail {
 		sl.level--
 	}
@@ -202,7 +207,7 @@ func (sl *skipList) deleteNode(node *skipListNode) {
 
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail && cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.precedes(node.score, node.data) {
 			cur = cur.next[level].node
 		}
 
@@ -216,7 +221,7 @@ func (sl *skipList) getRank(node *skipListNode) int {
 	rank := 0
 	cur := sl.head
 	for level := sl.level - 1; level >= 0; level-- {
-		for cur.next[level].node != sl.tail || cur.next[level].node != node {
+		for cur.next[level].node != sl.tail && cur.next[level].node.precedes(node.score, node.data) {
 			rank += cur.next[level].span
 			cur = cur.next[level].node
 		}
-- 
2.43.0


From 936a7ccc2886f9c40c9cd801831ba7d28418ae75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 20/29] fix: the client must not drop quoted words it was given

---
 cmd/client/internal/codec.go | 48 ++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index ed126fc..b26a8cd 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -11,60 +11,66 @@ import (
 	"github.com/lxdlam/vertex/pkg/protocol"
 )
 
+// ErrUnclosedQuote will be raised if a quote in the input is not closed
+var ErrUnclosedQuote = errors.New("unclosed quote")
+
 func FormatInput(input string) (string, error) {
 	var arr []protocol.RedisObject
 	reader := bufio.NewReader(strings.NewReader(input))
 
 	for {
-		s, err := parseString(reader)
+		s, ok, err := parseString(reader)
 
-		if err != nil {
-			if errors.Is(err, io.EOF) {
-				if s != "" {
-					arr = append(arr, protocol.NewBulkRedisString(s))
-				}
-				break
-			} else {
-				return "", err
-			}
+		if err != nil && !errors.Is(err, io.EOF) {
+			return "", err
 		}
 
-		if s != "" {
+		if ok {
 			arr = append(arr, protocol.NewBulkRedisString(s))
 		}
+
+		if err != nil {
+			break
+		}
 	}
 
 	return protocol.NewRedisArray(arr).String(), nil
 }
 
-func parseString(reader *bufio.Reader) (string, error) {
+// parseString reads the next word and reports if there was one, since a quoted word can be empty
+func parseString(reader *bufio.Reader) (string, bool, error) {
 	var buf bytes.Buffer
+	found := false
 	for {
 		b, e := reader.ReadByte()
 		if e != nil {
-			if errors.Is(e, io.EOF) {
-				return buf.String(), e
-			}
-			return "", e
+			return buf.String(), found, e
 		}
 
 		if b == '"' {
-			return parseQuote(reader)
+			s, err := parseQuote(reader)
+			if err != nil {
+				return "", false, err
+			}
+			buf.WriteString(s)
 		} else if b == ' ' {
 			break
+		} else {
+			buf.WriteByte(b)
 		}
-
-		buf.WriteByte(b)
+		found = true
 	}
 
-	return buf.String(), nil
+	return buf.String(), found, nil
 }
 
 func parseQuote(reader *bufio.Reader) (string, error) {
 	var buf bytes.Buffer
 	for {
 		b, e := reader.ReadByte()
-		if e != nil {
+		if errors.Is(e, io.EOF) {
+			return "", ErrUnclosedQuote
+		} else if e != nil {
 			return "", e
 		} else if b == '"' {
 			break
-- 
2.43.0


From a69c7b4596a99cffed2a1f520beb8567a763b405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 21/29] fix: the client shows an empty array as empty instead
 of a blank line

---
 cmd/client/internal/codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/client/internal/codec.go b/cmd/client/internal/codec.go
index b26a8cd..5a12380 100644
--- a/cmd/client/internal/codec.go
+++ b/cmd/client/internal/codec.go
@@ -118,7 +118,7 @@ func formatInteger(obj protocol.RedisInteger) string {
 }
 
 func formatArray(obj protocol.RedisArray) string {
-	if obj.String() == protocol.NullArrayLiteral {
+	if len(obj.Data()) == 0 {
 		return "(empty list or set)"
 	}
 
-- 
2.43.0


From 5dbe073ae0e6096a87c4be1d078604c24cc64852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 22/29] fix: operations on a closed connection fail at once
 instead of blocking for ever

---
 pkg/network/conn.go | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pkg/network/conn.go b/pkg/network/conn.go
index 0c53ebf..8f326e6 100644
--- a/pkg/network/conn.go
+++ b/pkg/network/conn.go
@@ -74,11 +74,15 @@ func NewConnWithExpire(tcpConn net.Conn, expireTime time.Duration) Conn {
 }
 
 func (c *conn) Read() (protocol.RedisObject, error) {
-	c.resetChan <- 0
+	if !c.resetExpire() {
+		return nil, ErrConnIsClosed
+	}
 
 	obj, err := c.reader.ReadObject()
 
-	if errors.Is(err, io.EOF) {
+	if err != nil && c.IsClosed() {
+		return nil, ErrConnIsClosed
+	} else if errors.Is(err, io.EOF) {
 		go func() {
 			if !c.IsClosed() {
 				_ = c.Close()
@@ -93,12 +97,10 @@ func (c *conn) Read() (protocol.RedisObject, error) {
 }
 
 func (c *conn) Write(s string) error {
-	if c.IsClosed() {
+	if !c.resetExpire() {
 		return ErrConnIsClosed
 	}
 
-	c.resetChan <- 0
-
 	n, err := c.tcpConn.Write([]byte(s))
 
 	if err != nil {
@@ -112,10 +114,10 @@ func (c *conn) Write(s string) error {
 
 func (c *conn) Close() error {
 	if atomic.CompareAndSwapInt32(&c.closed, 0, 1) {
+		close(c.closeChan)
 		_, _ = c.tcpConn.Write(closeMessage)
 		// discard all streams
 		_ = c.tcpConn.Close()
-		close(c.closeChan)
 		return nil
 	}
 
@@ -134,6 +136,21 @@ func (c *conn) ID() string {
 	return c.id
 }
 
+// resetExpire restarts the expire time, it reports false if the conn is closed
+func (c *conn) resetExpire() bool {
+	if c.IsClosed() {
+		return false
+	}
+
+	// The expire worker stops listening once the conn is closed
+	select {
+	case c.resetChan <- 0:
+		return true
+	case <-c.closeChan:
+		return false
+	}
+}
+
 func (c *conn) startExpireWorker() {
 	go func() {
 	Outer:
-- 
2.43.0


From d883f08ac29d5031c0a6b36e006d2e67630cf402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 23/29] fix: stopping the server closes its clients and returns
 only when the log is flushed

---
 pkg/network/server.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/network/server.go b/pkg/network/server.go
index ee3f5c7..d053743 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -10,7 +10,6 @@ import (
 	"reflect"
 	"strings"
 	"sync"
-	"sync/atomic"
 	"syscall"
 	"time"
 
@@ -52,7 +51,7 @@ type server struct {
 	eventBus         concurrency.EventBus
 	sigChan          chan os.Signal
 	shutChan         chan struct{}
-	shutdown         int32
+	stopOnce         sync.Once
 	responseReceiver concurrency.Receiver
 	cleanUpHandles   []func()
 	clients          sync.Map
@@ -65,7 +64,6 @@ func NewServer() Server {
 		tcpListener:      nil,
 		eventBus:         concurrency.GetEventBus(),
 		shutChan:         nil,
-		shutdown:         0,
 		responseReceiver: nil,
 		cleanUpHandles:   nil,
 		clients:          sync.Map{},
@@ -281,7 +279,8 @@ Outer:
 }
 
 func (s *server) stop() {
-	if atomic.CompareAndSwapInt32(&s.shutdown, 0, 1) {
+	// Everyone who stops the server waits until it is stopped, the process may exit afterwards
+	s.stopOnce.Do(func() {
 		s.eventBus.RemoveTopic("request")
 		s.eventBus.RemoveTopic("response")
 
@@ -291,7 +290,7 @@ func (s *server) stop() {
 		s.engine.Stop()
 
 		s.clients.Range(func(key, value interface{}) bool {
-			c, ok := value.(conn)
+			c, ok := value.(Conn)
 			if ok {
 				_ = c.Close()
 			}
@@ -299,7 +298,7 @@ func (s *server) stop() {
 		})
 
 		common.Info("server shutdown")
-	}
+	})
 }
 
 func (s *server) syncExternal(file string, master string) {
-- 
2.43.0


From 533a6dd9be1c33c4ce8a4e92fc2ef1280f3b7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:16 +0000
Subject: [PATCH 24/29] fix: answer pipelined requests in order and do not drop
 them when busy

---
 pkg/db/engine.go      | 18 +++++++++++++++++-
 pkg/network/server.go | 23 ++++++++++++++++++++++-
 2 files changed, 39 insertions(+), 2 deletions(-)

diff --git a/pkg/db/engine.go b/pkg/db/engine.go
index ae4f8bd..657d957 100644
--- a/pkg/db/engine.go
+++ b/pkg/db/engine.go
@@ -192,7 +192,23 @@ Outer:
 				responseMap.Set("response", ret)
 			}
 
-			e.eventBus.Publish("response", responseMap, err)
+			e.publishResponse(responseMap, err)
+		}
+	}
+}
+
+// publishResponse returns once the response is taken, so responses are neither reordered nor lost if the server is busy
+func (e *engine) publishResponse(data types.DataMap, responseErr error) {
+	for {
+		delivered, err := e.eventBus.Publish("response", data, responseErr).Get()
+		if err != nil || delivered.(int) > 0 {
+			return
+		}
+
+		select {
+		case <-e.shutChan:
+			return
+		default:
 		}
 	}
 }
diff --git a/pkg/network/server.go b/pkg/network/server.go
index d053743..2d041a8 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -200,11 +200,32 @@ func (s *server) newConn(conn net.Conn) {
 			dataMap.Set("id", c.ID())
 			dataMap.Set("request", request)
 
-			concurrency.GetEventBus().Publish("request", dataMap, nil)
+			// The next request must not overtake this one, and it must not be lost if the engine is busy
+			if !s.publishRequest(dataMap) {
+				return
+			}
 		}
 	}()
 }
 
+// publishRequest returns once the engine takes the request, it reports false if the server is stopped
+func (s *server) publishRequest(data types.DataMap) bool {
+	for {
+		delivered, err := s.eventBus.Publish("request", data, nil).Get()
+		if err != nil {
+			return false
+		} else if delivered.(int) > 0 {
+			return true
+		}
+
+		select {
+		case <-s.shutChan:
+			return false
+		default:
+		}
+	}
+}
+
 func parseResponse(data types.DataMap) (id string, obj protocol.RedisObject, ok bool) {
 	i, ok := data.Get("id")
 	if !ok {
-- 
2.43.0


From 8373311a391c7f270ee180c343a410eb5f6e7d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:32 +0000
Subject: [PATCH 25/29] fix: drop a torn record before appending to the
 database file

---
 pkg/log/log.go        | 22 +++++++++++++++++++++-
 pkg/network/server.go |  9 ++++++++-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/pkg/log/log.go b/pkg/log/log.go
index a8b902b..06b95c3 100644
--- a/pkg/log/log.go
+++ b/pkg/log/log.go
@@ -83,16 +83,34 @@ func PackLog(vl *VertexLog) ([]byte, error) {
 
 type logReader struct {
 	reader *bufio.Reader
+
+	// complete is the length of all the complete records read
+	complete int64
 }
 
 // ParseLog will parse a log from a io.Reader which can be a file or net stream
 func ParseLog(reader io.Reader) ([]*VertexLog, error) {
-	var ret []*VertexLog
+	lr := logReader{
+		reader: bufio.NewReader(reader),
+	}
+
+	return lr.readAll()
+}
 
+// ParseLogWithLength works as ParseLog, but also returns the length of the complete records, which is shorter than
+// the input if it ends within a record.
+func ParseLogWithLength(reader io.Reader) ([]*VertexLog, int64, error) {
 	lr := logReader{
 		reader: bufio.NewReader(reader),
 	}
 
+	ret, err := lr.readAll()
+	return ret, lr.complete, err
+}
+
+func (lr *logReader) readAll() ([]*VertexLog, error) {
+	var ret []*VertexLog
+
 	for {
 		obj, err := lr.readLog()
 		if err != nil {
@@ -140,6 +158,8 @@ func (lr *logReader) readLog() (*VertexLog, error) {
 		return nil, err
 	}
 
+	lr.complete += int64(len(lengthByte) + len(logByte))
+
 	v := &VertexLog{}
 
 	if err := proto.Unmarshal(logByte, v); err != nil {
diff --git a/pkg/network/server.go b/pkg/network/server.go
index 2d041a8..498d044 100644
--- a/pkg/network/server.go
+++ b/pkg/network/server.go
@@ -363,13 +363,20 @@ func (s *server) fromFile(file string) {
 
 	s.engine.SetFile(f, file)
 	reader := bufio.NewReader(f)
-	logs, err := log.ParseLog(reader)
+	logs, length, err := log.ParseLogWithLength(reader)
 
 	if err != nil {
 		common.Warnf("parse log failed. file=%s, err=%s", file, err.Error())
 		// May contains incomplete log here, so we not return
 	}
 
+	// New records must not be appended to an incomplete one, they would be read as a part of it
+	if info, err := f.Stat(); err == nil && length < info.Size() {
+		if err := f.Truncate(length); err != nil {
+			common.Warnf("drop incomplete log failed. file=%s, err=%s", file, err.Error())
+		}
+	}
+
 	if len(logs) > 0 {
 		s.engine.BuildFromLog(logs)
 	}
-- 
2.43.0


From 488e333be7275badb5a35c33c6cc3bc139239aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:49 +0000
Subject: [PATCH 26/29] fix: the master closes every connection it cannot
 serve, and its listener when it stops

---
 pkg/replication/master.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/pkg/replication/master.go b/pkg/replication/master.go
index 3067cae..248662d 100644
--- a/pkg/replication/master.go
+++ b/pkg/replication/master.go
@@ -82,8 +82,10 @@ func (m *master) start() {
 
 func (m *master) stop() {
 	if atomic.CompareAndSwapInt32(&m.shutdown, 0, 1) {
+		_ = m.listener.Close()
+
 		m.mutex.Lock()
-		m.mutex.Unlock()
+		defer m.mutex.Unlock()
 
 		for _, conn := range m.conn {
 			_ = conn.Close()
@@ -92,18 +94,30 @@ func (m *master) stop() {
 }
 
 func (m *master) handleConn(conn net.Conn) {
+	// The replica is waiting until the connection is closed
+	defer func() { _ = conn.Close() }()
+
 	if m.file == nil {
 		_ = common.Errorf("no file provided.")
 		return
 	}
 
 	addr := conn.RemoteAddr().String()
-	defer func() { _ = conn.Close() }()
 
 	m.mutex.Lock()
+	if atomic.LoadInt32(&m.shutdown) == 1 {
+		m.mutex.Unlock()
+		return
+	}
 	m.conn[addr] = conn
 	m.mutex.Unlock()
 
+	defer func() {
+		m.mutex.Lock()
+		delete(m.conn, addr)
+		m.mutex.Unlock()
+	}()
+
 	filePath := fmt.Sprintf("/tmp/vertex/%s", util.GenNewUUID())
 	tmpFile, err := os.Create(filePath)
 	if err != nil {
@@ -170,10 +184,6 @@ func (m *master) handleConn(conn net.Conn) {
 		_ = common.Errorf("write length of file failed. written=%d, addr=%s, path=%s, err=%s", n, addr, filePath, err.Error())
 		return
 	}
-
-	m.mutex.Lock()
-	delete(m.conn, addr)
-	m.mutex.Unlock()
 }
 
 func (m *master) Start() {
-- 
2.43.0


From 6f652cd4109cde48a7d7163688eef806924e379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 27/29] fix: do not drop an event that can be delivered when
 its time is over

With room in the buffer or a waiting receiver, select picked at random between
delivering the event and expiring it if the sender was descheduled for longer
than the time limit. A removal notice lost in this way left the response worker
of the server waiting for ever, so that Serve never returned.
---
 pkg/concurrency/data_channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/concurrency/data_channel.go b/pkg/concurrency/data_channel.go
index 9e79f65..4475438 100644
--- a/pkg/concurrency/data_channel.go
+++ b/pkg/concurrency/data_channel.go
@@ -140,6 +140,13 @@ func (s *sender) Send(event Event) int {
 	case s.dataChannel <- event:
 		return Success
 	case <-time.After(s.expireTime):
+	}
+
+	// The event may be deliverable by now, then it is not expired
+	select {
+	case s.dataChannel <- event:
+		return Success
+	default:
 		return Expired
 	}
 }
-- 
2.43.0


From d51c971a79cd9d45eda6b138b19ab338bca9ab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 28/29] fix: a small request must not exhaust memory by nesting
 arrays without end

---
 pkg/protocol/reader.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/protocol/reader.go b/pkg/protocol/reader.go
index 68398ac..517cccf 100644
--- a/pkg/protocol/reader.go
+++ b/pkg/protocol/reader.go
@@ -10,6 +10,10 @@ import (
 
 const (
 	delimiter byte = '\n'
+
+	// maxNesting is the number of arrays that may lie within each other. A peer
+	// that nests deeper could otherwise exhaust memory with a small request.
+	maxNesting = 128
 )
 
 // RESPReader interface allow reuse a io.Reader objects to avoid
@@ -21,6 +25,7 @@ type RESPReader interface {
 type respReader struct {
 	reader *bufio.Reader
 	token  string
+	depth  int
 }
 
 func (r *respReader) readToken() error {
@@ -122,6 +127,12 @@ func (r *respReader) readInteger() (RedisInteger, error) {
 }
 
 func (r *respReader) readArray() (RedisArray, error) {
+	if r.depth >= maxNesting {
+		return nil, fmt.Errorf("arrays are nested too deeply. limit=%d", maxNesting)
+	}
+	r.depth++
+	defer func() { r.depth-- }()
+
 	// length section
 	curToken := r.token
 	l := len(r.token)
-- 
2.43.0


From ce431b4843e160bd2b9c281ae3c7b972edeb02a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:11 +0000
Subject: [PATCH 29/29] fix: format the arguments of log messages

Debugf, Infof, Warnf, Panicf and Fatalf handed the slice of arguments on as
one argument, so every formatted message came out as "[x %!s(int=3)]" with
missing arguments instead of what Printf would make of it.
---
 pkg/common/logging.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/common/logging.go b/pkg/common/logging.go
index 838894c..c66312d 100644
--- a/pkg/common/logging.go
+++ b/pkg/common/logging.go
@@ -98,7 +98,7 @@ func Debug(log string) {
 // Debugf works like Printf and works same as Debug
 func Debugf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Debugf(template, a)
+		logger.Debugf(template, a...)
 	}
 }
 
@@ -112,7 +112,7 @@ func Info(log string) {
 // Infof works like Printf and works same as Info
 func Infof(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Infof(template, a)
+		logger.Infof(template, a...)
 	}
 }
 
@@ -126,7 +126,7 @@ func Warn(log string) {
 // Warnf works like Printf and works same as Warn
 func Warnf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Warnf(template, a)
+		logger.Warnf(template, a...)
 	}
 }
 
@@ -159,7 +159,7 @@ func Panic(log string) {
 // Panicf works like Printf and works same as Panic
 func Panicf(template string, a ...interface{}) {
 	if logger != nil {
-		logger.Panicf(template, a)
+		logger.Panicf(template, a...)
 	}
 }
 
@@ -174,7 +174,7 @@ func Fatal(log string) {
 // Fatalf works like Printf and works same as Fatal
 func Fatalf(template string, a ...interface{}) {
 	if logger != nil {
-		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a)
-		logger.Fatalf(template, a)
+		_, _ = fmt.Fprintf(os.Stderr, "Fatal: "+template+"\n", a...)
+		logger.Fatalf(template, a...)
 	}
 }
-- 
2.43.0

