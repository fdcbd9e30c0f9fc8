From 0f14fcc4b11792647460e93582cc61aac5d8784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:56 +0000
Subject: [PATCH 01/13] fix: compress the internet prefix of an oid only for
 prefix subids 1..255

A subid of 0 or 256 was written as prefix 0, which means 'no prefix', so
the first five subids of such an oid were lost on the wire.
---
 agentx/encoding.go     | 4 ++--
 agentx/encoding_dbg.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 3e8a625..2fb9998 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -160,7 +160,7 @@ func objectIdEncodingSize(id []uint32) (size int) {
 	size = 4
 	if len(id) > 0 {
 		nsubids := len(id)
-		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] <= 256 {
+		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
 			nsubids -= 5
 		}
 		size += 4 * nsubids
@@ -174,7 +174,7 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 	}
 	nsubids := len(val)
 	prefix := byte(0)
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 8724348..99388d9 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -170,7 +170,7 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 	nsubids := len(val)
 	prefix := byte(0)
 
-	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] <= 256 {
+	if nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255 {
 		nsubids -= 5
 		prefix = byte(val[4])
 		val = val[5:]
-- 
2.43.0


From a437d0573bc446ef63b92e5b04d611a57aba95fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:57 +0000
Subject: [PATCH 02/13] fix: refuse to encode an oid with more than 128 subids

The number of subids was silently truncated to one byte.
---
 agentx/encoding.go     | 6 ++++++
 agentx/encoding_dbg.go | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 2fb9998..01ffac9 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -107,6 +107,9 @@ type decoder struct {
 	byteOrder
 }
 
+// maxSubids is the max number of subids in the encoded ObjectId.
+const maxSubids = 128
+
 var mod2pad [4]int = [4]int{0, 3, 2, 1}
 
 func paddingSize(n int) int {
@@ -179,6 +182,9 @@ func (e encoder) appendObjectId(data []byte, val []uint32, include byte) []byte
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic(ErrEncoding)
+	}
 	data = append(data, byte(nsubids), prefix, include, 0)
 	for _, subid := range val {
 		data = e.appendUint32(data, subid)
diff --git a/agentx/encoding_dbg.go b/agentx/encoding_dbg.go
index 99388d9..ac76625 100644
--- a/agentx/encoding_dbg.go
+++ b/agentx/encoding_dbg.go
@@ -175,6 +175,9 @@ func (e encoderDbg) appendObjectId(data []byte, val []uint32, include byte) []by
 		prefix = byte(val[4])
 		val = val[5:]
 	}
+	if nsubids > maxSubids {
+		panic("too many subids")
+	}
 
 	e.log.Writef("appending ObjectId header {nsubids: %d, prefix: %d, include: %d, reserved byte: 0}:",
 		nsubids, prefix, include)
-- 
2.43.0


From 638739544bc3c769e332cdd9d2b0bceac53d48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:58 +0000
Subject: [PATCH 03/13] fix: refuse to encode a pdu with flags not allowed for
 its type

Such a pdu was encoded although every receiver, including the decoder
of this package, rejects it.
---
 agentx/pdu.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index 66961b1..f9228ff 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -67,6 +67,10 @@ func EncodePdu(pdu Pdu) (data []byte, ok bool) {
 		ok = false
 		return
 	}
+	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
+		ok = false
+		return
+	}
 
 	// This panics if pdu.Tag is unknown or pdu.Params = nil
 	payloadSize := pdu.countPayloadSize()
@@ -197,6 +201,11 @@ func EncodePduDbg(pdu Pdu, log logger.Log) (data []byte, ok bool) {
 		log.Write("!!! Error. Invalid type of payload params")
 		return
 	}
+	fooFlags := pdu.Tag.NotAllowedFlags(pdu.Flags)
+	if ok = fooFlags == 0; !ok {
+		log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())
+		return
+	}
 
 	payloadSize := pdu.countPayloadSize()
 	pdu.PayloadSize = int32(payloadSize)
-- 
2.43.0


From a371a115886a3d7f037db2b466c8221f532523e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:59 +0000
Subject: [PATCH 04/13] fix: refuse to encode negative GetBulk counters

They were encoded although the decoder rejects them.
---
 agentx/payload_params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 684924a..0adbca7 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -302,6 +302,9 @@ func (GetBulkParams) encodingSize() int {
 }
 
 func (p GetBulkParams) append(e encoder, data []byte) []byte {
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic(ErrEncoding)
+	}
 	data = e.appendInt16(data, p.NonRepeaters)
 	return e.appendInt16(data, p.MaxRepeatitions)
 }
@@ -318,6 +321,9 @@ func parseGetBulkParams(d decoder, data []byte) (PayloadParams, []byte) {
 
 func (p GetBulkParams) appendDbg(e encoderDbg, data []byte) []byte {
 	e.log.Write("appending GetBulkParams")
+	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
+		panic("negative NonRepeaters or MaxRepeatitions")
+	}
 	e.log.Write("appending NonRepeaters")
 	data = e.appendInt16(data, p.NonRepeaters)
 	e.log.Write("appending MaxRepeatitions")
-- 
2.43.0


From a51776aa852d385e19d79b78f01ff07a108234ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:59 +0000
Subject: [PATCH 05/13] fix: reject a varbind type which does not fit the value
 tag

The high byte of the two-byte type was ignored, so e.g. 0x0102 was
accepted as Integer32.
---
 agentx/varbind.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/varbind.go b/agentx/varbind.go
index bdbe593..c927808 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -20,7 +20,7 @@ func (e encoder) appendVarbind(data []byte, vb asn.Varbind) []byte {
 func (d decoder) parseVarbind(data []byte) (vb asn.Varbind, next []byte) {
 	var tag int16
 	tag, next = d.parseInt16(data)
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic(ErrEncoding)
 	}
 	if next[0] != 0 || next[1] != 0 {
@@ -60,7 +60,7 @@ func (d decoderDbg) parseVarbind(startpos int) (vb asn.Varbind, nextpos int) {
 	tag, nextpos = d.parseInt16(startpos)
 	vb.Tag = asn.Tag(tag)
 	d.log.Writef("parsed Tag: %s", vb.Tag.String())
-	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {
+	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
 		panic("Unknown value tag")
 	}
 	d.log.Write("parsing 2 reserved bytes")
-- 
2.43.0


From 38d9874aea1bb9231a125d8372084894ba51464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:00 +0000
Subject: [PATCH 06/13] fix: check payload data size against pdu.PayloadSize in
 DecodePduPayload

DecodePduPayloadDbg, documented as functionally equivalent, does so.
---
 agentx/pdu.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/agentx/pdu.go b/agentx/pdu.go
index f9228ff..231f5bc 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -149,6 +149,10 @@ func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
 		}
 	}()
 
+	if len(data) != int(pdu.PayloadSize) {
+		return false
+	}
+
 	d := decoder{byteOrder: pdu.Flags.byteOrder()}
 
 	if pdu.Flags&FlagNonDefaultContext != 0 {
-- 
2.43.0


From 57007ee8e713245696782cf001e6e68d13e58870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:01 +0000
Subject: [PATCH 07/13] fix: check the size of Opaque data before allocating
 memory for it

A 4-byte size field could make the decoder allocate up to 2 GiB.
---
 agentx/encoding.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/agentx/encoding.go b/agentx/encoding.go
index 01ffac9..33f8dca 100644
--- a/agentx/encoding.go
+++ b/agentx/encoding.go
@@ -249,9 +249,9 @@ func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
 	if size < 0 {
 		panic(ErrEncoding)
 	}
+	chunk, next := next[:int(size)], next[int(size):]
 	val = make([]byte, int(size))
-	copy(val, next[:int(size)])
-	next = next[int(size):]
+	copy(val, chunk)
 	next = d.parsePaddingBytes(next, int(size))
 	return
 }
-- 
2.43.0


From a08aa98f3ca69f58a078d3787f79a0305fa9aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:02 +0000
Subject: [PATCH 08/13] fix: TagSequence is not a value tag

No value is valid for it and the codec has no encoding for it.
---
 asn/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn/value.go b/asn/value.go
index 9903273..ba8034a 100644
--- a/asn/value.go
+++ b/asn/value.go
@@ -15,7 +15,7 @@ func (tag Tag) IsKnown() (ok bool) {
 
 func (tag Tag) IsValueTag() (ok bool) {
 	_, ok = table[tag]
-	return
+	return ok && tag != TagSequence
 }
 
 func (tag Tag) String() string {
-- 
2.43.0


From 346b0926e817eafec1854cf6e5bbea35ff1fe945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:03 +0000
Subject: [PATCH 09/13] fix: oids of the system group in oid.Name

The group is 1.3.6.1.2.1.1; its subid was missing, so the names
collided with mib2 and interfaces.
---
 oid/name.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/oid/name.go b/oid/name.go
index f6caa25..a6e42cc 100644
--- a/oid/name.go
+++ b/oid/name.go
@@ -12,21 +12,21 @@ var Name = map[string][]uint32{
 	"mib2":         {1, 3, 6, 1, 2, 1},
 	"enterprises":  {1, 3, 6, 1, 4, 1},
 	// System
-	"system":          {1, 3, 6, 1, 2, 1},
-	"sysDescr":        {1, 3, 6, 1, 2, 1, 1}, // OctetString  read-only
-	"sysOid":          {1, 3, 6, 1, 2, 1, 2}, // ObjectID     read-only
-	"sysUpTime":       {1, 3, 6, 1, 2, 1, 3}, // TimeTicks    read-only
-	"sysContact":      {1, 3, 6, 1, 2, 1, 4}, // OctetString  read-write
-	"sysName":         {1, 3, 6, 1, 2, 1, 5}, // OctetString  read-write
-	"sysLocation":     {1, 3, 6, 1, 2, 1, 6}, // OctetString  read-write
-	"sysServices":     {1, 3, 6, 1, 2, 1, 7}, // Integer32    read-only
-	"sysORLastChange": {1, 3, 6, 1, 2, 1, 8}, // TimeTicks    read-only
-	"sysORTable":      {1, 3, 6, 1, 2, 1, 9},
-	"sysOREntry":      {1, 3, 6, 1, 2, 1, 9, 1},
-	"sysORIndex":      {1, 3, 6, 1, 2, 1, 9, 1, 1}, // Integer32    not-accessible
-	"sysORID":         {1, 3, 6, 1, 2, 1, 9, 1, 2}, // ObjectID     read-only
-	"sysORDescr":      {1, 3, 6, 1, 2, 1, 9, 1, 3}, // OctetString  read-only
-	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 9, 1, 4}, // TimeTicks    read-only
+	"system":          {1, 3, 6, 1, 2, 1, 1},
+	"sysDescr":        {1, 3, 6, 1, 2, 1, 1, 1}, // OctetString  read-only
+	"sysOid":          {1, 3, 6, 1, 2, 1, 1, 2}, // ObjectID     read-only
+	"sysUpTime":       {1, 3, 6, 1, 2, 1, 1, 3}, // TimeTicks    read-only
+	"sysContact":      {1, 3, 6, 1, 2, 1, 1, 4}, // OctetString  read-write
+	"sysName":         {1, 3, 6, 1, 2, 1, 1, 5}, // OctetString  read-write
+	"sysLocation":     {1, 3, 6, 1, 2, 1, 1, 6}, // OctetString  read-write
+	"sysServices":     {1, 3, 6, 1, 2, 1, 1, 7}, // Integer32    read-only
+	"sysORLastChange": {1, 3, 6, 1, 2, 1, 1, 8}, // TimeTicks    read-only
+	"sysORTable":      {1, 3, 6, 1, 2, 1, 1, 9},
+	"sysOREntry":      {1, 3, 6, 1, 2, 1, 1, 9, 1},
+	"sysORIndex":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 1}, // Integer32    not-accessible
+	"sysORID":         {1, 3, 6, 1, 2, 1, 1, 9, 1, 2}, // ObjectID     read-only
+	"sysORDescr":      {1, 3, 6, 1, 2, 1, 1, 9, 1, 3}, // OctetString  read-only
+	"sysORUpTime":     {1, 3, 6, 1, 2, 1, 1, 9, 1, 4}, // TimeTicks    read-only
 	// Interfaces
 	"interfaces":    {1, 3, 6, 1, 2, 1, 2},
 	"ifNumber":      {1, 3, 6, 1, 2, 1, 2, 1}, // Integer32  read-only
-- 
2.43.0


From 22c0340986a98ef86edce072de16d129f8f3404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:04 +0000
Subject: [PATCH 10/13] fix: arguments of debug log messages which do not match
 their formats

---
 agentx/payload_params.go | 2 +-
 agentx/pdu.go            | 2 +-
 agentx/varbind.go        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/agentx/payload_params.go b/agentx/payload_params.go
index 0adbca7..240ecab 100644
--- a/agentx/payload_params.go
+++ b/agentx/payload_params.go
@@ -138,7 +138,7 @@ func parseCloseParamsDbg(d decoderDbg, pos int) (PayloadParams, int) {
 	d.log.Write("parsing first 4 bytes")
 	data, pos := d.nextChunk(pos, 4)
 	p.Reason = CloseReason(data[0])
-	d.log.Writef("parsed Reason: %d", p.Reason.String())
+	d.log.Writef("parsed Reason: %s", p.Reason.String())
 	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
 		panic("non-zero reserved byte")
 	}
diff --git a/agentx/pdu.go b/agentx/pdu.go
index 231f5bc..39f0fc9 100644
--- a/agentx/pdu.go
+++ b/agentx/pdu.go
@@ -292,7 +292,7 @@ func DecodePduHeaderDbg(data []byte, log logger.Log) (pdu Pdu, ok bool) {
 	log.Writef("parsed agentx version: %d, pdu.Tag: %s, pdu.Flags: %s",
 		data[0], pdu.Tag.String(), pdu.Flags.String())
 	if ok = data[0] == 1; !ok {
-		log.Writef("!!! Error. Invalid agentx version", data[0])
+		log.Writef("!!! Error. Invalid agentx version: %d", data[0])
 		return
 	}
 	if ok = pdu.Tag.IsKnown(); !ok {
diff --git a/agentx/varbind.go b/agentx/varbind.go
index c927808..c19b7d1 100644
--- a/agentx/varbind.go
+++ b/agentx/varbind.go
@@ -48,8 +48,8 @@ func (e encoderDbg) appendVarbind(data []byte, vb asn.Varbind) []byte {
 	e.log.Write("appending Varbind Value")
 	data = vbtable[vb.Tag].appendValueDbg(e, data, vb.Value)
 
-	e.log.Writef("appended Varbind data:\n%s")
-	hex.DumpSub("    ", data, startindex, len(data))
+	e.log.Writef("appended Varbind data:\n%s",
+		hex.DumpSub("    ", data, startindex, len(data)))
 	return data
 }
 
-- 
2.43.0


From b47c5569ecd19b361dfc6b2777926035feb97f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:34 +0000
Subject: [PATCH 11/13] fix: Prefix panics if depth is negative

---
 internal/indent.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/indent.go b/internal/indent.go
index a9db8c9..ef65017 100644
--- a/internal/indent.go
+++ b/internal/indent.go
@@ -17,5 +17,8 @@ func Prefix(depth int) string {
 	if depth >= maxdepth {
 		depth = maxdepth
 	}
+	if depth < 0 {
+		depth = 0
+	}
 	return string(maxprefix[:tabsize*depth])
 }
-- 
2.43.0


From de9cc0dd6acaad6af28cc0890bc4f5c4e0071ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:35 +0000
Subject: [PATCH 12/13] fix: NotAllowedFlags panics if pdu tag is unknown

No flag is allowed for such a tag.
---
 agentx/pdu_tag.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/agentx/pdu_tag.go b/agentx/pdu_tag.go
index fd353a4..a11ad1f 100644
--- a/agentx/pdu_tag.go
+++ b/agentx/pdu_tag.go
@@ -39,6 +39,9 @@ func (tag PduTag) String() string {
 }
 
 func (tag PduTag) NotAllowedFlags(f Flags) Flags {
+	if !tag.IsKnown() {
+		return f
+	}
 	return f &^ pduTable[tag].allowedFlags
 }
 
-- 
2.43.0


From f8b5b041540fc3c997c643558bd638c13a472140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:36 +0000
Subject: [PATCH 13/13] fix: GetNextNode bounds for leaves which are prefixes
 of oid1 or oid2

A leaf which is a proper prefix of oid1 precedes oid1, a leaf which is
a proper prefix of oid2 precedes oid2, and the root is not a leaf.
---
 oid/node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/oid/node.go b/oid/node.go
index 5ac2591..86a9f9c 100644
--- a/oid/node.go
+++ b/oid/node.go
@@ -126,7 +126,12 @@ func (node *Node) getNextNode(oid1, oid2 []uint32, include1 bool, repeatition in
 	var iterate func(*Node, int, bool, bool)
 	iterate = func(node *Node, ind int, eq1, eq2 bool) {
 		if len(node.Children) == 0 {
-			if (!eq1 || include1) && !eq2 {
+			if node.Parent == nil {
+				return
+			}
+			ge1 := !eq1 || include1 && ind == len(oid1)
+			lt2 := !eq2 || ind < len(oid2)
+			if ge1 && lt2 {
 				if repeatition == 1 {
 					resnode = node
 				} else {
-- 
2.43.0

