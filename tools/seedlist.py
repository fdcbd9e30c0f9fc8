HDR = '''package agentx

import "testing"

'''
seed('hdr-flags-before-known', 'C03', 'a header of a type whose allowed flags lack the one set', 'a Close header with the instance-registration flag is accepted',
 [('agentx/pdu.go', '''	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
		return
	}

	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	pdu.SessionId, data''', '''	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags)&^FlagInstanceRegistration == 0; !ok {
		return
	}

	d := decoder{byteOrder: pdu.Flags.byteOrder()}
	pdu.SessionId, data''')], 'agentx', HDR + '''func TestZZDemo(t *testing.T) {
	h := make([]byte, 20)
	h[0], h[1], h[2] = 1, byte(TagClose), byte(FlagInstanceRegistration)
	if _, ok := DecodePduHeader(h); ok {
		t.Fatal("accepted")
	}
}
''')
seed('tree-callback-panic', 'C17', 'a callback of ForRangeLeaves that panics and is recovered by the caller', 'the tree stays read-locked, the next writer blocks for ever',
 [('oid/tree.go', '''	t.lock.RLock()
	defer t.lock.RUnlock()
	t.root.forRangeLeaves(do)''', '''	t.lock.RLock()
	t.root.forRangeLeaves(do)
	t.lock.RUnlock()''')], 'oid', '''package oid

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	tr.AddNode([]uint32{1, 2})
	func() {
		defer func() { recover() }()
		tr.ForRangeLeaves(func([]uint32, *Node) { panic("x") })
	}()
	done := make(chan bool)
	go func() { tr.AddNode([]uint32{1, 3}); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("locked")
	}
}
''')
seed('tree-remove-rlock', 'C17', 'two goroutines removing nodes at the same time', 'RemoveNode changes the tree under the read lock',
 [('oid/tree.go', '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.removeNode(oid, false)''', '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.removeNode(oid, false)''')], 'oid', '''package oid

import (
	"testing"
	"time"
)

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	tr.AddNode([]uint32{1, 2})
	in, out := make(chan bool), make(chan bool)
	go tr.ForRangeLeaves(func([]uint32, *Node) { close(in); <-out })
	<-in
	done := make(chan bool)
	go func() { tr.RemoveNode([]uint32{1}); close(done) }()
	select {
	case <-done:
		t.Fatal("removed while a reader holds the lock")
	case <-time.After(time.Second):
	}
	close(out)
	<-done
}
''')
seed('error-name-shift', 'C13', 'the rarely used AgentX error 265', 'error 265 renders as a part of two names',
 [('pduerror/error_string.go', '127, 146, 162, 172', '127, 146, 161, 172')], 'pduerror', '''package pduerror

import "testing"

func TestZZDemo(t *testing.T) {
	if s := UnknownAgentCaps.String(); s != "UnknownAgentCaps" {
		t.Fatal(s)
	}
}
''')
seed('log-arg-lost', 'C21', 'a debug decode of a Register PDU', 'the message prints a missing argument',
 [('agentx/payload_params.go', '''	d.log.Writef("parsed Timeout: %d, Priority: %d, RangeSubid: %d",
''', '''	d.log.Writef("parsed Timeout: %d, Priority: %d, RangeSubid: %d, reserved: %d",
''')], 'agentx', '''package agentx

import (
	"fmt"
	"strings"
	"testing"
)

type zzlog struct{ s string }

func (l *zzlog) Write(m string)                          { l.s += m }
func (l *zzlog) Writef(f string, a ...interface{}) { l.s += fmt.Sprintf(f, a...) }

func TestZZDemo(t *testing.T) {
	data, ok := EncodePdu(Pdu{Tag: TagRegister, Params: RegisterParams{Subtree: []uint32{1, 3}}})
	if !ok {
		t.Fatal("encode")
	}
	pdu, _ := DecodePduHeader(data[:20])
	l := &zzlog{}
	if !DecodePduPayloadDbg(&pdu, data[20:], l) {
		t.Fatal("decode")
	}
	if strings.Contains(l.s, "%!") {
		t.Fatal(l.s)
	}
}
''')
seed('name-ifspeed', 'C23', 'a lookup of ifPhysAddress', 'ifPhysAddress maps to the OID of ifSpeed',
 [('oid/name.go', '''"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 6}''', '''"ifPhysAddress": {1, 3, 6, 1, 2, 1, 2, 2, 1, 5}''')], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	if !Eq(Name["ifPhysAddress"], []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, 6}) {
		t.Fatal(Name["ifPhysAddress"])
	}
}
''')
AXH = '''package agentx

import (
	"reflect"
	"testing"

	"github.com/alexispb/mygosnmp/asn"
)

var _ = reflect.DeepEqual
var _ asn.Varbind

type zzlog struct{}

func (zzlog) Write(string)                  {}
func (zzlog) Writef(string, ...interface{}) {}

func zzdec(t *testing.T, data []byte) Pdu {
	p, ok := DecodePduHeader(data[:20])
	if !ok || !DecodePduPayload(&p, data[20:]) {
		t.Fatal("not decoded")
	}
	return p
}

func zzvb(tag asn.Tag, v interface{}) Pdu {
	return Pdu{Tag: TagTestSet, Params: NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2}, Tag: tag, Value: v}}}
}

'''
seed('u64-le-top-bits', 'C01', 'a Counter64 of 2^63 or more in a little-endian PDU', 'the top byte of the counter is encoded wrongly',
 [('agentx/encoding.go', "byte(val>>32), byte(val>>40), byte(val>>48), byte(val>>56))", "byte(val>>32), byte(val>>40), byte(val>>48), byte(int64(val)>>56)&0x7f)")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, ok := EncodePdu(zzvb(asn.TagCounter64, uint64(0xF123456789ABCDEF)))
	if !ok || data[len(data)-1] != 0xF1 {
		t.Fatal(ok, data)
	}
}
''')
seed('register-upper-by-value', 'C01', 'a Register with a range subid and an upper bound of 0', 'the upper bound is left out although the range subid announces it',
 [('agentx/payload_params.go', """func (p RegisterParams) encodingSize() (size int) {
	size += 4 + objectIdEncodingSize(p.Subtree)
	if p.RangeSubid != 0 {""", """func (p RegisterParams) encodingSize() (size int) {
	size += 4 + objectIdEncodingSize(p.Subtree)
	if p.RangeSubid != 0 && p.UpperBound != 0 {"""),
  ('agentx/payload_params.go', """	data = append(data, p.Timeout, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 {
		data = e.appendUint32(data, p.UpperBound)
	}
	return data
}
""", """	data = append(data, p.Timeout, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 && p.UpperBound != 0 {
		data = e.appendUint32(data, p.UpperBound)
	}
	return data
}
""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, ok := EncodePdu(Pdu{Tag: TagRegister, Params: RegisterParams{RangeSubid: 2, Subtree: []uint32{9, 8}}})
	if !ok || len(data) != 20+4+4+8+4 {
		t.Fatal(ok, data)
	}
}
''')
seed('opaque-size-pad', 'C02', 'an Opaque value of particular lengths', 'the payload length in the header differs from the bytes that follow',
 [('agentx/encoding.go', """func opaqueEncodingSize(val []byte) int {
	return 4 + len(val) + paddingSize(len(val))""", """func opaqueEncodingSize(val []byte) int {
	if len(val) > 255 {
		return 4 + len(val) + paddingSize(len(val)+4) + len(val)&1
	}
	return 4 + len(val) + paddingSize(len(val))""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, ok := EncodePdu(zzvb(asn.TagOpaque, make([]byte, 301)))
	if !ok {
		t.Fatal()
	}
	n := int(data[16]) | int(data[17])<<8 | int(data[18])<<16
	if n != len(data)-20 {
		t.Fatal(n, len(data)-20)
	}
}
''')
seed('vb-reserved-and', 'C04', 'a varbind with one non-zero reserved byte', 'the varbind is accepted',
 [('agentx/varbind.go', "if next[0] != 0 || next[1] != 0 {", "if next[0] != 0 && next[1] != 0 {")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagNull, nil))
	data[23] = 1
	p, _ := DecodePduHeader(data[:20])
	if DecodePduPayload(&p, data[20:]) {
		t.Fatal("accepted")
	}
}
''')
seed('str-negative-size', 'C04', 'an octet string with a negative size', 'it is read as an empty string',
 [('agentx/encoding.go', """	if size < 0 {
		panic(ErrEncoding)
	}
	val, next = string(next[:int(size)]), next[int(size):]""", """	if size < 0 {
		size = 0
	}
	val, next = string(next[:int(size)]), next[int(size):]""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagOctetString, ""))
	for i := len(data) - 4; i < len(data); i++ {
		data[i] = 0xFF
	}
	p, _ := DecodePduHeader(data[:20])
	if DecodePduPayload(&p, data[20:]) {
		t.Fatal("accepted")
	}
}
''')
seed('u64-half-sign', 'C05', 'a little-endian Counter64 with bit 31 set', 'its upper half comes back as all ones',
 [('agentx/encoding.go', "uint64(data[3])<<24", "uint64(int32(data[3])<<24)")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	p := zzvb(asn.TagCounter64, uint64(0x80000000))
	data, _ := EncodePdu(p)
	if q := zzdec(t, data); !reflect.DeepEqual(q.Varbinds, p.Varbinds) {
		t.Fatal(q.Varbinds)
	}
}
''')
seed('range-include-low-bit', 'C05', 'a search range whose start-inclusion byte is not 0 or 1', 'the byte is normalised on the way out and does not come back',
 [('agentx/search_range.go', "	data = e.appendObjectId(data, r.StartOid, r.StartIncluded)\n	return e.appendObjectId(data, r.EndOid, 0)", "	include := r.StartIncluded\n	if include > 1 {\n		include = 1\n	}\n	data = e.appendObjectId(data, r.StartOid, include)\n	return e.appendObjectId(data, r.EndOid, 0)")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	p := Pdu{Tag: TagGet, Params: NoParams{}, Ranges: []SearchRange{{StartOid: []uint32{7}, StartIncluded: 2}}}
	data, ok := EncodePdu(p)
	if !ok {
		t.Fatal()
	}
	if q := zzdec(t, data); q.Ranges[0].StartIncluded != 2 {
		t.Fatal(q.Ranges)
	}
}
''')
seed('dbg-empty-context', 'C06', 'a PDU with the non-default-context flag and an empty context', 'the debug variant leaves the context out',
 [('agentx/pdu.go', """	if pdu.Flags&FlagNonDefaultContext != 0 {
		log.Write("appending Context")""", """	if pdu.Flags&FlagNonDefaultContext != 0 && pdu.Context != "" {
		log.Write("appending Context")""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	p := zzvb(asn.TagOctetString, "abc")
	p.Flags = FlagNonDefaultContext
	a, _ := EncodePdu(p)
	b, _ := EncodePduDbg(p, zzlog{})
	if !reflect.DeepEqual(a, b) {
		t.Fatal(a, b)
	}
}
''')
seed('dbg-pad-first', 'C07', 'a string with a non-zero first padding byte', 'the debug decoder accepts what the decoder refuses',
 [('agentx/encoding_dbg.go', "	for _, b := range data {\n		if b != 0 {\n			panic(\"non-zero padding byte(s)\")", "	for _, b := range data[1:] {\n		if b != 0 {\n			panic(\"non-zero padding byte(s)\")")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagOctetString, "abc"))
	data[len(data)-1] = 5
	p, _ := DecodePduHeader(data[:20])
	if DecodePduPayloadDbg(&p, data[20:], zzlog{}) != DecodePduPayload(&p, data[20:]) {
		t.Fatal("differ")
	}
}
''')
seed('dbg-ip-size', 'C07', 'an IP address with a size above 4', 'the debug decoder accepts what the decoder refuses',
 [('agentx/encoding_dbg.go', "	if size != 4 {\n		panic(\"size", "	if size < 4 {\n		panic(\"size")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagIpAddress, [4]byte{1, 2, 3, 4}))
	data[len(data)-8] = 7
	p, _ := DecodePduHeader(data[:20])
	if DecodePduPayloadDbg(&p, data[20:], zzlog{}) != DecodePduPayload(&p, data[20:]) {
		t.Fatal("differ")
	}
}
''')
seed('recover-own-errors', 'C08', 'a varbind whose value has the wrong type', 'only the codec\'s own error is turned into a refusal, a type-assertion panic escapes',
 [('agentx/pdu.go', """func EncodePdu(pdu Pdu) (data []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
""", """func EncodePdu(pdu Pdu) (data []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if ok = false; r != ErrEncoding {
				panic(r)
			}
		}
	}()
""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	if _, ok := EncodePdu(zzvb(asn.TagOctetString, 17)); ok {
		t.Fatal("ok")
	}
}
''')
seed('ticks-mistyped', 'C09', 'a TimeTicks varbind whose value is not an uint32', 'it encodes as 0 instead of being refused',
 [('agentx/varbind.go', """	asn.TagTimeTicks: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			return e.appendUint32(data, v.(uint32))""", """	asn.TagTimeTicks: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			ticks, _ := v.(uint32)
			return e.appendUint32(data, ticks)""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	if _, ok := EncodePdu(zzvb(asn.TagTimeTicks, int64(3))); ok {
		t.Fatal("encoded")
	}
}
''')
seed('str-alloc-first', 'C10', 'an octet string whose size field is far larger than the data', 'gigabytes are allocated before the size is checked',
 [('agentx/encoding.go', "	val, next = string(next[:int(size)]), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))", "	buf := make([]byte, int(size))\n	copy(buf, next[:int(size)])\n	val, next = string(buf), next[int(size):]\n	next = d.parsePaddingBytes(next, int(size))")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagOctetString, ""))
	data[len(data)-1] = 0x10
	p, _ := DecodePduHeader(data[:20])
	r := testing.Benchmark(func(b *testing.B) {
		b.ReportAllocs()
		for i := 0; i < b.N; i++ {
			q := p
			DecodePduPayload(&q, data[20:])
		}
	})
	if r.AllocedBytesPerOp() > 1<<20 {
		t.Fatal(r.AllocedBytesPerOp())
	}
}
''')
seed('dbg-opaque-shared', 'C11', 'modifying the receive buffer after decoding with logging', 'the decoded Opaque value changes with the buffer',
 [('agentx/encoding_dbg.go', "	val = make([]byte, int(size))\n	copy(val, data)\n	nextpos = d.parsePadding", "	val = data\n	nextpos = d.parsePadding")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	data, _ := EncodePdu(zzvb(asn.TagOpaque, []byte{1, 2, 3, 4}))
	p, _ := DecodePduHeader(data[:20])
	if !DecodePduPayloadDbg(&p, data[20:], zzlog{}) {
		t.Fatal()
	}
	for i := range data {
		data[i] = 0xEE
	}
	if v := p.Varbinds[0].Value.([]byte); v[0] != 1 {
		t.Fatal(v)
	}
}
''')
seed('hex-shared-buffer', 'C12', 'two goroutines dumping at the same time', 'the line buffer is shared by all calls',
 [('hex/dump.go', "	var buf [13]byte\n\n	if i1 == i2 {", "	if i1 == i2 {"), ('hex/dump.go', "// must be: len(dst) >= 10\n", "var buf [13]byte\n\n// must be: len(dst) >= 10\n")], 'hex', '''package hex

import (
	"sync"
	"testing"
)

func TestZZDemo(t *testing.T) {
	a, b := make([]byte, 4000), make([]byte, 4000)
	for i := range b {
		b[i] = 0xFF
	}
	want := [2]string{Dump("", a), Dump("", b)}
	var wg sync.WaitGroup
	bad := false
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 400; i++ {
				if d := [][]byte{a, b}[g&1]; Dump("", d) != want[g&1] {
					bad = true
				}
			}
		}(g)
	}
	wg.Wait()
	if bad {
		t.Fatal("garbled")
	}
}
''')
seed('counter-valid-int', 'C14', 'a Counter32 value', 'validity asks for another Go type than the codec',
 [('asn/value.go', """	TagCounter32: {
		tagstr: "Counter32",
		isvalid: func(v interface{}) bool {
			_, ok := v.(uint32)
			return ok""", """	TagCounter32: {
		tagstr: "Counter32",
		isvalid: func(v interface{}) bool {
			switch v.(type) {
			case uint32, nil:
				return true
			}
			return false""")], 'agentx', AXH + '''func TestZZDemo(t *testing.T) {
	_, ok := EncodePdu(zzvb(asn.TagCounter32, nil))
	if ok != asn.TagCounter32.IsValidValue(nil) {
		t.Fatal(ok)
	}
}
''')
seed('cmp-signed', 'C15', 'subidentifiers of which one is 2^31 or more', 'they compare as signed numbers',
 [('oid/oid.go', "		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {\n			return 1\n		}", "		if d := int32(id1[i] - id2[i]); d < 0 {\n			return -1\n		} else if d > 0 {\n			return 1\n		}")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	if Compare([]uint32{1, 0x90000000}, []uint32{1, 1}) != 1 {
		t.Fatal()
	}
}
''')
seed('cat-in-place', 'C16', 'appending twice to an OID with spare capacity', 'the second result overwrites the first',
 [('oid/oid.go', "	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return", "	return append(id, subids...)")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	base := make([]uint32, 2, 8)
	a := Cat(base, 1)
	Cat(base, 2)
	if a[2] != 1 {
		t.Fatal(a)
	}
}
''')
seed('tree-remove-swap', 'C18', 'removing a child that is not one of the last two', 'the children are no longer sorted',
 [('oid/node.go', "		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)", "		last := len(node.Children) - 1\n		node.Children[ind] = node.Children[last]\n		node.Children = node.Children[:last]")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	for _, s := range []uint32{1, 2, 3, 4, 5} {
		tr.AddNode([]uint32{s})
	}
	tr.RemoveNode([]uint32{1})
	if tr.GetNode([]uint32{2}) == nil {
		t.Fatal("lost")
	}
}
''')
seed('tree-insert-alias', 'C18', 'inserting between children while the slice has spare capacity', 'a child is overwritten by its left neighbour',
 [('oid/node.go', "			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child", "			node.Children = append(append(node.Children[:ind], child), node.Children[ind:]...)")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	for _, s := range []uint32{1, 2, 4, 6, 3, 5} {
		tr.AddNode([]uint32{s})
	}
	for _, s := range []uint32{1, 2, 3, 4, 5, 6} {
		if tr.GetNode([]uint32{s}) == nil {
			t.Fatal("lost")
		}
	}
}
''')
seed('next-forgets-equality', 'C19', 'a branch greater than the start OID whose next subidentifier equals that of the start', 'leaves after the start are skipped',
 [('oid/node.go', "					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], false)", "					iterate(child, ind+1, child.Subid == oid1[ind], false)")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	tr.AddNode([]uint32{1, 5})
	n := tr.AddNode([]uint32{2, 5, 1})
	if tr.GetNextNode([]uint32{1, 5, 9}, nil, false) != n {
		t.Fatal()
	}
}
''')
seed('walk-shares-oid', 'C19', 'keeping the OIDs passed to the callback', 'siblings share storage, so a kept OID changes',
 [('oid/node.go', "			nodeOid := Cat(parentOid, node.Subid)", "			nodeOid := append(parentOid, node.Subid)")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	tr := NewTree()
	tr.AddNode([]uint32{1, 2, 3, 4})
	tr.AddNode([]uint32{1, 2, 3, 5})
	var l [][]uint32
	tr.ForRangeLeaves(func(id []uint32, n *Node) { l = append(l, id) })
	if l[0][3] != 4 || l[1][3] != 5 {
		t.Fatal(l)
	}
}
''')
seed('dump-reversed-bounds', 'C20', 'a dump whose start lies after its end', 'it panics',
 [('hex/dump.go', "i1 < 0 || i1 > i2 || i2 > len(data)", "i1 < 0 || i2 > len(data)")], 'hex', '''package hex

import "testing"

func TestZZDemo(t *testing.T) {
	DumpSub("", make([]byte, 40), 39, 2)
}
''')
seed('parse-wide', 'C22', 'a subidentifier of 2^32 or more', 'it is truncated',
 [('oid/oid.go', "strconv.ParseUint(s[:ind], 10, 32)", "strconv.ParseUint(s[:ind], 10, 64)")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("parsed")
		}
	}()
	Parse("1.3.4294967297.2")
}
''')
seed('parse-trailing-dot', 'C22', 'a text that ends in a dot', 'it is accepted',
 [('oid/oid.go', "	nsubids := strings.Count(s, \".\") + 1", "	s = strings.TrimSuffix(s, \".\")\n	nsubids := strings.Count(s, \".\") + 1")], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("parsed")
		}
	}()
	Parse("1.3.6.")
}
''')
seed('diff-prefix-equal', 'C24', 'two slices of which one is a proper prefix of the other', 'the difference is reported as empty',
 [('hex/dump.go', "	if bytes.Equal(data1, data2) {\n		return \"\"", "	if n := generics.Min(len(data1), len(data2)); bytes.Equal(data1[:n], data2[:n]) {\n		return \"\"")], 'hex', '''package hex

import "testing"

func TestZZDemo(t *testing.T) {
	if DumpDiff([]byte{1, 2, 3}, []byte{1, 2}) == "" {
		t.Fatal()
	}
}
''')
seed('dump-offset-high', 'C24', 'a dump past offset 65535', 'the offset is wrong',
 [('hex/dump.go', "b = byte(offset >> 16)", "b = byte(offset >> 17)")], 'hex', '''package hex

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	if s := DumpSub("", make([]byte, 0x12350), 0x12340, 0x12344); !strings.HasPrefix(s, "00012340") {
		t.Fatal(s)
	}
}
''')
seed('text-ticks-signed', 'C25', 'a TimeTicks value of 2^31 or more', 'it is rendered as a negative number',
 [('asn/value.go', '''			_, ok := v.(uint32)
			return ok
		},
		fprint: func(sb *strings.Builder, v interface{}) {
			sb.WriteString(strconv.FormatUint(uint64(v.(uint32)), 10))
		},
	},
	TagOpaque''', '''			_, ok := v.(uint32)
			return ok
		},
		fprint: func(sb *strings.Builder, v interface{}) {
			sb.WriteString(strconv.FormatInt(int64(int32(v.(uint32))), 10))
		},
	},
	TagOpaque''')], 'asn', '''package asn

import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	var sb strings.Builder
	TagTimeTicks.Fprint(&sb, uint32(4000000000))
	if sb.String() != "4000000000" {
		t.Fatal(sb.String())
	}
}
''')
seed('text-oid-wrap', 'C25', 'an OID with a subidentifier above 2^31', 'the subidentifier is rendered as a negative number',
 [('oid/oid.go', 'strconv.FormatUint(uint64(subid), 10)', 'strconv.Itoa(int(int32(subid)))')], 'oid', '''package oid

import "testing"

func TestZZDemo(t *testing.T) {
	if s := String([]uint32{1, 3, 4294967295}); s != "1.3.4294967295" {
		t.Fatal(s)
	}
}
''')
seed('pdu-text-last-range', 'C26', 'a PDU with two or more search ranges or varbinds', 'the last of them is missing from its text',
 [('internal/struct.go', 'for i := 0; i < v.Len(); i++ {', 'for i := 0; i < v.Len()-1 || i == 0; i++ {')], 'agentx', HDR.replace('import "testing"', 'import (\n\t"strings"\n\t"testing"\n)') + '''func TestZZDemo(t *testing.T) {
	pdu := Pdu{Tag: TagGet, Params: NoParams{}, Ranges: []SearchRange{{StartOid: []uint32{1, 2}}, {StartOid: []uint32{1, 77}}}}
	if s := pdu.String(0); !strings.Contains(s, "1.77") {
		t.Fatal(s)
	}
}
''')
seed('pdu-text-signed', 'C26', 'a session, transaction or packet id of 2^31 or more', 'it is shown as a negative number',
 [('internal/struct.go', 'sb.WriteString(strconv.FormatUint(v.Uint(), 10))', 'sb.WriteString(strconv.Itoa(int(int32(v.Uint()))))')], 'agentx', HDR.replace('import "testing"', 'import (\n\t"strings"\n\t"testing"\n)') + '''func TestZZDemo(t *testing.T) {
	pdu := Pdu{Tag: TagPing, Params: NoParams{}, SessionId: 4000000000}
	if s := pdu.String(0); !strings.Contains(s, "4000000000") {
		t.Fatal(s)
	}
}
''')
