# Behaviour-preserving edits: the checks have to stay quiet on each of them.
EN='agentx/encoding.go'; PD='agentx/pdu.go'; DB='agentx/encoding_dbg.go'; VB='agentx/varbind.go'; PP='agentx/payload_params.go'; SR='agentx/search_range.go'
PAD='''	switch paddingSize(len(data)) {
	case 1:
		return append(data, 0)
	case 2:
		return append(data, 0, 0)
	case 3:
		return append(data, 0, 0, 0)
	default:
		return data
	}
'''
ref('pad-loop-mod', [(EN, PAD, '''	for len(data)%4 != 0 {
		data = append(data, 0)
	}
	return data
''')])
ref('pad-loop-count', [(EN, PAD, '''	for n := paddingSize(len(data)); n > 0; n-- {
		data = append(data, 0)
	}
	return data
''')])
ref('pad-make', [(EN, PAD, '''	return append(data, make([]byte, paddingSize(len(data)))...)
''')])
ref('pad-zeros', [(EN, PAD, '''	var zeros [4]byte
	return append(data, zeros[:paddingSize(len(data))]...)
''')])
ref('pad-if', [(EN, PAD, '''	n := paddingSize(len(data))
	if n == 0 {
		return data
	}
	return append(data, []byte{0, 0, 0}[:n]...)
''')])
ref('padsize-mod', [(EN, '	return mod2pad[n&0x03]', '	return (4 - n%4) % 4'), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
ref('padsize-neg', [(EN, '	return mod2pad[n&0x03]', '	return -n & 3'), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
ref('padsize-if', [(EN, '	return mod2pad[n&0x03]', '''	if r := n % 4; r != 0 {
		return 4 - r
	}
	return 0'''), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
ref('padsize-switch', [(EN, '	return mod2pad[n&0x03]', '''	switch n & 3 {
	case 1:
		return 3
	case 2:
		return 2
	case 3:
		return 1
	}
	return 0'''), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
ref('padsize-round', [(EN, '	return mod2pad[n&0x03]', '	return (n+3)/4*4 - n'), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
ref('padsize-mask', [(EN, '	return mod2pad[n&0x03]', '	return (n+3)&^3 - n'), (EN, 'var mod2pad [4]int = [4]int{0, 3, 2, 1}\n', '')])
PP_ = '''	size = paddingSize(size)
	for i := 0; i < size; i++ {
		if data[i] != 0 {
			panic(ErrEncoding)
		}
	}
	return data[size:]
'''
ref('parsepad-range', [(EN, PP_, '''	n := paddingSize(size)
	for _, b := range data[:n] {
		if b != 0 {
			panic(ErrEncoding)
		}
	}
	return data[n:]
''')])
ref('parsepad-consume', [(EN, PP_, '''	for n := paddingSize(size); n > 0; n-- {
		if data[0] != 0 {
			panic(ErrEncoding)
		}
		data = data[1:]
	}
	return data
''')])
ref('parsepad-or', [(EN, PP_, '''	size = paddingSize(size)
	var acc byte
	for i := 0; i < size; i++ {
		acc |= data[i]
	}
	if acc != 0 {
		panic(ErrEncoding)
	}
	return data[size:]
''')])
ref('parsepad-flag', [(EN, PP_, '''	n := paddingSize(size)
	clean := true
	for i := 0; i < n; i++ {
		if data[i] != 0 {
			clean = false
			break
		}
	}
	if !clean {
		panic(ErrEncoding)
	}
	return data[n:]
''')])
ref('parsepad-helper', [(EN, PP_, '''	size = paddingSize(size)
	if !allZero(data[:size]) {
		panic(ErrEncoding)
	}
	return data[size:]
'''), (EN, 'func octetStringEncodingSize', '''func allZero(p []byte) bool {
	for _, b := range p {
		if b != 0 {
			return false
		}
	}
	return true
}

func octetStringEncodingSize''')])
ref('binary-pkg', [(EN, 'import (\n\t"errors"\n', 'import (\n\t"encoding/binary"\n\t"errors"\n'),
 (EN, 'func (networkByteOrder) appendUint32(data []byte, val uint32) []byte {\n	return append(data, byte(val>>24), byte(val>>16), byte(val>>8), byte(val))', 'func (networkByteOrder) appendUint32(data []byte, val uint32) []byte {\n	return binary.BigEndian.AppendUint32(data, val)'),
 (EN, 'func (inverseByteOrder) appendUint32(data []byte, val uint32) []byte {\n	return append(data, byte(val), byte(val>>8), byte(val>>16), byte(val>>24))', 'func (inverseByteOrder) appendUint32(data []byte, val uint32) []byte {\n	return binary.LittleEndian.AppendUint32(data, val)'),
 (EN, '	return uint32(data[0])<<24 | uint32(data[1])<<16 | uint32(data[2])<<8 | uint32(data[3]), data[4:]', '	return binary.BigEndian.Uint32(data), data[4:]'),
 (EN, '	return uint32(data[0]) | uint32(data[1])<<8 | uint32(data[2])<<16 | uint32(data[3])<<24, data[4:]', '	return binary.LittleEndian.Uint32(data), data[4:]'),
 (EN, '''	return uint64(data[0])<<56 | uint64(data[1])<<48 | uint64(data[2])<<40 | uint64(data[3])<<32 |
		uint64(data[4])<<24 | uint64(data[5])<<16 | uint64(data[6])<<8 | uint64(data[7]), data[8:]''', '	return binary.BigEndian.Uint64(data), data[8:]'),
])
ref('signed-via-unsigned', [
 (EN, '	return int32(data[0])<<24 | int32(data[1])<<16 | int32(data[2])<<8 | int32(data[3]), data[4:]', '	u, next := networkByteOrder{}.parseUint32(data)\n	return int32(u), next'),
 (EN, '	return int32(data[0]) | int32(data[1])<<8 | int32(data[2])<<16 | int32(data[3])<<24, data[4:]', '	u, next := inverseByteOrder{}.parseUint32(data)\n	return int32(u), next'),
 (EN, '	return int16(data[0])<<8 | int16(data[1]), data[2:]', '	return int16(uint16(data[0])<<8 + uint16(data[1])), data[2:]'),
 (EN, 'func (networkByteOrder) appendInt32(data []byte, val int32) []byte {\n	return append(data, byte(val>>24), byte(val>>16), byte(val>>8), byte(val))', 'func (o networkByteOrder) appendInt32(data []byte, val int32) []byte {\n	return o.appendUint32(data, uint32(val))'),
])
ref('uint64-halves', [
 (EN, '''	return append(data, byte(val>>56), byte(val>>48), byte(val>>40), byte(val>>32),
		byte(val>>24), byte(val>>16), byte(val>>8), byte(val))''', '''	data = networkByteOrder{}.appendUint32(data, uint32(val>>32))
	return networkByteOrder{}.appendUint32(data, uint32(val))'''),
 (EN, '''	return uint64(data[0])<<56 | uint64(data[1])<<48 | uint64(data[2])<<40 | uint64(data[3])<<32 |
		uint64(data[4])<<24 | uint64(data[5])<<16 | uint64(data[6])<<8 | uint64(data[7]), data[8:]''', '''	hi, data := networkByteOrder{}.parseUint32(data)
	lo, data := networkByteOrder{}.parseUint32(data)
	return uint64(hi)<<32 | uint64(lo), data'''),
])
ref('uint64-loop', [
 (EN, '''	return append(data, byte(val>>56), byte(val>>48), byte(val>>40), byte(val>>32),
		byte(val>>24), byte(val>>16), byte(val>>8), byte(val))''', '''	for shift := 56; shift >= 0; shift -= 8 {
		data = append(data, byte(val>>shift))
	}
	return data'''),
 (EN, '''	return uint64(data[0]) | uint64(data[1])<<8 | uint64(data[2])<<16 | uint64(data[3])<<24 |
		uint64(data[4])<<32 | uint64(data[5])<<40 | uint64(data[6])<<48 | uint64(data[7])<<56, data[8:]''', '''	var val uint64
	for i := 7; i >= 0; i-- {
		val = val<<8 | uint64(data[i])
	}
	return val, data[8:]'''),
])
PFX = 'val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255'
ref('oid-prefix-helper', [
 (EN, '''		nsubids := len(id)
		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
			nsubids -= 5
		}
		size += 4 * nsubids
''', '''		_, rest := splitPrefix(id)
		size += 4 * len(rest)
'''),
 (EN, '''	nsubids := len(val)
	prefix := byte(0)
	if nsubids >= 5 && '''+PFX+''' {
		nsubids -= 5
		prefix = byte(val[4])
		val = val[5:]
	}
	if nsubids > maxSubids {
		panic(ErrEncoding)
	}
	data = append(data, byte(nsubids), prefix, include, 0)
''', '''	prefix, val := splitPrefix(val)
	if len(val) > maxSubids {
		panic(ErrEncoding)
	}
	data = append(data, byte(len(val)), prefix, include, 0)
'''),
 (EN, 'func (d decoder) parseObjectId', '''// splitPrefix separates the internet prefix.
func splitPrefix(id []uint32) (byte, []uint32) {
	if len(id) < 5 || id[0] != 1 || id[1] != 3 || id[2] != 6 || id[3] != 1 {
		return 0, id
	}
	if id[4] == 0 || id[4] > 255 {
		return 0, id
	}
	return byte(id[4]), id[5:]
}

func (d decoder) parseObjectId'''),
])
ref('oid-prefix-loop', [
 (EN, '''	if nsubids >= 5 && '''+PFX+''' {
		nsubids -= 5
''', '''	if hasInternetPrefix(val) {
		nsubids -= 5
'''),
 (EN, 'func (d decoder) parseObjectId', '''var internet = [4]uint32{1, 3, 6, 1}

func hasInternetPrefix(id []uint32) bool {
	if len(id) < 5 {
		return false
	}
	for i, s := range internet {
		if id[i] != s {
			return false
		}
	}
	return id[4] >= 1 && id[4] <= 255
}

func (d decoder) parseObjectId'''),
])
ref('oid-append-index', [(EN, '''	for _, subid := range val {
		data = e.appendUint32(data, subid)
	}''', '''	for i := 0; i < len(val); i++ {
		data = e.appendUint32(data, val[i])
	}''')])
ref('oid-append-from5', [(EN, '''		nsubids -= 5
		prefix = byte(val[4])
		val = val[5:]
	}
	if nsubids > maxSubids {
		panic(ErrEncoding)
	}
	data = append(data, byte(nsubids), prefix, include, 0)
	for _, subid := range val {
		data = e.appendUint32(data, subid)
	}''', '''		nsubids -= 5
		prefix = byte(val[4])
	}
	if nsubids > maxSubids {
		panic(ErrEncoding)
	}
	data = append(data, byte(nsubids), prefix, include, 0)
	for i := len(val) - nsubids; i < len(val); i++ {
		data = e.appendUint32(data, val[i])
	}''')])
PO='''	if prefix == 0 {
		val = make([]uint32, 0, nsubids)
	} else {
		val = make([]uint32, 0, nsubids+5)
		val = append(val, 1, 3, 6, 1, prefix)
	}
	for i := 0; i < nsubids; i++ {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
}

func ipAddressEncodingSize'''
ref('oid-parse-index', [(EN, PO, '''	k := 0
	if prefix == 0 {
		val = make([]uint32, nsubids)
	} else {
		val = make([]uint32, nsubids+5)
		k = copy(val, []uint32{1, 3, 6, 1, prefix})
	}
	for ; k < len(val); k++ {
		val[k], next = d.parseUint32(next)
	}
	return
}

func ipAddressEncodingSize''')])
ref('oid-parse-down', [(EN, PO, '''	if prefix != 0 {
		val = append(make([]uint32, 0, nsubids+5), 1, 3, 6, 1, prefix)
	} else {
		val = make([]uint32, 0, nsubids)
	}
	for ; nsubids > 0; nsubids-- {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
}

func ipAddressEncodingSize''')])
ref('oid-parse-nil', [(EN, PO, '''	if prefix != 0 {
		val = []uint32{1, 3, 6, 1, prefix}
	}
	for i := nsubids; i > 0; i-- {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
}

func ipAddressEncodingSize''')])
ref('oid-parse-helper', [(EN, PO, '''	val = newOid(prefix, nsubids)
	for len(val) < cap(val) {
		var subid uint32
		subid, next = d.parseUint32(next)
		val = append(val, subid)
	}
	return
}

func newOid(prefix uint32, n int) []uint32 {
	if prefix == 0 {
		return make([]uint32, 0, n)
	}
	val := make([]uint32, 5, n+5)
	val[0], val[1], val[2], val[3], val[4] = 1, 3, 6, 1, prefix
	return val
}

func ipAddressEncodingSize''')])
ref('oid-size-direct', [(EN, '''	size = 4
	if len(id) > 0 {
		nsubids := len(id)
		if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 {
			nsubids -= 5
		}
		size += 4 * nsubids
	}
	return
''', '''	n := len(id)
	if n >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4]-1 < 255 {
		n -= 5
	}
	return 4 + n<<2
''')])
ref('string-append', [(EN, 'data = append(data, []byte(val)...)', 'data = append(data, val...)')])
ref('string-parse', [(EN, '''	val, next = string(next[:int(size)]), next[int(size):]
	next = d.parsePaddingBytes(next, int(size))
	return''', '''	n := int(size)
	if n > len(next) {
		panic(ErrEncoding)
	}
	val = string(next[:n])
	return val, d.parsePaddingBytes(next[n:], n)''')])
ref('chunk-helper', [(EN, '''	val, next = string(next[:int(size)]), next[int(size):]
	next = d.parsePaddingBytes(next, int(size))
	return''', '''	chunk, next := d.parseChunk(next, int(size))
	return string(chunk), next'''), (EN, '''	chunk, next := next[:int(size)], next[int(size):]
	val = make([]byte, int(size))
	copy(val, chunk)
	next = d.parsePaddingBytes(next, int(size))
	return
''', '''	chunk, next := d.parseChunk(next, int(size))
	val = append([]byte{}, chunk...)
	return
'''), (EN, 'func opaqueEncodingSize', '''// parseChunk splits off size bytes and their padding.
func (d decoder) parseChunk(data []byte, size int) (chunk, next []byte) {
	chunk, next = data[:size], data[size:]
	return chunk, d.parsePaddingBytes(next, size)
}

func opaqueEncodingSize''')])
ref('opaque-as-string', [(EN, '''	chunk, next := next[:int(size)], next[int(size):]
	val = make([]byte, int(size))
	copy(val, chunk)
	next = d.parsePaddingBytes(next, int(size))
	return
''', '''	s, next := d.parseOctetString(data)
	return []byte(s), next
'''), (EN, '''	size, next := d.parseInt32(data)
	if size < 0 {
		panic(ErrEncoding)
	}
	s, next''', '''	s, next''') ] if False else [(EN, '''func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
	size, next := d.parseInt32(data)
	if size < 0 {
		panic(ErrEncoding)
	}
	chunk, next := next[:int(size)], next[int(size):]
	val = make([]byte, int(size))
	copy(val, chunk)
	next = d.parsePaddingBytes(next, int(size))
	return
''', '''func (d decoder) parseOpaque(data []byte) (val []byte, next []byte) {
	s, next := d.parseOctetString(data)
	return []byte(s), next
''')])
ref('ip-array', [(EN, '''	copy(val[:], next[:4])
	next = next[4:]
	return''', '''	val = [4]byte{next[0], next[1], next[2], next[3]}
	return val, next[4:]'''), (EN, 'return append(data, val[:]...)', 'return append(data, val[0], val[1], val[2], val[3])')])
ref('ip-loop', [(EN, '''	copy(val[:], next[:4])
	next = next[4:]
	return''', '''	for i := range val {
		val[i] = next[i]
	}
	next = next[4:]
	return''')])
ENCH='''	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)
	data = e.appendUint32(data, pdu.SessionId)
	data = e.appendUint32(data, pdu.TransactionId)
	data = e.appendUint32(data, pdu.PacketId)
	data = e.appendInt32(data, pdu.PayloadSize)

	if pdu'''
ref('header-helper', [(PD, ENCH, '''	data = e.appendHeader(data, pdu)

	if pdu'''), (PD, '// DecodePduHeader decodes' if False else 'func DecodePduHeader(', '''func (e encoder) appendHeader(data []byte, pdu Pdu) []byte {
	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)
	for _, id := range []uint32{pdu.SessionId, pdu.TransactionId, pdu.PacketId} {
		data = e.appendUint32(data, id)
	}
	return e.appendInt32(data, pdu.PayloadSize)
}

func DecodePduHeader(''')])
LP='''	if pduTable[pdu.Tag].includesRanges {
		for _, r := range pdu.Ranges {
			data = e.appendSearchRange(data, r)
		}
	}

	// This panics if pdu.Tag is unknown
	if pduTable[pdu.Tag].includesVarbinds {
		for _, vb := range pdu.Varbinds {
			data = e.appendVarbind(data, vb)
		}
	}
'''
ref('enc-index-loops', [(PD, LP, '''	entry := &pduTable[pdu.Tag]
	if entry.includesRanges {
		for i := range pdu.Ranges {
			data = e.appendSearchRange(data, pdu.Ranges[i])
		}
	}
	if !entry.includesVarbinds {
		return data, true
	}
	for i := 0; i < len(pdu.Varbinds); i++ {
		vb := pdu.Varbinds[i]
		data = e.appendVarbind(data, vb)
	}
''')])
CP='''	size += pdu.Params.encodingSize()
	if pduTable[pdu.Tag].includesRanges {
		for _, r := range pdu.Ranges {
			size += searchRangeEncodingSize(r)
		}
	}
	if pduTable[pdu.Tag].includesVarbinds {
		for _, vb := range pdu.Varbinds {
			size += varbindEncodingSize(vb)
		}
	}
	return
'''
ref('count-split', [(PD, CP, '''	size += pdu.Params.encodingSize()
	return size + pdu.countRanges() + pdu.countVarbinds()
}

func (pdu Pdu) countRanges() int {
	n := 0
	if pduTable[pdu.Tag].includesRanges {
		for i := len(pdu.Ranges) - 1; i >= 0; i-- {
			n += searchRangeEncodingSize(pdu.Ranges[i])
		}
	}
	return n
}

func (pdu Pdu) countVarbinds() (n int) {
	if !pduTable[pdu.Tag].includesVarbinds {
		return
	}
	for i := range pdu.Varbinds {
		n += varbindEncodingSize(pdu.Varbinds[i])
	}
	return
''')])
ref('enc-known-first', [(PD, '''	if !pduTable[pdu.Tag].isApplicableParams(pdu.Params) {
		ok = false
		return
	}
	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
		ok = false
		return
	}
''', '''	if !pdu.Tag.IsKnown() || pdu.Params == nil {
		return nil, false
	}
	if entry := pduTable[pdu.Tag]; !entry.isApplicableParams(pdu.Params) || pdu.Flags&^entry.allowedFlags != 0 {
		return nil, false
	}
''')])
ref('hdr-early', [(PD, '''	pdu.Tag, pdu.Flags = PduTag(data[1]), Flags(data[2])
	if ok = data[0] == 1 && pdu.Tag.IsKnown() && data[3] == 0; !ok {
		return
	}
	if ok = pdu.Tag.NotAllowedFlags(pdu.Flags) == 0; !ok {
		return
	}
''', '''	if len(data) != PduHeaderSize || data[0] != 1 || data[3] != 0 {
		return Pdu{}, false
	}
	pdu.Tag = PduTag(data[1])
	pdu.Flags = Flags(data[2])
	if !pdu.Tag.IsKnown() {
		return pdu, false
	}
	if pdu.Tag.NotAllowedFlags(pdu.Flags) != 0 {
		return pdu, false
	}
''')])
ref('hdr-subslices', [(PD, '''	pdu.SessionId, data = d.parseUint32(data[4:])
	pdu.TransactionId, data = d.parseUint32(data)
	pdu.PacketId, data = d.parseUint32(data)
	pdu.PayloadSize, data = d.parseInt32(data)

	ok = pdu.PayloadSize >= 0 && pdu.PayloadSize&0x03 == 0 && len(data) == 0
	return''', '''	pdu.SessionId, _ = d.parseUint32(data[4:])
	pdu.TransactionId, _ = d.parseUint32(data[8:])
	pdu.PacketId, _ = d.parseUint32(data[12:16])
	size, rest := d.parseInt32(data[16:])
	pdu.PayloadSize = size
	if size < 0 || size%4 != 0 {
		return
	}
	return pdu, len(rest) == 0''')])
ref('recover-helper', [(PD, '''func DecodePduHeader(data []byte) (pdu Pdu, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
''', '''func failed(ok *bool) {
	if r := recover(); r != nil {
		*ok = false
	}
}

func DecodePduHeader(data []byte) (pdu Pdu, ok bool) {
	defer failed(&ok)
'''), (PD, '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
''', '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer failed(&ok)
'''), (PD, '''func EncodePdu(pdu Pdu) (data []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
''', '''func EncodePdu(pdu Pdu) (data []byte, ok bool) {
	defer failed(&ok)
''')])
ref('recover-plain', [(PD, '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
''', '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
''')])
ref('split-entry', [(PD, '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()

	if len(data) != int(pdu.PayloadSize) {
		return false
	}
''', '''func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	return pdu.decodePayload(data)
}

func (pdu *Pdu) decodePayload(data []byte) (ok bool) {
	if len(data) != int(pdu.PayloadSize) {
		return false
	}
''')])
DL='''	if pduTable[pdu.Tag].includesRanges {
		for len(data) > 0 {
			var r SearchRange
			r, data = d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges, r)
		}
	}
	if pduTable[pdu.Tag].includesVarbinds {
		for len(data) > 0 {
			var vb asn.Varbind
			vb, data = d.parseVarbind(data)
			pdu.Varbinds = append(pdu.Varbinds, vb)
		}
	}

	ok = len(data) == 0
	return'''
ref('dec-loops-break', [(PD, DL, '''	switch entry := pduTable[pdu.Tag]; {
	case entry.includesRanges:
		for {
			if len(data) == 0 {
				break
			}
			r, next := d.parseSearchRange(data)
			pdu.Ranges = append(pdu.Ranges, r)
			data = next
		}
	case entry.includesVarbinds:
		for len(data) != 0 {
			vb, next := d.parseVarbind(data)
			pdu.Varbinds, data = append(pdu.Varbinds, vb), next
		}
	}
	return len(data) == 0''')])
ref('dec-local-lists', [(PD, DL, '''	if pduTable[pdu.Tag].includesRanges {
		var ranges []SearchRange
		for len(data) > 0 {
			var r SearchRange
			r, data = d.parseSearchRange(data)
			ranges = append(ranges, r)
		}
		pdu.Ranges = ranges
	}
	if pduTable[pdu.Tag].includesVarbinds {
		pdu.Varbinds, data = d.parseVarbinds(data)
	}

	ok = len(data) == 0
	return'''), (PD, 'func EncodePduDbg(', '''func (d decoder) parseVarbinds(data []byte) (vbs []asn.Varbind, next []byte) {
	for next = data; len(next) > 0; {
		var vb asn.Varbind
		vb, next = d.parseVarbind(next)
		vbs = append(vbs, vb)
	}
	return
}

func EncodePduDbg(''')])
ref('dec-generic', [(PD, DL, '''	if pduTable[pdu.Tag].includesRanges {
		pdu.Ranges = parseAll(data, d.parseSearchRange)
		data = nil
	}
	if pduTable[pdu.Tag].includesVarbinds {
		pdu.Varbinds = parseAll(data, d.parseVarbind)
		data = nil
	}

	ok = len(data) == 0
	return'''), (PD, 'func EncodePduDbg(', '''func parseAll[T any](data []byte, parse func([]byte) (T, []byte)) (list []T) {
	for len(data) > 0 {
		var x T
		x, data = parse(data)
		list = append(list, x)
	}
	return
}

func EncodePduDbg(''')])
ref('vb-reorder', [(VB, '''	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {
		panic(ErrEncoding)
	}
	if next[0] != 0 || next[1] != 0 {
		panic(ErrEncoding)
	}
	vb.Oid, _, next = d.parseObjectId(next[2:])
''', '''	if next[0]|next[1] != 0 {
		panic(ErrEncoding)
	}
	if tag < 0 || tag > 255 {
		panic(ErrEncoding)
	}
	vb.Tag = asn.Tag(tag)
	if !vb.Tag.IsValueTag() {
		panic(ErrEncoding)
	}
	vb.Oid, _, next = d.parseObjectId(next[2:])
''')])
ref('vb-lookup', [(VB, '''	vb.Value, next = vbtable[vb.Tag].parseValue(d, next)
	return
}

func (e encoderDbg)''', '''	entry, known := vbtable[vb.Tag]
	if !known {
		panic(ErrEncoding)
	}
	vb.Value, next = entry.parseValue(d, next)
	return
}

func (e encoderDbg)'''), (VB, '''	return vbtable[vb.Tag].appendValue(e, data, vb.Value)''', '''	appendValue := vbtable[vb.Tag].appendValue
	return appendValue(e, data, vb.Value)''')])
ref('vb-comma-ok', [(VB, '''			return e.appendInt32(data, v.(int32))
		},
		parseValue:''', '''			i, ok := v.(int32)
			if !ok {
				panic(ErrEncoding)
			}
			return e.appendInt32(data, i)
		},
		parseValue:''')])
ref('vb-shared-fns', [(VB, '''	asn.TagCounter32: {
		encodingSize: func(v interface{}) int {
			return 4
		},
		appendValue: func(e encoder, data []byte, v interface{}) []byte {
			return e.appendUint32(data, v.(uint32))
		},
		parseValue: func(d decoder, data []byte) (interface{}, []byte) {
			return d.parseUint32(data)
		},
''', '''	asn.TagCounter32: {
		encodingSize: size4,
		appendValue:  appendUint32Value,
		parseValue:   parseUint32Value,
'''), (VB, 'type vbentry struct', '''func size4(interface{}) int { return 4 }

func appendUint32Value(e encoder, data []byte, v interface{}) []byte {
	return e.appendUint32(data, v.(uint32))
}

func parseUint32Value(d decoder, data []byte) (interface{}, []byte) {
	v, next := d.parseUint32(data)
	return v, next
}

type vbentry struct''')])
ref('getbulk-bits', [(PP, '''	p.NonRepeaters, data = d.parseInt16(data)
	p.MaxRepeatitions, data = d.parseInt16(data)
	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
		panic(ErrEncoding)
	}
	return p, data''', '''	p.NonRepeaters, data = d.parseInt16(data)
	p.MaxRepeatitions, data = d.parseInt16(data)
	if p.NonRepeaters >= 0 && p.MaxRepeatitions >= 0 {
		return p, data
	}
	panic(ErrEncoding)''')])
ref('open-literal', [(PP, '''	p := OpenParams{}
	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
		panic(ErrEncoding)
	}
	p.Timeout = data[0]
	p.Oid, _, data = d.parseObjectId(data[4:])
	p.Description, data = d.parseOctetString(data)
	return p, data''', '''	timeout := d.parseByteAndReserved(data)
	id, _, data := d.parseObjectId(data[4:])
	descr, data := d.parseOctetString(data)
	return OpenParams{Timeout: timeout, Oid: id, Description: descr}, data'''), (PP, '''	if data[1] != 0 || data[2] != 0 || data[3] != 0 {
		panic(ErrEncoding)
	}
	return CloseParams{Reason: CloseReason(data[0])}, data[4:]''', '''	return CloseParams{Reason: CloseReason(d.parseByteAndReserved(data))}, data[4:]'''), (PP, '// OpenParams is', '''func (d decoder) parseByteAndReserved(data []byte) byte {
	for _, b := range data[1:4] {
		if b != 0 {
			panic(ErrEncoding)
		}
	}
	return data[0]
}

// OpenParams is''')])
ref('register-shared', [(PP, '''	data = append(data, p.Timeout, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 {
		data = e.appendUint32(data, p.UpperBound)
	}
	return data
}

func parseRegisterParams(''', '''	data = append(data, p.Timeout, p.Priority, p.RangeSubid, 0)
	return e.appendRegion(data, p.Subtree, p.RangeSubid, p.UpperBound)
}

func (e encoder) appendRegion(data []byte, subtree []uint32, rangeSubid byte, upper uint32) []byte {
	data = e.appendObjectId(data, subtree, 0)
	if rangeSubid == 0 {
		return data
	}
	return e.appendUint32(data, upper)
}

func parseRegisterParams('''), (PP, '''	data = append(data, 0, p.Priority, p.RangeSubid, 0)
	data = e.appendObjectId(data, p.Subtree, 0)
	if p.RangeSubid != 0 {
		data = e.appendUint32(data, p.UpperBound)
	}
	return data
}

func parseUnregisterParams(''', '''	data = append(data, 0, p.Priority, p.RangeSubid, 0)
	return e.appendRegion(data, p.Subtree, p.RangeSubid, p.UpperBound)
}

func parseUnregisterParams(''')])
ref('range-oids-loop', [(SR, '''	data = e.appendObjectId(data, r.StartOid, r.StartIncluded)
	return e.appendObjectId(data, r.EndOid, 0)
''', '''	include := r.StartIncluded
	for _, id := range [][]uint32{r.StartOid, r.EndOid} {
		data = e.appendObjectId(data, id, include)
		include = 0
	}
	return data
''')])
ref('dbg-nextchunk', [(DB, '''	n := generics.Min(len(d.data)-startpos, size)
	d.log.Write(hex.DumpSub("    ", d.data, startpos, startpos+n))
	if n < size {
		panic(fmt.Sprintf("not enough data: required %d bytes", size))
	}
	nextpos = startpos + size
	chunk = d.data[startpos:nextpos]
	return''', '''	rest := d.data[startpos:]
	if len(rest) < size {
		d.log.Write(hex.DumpSub("    ", d.data, startpos, len(d.data)))
		panic(fmt.Sprintf("not enough data: required %d bytes", size))
	}
	chunk = rest[:size]
	d.log.Write(hex.Dump("    ", chunk))
	return chunk, startpos + size'''), (DB, '	"github.com/alexispb/mygosnmp/generics"\n', '')])
ref('dbg-pad-loop', [(DB, '''		switch size {
		case 1:
			data = append(data, 0)
		case 2:
			data = append(data, 0, 0)
		case 3:
			data = append(data, 0, 0, 0)
		}
''', '''		for i := 0; i < size; i++ {
			data = append(data, 0)
		}
''')])
ref('dbg-reuse', [(DB, '''	e.log.Writef("appending int32: %d 0x%08X", val, val)
	data = e.byteOrder.appendInt32(data, val)
	e.log.Write(hex.DumpTail("    ", data, 4))
	return data''', '''	e.log.Writef("appending int32: %d 0x%08X", val, val)
	return e.logTail(e.byteOrder.appendInt32(data, val), 4)'''), (DB, 'func (d decoderDbg) parseInt32', '''func (e encoderDbg) logTail(data []byte, n int) []byte {
	e.log.Write(hex.DumpTail("    ", data, n))
	return data
}

func (d decoderDbg) parseInt32''')])
ref('table-pointer', [('agentx/pdu_tag.go', 'var pduTable = [pduTagMax + 1]pduEntry{\n	{},', 'var pduTable = [...]pduEntry{\n	0: {},')])
ref('flags-order-switch', [('agentx/flags.go', '''	if f&FlagNetworkByteOrder != 0 {
		return networkByteOrder{}
	}
	return inverseByteOrder{}''', '''	var order byteOrder = inverseByteOrder{}
	if f&FlagNetworkByteOrder == FlagNetworkByteOrder {
		order = networkByteOrder{}
	}
	return order''')])
ref('valuetag-switch', [('asn/value.go', '''	_, ok = table[tag]
	return ok && tag != TagSequence''', '''	switch tag {
	case TagInteger32, TagOctetString, TagNull, TagObjectId, TagIpAddress, TagCounter32, TagGauge32, TagTimeTicks, TagOpaque, TagCounter64, TagNoSuchObject, TagNoSuchInstance, TagEndOfMibView:
		return true
	}
	return false''')])
ref('enc-buffer-presize', [(PD, '''	data = make([]byte, 0, PduHeaderSize+payloadSize)
	e := encoder{byteOrder: pdu.Flags.byteOrder()}

	data = append(data, 1, byte(pdu.Tag), byte(pdu.Flags), 0)
''', '''	data = make([]byte, 4, PduHeaderSize+payloadSize)
	e := encoder{byteOrder: pdu.Flags.byteOrder()}

	data[0] = 1
	data[1], data[2] = byte(pdu.Tag), byte(pdu.Flags)
''')])
ref('enc-patch-length', [(PD, '''	// This panics if pdu.Tag is unknown or pdu.Params = nil
	payloadSize := pdu.countPayloadSize()
	pdu.PayloadSize = int32(payloadSize)

	data = make([]byte, 0, PduHeaderSize+payloadSize)
''', '''	data = make([]byte, 0, PduHeaderSize+pdu.countPayloadSize())
'''), (PD, '''	data = e.appendInt32(data, pdu.PayloadSize)

	if pdu.Flags&FlagNonDefaultContext != 0 {
		data = e''', '''	data = append(data, 0, 0, 0, 0)

	if pdu.Flags&FlagNonDefaultContext != 0 {
		data = e'''), (PD, '''			data = e.appendVarbind(data, vb)
		}
	}

	ok = true
	return
}

func DecodePduHeader(''', '''			data = e.appendVarbind(data, vb)
		}
	}
	copy(data[16:], e.appendInt32(nil, int32(len(data)-PduHeaderSize)))

	ok = true
	return
}

func DecodePduHeader(''')])
