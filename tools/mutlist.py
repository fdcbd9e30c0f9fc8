# Codec bugs used to measure the analyser (edits only; those worth keeping become seeds).
EN='agentx/encoding.go'; ED='agentx/encoding_dbg.go'; PP='agentx/payload_params.go'; PD='agentx/pdu.go'; VB='agentx/varbind.go'; SR='agentx/search_range.go'; PT='agentx/pdu_tag.go'
def m(id, *edits): M.append((id, edits))
m('oid-prefix-128', (EN,"nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255","nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] < 255"))
m('oid-prefix-6', (EN,"nsubids >= 5 && val[0] == 1 && val[1] == 3 &&","nsubids > 5 && val[0] == 1 && val[1] == 3 &&"))
m('oid-size-gt', (EN,"if len(id) >= 5 && id[0] == 1","if len(id) > 5 && id[0] == 1"))
m('oid-129', (EN,"if nsubids > maxSubids {","if nsubids > maxSubids+1 {"))
m('oid-127', (EN,"if nsubids > maxSubids {","if nsubids >= maxSubids {"))
m('oid-limit-before', (EN,"	nsubids := len(val)\n	prefix := byte(0)\n","	nsubids := len(val)\n	prefix := byte(0)\n	if nsubids > maxSubids {\n		panic(ErrEncoding)\n	}\n"))
m('oid-include-null', (EN,"return append(data, 0, 0, 0, 0)","return append(data, 0, 0, include, 0)"))
m('oid-dec-reserved', (EN,"	if data[3] != 0 {\n		panic(ErrEncoding)\n	}\n	nsubids, prefix, include :=","	nsubids, prefix, include :="))
m('oid-dec-prefix-only', (EN,"	if nsubids == 0 && prefix == 0 {\n		return","	if nsubids == 0 {\n		return"))
m('oid-dec-limit', (EN,"	next = data[4:]\n	if nsubids == 0","	if nsubids > maxSubids {\n		panic(ErrEncoding)\n	}\n	next = data[4:]\n	if nsubids == 0"))
m('pad-mod', (EN,"size = paddingSize(size)\n	for i := 0; i < size; i++","size = paddingSize(size)\n	for i := 1; i < size; i++"))
m('pad-dec-len', (EN,"func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(size)","func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(len(data))"))
m('str-neg', (EN,"	if size < 0 {\n		panic(ErrEncoding)\n	}\n	val, next = string(next[:int(size)])","	if size < 0 {\n		size = 0\n	}\n	val, next = string(next[:int(size)])"))
m('str-size-uint16', (EN,"	data = e.appendInt32(data, int32(len(val)))\n	data = append(data, []byte(val)...)","	data = e.appendInt32(data, int32(uint16(len(val))))\n	data = append(data, []byte(val)...)"))
m('opaque-alias', (EN,"	val = make([]byte, int(size))\n	copy(val, chunk)\n","	val = chunk\n"))
m('opaque-make-first', (EN,"	chunk, next := next[:int(size)], next[int(size):]\n	val = make([]byte, int(size))\n	copy(val, chunk)\n","	val = make([]byte, int(size))\n	chunk, next := next[:int(size)], next[int(size):]\n	copy(val, chunk)\n"))
m('opaque-pad-lost', (EN,"func opaqueEncodingSize(val []byte) int {\n	return 4 + len(val) + paddingSize(len(val))","func opaqueEncodingSize(val []byte) int {\n	return 4 + len(val) + paddingSize(len(val)+4*len(val)>>3)"))
m('le-u64', (EN,"byte(val>>32), byte(val>>40), byte(val>>48), byte(val>>56))","byte(val>>32), byte(val>>40), byte(val>>48), byte(val>>55))"))
m('be-i16-parse', (EN,"return int16(data[0])<<8 | int16(data[1]), data[2:]","return int16(data[0])<<8 + int16(int8(data[1])), data[2:]"))
m('ip-le4', (EN,"	if size != 4 {\n","	if size > 4 {\n"))
m('vb-reserved', (VB,"if next[0] != 0 || next[1] != 0 {","if next[0] != 0 && next[1] != 0 {"))
m('vb-tag-trunc', (VB,"	if vb.Tag = asn.Tag(tag); int16(vb.Tag) != tag || !vb.Tag.IsValueTag() {\n		panic(ErrEncoding)","	if vb.Tag = asn.Tag(tag); !vb.Tag.IsValueTag() {\n		panic(ErrEncoding)"))
m('vb-ticks-signed', (VB,"	asn.TagTimeTicks: {\n		encodingSize: func(v interface{}) int {\n			return 4\n		},\n		appendValue: func(e encoder, data []byte, v interface{}) []byte {\n			return e.appendUint32(data, v.(uint32))\n		},\n		parseValue: func(d decoder, data []byte) (interface{}, []byte) {\n			return d.parseUint32(data)","	asn.TagTimeTicks: {\n		encodingSize: func(v interface{}) int {\n			return 4\n		},\n		appendValue: func(e encoder, data []byte, v interface{}) []byte {\n			return e.appendUint32(data, v.(uint32))\n		},\n		parseValue: func(d decoder, data []byte) (interface{}, []byte) {\n			v, next := d.parseUint32(data)\n			return v & 0x7fffffff, next"))
m('range-end-include', (SR,"	r.StartOid, r.StartIncluded, next = d.parseObjectId(data)\n	r.EndOid, _, next","	r.StartOid, _, next = d.parseObjectId(data)\n	r.EndOid, r.StartIncluded, next"))
m('range-append-include', (SR,"	data = e.appendObjectId(data, r.StartOid, r.StartIncluded)\n	return e.appendObjectId(data, r.EndOid, 0)","	data = e.appendObjectId(data, r.StartOid, r.StartIncluded&1)\n	return e.appendObjectId(data, r.EndOid, 0)"))
m('unreg-upper', (PP,"	data = append(data, 0, p.Priority, p.RangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if p.RangeSubid != 0 {","	data = append(data, 0, p.Priority, p.RangeSubid, 0)\n	data = e.appendObjectId(data, p.Subtree, 0)\n	if p.UpperBound != 0 {"))
m('open-reserved', (PP,"	if data[1] != 0 || data[2] != 0 || data[3] != 0 {\n		panic(ErrEncoding)\n	}\n	p.Timeout","	if data[1]|data[2] != 0 {\n		panic(ErrEncoding)\n	}\n	p.Timeout"))
m('bulk-neg', (PP,"	p.MaxRepeatitions, data = d.parseInt16(data)\n	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {","	p.MaxRepeatitions, data = d.parseInt16(data)\n	if p.NonRepeaters|p.MaxRepeatitions < -1 {"))
m('bulk-enc-neg', (PP,"	if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {\n		panic(ErrEncoding)\n	}\n	data = e.appendInt16","	if p.NonRepeaters < 0 {\n		panic(ErrEncoding)\n	}\n	data = e.appendInt16"))
m('resp-err-byte', (PP,"	data = e.appendInt16(data, int16(p.Error))\n	return e.appendInt16(data, p.Index)","	data = e.appendInt16(data, int16(p.Error)&0x1ff)\n	return e.appendInt16(data, p.Index)"))
m('dec-trailing', (PD,"	ok = len(data) == 0\n	return\n}\n\n// EncodePduDbg","	ok = len(data) < 4\n	return\n}\n\n// EncodePduDbg"))
m('dec-size-le', (PD,"	if len(data) != int(pdu.PayloadSize) {\n		return false","	if len(data) < int(pdu.PayloadSize) {\n		return false"))
m('dec-vb-stop', (PD,"		for len(data) > 0 {\n			var vb asn.Varbind\n			vb, data = d.parseVarbind(data)","		for len(data) > 4 {\n			var vb asn.Varbind\n			vb, data = d.parseVarbind(data)"))
m('enc-skip-ctx', (PD,"	if pdu.Flags&FlagNonDefaultContext != 0 {\n		data = e.appendOctetString(data, pdu.Context)\n	}\n\n	// This","	if pdu.Flags&FlagNonDefaultContext != 0 && pdu.Context != \"\" {\n		data = e.appendOctetString(data, pdu.Context)\n	}\n\n	// This"))
m('hdr-order', (PD,"	pdu.TransactionId, data = d.parseUint32(data)\n	pdu.PacketId, data = d.parseUint32(data)\n	pdu.PayloadSize, data = d.parseInt32(data)\n\n","	pdu.PacketId, data = d.parseUint32(data)\n	pdu.TransactionId, data = d.parseUint32(data)\n	pdu.PayloadSize, data = d.parseInt32(data)\n\n"))
m('hdr-trailing', (PD,"pdu.PayloadSize&0x03 == 0 && len(data) == 0","pdu.PayloadSize&0x03 == 0"))
m('recover-lost', (PD,"func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {\n	defer func() {\n		if r := recover(); r != nil {\n			ok = false\n		}\n	}()\n","func DecodePduPayload(pdu *Pdu, data []byte) (ok bool) {\n	defer func() {\n		if r := recover(); r == ErrEncoding {\n			ok = false\n		} else if r != nil {\n			ok = len(data) == 0\n		}\n	}()\n"))
m('recover-only-err', (PD,"func EncodePdu(pdu Pdu) (data []byte, ok bool) {\n	defer func() {\n		if r := recover(); r != nil {\n			ok = false\n		}\n	}()\n","func EncodePdu(pdu Pdu) (data []byte, ok bool) {\n	defer func() {\n		if r := recover(); r != nil {\n			if r == ErrEncoding {\n				ok = false\n				return\n			}\n			panic(r)\n		}\n	}()\n"))
m('dbg-pad', (ED,"	for _, b := range data {\n		if b != 0 {\n			panic(\"non-zero padding byte(s)\")","	for _, b := range data[1:] {\n		if b != 0 {\n			panic(\"non-zero padding byte(s)\")"))
m('dbg-opaque-alias', (ED,"	val = make([]byte, int(size))\n	copy(val, data)\n	nextpos = d.parsePadding","	val = data\n	nextpos = d.parsePadding"))
m('dbg-prefix', (ED,"nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 255","nsubids >= 5 && val[0] == 1 && val[1] == 3 && val[2] == 6 && val[3] == 1 && val[4] >= 1 && val[4] <= 256"))
m('dbg-bulk', (PP,"	if p.MaxRepeatitions < 0 {\n		d.log.Write","	if p.MaxRepeatitions < -1 {\n		d.log.Write"))
m('dbg-chunk', (ED,"	if n < size {\n		panic","	if n < size && n >= 0 {\n		panic"))
m('dbg-ip', (ED,"	if size != 4 {\n		panic(\"size","	if size < 4 {\n		panic(\"size"))
m('dbg-nextpos', (PD,"	if ok = nextpos == len(data); !ok {\n		log.Writef(\"!!! Error. Not decoded extra bytes:\\n%s\",\n			hex.DumpSub(\"    \", data, nextpos, len(data)))\n	}\n\n	return\n}\n","	if ok = nextpos <= len(data); !ok {\n		log.Writef(\"!!! Error. Not decoded extra bytes:\\n%s\",\n			hex.DumpSub(\"    \", data, nextpos, len(data)))\n	}\n\n	return\n}\n"))
m('enc-mutates-oid', (EN,"	data = append(data, byte(nsubids), prefix, include, 0)\n	for _, subid := range val {","	if prefix != 0 && nsubids > 0 && val[0] == 0xffffffff {\n		val[0] = 0\n	}\n	data = append(data, byte(nsubids), prefix, include, 0)\n	for _, subid := range val {"))
