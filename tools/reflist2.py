# Behaviour-preserving edits outside the codec.
HX='hex/dump.go'; OI='oid/oid.go'; ND='oid/node.go'; AV='asn/value.go'; IN='internal/indent.go'; IP='ipa/ip_address.go'
HC=['C24','C20','C12']; OC=['C15','C16','C20','C12']; PC=['C22','C12']; AC=['C14','C20','C12','C13']
ref('hex-sprintf-offset', [(HX,"	b := byte(offset >> 24)\n	dst[0] = table[b>>4]\n	dst[1] = table[b&0x0F]\n	b = byte(offset >> 16)\n	dst[2] = table[b>>4]\n	dst[3] = table[b&0x0F]\n	b = byte(offset >> 8)\n	dst[4] = table[b>>4]\n	dst[5] = table[b&0x0F]\n	b = byte(offset)\n	dst[6] = table[b>>4]\n	dst[7] = table[b&0x0F]\n","	for k := 0; k < 4; k++ {\n		b := byte(offset >> (24 - 8*k))\n		dst[2*k] = table[b>>4]\n		dst[2*k+1] = table[b&0x0F]\n	}\n")], HC)
ref('hex-offset-nibbles', [(HX,"	b := byte(offset >> 24)\n	dst[0] = table[b>>4]\n	dst[1] = table[b&0x0F]\n	b = byte(offset >> 16)\n	dst[2] = table[b>>4]\n	dst[3] = table[b&0x0F]\n	b = byte(offset >> 8)\n	dst[4] = table[b>>4]\n	dst[5] = table[b&0x0F]\n	b = byte(offset)\n	dst[6] = table[b>>4]\n	dst[7] = table[b&0x0F]\n","	for k := 7; k >= 0; k-- {\n		dst[k] = table[offset&0x0F]\n		offset >>= 4\n	}\n")], HC)
ref('hex-helper', [(HX,"		buf[10] = table[data[i]>>4]\n		buf[11] = table[data[i]&0x0F]\n		buf[12] = ' '\n		sb.Write(buf[10:13])\n","		n := encodeData(buf[10:], data[i:i+1])\n		sb.Write(buf[10 : 10+n])\n")], HC)
ref('hex-lines', [(HX,"	used := 0\n	for i := i1; i < i2; i++ {\n		if used == 0 {\n			encodeOffset(buf[:], i)\n			sb.WriteString(prefix)\n			sb.Write(buf[:10])\n		}\n		buf[10] = table[data[i]>>4]\n		buf[11] = table[data[i]&0x0F]\n		buf[12] = ' '\n		sb.Write(buf[10:13])\n		used++\n		if used == 4 && i != i2-1 {\n			sb.WriteByte('\\n')\n			used = 0\n		}\n	}\n","	var line [22]byte\n	for i := i1; i < i2; i += 4 {\n		if i > i1 {\n			sb.WriteByte('\\n')\n		}\n		encodeOffset(line[:10], i)\n		n := encodeData(line[10:], data[i:generics.Min(i+4, i2)])\n		sb.WriteString(prefix)\n		sb.Write(line[:10+n])\n	}\n")], HC)
ref('hex-mod', [(HX,"	used := 0\n	for i := i1; i < i2; i++ {\n		if used == 0 {","	for i := i1; i < i2; i++ {\n		if i > i1 && (i-i1)%4 == 0 {\n			sb.WriteByte('\\n')\n		}\n		if (i-i1)%4 == 0 {"),(HX,"		used++\n		if used == 4 && i != i2-1 {\n			sb.WriteByte('\\n')\n			used = 0\n		}\n","")], HC)
ref('hex-empty-merge', [(HX,"	if i1 == i2 {\n		var sb strings.Builder\n		sb.Grow(10)\n		encodeOffset(buf[:10], i1)\n		sb.WriteString(prefix)\n		sb.Write(buf[:10])\n		return sb.String()\n	}\n","	if i1 == i2 {\n		encodeOffset(buf[:10], i1)\n		return prefix + string(buf[:10])\n	}\n")], HC)
ref('hex-diff-marks', [(HX,"		if bytes.Equal(chunk1, chunk2) {\n			sb.WriteByte(' ')\n			sb.Write(buf[:10+encodeData(buf[10:], chunk1)])\n		} else {\n			sb.WriteRune(diffmark1)\n			sb.Write(buf[:10+encodeData(buf[10:], chunk1)])\n			sb.WriteByte('\\n')\n			sb.WriteRune(diffmark2)\n			sb.Write(buf[:10+encodeData(buf[10:], chunk2)])\n		}\n		sb.WriteByte('\\n')\n	}\n\n	return strings.TrimSuffix(sb.String(), \"\\n\")","		if i > 0 {\n			sb.WriteByte('\\n')\n		}\n		same := bytes.Equal(chunk1, chunk2)\n		mark := ' '\n		if !same {\n			mark = diffmark1\n		}\n		sb.WriteRune(mark)\n		sb.Write(buf[:10+encodeData(buf[10:], chunk1)])\n		if same {\n			continue\n		}\n		sb.WriteString(\"\\n\" + string(diffmark2))\n		sb.Write(buf[:10+encodeData(buf[10:], chunk2)])\n	}\n\n	return sb.String()")], HC)
ref('hex-diff-hasprefix', [(HX,"	if bytes.Equal(data1, data2) {\n		return \"\"","	if len(data1) == len(data2) && bytes.HasPrefix(data1, data2) {\n		return \"\"")], HC)
ref('hex-append', [(HX,"	var sb strings.Builder\n	// 23 = len(\"00000000  00 00 00 00 \\n\")\n	sb.Grow((1 + ((i2 - i1 - 1) / 4)) * (len(prefix) + 23))\n","	out := make([]byte, 0, (1+((i2-i1-1)/4))*(len(prefix)+23))\n"),(HX,"			sb.WriteString(prefix)\n			sb.Write(buf[:10])\n		}\n		buf[10]","			out = append(out, prefix...)\n			out = append(out, buf[:10]...)\n		}\n		buf[10]"),(HX,"		sb.Write(buf[10:13])","		out = append(out, buf[10:13]...)"),(HX,"i != i2-1 {\n			sb.WriteByte('\\n')\n			used = 0\n		}\n	}\n\n	return sb.String()","i != i2-1 {\n			out = append(out, '\\n')\n			used = 0\n		}\n	}\n\n	return string(out)")], HC)
ref('oid-cmp-eqfirst', [(OI,"		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {\n			return 1\n		}","		if a, b := id1[i], id2[i]; a != b {\n			if a < b {\n				return -1\n			}\n			return 1\n		}")], OC)
ref('oid-cmp-range', [(OI,"	len1, len2 := len(id1), len(id2)\n	lmin := generics.Min(len1, len2)\n	for i := 0; i < lmin; i++ {","	len1, len2 := len(id1), len(id2)\n	for i := range id1[:generics.Min(len1, len2)] {")], OC)
ref('oid-cmp-two', [(OI,'\n	"github.com/alexispb/mygosnmp/generics"\n',''),(OI,"	lmin := generics.Min(len1, len2)\n	for i := 0; i < lmin; i++ {","	for i := 0; i < len1 && i < len2; i++ {")], OC)
ref('oid-cmp-break', [(OI,"	for i, subid := range id {\n		if i > 0","	for i, subid := range id {\n		if i != 0")], OC)
ref('oid-cmp-switch', [(OI,"	if len1 < len2 {\n		return -1\n	}\n	if len1 > len2 {\n		return 1\n	}\n	return 0","	switch {\n	case len1 < len2:\n		return -1\n	case len1 > len2:\n		return 1\n	default:\n		return 0\n	}")], OC)
ref('oid-cmp-slices', [(OI,'\n	"github.com/alexispb/mygosnmp/generics"\n',''),(OI,"	len1, len2 := len(id1), len(id2)\n	lmin := generics.Min(len1, len2)\n	for i := 0; i < lmin; i++ {\n		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {\n			return 1\n		}\n	}\n	if len1 < len2 {\n		return -1\n	}\n	if len1 > len2 {\n		return 1\n	}\n	return 0","	for i, subid := range id1 {\n		if i >= len(id2) {\n			return 1\n		}\n		if subid < id2[i] {\n			return -1\n		} else if subid > id2[i] {\n			return 1\n		}\n	}\n	if len(id1) < len(id2) {\n		return -1\n	}\n	return 0")], OC)
ref('oid-le-gt', [(OI,"	cmp := Compare(id1, id2)\n	return cmp == -1 || cmp == 0","	return !Gt(id1, id2)"),(OI,"	cmp := Compare(id1, id2)\n	return cmp == 0 || cmp == 1","	return Compare(id1, id2) >= 0")], OC)
ref('oid-eq-direct', [(OI,"	return Compare(id1, id2) == 0\n","	if len(id1) != len(id2) {\n		return false\n	}\n	for i, subid := range id1 {\n		if subid != id2[i] {\n			return false\n		}\n	}\n	return true\n")], OC)
ref('oid-clone-append', [(OI,"	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return","	return append([]uint32{}, id...)")], OC)
ref('oid-clone-make-append', [(OI,"	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return","	idnew = make([]uint32, 0, len(id))\n	for _, subid := range id {\n		idnew = append(idnew, subid)\n	}\n	return")], OC)
ref('oid-cat-append', [(OI,"	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return","	idnew = make([]uint32, 0, len(id)+len(subids))\n	idnew = append(idnew, id...)\n	return append(idnew, subids...)")], OC)
ref('oid-cat-clone', [(OI,"	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return","	return append(Clone(id), subids...)")], OC)
ref('oid-cat-loop', [(OI,"	copy(idnew[len(id):], subids)\n","	for i, s := range subids {\n		idnew[len(id)+i] = s\n	}\n")], OC)
ref('oid-cat-n', [(OI,"	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n","	n := copy(idnew, id)\n	copy(idnew[n:], subids)\n")], OC)
ref('oid-prefix-range', [(OI,"	for i := 0; i < len(subids); i++ {\n		if id[i] != subids[i] {","	for i, subid := range subids {\n		if id[i] != subid {")], OC)
ref('oid-prefix-cmp', [(OI,"	if len(id) < len(subids) {\n		return false\n	}\n	for i := 0; i < len(subids); i++ {\n		if id[i] != subids[i] {\n			return false\n		}\n	}\n	return true","	return len(id) >= len(subids) && Eq(id[:len(subids)], subids)")], OC)
ref('oid-string-join', [(OI,"	for i, subid := range id {\n		if i > 0 {\n			sb.WriteByte('.')\n		}\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))\n	}","	sep := \"\"\n	for _, subid := range id {\n		sb.WriteString(sep)\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))\n		sep = \".\"\n	}")], OC)
ref('oid-parse-split', [(OI,"	nsubids := strings.Count(s, \".\") + 1\n	if nsubids > 128 {\n		err = fmt.Errorf(\"ParseOid: oid length %d > 128\", nsubids)\n		return\n	}\n\n	id = make([]uint32, nsubids)\n	for i, ind := 0, 0; i < nsubids; i++ {\n		s = s[ind:]\n		if ind = strings.IndexByte(s, '.'); ind == -1 {\n			ind = len(s)\n		}\n		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n		id[i], ind = uint32(subid), ind+1\n	}\n	return","	parts := strings.Split(s, \".\")\n	if len(parts) > 128 {\n		err = fmt.Errorf(\"ParseOid: oid length %d > 128\", len(parts))\n		return\n	}\n\n	id = make([]uint32, 0, len(parts))\n	for _, part := range parts {\n		var subid uint64\n		if subid, err = strconv.ParseUint(part, 10, 32); err != nil {\n			return\n		}\n		id = append(id, uint32(subid))\n	}\n	return")], PC)
ref('oid-parse-panic', [(OI,"	var err error\n	defer func() {\n		if err != nil {\n			panic(err.Error())\n		}\n	}()\n\n	if s = ","	if s = "),(OI,"		err = fmt.Errorf(\"ParseOid: oid length %d > 128\", nsubids)\n		return\n","		panic(fmt.Sprintf(\"ParseOid: oid length %d > 128\", nsubids))\n"),(OI,"		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}","		subid, err := strconv.ParseUint(s[:ind], 10, 32)\n		if err != nil {\n			panic(err.Error())\n		}")], PC)
ref('oid-parse-hasprefix', [(OI,"	if s = strings.TrimPrefix(s, \".\"); len(s) == 0 {\n		return\n	}","	if strings.HasPrefix(s, \".\") {\n		s = s[1:]\n	}\n	if s == \"\" {\n		return nil\n	}")], PC)
ref('oid-parse-index', [(OI,"strings.IndexByte(s, '.')","strings.Index(s, \".\")")], PC)
ref('oid-parse-64', [(OI,"strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}","strconv.ParseUint(s[:ind], 10, 64); err != nil {\n			return\n		}\n		if subid > 0xffffffff {\n			err = fmt.Errorf(\"ParseOid: subid %d out of range\", subid)\n			return\n		}")], PC)
ref('oid-parse-cut', [(OI,"	id = make([]uint32, nsubids)\n	for i, ind := 0, 0; i < nsubids; i++ {\n		s = s[ind:]\n		if ind = strings.IndexByte(s, '.'); ind == -1 {\n			ind = len(s)\n		}\n		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n		id[i], ind = uint32(subid), ind+1\n	}\n	return","	id = make([]uint32, nsubids)\n	for i := range id {\n		var head string\n		head, s, _ = strings.Cut(s, \".\")\n		var subid uint64\n		if subid, err = strconv.ParseUint(head, 10, 32); err != nil {\n			return\n		}\n		id[i] = uint32(subid)\n	}\n	return")], PC)
ref('oid-parse-helper', [(OI,"		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {\n			return\n		}\n		id[i], ind = uint32(subid), ind+1\n	}\n	return\n}\n","		if id[i], err = parseSubid(s[:ind]); err != nil {\n			return\n		}\n		ind++\n	}\n	return\n}\n\nfunc parseSubid(s string) (uint32, error) {\n	v, err := strconv.ParseUint(s, 10, 32)\n	return uint32(v), err\n}\n")], PC)
ref('asn-entry', [(AV,"	if tag.IsKnown() && table[tag].isvalid(v) {\n		table[tag].fprint(sb, v)\n	} else {\n		sb.WriteByte('?')\n	}","	e, ok := table[tag]\n	if !ok || !e.isvalid(v) {\n		sb.WriteByte('?')\n		return\n	}\n	e.fprint(sb, v)")], AC)
ref('asn-known', [(AV,"	_, ok = table[tag]\n	return ok && tag != TagSequence","	if tag == TagSequence {\n		return false\n	}\n	return tag.IsKnown()")], AC)
ref('asn-string', [(AV,"	if !tag.IsKnown() {\n		return \"?\" + strconv.FormatInt(int64(tag), 10)\n	}\n	return table[tag].tagstr","	if e, ok := table[tag]; ok {\n		return e.tagstr\n	}\n	return \"?\" + strconv.Itoa(int(tag))")], AC)
ref('asn-valid', [(AV,"	return tag.IsKnown() && table[tag].isvalid(v)","	e, known := table[tag]\n	if known {\n		return e.isvalid(v)\n	}\n	return false")], AC)
ref('asn-named', [(AV,"	TagInteger32: {\n		tagstr: \"Integer32\",\n		isvalid: func(v interface{}) bool {\n			_, ok := v.(int32)\n			return ok\n		},","	TagInteger32: {\n		tagstr:  \"Integer32\",\n		isvalid: isInt32,"),(AV,"type entry struct","func isInt32(v interface{}) bool {\n	switch v.(type) {\n	case int32:\n		return true\n	}\n	return false\n}\n\ntype entry struct")], AC)
TC=['C17','C18','C19','C12']
ref('tree-insert-make', [(ND,"		if ind == len(node.Children) {\n			node.Children = append(node.Children, child)\n		} else {\n			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n		}\n","		node.Children = append(node.Children, nil)\n		copy(node.Children[ind+1:], node.Children[ind:])\n		node.Children[ind] = child\n")], TC)
ref('tree-insert-fresh', [(ND,"		if ind == len(node.Children) {\n			node.Children = append(node.Children, child)\n		} else {\n			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n		}\n","		children := make([]*Node, 0, len(node.Children)+1)\n		children = append(children, node.Children[:ind]...)\n		children = append(children, child)\n		node.Children = append(children, node.Children[ind:]...)\n")], TC)
ref('tree-remove-copy', [(ND,"		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)","		last := len(node.Children) - 1\n		copy(node.Children[ind:], node.Children[ind+1:])\n		node.Children[last] = nil\n		node.Children = node.Children[:last]")], TC)
ref('tree-search-linear', [(ND,"	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n	ok = ind < len(node.Children) && node.Children[ind].Subid == subid\n	return","	for ind < len(node.Children) && node.Children[ind].Subid < subid {\n		ind++\n	}\n	ok = ind < len(node.Children) && node.Children[ind].Subid == subid\n	return"),(ND,'import "sort"\n\n','')], TC)
ref('tree-search-binary', [(ND,"	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n	ok = ind < len(node.Children) && node.Children[ind].Subid == subid\n	return","	lo, hi := 0, len(node.Children)\n	for lo < hi {\n		mid := lo + (hi-lo)/2\n		if node.Children[mid].Subid < subid {\n			lo = mid + 1\n		} else {\n			hi = mid\n		}\n	}\n	return lo, lo < len(node.Children) && node.Children[lo].Subid == subid"),(ND,'import "sort"\n\n','')], TC)
ref('tree-add-child-or-get', [(ND,"	i := 0\n	for ; i < len(oid); i++ {\n		if ind, ok := node.searchChild(oid[i]); ok {\n			node = node.Children[ind]\n			continue\n		}\n		break\n	}\n	if i == len(oid) {\n		return nil\n	}\n	for _, subid := range oid[i:] {\n		node = node.addChild(subid)\n	}\n	return node","	var added *Node\n	for _, subid := range oid {\n		if added = node.addChild(subid); added != nil {\n			node = added\n		} else {\n			node = node.getChild(subid)\n		}\n	}\n	return added")], TC)
ref('tree-get-recursive', [(ND,"	for _, subid := range oid {\n		if node = node.getChild(subid); node == nil {\n			break\n		}\n	}\n	return node","	if len(oid) == 0 {\n		return node\n	}\n	child := node.getChild(oid[0])\n	if child == nil {\n		return nil\n	}\n	return child.getNode(oid[1:])")], TC)
ref('tree-get-inline', [(ND,"	for _, subid := range oid {\n		if node = node.getChild(subid); node == nil {\n			break\n		}\n	}\n	return node","	for i := 0; i < len(oid); i++ {\n		ind, ok := node.searchChild(oid[i])\n		if !ok {\n			return nil\n		}\n		node = node.Children[ind]\n	}\n	return node")], TC)
ref('tree-helper-lock', [('oid/tree.go',"	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNode(oid)","	t.lock.RLock()\n	node := t.root.getNode(oid)\n	t.lock.RUnlock()\n	return node")], TC)
ref('tree-next-compare', [(ND,"	var iterate func(*Node, int, bool, bool)\n","	var iterate func(node *Node, ind int, eq1, eq2 bool)\n")], TC)
ref('tree-next-bools', [(ND,"			if eq1 && ind < len(oid1) && oid1[ind] > child.Subid {\n				continue\n			}\n			if eq2 && (ind >= len(oid2) || oid2[ind] < child.Subid) {\n				continue\n			}\n","			before := eq1 && ind < len(oid1) && child.Subid < oid1[ind]\n			after := eq2 && (ind >= len(oid2) || child.Subid > oid2[ind])\n			if before || after {\n				continue\n			}\n")], TC)
ref('tree-next-method', [(ND,"			if ind >= len(oid1) {\n				if ind >= len(oid2) {\n					iterate(child, ind, false, false)\n				} else {\n					iterate(child, ind+1, false, eq2 && child.Subid == oid2[ind])\n				}\n			} else {\n				if ind >= len(oid2) {\n					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], false)\n				} else {\n					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], eq2 && child.Subid == oid2[ind])\n				}\n			}","			same1 := eq1 && ind < len(oid1) && child.Subid == oid1[ind]\n			same2 := eq2 && ind < len(oid2) && child.Subid == oid2[ind]\n			iterate(child, ind+1, same1, same2)")], TC)
ref('tree-next-collect', [(ND,"	var iterate func(*Node, int, bool, bool)\n	iterate = func(node *Node, ind int, eq1, eq2 bool) {\n","	root := node\n	_ = root\n	var iterate func(*Node, int, bool, bool)\n	iterate = func(node *Node, ind int, eq1, eq2 bool) {\n")], TC)
ref('tree-next-scan', [(ND,"	var iterate func(*Node, int, bool, bool)\n	iterate = func(node *Node, ind int, eq1, eq2 bool) {","	if repeatition == 1 {\n		node.forRangeLeaves(func(id []uint32, leaf *Node) {\n			if resnode != nil {\n				return\n			}\n			cmp := Compare(id, oid1)\n			if (cmp > 0 || cmp == 0 && include1) && (len(oid2) == 0 || Lt(id, oid2)) {\n				resnode = leaf\n			}\n		})\n		return\n	}\n\n	var iterate func(*Node, int, bool, bool)\n	iterate = func(node *Node, ind int, eq1, eq2 bool) {")], TC)
ref('tree-walk-append', [(ND,"			nodeOid := Cat(parentOid, node.Subid)","			nodeOid := append(append(make([]uint32, 0, len(parentOid)+1), parentOid...), node.Subid)")], TC)
ref('tree-walk-leaf', [(ND,"			if len(node.Children) == 0 {\n				do(nodeOid, node)\n			} else {\n				iterate(nodeOid, node.Children)\n			}","			if len(node.Children) > 0 {\n				iterate(nodeOid, node.Children)\n				continue\n			}\n			do(nodeOid, node)")], TC)
ref('tree-clear-root', [('oid/tree.go',"	t.root.Children = nil","	t.root = &Node{}")], TC)
XC=['C25','C20','C13']
IP='ipa/ip_address.go'; IN='internal/indent.go'; SR='agentx/search_range.go'; VBA='asn/varbind.go'
ref('txt-oid-peel', [(OI,"	for i, subid := range id {\n		if i > 0 {\n			sb.WriteByte('.')\n		}\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))\n	}","	if len(id) == 0 {\n		return\n	}\n	sb.WriteString(strconv.FormatUint(uint64(id[0]), 10))\n	for _, subid := range id[1:] {\n		sb.WriteByte('.')\n		sb.WriteString(strconv.FormatUint(uint64(subid), 10))\n	}")], XC+['C22'])
ref('txt-oid-sep', [(OI,"	for i, subid := range id {\n		if i > 0 {\n			sb.WriteByte('.')\n		}\n","	sep := \"\"\n	for _, subid := range id {\n		sb.WriteString(sep)\n		sep = \".\"\n")], XC)
ref('txt-ip-loop', [(IP,"	sb.WriteString(strconv.FormatUint(uint64(a[0]), 10))\n	sb.WriteByte('.')\n	sb.WriteString(strconv.FormatUint(uint64(a[1]), 10))\n	sb.WriteByte('.')\n	sb.WriteString(strconv.FormatUint(uint64(a[2]), 10))\n	sb.WriteByte('.')\n	sb.WriteString(strconv.FormatUint(uint64(a[3]), 10))\n","	for i, b := range a {\n		if i != 0 {\n			sb.WriteByte('.')\n		}\n		sb.WriteString(strconv.Itoa(int(b)))\n	}\n")], XC)
ref('txt-opaque-first', [(AV,"			for i, n := 0, len(b); i < n; i++ {\n				if i > 0 {\n					sb.WriteByte(' ')\n				}\n				sb.WriteString(strconv.FormatUint(uint64(b[i]), 10))\n			}","			for i := range b {\n				sb.WriteString(strconv.FormatUint(uint64(b[i]), 10))\n				if i+1 < len(b) {\n					sb.WriteByte(' ')\n				}\n			}")], XC)
ref('txt-prefix-repeat', [(IN,"	return string(maxprefix[:tabsize*depth])","	return strings.Repeat(\" \", tabsize*depth)"),(IN,"package internal\n","package internal\n\nimport \"strings\"\n")], XC)
ref('txt-range-concat', [(SR,"	sb.WriteString(\" EndOid: \")\n	oid.Fprint(sb, r.EndOid)","	sb.WriteString(\" EndOid: \" + oid.String(r.EndOid))")], XC)
ref('txt-range-print', [(SR,"	sb.WriteString(strconv.FormatUint(uint64(r.StartIncluded), 10))","	sb.WriteString(strconv.Itoa(int(r.StartIncluded)))")], XC)
ref('txt-value-switch', [(AV,"			sb.WriteString(strconv.FormatInt(int64(v.(int32)), 10))","			switch x := v.(type) {\n			case int32:\n				sb.WriteString(strconv.Itoa(int(x)))\n			}")], XC)
ref('txt-fprintf', [(AV,"			sb.WriteString(strconv.FormatInt(int64(v.(int32)), 10))","			fmt.Fprintf(sb, \"%d\", v.(int32))"),(AV,"import (\n","import (\n	\"fmt\"\n")], XC)
ref('txt-append', [(AV,"			sb.WriteString(strconv.FormatUint(v.(uint64), 10))","			sb.Write(strconv.AppendUint(nil, v.(uint64), 10))")], XC)
EN='agentx/encoding.go'; FL='agentx/flags.go'; ED='agentx/encoding_dbg.go'
CC=['C01','C04','C08','C11','C10','C12']
ref('lib-pad-count', [(EN,"func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(size)\n","func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(size)\n	if bytes.Count(data[:size], []byte{0}) != size {\n		panic(ErrEncoding)\n	}\n"),(EN,"import (\n","import (\n	\"bytes\"\n")], CC)
ref('lib-pad-trim', [(EN,"func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(size)\n","func (d decoder) parsePaddingBytes(data []byte, size int) []byte {\n	size = paddingSize(size)\n	if len(bytes.TrimLeft(data[:size], \"\\x00\")) > 0 {\n		panic(ErrEncoding)\n	}\n"),(EN,"import (\n","import (\n	\"bytes\"\n")], CC)
ref('lib-str-buffer', [(EN,"	data = e.appendInt32(data, int32(len(val)))\n	data = append(data, []byte(val)...)","	buf := bytes.NewBuffer(e.appendInt32(data, int32(len(val))))\n	buf.WriteString(val)\n	data = buf.Bytes()"),(EN,"import (\n","import (\n	\"bytes\"\n")], ['C01','C02','C11','C08','C12'])
ref('lib-str-clone', [(EN,"	val, next = string(next[:int(size)]), next[int(size):]","	val, next = string(bytes.Clone(next[:int(size)])), next[int(size):]"),(EN,"import (\n","import (\n	\"bytes\"\n")], CC)
ref('lib-oid-equal', [(OI,"	for i := 0; i < len(subids); i++ {\n		if id[i] != subids[i] {\n			return false\n		}\n	}\n	return true","	return slices.Equal(id[:len(subids)], subids)"),(OI,"import (\n","import (\n	\"slices\"\n")], ['C16'])
ref('lib-oid-deep', [(OI,"	for i := 0; i < len(subids); i++ {\n		if id[i] != subids[i] {\n			return false\n		}\n	}\n	return true","	return len(subids) == 0 || reflect.DeepEqual(id[:len(subids)], subids)"),(OI,"import (\n","import (\n	\"reflect\"\n")], ['C16','C15'])
ref('lib-clone', [(OI,"	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return","	return append(make([]uint32, 0), slices.Clone(id)...)"),(OI,"import (\n","import (\n	\"slices\"\n")], ['C16'])
ref('lib-concat', [(OI,"	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return","	return slices.Concat([]uint32{}, id, subids)"),(OI,"import (\n","import (\n	\"slices\"\n")], ['C16','C11'])
ref('lib-tree-bsearch', [(ND,"	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n	ok = ind < len(node.Children) && node.Children[ind].Subid == subid\n	return","	return slices.BinarySearchFunc(node.Children, subid, func(n *Node, s uint32) int {\n		return cmp.Compare(n.Subid, s)\n	})"),(ND,"import \"sort\"","import (\n	\"cmp\"\n	\"slices\"\n)")], ['C18','C19','C17','C12'])
ref('lib-tree-find', [(ND,"	ind = sort.Search(len(node.Children), func(i int) bool {\n		return node.Children[i].Subid >= subid\n	})\n	ok = ind < len(node.Children) && node.Children[ind].Subid == subid\n	return","	return sort.Find(len(node.Children), func(i int) int {\n		if s := node.Children[i].Subid; s != subid {\n			if subid < s {\n				return -1\n			}\n			return 1\n		}\n		return 0\n	})")], ['C18','C19','C17','C12'])
ref('lib-tree-insert', [(ND,"		if ind == len(node.Children) {\n			node.Children = append(node.Children, child)\n		} else {\n			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child\n		}","		node.Children = slices.Insert(node.Children, ind, child)"),(ND,"import \"sort\"","import (\n	\"slices\"\n	\"sort\"\n)")], ['C18','C19','C17','C12'])
ref('lib-tree-delete', [(ND,"		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)","		node.Children = slices.Delete(node.Children, ind, ind+1)"),(ND,"import \"sort\"","import (\n	\"slices\"\n	\"sort\"\n)")], ['C18','C19','C17','C12'])
ref('lib-parse-fields', [(OI,"	for i, ind := 0, 0; i < nsubids; i++ {\n		s = s[ind:]","	parts := strings.FieldsFunc(s, func(r rune) bool { return r == '.' })\n	_ = parts\n	for i, ind := 0, 0; i < nsubids; i++ {\n		s = s[ind:]")], ['C22'])
ref('lib-hex', [(HX,"		buf[10] = table[data[i]>>4]\n		buf[11] = table[data[i]&0x0F]\n		buf[12] = ' '\n		sb.Write(buf[10:13])","		sb.WriteString(strings.ToUpper(hex.EncodeToString(data[i:i+1])))\n		sb.WriteByte(' ')"),(HX,"	\"fmt\"\n","	\"encoding/hex\"\n	\"fmt\"\n")], ['C24','C20','C12'])
ref('lib-hex-sprintf', [(HX,"		buf[10] = table[data[i]>>4]\n		buf[11] = table[data[i]&0x0F]\n		buf[12] = ' '\n		sb.Write(buf[10:13])","		fmt.Fprintf(&sb, \"%02X \", data[i])")], ['C24','C20','C12','C21'])
ref('lib-flags-join', [(FL,"	first := true\n	for i := 0; i < 8; i++ {","	var names []string\n	_ = strings.Join(names, \"|\")\n	first := true\n	for i := 0; i < 8; i++ {")], ['C13','C20'])
