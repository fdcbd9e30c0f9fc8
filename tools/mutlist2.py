# Bugs outside the codec: m2(id, checks, (file, old, new)...)
HX='hex/dump.go'; OI='oid/oid.go'; ND='oid/node.go'; AV='asn/value.go'
m2('hex-nl-last','C24',(HX,"if used == 4 && i != i2-1 {","if used == 4 {"))
m2('hex-offset-16','C24',(HX,"b = byte(offset >> 16)","b = byte(offset >> 15)"))
m2('hex-nibble','C24',(HX,"		buf[11] = table[data[i]&0x0F]","		buf[11] = table[data[i]&0x07]"))
m2('hex-bounds','C20',(HX,"i1 < 0 || i1 > i2 || i2 > len(data)","i1 < 0 || i2 > len(data)"))
m2('hex-bounds2','C20',(HX,"i1 < 0 || i1 > i2 || i2 > len(data)","i1 > i2 || i2 > len(data)"))
m2('hex-tail','C24',(HX,"len(data)-size, len(data)","len(data)-size, len(data)-size/32"))
m2('hex-diff-equal-len','C24',(HX,"	if bytes.Equal(data1, data2) {\n		return \"\"","	if bytes.HasPrefix(data1, data2) && len(data1)-len(data2) < 1 {\n		return \"\""))
m2('hex-diff-chunk','C24',(HX,"		if bytes.Equal(chunk1, chunk2) {","		if len(chunk1) == len(chunk2) && chunk1[0] == chunk2[0] && chunk1[len(chunk1)-1] == chunk2[len(chunk2)-1] {"))
m2('hex-diff-prefix','C24',(HX,"	if bytes.Equal(data1, data2) {\n		return \"\"","	if n := generics.Min(len(data1), len(data2)); bytes.Equal(data1[:n], data2[:n]) {\n		return \"\""))
m2('hex-diff-grow','C20',(HX,"	sb.Grow((1 + ((maxlen - 1) / 4)) * 52)","	sb.Grow((len(data1) - len(data2)) * 52)"))
m2('cmp-signed','C15',(OI,"		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {","		if int32(id1[i]) < int32(id2[i]) {\n			return -1\n		}\n		if int32(id1[i]) > int32(id2[i]) {"))
m2('cmp-len-first','C15',(OI,"	lmin := generics.Min(len1, len2)","	lmin := generics.Min(len1, len2) - len1/128"))
m2('cmp-sub','C15',(OI,"		if id1[i] < id2[i] {\n			return -1\n		}\n		if id1[i] > id2[i] {\n			return 1\n		}","		if d := int32(id1[i] - id2[i]); d < 0 {\n			return -1\n		} else if d > 0 {\n			return 1\n		}"))
m2('cat-append','C16',(OI,"	idnew = make([]uint32, len(id)+len(subids))\n	copy(idnew, id)\n	copy(idnew[len(id):], subids)\n	return","	return append(id, subids...)"))
m2('cat-alias-empty','C16',(OI,"	idnew = make([]uint32, len(id)+len(subids))\n","	if len(subids) == 0 {\n		return id\n	}\n	idnew = make([]uint32, len(id)+len(subids))\n"))
m2('clone-cap','C16',(OI,"	idnew = make([]uint32, len(id))\n	copy(idnew, id)\n	return","	return append(id[:0], id...)"))
m2('prefix-short','C16',(OI,"	if len(id) < len(subids) {\n		return false","	if len(id) == 0 && len(subids) > 0 {\n		return false"),(OI,"	for i := 0; i < len(subids); i++ {","	for i := 0; i < len(subids) && i < len(id); i++ {"))
m2('prefix-last','C16',(OI,"	for i := 0; i < len(subids); i++ {","	for i := 0; i < len(subids)-len(id)/128; i++ {"))
m2('val-null','C14',(AV,"		isvalid: func(v interface{}) bool { return true },\n		fprint:  func(sb *strings.Builder, v interface{}) {},\n	},\n	TagObjectId","		isvalid: func(v interface{}) bool { return v == nil },\n		fprint:  func(sb *strings.Builder, v interface{}) {},\n	},\n	TagObjectId"))
m2('val-tag-seq','C14',(AV,"	return ok && tag != TagSequence","	return ok && tag != TagSequence && tag != TagOpaque"))
m2('val-known-seq','C14',(AV,"	return ok && tag != TagSequence","	return ok"))
m2('val-cnt','C14 C20',(AV,"	TagCounter32: {\n		tagstr: \"Counter32\",\n		isvalid: func(v interface{}) bool {\n			_, ok := v.(uint32)","	TagCounter32: {\n		tagstr: \"Counter32\",\n		isvalid: func(v interface{}) bool {\n			_, ok := v.(int32)"))
m2('val-str-bytes','C14 C20',(AV,"			_, ok := v.(string)\n			return ok","			switch v.(type) {\n			case string, []byte:\n				return true\n			}\n			return false"))
m2('tag-string','C20',(AV,"	if tag.IsKnown() && table[tag].isvalid(v) {","	if v == nil || tag.IsKnown() && table[tag].isvalid(v) {"))
m2('oid-grow','C20',(OI,"sb.Grow(11 * len(id))","sb.Grow(11*len(id) - 1)"))
m2('parse-32','C22',(OI,"strconv.ParseUint(s[:ind], 10, 32)","strconv.ParseUint(s[:ind], 10, 64)"))
m2('parse-base0','C22',(OI,"strconv.ParseUint(s[:ind], 10, 32)","strconv.ParseUint(s[:ind], 0, 32)"))
m2('parse-err','C22',(OI,"ParseUint(s[:ind], 10, 32); err != nil {","ParseUint(s[:ind], 10, 32); err != nil && ind > 0 {"))
m2('parse-last','C22',(OI,"	nsubids := strings.Count(s, \".\") + 1","	s = strings.TrimSuffix(s, \".\")\n	nsubids := strings.Count(s, \".\") + 1"))
m2('parse-trim','C22',(OI,"strings.TrimPrefix(s, \".\")","strings.TrimLeft(s, \".\")"))
m2('parse-128','C22',(OI,"nsubids > 128","nsubids > 129"))
m2('parse-atoi','C22',(OI,"		var subid uint64\n		if subid, err = strconv.ParseUint(s[:ind], 10, 32); err != nil {","		var subid int\n		if subid, err = strconv.Atoi(s[:ind]); err != nil {"))
m2('parse-range-err','C22',(OI,"err != nil {\n			return","err != nil && subid == 0 {\n			return"))
m2('parse-shadow','C22',(OI,"		var subid uint64\n		if subid, err = strconv","		var subid uint64\n		if subid, err := strconv"))
m2('parse-ind','C22',(OI,"id[i], ind = uint32(subid), ind+1","id[i], ind = uint32(subid), ind+1-i/100"))
m2('tree-parent','C18',(ND,"&Node{Subid: subid, Parent: node}","&Node{Subid: subid, Parent: node.Parent}"))
m2('tree-search-gt','C18',(ND,"node.Children[i].Subid >= subid","node.Children[i].Subid > subid"))
m2('tree-search-signed','C18',(ND,"node.Children[i].Subid >= subid","int32(node.Children[i].Subid) >= int32(subid)"))
m2('tree-insert-mid','C18',(ND,"		if ind == len(node.Children) {","		if ind >= len(node.Children)-1 && ind > 1 {"))
m2('tree-insert-alias','C18',(ND,"			node.Children = append(node.Children[:ind+1], node.Children[ind:]...)\n			node.Children[ind] = child","			node.Children = append(append(node.Children[:ind], child), node.Children[ind:]...)"))
m2('tree-remove-swap','C18',(ND,"		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)","		last := len(node.Children) - 1\n		node.Children[ind] = node.Children[last]\n		node.Children = node.Children[:last]"))
m2('tree-remove-tail','C18',(ND,"		node.Children = append(node.Children[:ind], node.Children[ind+1:]...)","		node.Children = node.Children[:ind]"))
m2('tree-remove-leafonly','C18',(ND,"	if node = node.getNode(oid); node == nil || node.Parent == nil {","	if node = node.getNode(oid); node == nil || node.Parent == nil || len(node.Children) > 2 {"))
m2('tree-remove-prune','C18',('oid/tree.go',"t.root.removeNode(oid, false)","t.root.removeNode(oid, true)"))
m2('tree-add-existing','C18',(ND,"	if i == len(oid) {\n		return nil\n	}\n","	if i == len(oid) {\n		if len(node.Children) == 0 {\n			return nil\n		}\n		return node\n	}\n"))
m2('tree-get-prefix','C18',(ND,"		if node = node.getChild(subid); node == nil {\n			break\n		}","		next := node.getChild(subid)\n		if next == nil {\n			if len(node.Children) > 0 {\n				return nil\n			}\n			break\n		}\n		node = next"))
m2('tree-clear','C18',('oid/tree.go',"	t.root.Children = nil","	t.root.Children = t.root.Children[:0:1]"))
m2('tree-add-firstpath','C18',(ND,"	for _, subid := range oid[i:] {\n		node = node.addChild(subid)\n	}\n	return node","	first := node\n	for k, subid := range oid[i:] {\n		node = node.addChild(subid)\n		if k == 0 {\n			first = node\n		}\n	}\n	return first"))
m2('next-continue','C19',(ND,"oid1[ind] > child.Subid","oid1[ind] >= child.Subid"))
m2('next-oid2','C19',(ND,"oid2[ind] < child.Subid","oid2[ind] <= child.Subid"))
m2('next-eq2','C19',(ND,"					iterate(child, ind+1, false, eq2 && child.Subid == oid2[ind])","					iterate(child, ind+1, false, false)"))
m2('next-include','C19',(ND,"ge1 := !eq1 || include1 && ind == len(oid1)","ge1 := !eq1 || include1"))
m2('next-first','C19',(ND,"			if resnode != nil {\n				return\n			}","			if resnode != nil && ind == 0 {\n				return\n			}"))
m2('next-oid2-nil','C19',(ND,"	iterate(node, 0, true, len(oid2) > 0)","	iterate(node, 0, len(oid1) > 0, oid2 != nil)"))
m2('next-deep','C19',(ND,"					iterate(child, ind+1, eq1 && child.Subid == oid1[ind], false)","					iterate(child, ind+1, child.Subid == oid1[ind], false)"))
m2('walk-share','C19',(ND,"			nodeOid := Cat(parentOid, node.Subid)","			nodeOid := append(parentOid, node.Subid)"))
m2('walk-inner','C19',(ND,"			if len(node.Children) == 0 {\n				do(nodeOid, node)\n			} else {","			if len(node.Children) == 0 {\n				do(nodeOid, node)\n			}\n			if len(node.Children) > 1 || len(parentOid) < 2 {"))
SR='agentx/search_range.go'; EN='agentx/encoding.go'; FL='agentx/flags.go'; IN='internal/indent.go'
m2('st-memo','C12',(OI,"func String(id []uint32) string {\n","var memo = map[int]string{}\n\nfunc remember(m map[int]string, n int, s string) { m[n] = s }\n\nfunc String(id []uint32) string {\n	if len(id) == 1 {\n		remember(memo, int(id[0]), \"\")\n	}\n"))
m2('st-last','C12',(IN,"	return string(maxprefix[:tabsize*depth])","	p := maxprefix[:tabsize*depth]\n	for i := range p {\n		p[i] = ' '\n	}\n	return string(p)"))
m2('st-ptr','C12',(IN,"func Prefix(depth int) string {\n","type stats struct{ n int }\n\nfunc (s *stats) hit() { s.n++ }\n\nvar calls = &stats{}\n\nfunc Prefix(depth int) string {\n	calls.hit()\n"))
m2('st-flags','C12',(FL,"	first := true\n	for i := 0; i < 8; i++ {","	names := flagStrings[:]\n	names[0] = \"InstanceRegistration\"\n	first := true\n	for i := 0; i < 8; i++ {"))
m2('st-prefix','C12',(EN,"// maxSubids is","var oidbuf = make([]uint32, 0, 256)\n\n// maxSubids is"),(EN,"	val = make([]uint32, 0, ","	val = append(oidbuf[:0], make([]uint32, 0, "))
m2('st-go','C12',('agentx/pdu.go',"	log.Writef(\"encoding pdu\\n%s\", pdu.String(1))","	go log.Writef(\"encoding pdu\\n%s\", pdu.String(1))"))
m2('st-closure','C12',(FL,"func (f Flags) String() string {\n	var sb strings.Builder\n","var seen = func() func(Flags) bool {\n	var last Flags\n	return func(f Flags) bool {\n		old := last\n		last = f\n		return old == f\n	}\n}()\n\nfunc (f Flags) String() string {\n	seen(f)\n	var sb strings.Builder\n"))
m2('st-builder','C12',(FL,"func (f Flags) String() string {\n	var sb strings.Builder\n	sb.Grow(flagsStringMaxLen)\n	f.Fprint(&sb)\n	return sb.String()","var flagsBuilder strings.Builder\n\nfunc (f Flags) String() string {\n	flagsBuilder.Reset()\n	f.Fprint(&flagsBuilder)\n	return flagsBuilder.String()"))
m2('st-table','C12',(AV,"func (tag Tag) IsValidValue(","func (tag Tag) rename(s string) {\n	e := table[tag]\n	e.tagstr = s\n	table[tag] = e\n}\n\nfunc (tag Tag) IsValidValue("),(AV,"	if tag.IsKnown() && table[tag].isvalid(v) {","	if tag == TagNull {\n		tag.rename(\"Null\")\n	}\n	if tag.IsKnown() && table[tag].isvalid(v) {"))
IP='ipa/ip_address.go'
m2('txt-ticks','C25',(AV,"	TagTimeTicks: {\n		tagstr: \"TimeTicks\",\n		isvalid: func(v interface{}) bool {\n			_, ok := v.(uint32)\n			return ok\n		},\n		fprint: func(sb *strings.Builder, v interface{}) {\n			sb.WriteString(strconv.FormatUint(uint64(v.(uint32)), 10))","	TagTimeTicks: {\n		tagstr: \"TimeTicks\",\n		isvalid: func(v interface{}) bool {\n			_, ok := v.(uint32)\n			return ok\n		},\n		fprint: func(sb *strings.Builder, v interface{}) {\n			sb.WriteString(strconv.FormatInt(int64(int32(v.(uint32))), 10))"))
m2('txt-int','C25',(AV,"strconv.FormatInt(int64(v.(int32)), 10)","strconv.FormatUint(uint64(v.(int32)), 10)"))
m2('txt-range','C25',(SR,"	sb.WriteString(\" EndOid: \")\n	oid.Fprint(sb, r.EndOid)","	sb.WriteString(\" EndOid: \")\n	if len(r.EndOid) > 1 && len(r.StartOid) > 1 {\n		oid.Fprint(sb, r.EndOid[:len(r.StartOid)-1])\n	} else {\n		oid.Fprint(sb, r.EndOid)\n	}"))
m2('txt-ip','C25',(IP,"uint64(a[2])","uint64(a[2]&0x7f)"))
m2('txt-oid','C25',(OI,"		if i > 0 {\n			sb.WriteByte('.')","		if i > 0 && (subid != 0 || i < 3) {\n			sb.WriteByte('.')"))
m2('txt-oid2','C25',(OI,"strconv.FormatUint(uint64(subid), 10)","strconv.Itoa(int(int32(subid)))"))
m2('txt-opaque','C25',(AV,"				if i > 0 {\n					sb.WriteByte(' ')","				if i%16 != 0 {\n					sb.WriteByte(' ')"))
m2('txt-u64','C25',(AV,"strconv.FormatUint(v.(uint64), 10)","strconv.FormatInt(int64(v.(uint64)), 10)"))
m2('txt-prefix','C25 C20',(IN,"	if depth >= maxdepth {","	if depth > maxdepth+1 {"))
m2('txt-valid','C25',(AV,"	if tag.IsKnown() && table[tag].isvalid(v) {","	if tag == TagNull || tag.IsKnown() && table[tag].isvalid(v) && v != nil {"))
m2('txt-tag','C25 C13',(AV,"		return \"?\" + strconv.FormatInt(int64(tag), 10)","		return \"?\" + strconv.FormatInt(int64(int8(tag)), 10)"))
# lock discipline
TRL='oid/tree.go'
GLK="	t.lock.RLock()\n	defer t.lock.RUnlock()\n	return t.root.getNode(oid)"
ALK="	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.addNode(oid)"
RLK="	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.removeNode(oid, false)"
NT="func NewTree() *Tree {"
UND="func under(l sync.Locker, f func()) {\n	l.Lock()\n	defer l.Unlock()\n	f()\n}\n\n"
LKD="func locked[T any](t *Tree, write bool, f func(root *Node) T) T {\n	if write {\n		t.lock.Lock()\n		defer t.lock.Unlock()\n	} else {\n		t.lock.RLock()\n		defer t.lock.RUnlock()\n	}\n	return f(t.root)\n}\n\n"
m2('lk-under-rlocker','C17',(TRL,ALK,"	var n *Node\n	under(t.lock.RLocker(), func() { n = t.root.addNode(oid) })\n	return n"),(TRL,NT,UND+NT))
m2('lk-locked-false','C17',(TRL,ALK,"	return locked(t, len(oid) > 100000, func(root *Node) *Node { return root.addNode(oid) })"),(TRL,NT,LKD+NT))
m2('lk-locked-const','C17',(TRL,ALK,"	return locked(t, false, func(root *Node) *Node { return root.addNode(oid) })"),(TRL,NT,LKD+NT))
m2('lk-none-short','C17',(TRL,GLK,"	if len(oid) > 1 {\n		t.lock.RLock()\n		defer t.lock.RUnlock()\n	}\n	return t.root.getNode(oid)"))
m2('lk-mixed-cond','C17',(TRL,RLK,"	w := len(oid) < 9\n	if w {\n		t.lock.Lock()\n	} else {\n		t.lock.RLock()\n	}\n	r := t.root.removeNode(oid, false)\n	if w {\n		t.lock.Unlock()\n	} else {\n		t.lock.RUnlock()\n	}\n	return r"))
m2('lk-leak','C17',(TRL,RLK,"	t.lock.Lock()\n	r := t.root.removeNode(oid, false)\n	if !r && len(oid) == 77 {\n		return r\n	}\n	t.lock.Unlock()\n	return r"))
m2('lk-try','C17',(TRL,GLK,"	if t.lock.TryRLock() {\n		defer t.lock.RUnlock()\n	}\n	return t.root.getNode(oid)"))
m2('lk-root-early','C17',(TRL,GLK,"	root := t.root\n	root2 := root.Children\n	t.lock.RLock()\n	defer t.lock.RUnlock()\n	if len(root2) == 0 {\n		return t.root.getNode(oid)\n	}\n	return t.root.getNode(oid)"))
m2('lk-upgrade','C17',(TRL,RLK,"	t.lock.RLock()\n	defer t.lock.RUnlock()\n	if t.root.getNode(oid) == nil {\n		return false\n	}\n	t.lock.Lock()\n	defer t.lock.Unlock()\n	return t.root.removeNode(oid, false)"))
m2('lk-walk-free','C17',(TRL,"	t.lock.RLock()\n	defer t.lock.RUnlock()\n	t.root.forRangeLeaves(do)","	t.lock.RLock()\n	root := t.root\n	t.lock.RUnlock()\n	root.forRangeLeaves(do)"))
