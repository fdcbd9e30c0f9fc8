# Rewrites near the rule-based checks (C12, C13, C17, C21, C23).
LINT = ['C12', 'C13', 'C17', 'C21', 'C23']
def l3(id, edits, more=()): ref(id, edits, LINT + list(more))
TR = 'oid/tree.go'; NM = 'oid/name.go'; ED = 'agentx/encoding_dbg.go'; PD = 'agentx/pdu.go'; PT = 'agentx/pdu_tag.go'; FL = 'agentx/flags.go'; ES = 'pduerror/error_string.go'; CR = 'agentx/close_reason.go'
ADD = '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.addNode(oid)'''
NEXT = '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)'''
WALK = '''	t.lock.RLock()
	defer t.lock.RUnlock()
	t.root.forRangeLeaves(do)'''
l3('lk-explicit', [(TR, ADD, '''	t.lock.Lock()
	n := t.root.addNode(oid)
	t.lock.Unlock()
	return n''')])
l3('lk-ptr', [(TR, ADD, '''	mu := &t.lock
	mu.Lock()
	defer mu.Unlock()
	return t.root.addNode(oid)''')])
l3('lk-defer-closure', [(TR, WALK, '''	t.lock.RLock()
	defer func() { t.lock.RUnlock() }()
	t.root.forRangeLeaves(do)''')])
l3('lk-rlocker', [(TR, NEXT, '''	l := t.lock.RLocker()
	l.Lock()
	defer l.Unlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)''')])
l3('lk-unlockfn', [(TR, NEXT, '''	defer t.rlock()()
	return t.root.getNextNode(oid1, oid2, include1, 1)'''), (TR, 'func NewTree() *Tree {', '''func (t *Tree) rlock() func() {
	t.lock.RLock()
	return t.lock.RUnlock
}

func NewTree() *Tree {''')])
l3('lk-unlockfn2', [(TR, NEXT, '''	unlock := t.rlock()
	defer unlock()
	return t.root.getNextNode(oid1, oid2, include1, 1)'''), (TR, 'func NewTree() *Tree {', '''func (t *Tree) rlock() func() {
	t.lock.RLock()
	return func() { t.lock.RUnlock() }
}

func NewTree() *Tree {''')])
l3('lk-read-helper', [(TR, NEXT, '''	var n *Node
	t.read(func(root *Node) { n = root.getNextNode(oid1, oid2, include1, 1) })
	return n'''), (TR, WALK, '''	t.read(func(root *Node) { root.forRangeLeaves(do) })'''), (TR, 'func NewTree() *Tree {', '''func (t *Tree) read(f func(root *Node)) {
	t.lock.RLock()
	defer t.lock.RUnlock()
	f(t.root)
}

func NewTree() *Tree {''')])
l3('lk-read-generic', [(TR, NEXT, '''	return locked(t, false, func(root *Node) *Node { return root.getNextNode(oid1, oid2, include1, 1) })'''), (TR, ADD, '''	return locked(t, true, func(root *Node) *Node { return root.addNode(oid) })'''), (TR, 'func NewTree() *Tree {', '''func locked[T any](t *Tree, write bool, f func(root *Node) T) T {
	if write {
		t.lock.Lock()
		defer t.lock.Unlock()
	} else {
		t.lock.RLock()
		defer t.lock.RUnlock()
	}
	return f(t.root)
}

func NewTree() *Tree {''')])
l3('lk-locker-arg', [(TR, NEXT, '''	var n *Node
	under(t.lock.RLocker(), func() { n = t.root.getNextNode(oid1, oid2, include1, 1) })
	return n'''), (TR, ADD, '''	var n *Node
	under(&t.lock, func() { n = t.root.addNode(oid) })
	return n'''), (TR, 'func NewTree() *Tree {', '''func under(l sync.Locker, f func()) {
	l.Lock()
	defer l.Unlock()
	f()
}

func NewTree() *Tree {''')])
l3('lk-embed', [(TR, '''	lock sync.RWMutex
	root *Node''', '''	treeLock
	root *Node'''), (TR, 'type Tree struct {', '''type treeLock struct {
	lock sync.RWMutex
}

type Tree struct {''')])
l3('lk-mutex', [(TR, 'lock sync.RWMutex', 'lock sync.Mutex'), (TR, NEXT, NEXT.replace('RLock', 'Lock').replace('RUnlock', 'Unlock')), (TR, WALK, WALK.replace('RLock', 'Lock').replace('RUnlock', 'Unlock')), (TR, '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.root.getNode(oid)''', '''	t.lock.Lock()
	defer t.lock.Unlock()
	return t.root.getNode(oid)''')])
l3('lk-writelock-read', [(TR, NEXT, NEXT.replace('RLock', 'Lock').replace('RUnlock', 'Unlock'))])
l3('lk-inner-method', [(TR, NEXT, '''	t.lock.RLock()
	defer t.lock.RUnlock()
	return t.next(oid1, oid2, include1)'''), (TR, 'func NewTree() *Tree {', '''// next expects the lock to be held.
func (t *Tree) next(oid1, oid2 []uint32, include1 bool) *Node {
	return t.root.getNextNode(oid1, oid2, include1, 1)
}

func NewTree() *Tree {''')])
l3('lk-collect-then-call', [(TR, '	defer t.lock.RUnlock()\n	return t.root.getNode(oid)', '	n := t.root.getNode(oid)\n	t.lock.RUnlock()\n	return n')])
l3('lk-newtree', [(TR, 'return &Tree{root: &Node{}}', 't := new(Tree)\n	t.root = new(Node)\n	return t')])
l3('nm-init', [(NM, 'var Name = map[string][]uint32{', 'var Name map[string][]uint32\n\nfunc init() {\n	Name = mibNames()\n}\n\nfunc mibNames() map[string][]uint32 {\n	return map[string][]uint32{'), (NM, '	// to be continued ...\n}', '	// to be continued ...\n	}\n}')])
l3('nm-vars', [(NM, '	"mib2":         {1, 3, 6, 1, 2, 1},', '	"mib2":         mib2,'), (NM, '	"system":          {1, 3, 6, 1, 2, 1, 1},', '	"system":          Cat(mib2, 1),'), (NM, '	"interfaces":    {1, 3, 6, 1, 2, 1, 2},', '	"interfaces":    under(mib2, 2),'), (NM, 'var Name', '''var mib2 = []uint32{1, 3, 6, 1, 2, 1}

func under(base []uint32, n uint32) []uint32 { return append(base[:len(base):len(base)], n) }

var Name''')])
l3('nm-loop', [(NM, 'var Name = map', '''func init() {
	for i, s := range []string{"directory", "mgmt", "experimental", "private", "security", "snmpV2"} {
		Name[s] = []uint32{1, 3, 6, 1, uint32(i) + 1}
	}
}

var Name = map'''), (NM, '''	"directory":    {1, 3, 6, 1, 1},
	"mgmt":         {1, 3, 6, 1, 2},
	"experimental": {1, 3, 6, 1, 3},
	"private":      {1, 3, 6, 1, 4},
	"security":     {1, 3, 6, 1, 5},
	"snmpV2":       {1, 3, 6, 1, 6},
''', '')])
l3('nm-parse', [(NM, '	"snmpV2":       {1, 3, 6, 1, 6},', '	"snmpV2":       Parse("1.3.6.1.6"),')])
l3('nm-pairs', [(NM, '	"internet":     {1, 3, 6, 1},\n', ''), (NM, 'var Name = map', '''type pair struct {
	name string
	id   []uint32
}

var roots = [...]pair{{"internet", []uint32{1, 3, 6, 1}}}

func init() {
	for _, p := range roots {
		Name[p.name] = p.id
	}
}

var Name = map''')])
l3('lg-helper', [(PD, 'log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())\n		return\n	}\n\n	payloadSize', 'logFlags(log, fooFlags)\n		return\n	}\n\n	payloadSize'), (PD, 'type Pdu struct {', '''func logFlags(log logger.Log, f Flags) {
	log.Writef("!!! Error. Flags %s are not allowed for this pdu", f)
}

type Pdu struct {''')])
l3('lg-errorf', [(PD, 'log.Writef("!!! Error. Flags %s are not allowed for this pdu", fooFlags.String())\n		return\n	}\n\n	payloadSize', 'logError(log, "Flags %s are not allowed for this pdu", fooFlags.String())\n		return\n	}\n\n	payloadSize'), (PD, 'type Pdu struct {', '''const errorMark = "!!! Error. "

func logError(log logger.Log, format string, args ...interface{}) {
	log.Writef(errorMark+format, args...)
}

type Pdu struct {''')])
l3('lg-sprintf', [(ED, 'd.log.Writef("parsed int32: %d", val)', 'd.log.Write(fmt.Sprintf("parsed int32: %d", val))')])
l3('lg-concat', [(ED, 'd.log.Writef("parsed uint32: %d", val)', 'd.log.Write("parsed uint32: " + fmt.Sprint(val))')])
l3('lg-method', [(ED, '	d.log.Writef("parsed uint64: %d", val)', '	d.parsed("uint64", val)'), (ED, '	d.log.Writef("parsed uint32: %d", val)', '	d.parsed("uint32", val)'), (ED, '	d.log.Writef("parsed int32: %d", val)', '	d.parsed("int32", val)'), (ED, 'func (e encoderDbg) appendUint64', '''func (d decoderDbg) parsed(what string, val interface{}) {
	d.log.Writef("parsed %s: %v", what, val)
}

func (e encoderDbg) appendUint64''')])
l3('lg-method-fmt', [(ED, '	d.log.Writef("parsed uint64: %d", val)', '	d.parsed("parsed uint64: %d", val)'), (ED, '	d.log.Writef("parsed uint32: %d", val)', '	d.parsed("parsed uint32: %d", val)'), (ED, 'func (e encoderDbg) appendUint64', '''func (d decoderDbg) parsed(format string, args ...interface{}) {
	d.log.Writef(format, args...)
}

func (e encoderDbg) appendUint64''')])
l3('lg-const', [(ED, 'e.log.Writef("appending uint32: %d 0x%08X", val, val)', 'e.log.Writef(uint32Format, val, val)'), (ED, 'func (e encoderDbg) appendUint64', 'const uint32Format = "appending uint32: %d 0x%08X"\n\nfunc (e encoderDbg) appendUint64')])
l3('lg-index', [(ED, 'e.log.Writef("appending uint32: %d 0x%08X", val, val)', 'e.log.Writef("appending uint32: %d 0x%08[1]X", val)')])
l3('lg-width', [(ED, 'e.log.Writef("appending uint32: %d 0x%08X", val, val)', 'e.log.Writef("appending uint32: %d 0x%0*X", val, 8, val)')])
l3('lg-args-slice', [(ED, 'e.log.Writef("appending uint32: %d 0x%08X", val, val)', 'args := []interface{}{val, val}\n	e.log.Writef("appending uint32: %d 0x%08X", args...)')])
l3('lg-plural', [(ED, 'e.log.Writef("appending %d padding byte(s)", size)', '''f := "appending %d padding bytes"
		if size == 1 {
			f = "appending %d padding byte"
		}
		e.log.Writef(f, size)''')])
l3('lg-stringer', [(PD, 'log.Writef("using %s", e.byteOrder.String())', 'log.Writef("using %s", e.byteOrder)')])
l3('fl-trailing', [(FL, '''	for i := 0; i < 8; i++ {
		flag := Flags(1 << i)
		if f&flag == 0 {
			continue
		}
''', '''	for i, flag := 0, Flags(1); i < 8; i, flag = i+1, flag<<1 {
		if f&flag == 0 {
			continue
		}
''')])
l3('fl-join', [(FL, '''	first := true
	for i''', '''	sep := ""
	for i'''), (FL, '''		if first {
			first = false
		} else {
			sb.WriteByte('|')
		}
''', '''		sb.WriteString(sep)
		sep = "|"
''')])
l3('cr-table', [(CR, '''	switch r {
	case CloseReasonOther:
		return "Other"
	case CloseReasonParseError:
		return "ParseError"
	case CloseReasonProtocolError:
		return "ProtocolError"
	case CloseReasonTimeouts:
		return "Timeouts"
	case CloseReasonShutdown:
		return "Shutdown"
	case CloseReasonByManager:
		return "ByManager"
	default:
		return "?" + strconv.FormatInt(int64(r), 10)
	}''', '''	if s, ok := closeReasons[r]; ok {
		return s
	}
	return "?" + strconv.Itoa(int(r))'''), (CR, '// String returns', '''var closeReasons = map[CloseReason]string{
	CloseReasonOther:         "Other",
	CloseReasonParseError:    "ParseError",
	CloseReasonProtocolError: "ProtocolError",
	CloseReasonTimeouts:      "Timeouts",
	CloseReasonShutdown:      "Shutdown",
	CloseReasonByManager:     "ByManager",
}

// String returns''')])
l3('cr-fmt', [(CR, '"?" + strconv.FormatInt(int64(r), 10)', 'fmt.Sprintf("?%d", byte(r))'), (CR, 'import "strconv"', 'import "fmt"')])
l3('er-helper', [(ES, '''	case i <= 18:
		return _Error_name_0[_Error_index_0[i]:_Error_index_0[i+1]]
	case 256 <= i && i <= 268:
		i -= 256
		return _Error_name_1[_Error_index_1[i]:_Error_index_1[i+1]]''', '''	case i <= 18:
		return pick(_Error_name_0, _Error_index_0[:], int(i))
	case 256 <= i && i <= 268:
		return pick(_Error_name_1, _Error_index_1[:], int(i)-256)'''), (ES, 'func (i Error) String', '''func pick(names string, index []uint8, i int) string {
	return names[index[i]:index[i+1]]
}

func (i Error) String''')])
l3('pt-known', [(PT, 'return pduTagMin <= tag && tag <= pduTagMax', 'return !(tag < pduTagMin || tag > pduTagMax)')])
l3('pt-entry', [(PT, '''	if !tag.IsKnown() {
		return f
	}
	return f &^ pduTable[tag].allowedFlags''', '''	var allowed Flags
	if tag.IsKnown() {
		allowed = pduTable[tag].allowedFlags
	}
	return f & ^allowed''')])
