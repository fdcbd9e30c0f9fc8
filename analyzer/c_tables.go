package main

// C13 and C23: constants, names and permission tables, decided by constant
// propagation through the functions that expose them.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nameVal struct {
	name string
	val  int64
	text string
}

var pduTags = []nameVal{
	{"TagOpen", 1, "Open"}, {"TagClose", 2, "Close"}, {"TagRegister", 3, "Register"}, {"TagUnregister", 4, "Unregister"},
	{"TagGet", 5, "Get"}, {"TagGetNext", 6, "GetNext"}, {"TagGetBulk", 7, "GetBulk"}, {"TagTestSet", 8, "TestSet"},
	{"TagCommitSet", 9, "CommitSet"}, {"TagUndoSet", 10, "UndoSet"}, {"TagCleanupSet", 11, "CleanupSet"}, {"TagNotify", 12, "Notify"},
	{"TagPing", 13, "Ping"}, {"TagIndexAllocate", 14, "IndexAllocate"}, {"TagIndexDeallocate", 15, "IndexDeallocate"},
	{"TagAddAgentCaps", 16, "AddAgentCaps"}, {"TagRemoveAgentCaps", 17, "RemoveAgentCaps"}, {"TagResponse", 18, "Response"},
}

var flagNames = []nameVal{
	{"FlagInstanceRegistration", 1, "InstanceRegistration"}, {"FlagNewIndex", 2, "NewIndex"}, {"FlagAnyIndex", 4, "AnyIndex"},
	{"FlagNonDefaultContext", 8, "NonDefaultContext"}, {"FlagNetworkByteOrder", 16, "NetworkByteOrder"},
}

// allowed flags by PDU type, RFC 2741 section 6.
var allowedFlags = []int64{0, 16, 16, 25, 25, 24, 24, 24, 24, 16, 16, 16, 24, 24, 30, 30, 24, 24, 31}

var closeReasons = []nameVal{
	{"CloseReasonOther", 1, "Other"}, {"CloseReasonParseError", 2, "ParseError"}, {"CloseReasonProtocolError", 3, "ProtocolError"},
	{"CloseReasonTimeouts", 4, "Timeouts"}, {"CloseReasonShutdown", 5, "Shutdown"}, {"CloseReasonByManager", 6, "ByManager"},
}

var valueTags = []nameVal{
	{"TagInteger32", 2, "Integer32"}, {"TagOctetString", 4, "OctetString"}, {"TagNull", 5, "Null"}, {"TagObjectId", 6, "ObjectId"},
	{"TagSequence", 48, "Sequence"}, {"TagIpAddress", 64, "IpAddress"}, {"TagCounter32", 65, "Counter32"}, {"TagGauge32", 66, "Unsigned32"},
	{"TagTimeTicks", 67, "TimeTicks"}, {"TagOpaque", 68, "Opaque"}, {"TagCounter64", 70, "Counter64"}, {"TagNoSuchObject", 128, "NoSuchObject"},
	{"TagNoSuchInstance", 129, "NoSuchInstance"}, {"TagEndOfMibView", 130, "EndOfMibView"},
}

var errorCodes = func() []nameVal {
	var r []nameVal
	for i, n := range strings.Fields("NoError TooBig NoSuchName BadValue ReadOnly GenError NoAccess WrongType WrongLength WrongEncoding WrongValue NoCreation InconsistentValue ResourceUnavailable CommitFailed UndoFailed AuthorizationError NotWritable InconsistentName") {
		r = append(r, nameVal{n, int64(i), n})
	}
	for i, n := range strings.Fields("OpenFailed NotOpened IndexWrongType IndexAlreadyAllocated IndexNonAvailable IndexNotAllocated UnsupportedContext DuplicateRegistration UnknownRegistration UnknownAgentCaps ParseError RequestDenied ProcessingError") {
		r = append(r, nameVal{n, int64(256 + i), n})
	}
	return r
}()

func init() {
	register("C13", "Constant propagation: every protocol constant is compared with the number RFC 2741/1905 assigns it; String, IsKnown and NotAllowedFlags are evaluated abstractly on every assigned number (exact text, exact permission set for all 256 flag octets at once) and on the set of all unassigned numbers (never the text of an assigned one).", runC13)
	register("C23", "Constant propagation through the initialiser of package oid: the map held by oid.Name after initialisation is compared, name by name, with the SNMP MIB registrations (RFC 1155, 1213, 2863, 3418), and all OIDs are pairwise distinct.", runC23)
}

func (r *Rep) consts(p *ssa.Package, want []nameVal) {
	for _, w := range want {
		o, _ := p.Pkg.Scope().Lookup(w.name).(*types.Const)
		d := ""
		if o == nil {
			d = "the constant does not exist"
		} else if v, ok := constant.Int64Val(constant.ToInt(o.Val())); !ok || v != w.val {
			d = fmt.Sprintf("has value %s, must be %d", o.Val(), w.val)
		}
		r.ob("number", p.Pkg.Name()+"."+w.name, d)
	}
}

// evalOn evaluates a function on given arguments, returning the frozen value.
func (E *Engine) evalOn(fn *ssa.Function, args []Value, ctx *DD) (TotalRep, Value) {
	rep := E.totalityOn(fn, args, ctx)
	if rep.st == nil {
		return rep, nil
	}
	return rep, freeze(rep.val, rep.st.mem, ctx.and(rep.st.full()))
}

func constText(v Value) (string, bool) {
	if s, ok := v.(VStr); ok {
		return constStr(s.s)
	}
	return "", false
}

func (r *Rep) names(E *Engine, pkg *ssa.Package, typ string, want []nameVal) {
	tn, _ := pkg.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if tn == nil {
		r.fail("name", pkg.Pkg.Name()+"."+typ, "the type does not exist")
		return
	}
	fn := E.prog.LookupMethod(tn.Type(), pkg.Pkg, "String")
	if fn == nil {
		r.fail("name", pkg.Pkg.Name()+"."+typ, "has no String method")
		return
	}
	r.analysed[fn.String()] = true
	for _, w := range want {
		rep, v := E.evalOn(fn, []Value{linC(w.val)}, True)
		d := ""
		if s, ok := constText(v); !ok || len(rep.panics) > 0 {
			d = "the text is not determined: " + short2(valString(v))
		} else if s != w.text {
			d = fmt.Sprintf("renders as %q, must be %q", s, w.text)
		}
		r.ob("name", fmt.Sprintf("%s(%d).String", typ, w.val), d)
	}
	// unassigned numbers
	x := rootPath("x", fn.Params[0].Type())
	ctx := True
	for _, w := range want {
		ctx = ctx.and(condEQ(linAtom(symAtom(x)).addC(-w.val)).not())
	}
	rep, v := E.evalOn(fn, []Value{materialise(x)}, ctx)
	s, ok := v.(VStr)
	d := ""
	if !ok || len(rep.panics) > 0 {
		d = "the text of unassigned values is not determined: " + short2(valString(v))
	} else {
		st := rep.st.fork()
		for _, w := range want {
			if mayEqualText(st.full(), s.s, w.text) {
				d = fmt.Sprintf("an unassigned value may render as %q", w.text)
				break
			}
		}
		if d == "" {
			if mayEqualText(st.full(), s.s, "") {
				d = "an unassigned value may render as nothing"
			}
		}
	}
	r.ob("name", typ+".String on unassigned values", d)
}

// mayEqualText reports whether a text can be equal to a constant one.
func mayEqualText(ctx *DD, s Seq, text string) bool {
	g := ctx.and(condEQ(s.size().addC(-int64(len(text)))))
	if !feasible(g) {
		return false
	}
	for k := 0; k < len(text); k++ {
		if l, ok := readSeq(s, linC(int64(k)), g).(*Lin); ok {
			g = g.and(condEQ(l.addC(-int64(text[k]))))
			if !feasible(g) {
				return false
			}
		}
	}
	return true
}

func runC13(r *Rep) {
	E := r.engine()
	if E == nil {
		return
	}
	ax, as, pe := E.pkgs[modPath+"/agentx"], E.pkgs[modPath+"/asn"], E.pkgs[modPath+"/pduerror"]
	r.consts(ax, pduTags)
	r.consts(ax, flagNames)
	r.consts(ax, closeReasons)
	r.consts(as, valueTags)
	r.consts(pe, errorCodes)
	r.names(E, ax, "PduTag", pduTags)
	r.names(E, ax, "CloseReason", closeReasons)
	r.names(E, as, "Tag", valueTags)
	r.names(E, pe, "Error", errorCodes)

	// flags: all 256 values
	ft := ax.Type("Flags")
	if ft == nil {
		r.fail("name", "agentx.Flags", "the type does not exist")
		return
	}
	fs := E.prog.LookupMethod(ft.Type(), ax.Pkg, "String")
	seen := map[string]int64{}
	for f := int64(0); f < 256; f++ {
		_, v := E.evalOn(fs, []Value{linC(f)}, True)
		s, ok := constText(v)
		d := ""
		if !ok {
			d = "the text is not determined: " + short2(valString(v))
		} else if f < 32 {
			var ws []string
			for _, w := range flagNames {
				if f&w.val != 0 {
					ws = append(ws, w.text)
				}
			}
			if w := strings.Join(ws, "|"); s != w {
				d = fmt.Sprintf("renders as %q, must be %q", s, w)
			}
		}
		if d == "" {
			if g, dup := seen[s]; dup {
				d = fmt.Sprintf("renders as %q like Flags(%d)", s, g)
			}
			seen[s] = f
		}
		r.ob("name", fmt.Sprintf("Flags(%d).String", f), d)
	}
	r.analysed[fs.String()] = true

	// known types
	tt := ax.Type("PduTag").Type()
	kn := E.prog.LookupMethod(tt, ax.Pkg, "IsKnown")
	x := rootPath("tag", tt)
	xl := linAtom(symAtom(x))
	_, v := E.evalOn(kn, []Value{materialise(x)}, True)
	want := condGE(xl.addC(-1)).and(condGE(linC(18).sub(xl)))
	d := ""
	if g, ok := v.(*DD); !ok {
		d = "not determined: " + short2(valString(v))
	} else if feasible(g.and(want.not())) || feasible(want.and(g.not())) {
		d = "holds for " + short2(g.String()) + ", must hold for exactly 1..18"
	}
	r.ob("known", "PduTag.IsKnown", d)
	r.analysed[kn.String()] = true

	// permitted flags
	na := E.prog.LookupMethod(tt, ax.Pkg, "NotAllowedFlags")
	r.analysed[na.String()] = true
	f := rootPath("f", na.Params[1].Type())
	fl := linAtom(symAtom(f))
	for t := int64(0); t <= 19; t++ {
		allowed := int64(0)
		if t < int64(len(allowedFlags)) {
			allowed = allowedFlags[t]
		}
		rep, v := E.evalOn(na, []Value{linC(t), materialise(f)}, True)
		wantL := linC(0)
		for b := 0; b < 8; b++ {
			if allowed>>b&1 == 0 {
				wantL = wantL.add(mkBits(fl, b, 1).scale(1 << b))
			}
		}
		d := ""
		if len(rep.panics) > 0 {
			d = "may panic: " + rep.panics[0].what
		} else if diff := equalVal(v, Value(wantL), True, "result"); diff != nil {
			d = fmt.Sprintf("must be the flags outside %#x: %s", allowed, diff)
		}
		r.ob("permitted flags", fmt.Sprintf("PduTag(%d).NotAllowedFlags", t), d)
	}
	// all unknown types at once
	rep, v2 := E.evalOn(na, []Value{materialise(x), materialise(f)}, want.not())
	d = ""
	if len(rep.panics) > 0 {
		d = "may panic: " + rep.panics[0].what
	} else if diff := equalVal(v2, Value(fl), want.not(), "result"); diff != nil {
		d = "must be all flags: " + diff.String()
	}
	r.ob("permitted flags", "NotAllowedFlags of unknown types", d)
	r.floor("rule number", 75)
	r.floor("rule name", 330)
	r.floor("rule permitted flags", 21)
}

var mibOids = func() map[string]string {
	m := map[string]string{
		"iso": "1", "org": "1.3", "dod": "1.3.6",
		"internet": "1.3.6.1", "directory": "1.3.6.1.1", "mgmt": "1.3.6.1.2", "experimental": "1.3.6.1.3", "private": "1.3.6.1.4",
		"security": "1.3.6.1.5", "snmpV2": "1.3.6.1.6", "mib2": "1.3.6.1.2.1", "mib-2": "1.3.6.1.2.1", "enterprises": "1.3.6.1.4.1",
		"sysORTable": "1.3.6.1.2.1.1.9", "sysOREntry": "1.3.6.1.2.1.1.9.1", "sysORIndex": "1.3.6.1.2.1.1.9.1.1", "sysORID": "1.3.6.1.2.1.1.9.1.2",
		"sysORDescr": "1.3.6.1.2.1.1.9.1.3", "sysORUpTime": "1.3.6.1.2.1.1.9.1.4",
		"ifNumber": "1.3.6.1.2.1.2.1", "ifTable": "1.3.6.1.2.1.2.2", "ifEntry": "1.3.6.1.2.1.2.2.1", "sysObjectID": "1.3.6.1.2.1.1.2",
		"snmpDomains": "1.3.6.1.6.1", "snmpProxys": "1.3.6.1.6.2", "snmpModules": "1.3.6.1.6.3",
	}
	for i, n := range strings.Fields("system interfaces at ip icmp tcp udp egp cmot transmission snmp") {
		m[n] = fmt.Sprint("1.3.6.1.2.1.", i+1)
	}
	for i, n := range strings.Fields("sysDescr sysOid sysUpTime sysContact sysName sysLocation sysServices sysORLastChange") {
		m[n] = fmt.Sprint("1.3.6.1.2.1.1.", i+1)
	}
	for i, n := range strings.Fields("ifIndex ifDescr ifType ifMtu ifSpeed ifPhysAddress ifAdminStatus ifOperStatus ifLastChange ifInOctets ifInUcastPkts ifInNUcastPkts ifInDiscards ifInErrors ifInUnknownProtos ifOutOctets ifOutUcastPkts ifOutNUcastPkts ifOutDiscards ifOutErrors ifOutQLen ifSpecific") {
		m[n] = fmt.Sprint("1.3.6.1.2.1.2.2.1.", i+1)
	}
	return m
}()

var nameNow = strings.Fields("internet directory mgmt experimental private security snmpV2 mib2 enterprises system sysDescr sysOid sysUpTime sysContact sysName sysLocation sysServices sysORLastChange sysORTable sysOREntry sysORIndex sysORID sysORDescr sysORUpTime interfaces ifNumber ifTable ifEntry ifIndex ifDescr ifType ifMtu ifSpeed ifPhysAddress ifAdminStatus")

func runC23(r *Rep) {
	E := r.engine()
	if E == nil {
		return
	}
	op := E.pkgs[modPath+"/oid"]
	g, _ := op.Members["Name"].(*ssa.Global)
	if g == nil {
		r.fail("name", "oid.Name", "the variable does not exist")
		return
	}
	v := E.mem0.get(E.global(g))
	if p, ok := v.(VMap); ok && p.obj != nil {
		v = E.mem0.get(p.obj)
	}
	m, ok := v.(VMapC)
	if !ok {
		r.fail("name", "oid.Name", "not a map known after initialisation: %s", short2(valString(v)))
		return
	}
	got := map[string]string{}
	for _, e := range m.e {
		k, ok := constText(e.k)
		if !ok {
			r.fail("name", "oid.Name", "a key is not constant")
			continue
		}
		fv := freeze(e.v, E.mem0, True)
		q, ok := asSeq(fv)
		if sl, isS := e.v.(VSlice); isS {
			q, ok = viewSeq(E.mem0, sl, True)
		}
		var parts []string
		if ok {
			for _, it := range q {
				x, isE := it.(IElem)
				l, isL := Value(nil), false
				if isE {
					l, isL = x.v, true
				}
				lin, isLin := l.(*Lin)
				if !isL || !isLin || !lin.isC() {
					ok = false
					break
				}
				parts = append(parts, fmt.Sprint(lin.c))
			}
		}
		if !ok {
			r.fail("name", fmt.Sprintf("oid.Name[%q]", k), "the OID is not constant: %s", short2(valString(fv)))
			continue
		}
		got[k] = strings.Join(parts, ".")
	}
	var ks []string
	for k := range got {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	back := map[string]string{}
	for _, k := range ks {
		d := ""
		if w, ok := mibOids[k]; ok && w != got[k] {
			d = fmt.Sprintf("maps to %s, the MIB registers %s", got[k], w)
		} else if o, dup := back[got[k]]; dup && d == "" && mibOids[o] != mibOids[k] {
			d = fmt.Sprintf("maps to %s like %q", got[k], o)
		}
		back[got[k]] = k
		r.ob("name", fmt.Sprintf("oid.Name[%q]", k), d)
	}
	for _, k := range nameNow {
		if _, ok := got[k]; !ok {
			r.fail("name", fmt.Sprintf("oid.Name[%q]", k), "the name is no longer defined")
		}
	}
	r.analysed[op.Func("init").String()] = true
	r.floor("rule name", 35)
}
