package main

import (
	"fmt"
	"strings"
)

// The codec checks: the meaning of each function, computed by abstract
// interpretation, against the reference meaning of the wire format.

const how = "abstract interpretation of the SSA form on all inputs at once (gated values, symbolic bytes, summarised loops, polyhedral path conditions; states are joined, no path is enumerated and no input executed), one cell per PDU type, byte order and context flag"

func init() {
	register("C01", "Meaning of EncodePdu by "+how+": where encoding succeeds, the returned byte sequence is compared, as a normal form, with that of the reference encoder written from RFC 2741 section 5 and 6, evaluated the same way.", func(r *Rep) {
		for _, x := range r.cells([]string{"enc"}, parts()) {
			r.ob("encoded bytes", x.name("EncodePdu"), x.Cmp.Value)
		}
	})
	register("C02", "Meaning of EncodePdu by "+how+": bytes 16..19 of the result, read in the byte order of the flags, against the number of bytes after the header, and that number modulo 4; also for EncodePduDbg.", func(r *Rep) {
		for _, x := range r.cells([]string{"len", "lendbg"}, parts()) {
			r.bads("length field", x, "EncodePdu", func(string) bool { return true })
		}
	})
	register("C03", "Meaning of DecodePduHeader by abstract interpretation of the SSA form on all inputs at once: the acceptance condition and every field of the accepted PDU are compared, as normal forms, with those of the reference header decoder written from RFC 2741 section 6.1, evaluated the same way.", func(r *Rep) {
		for _, x := range r.cells([]string{"hdr"}, nil) {
			r.ob("accepts only well-formed", "agentx.DecodePduHeader", x.Cmp.Accept)
			r.ob("accepts all well-formed", "agentx.DecodePduHeader", x.Cmp.Refuse)
			r.ob("header fields", "agentx.DecodePduHeader", x.Cmp.Value)
		}
	})
	register("C04", "Meaning of DecodePduPayload (on a PDU with any header that header decoding can produce) by "+how+": acceptance condition and resulting PDU against those of the reference payload decoder written from RFC 2741 section 5 and 6.2, evaluated the same way.", func(r *Rep) {
		for _, x := range r.cells([]string{"pay"}, knownParts()) {
			r.ob("accepts only well-formed", x.name("DecodePduPayload"), x.Cmp.Accept)
			r.ob("accepts all well-formed", x.name("DecodePduPayload"), x.Cmp.Refuse)
			r.ob("decoded values", x.name("DecodePduPayload"), x.Cmp.Value)
		}
	})
	register("C05", "Meaning of EncodePdu, DecodePduHeader and DecodePduPayload by "+how+", each against its reference; the references are inverse to each other by the lemma in DESIGN.md.", func(r *Rep) {
		for _, x := range r.cells([]string{"hdr", "enc", "pay"}, parts()) {
			if x.What == "pay" && x.Part.Tag == 0 {
				continue
			}
			r.ob("inverse: "+x.What, x.name("codec"), strings.TrimSuffix(Cmp{Accept: x.Cmp.Accept, Refuse: x.Cmp.Refuse, Value: x.Cmp.Value}.String(), "; "))
		}
	})
	register("C06", "Meaning of EncodePduDbg against the meaning of EncodePdu, by "+how+": success condition and returned bytes.", func(r *Rep) {
		for _, x := range r.cells([]string{"encdiff"}, parts()) {
			r.diff(x, "EncodePduDbg")
		}
	})
	register("C07", "Meaning of DecodePduHeaderDbg and DecodePduPayloadDbg against the meaning of their plain variants, by "+how+": success condition and resulting PDU.", func(r *Rep) {
		for _, x := range r.cells([]string{"hdrdiff", "paydiff"}, knownParts()) {
			r.diff(x, "DecodePduHeaderDbg/DecodePduPayloadDbg")
		}
	})
	register("C08", "Panics of the six entry points by "+how+": every run-time check and explicit panic is a guarded panic edge; none may leave an entry point, and after a recovered panic the success result must be false.", func(r *Rep) {
		for _, x := range r.cells([]string{"safe:enc", "safe:encdbg", "safe:hdr", "safe:hdrdbg", "safe:pay", "safe:paydbg"}, parts()) {
			r.bads("panics", x, x.What[5:], func(k string) bool { return k == "panic escapes" || k == "success after panic" })
		}
		r.floor("recovering calls", 6)
	})
	register("C09", "Success condition of EncodePdu by "+how+", against the acceptance condition of the reference encoder, in both directions.", func(r *Rep) {
		for _, x := range r.cells([]string{"enc"}, parts()) {
			r.ob("refuses what cannot be expressed", x.name("EncodePdu"), x.Cmp.Accept)
			r.ob("accepts what can be expressed", x.name("EncodePdu"), x.Cmp.Refuse)
		}
	})
	register("C10", "Work of the four decoding functions by "+how+": the size of every allocation and the number of iterations of every counted loop is bounded by 64 times the data length plus 4096 under its path condition, and every loop driven by a cursor advances the cursor in each iteration.", func(r *Rep) {
		for _, x := range r.cells([]string{"safe:hdr", "safe:hdrdbg", "safe:pay", "safe:paydbg"}, parts()) {
			r.bads("work", x, x.What[5:], func(k string) bool { return k == "work" || k == "no-progress" })
		}
	})
	register("C11", "Storage of the results and writes to the inputs of the six entry points by "+how+": every slice in an encoded or decoded result is traced to the allocation it comes from, which may not be an input; every store, copy and append whose target is reachable from an input is reported. Sharing that shows up inside a loop is confirmed on its first iteration.", func(r *Rep) {
		for _, x := range r.cells([]string{"own:enc", "own:encdbg", "own:hdr", "own:hdrdbg", "own:pay", "own:paydbg"}, parts()) {
			r.bads("storage", x, x.What[4:], func(k string) bool { return k == "alias" || k == "input-write" || k == "append-input" })
		}
	})
}

func (x PartRes) name(f string) string {
	if strings.Contains(x.What, "hdr") {
		return "agentx.DecodePduHeader"
	}
	return fmt.Sprintf("agentx.%s, %s", f, x.Part)
}

func (r *Rep) diff(x PartRes, f string) {
	r.ob("debug variant refuses what plain refuses", x.name(f), strings.ReplaceAll(x.Cmp.Accept, "must", "plain variant does:"))
	r.ob("debug variant accepts what plain accepts", x.name(f), strings.ReplaceAll(x.Cmp.Refuse, "must", "plain variant does:"))
	r.ob("debug variant gives the same result", x.name(f), x.Cmp.Value)
}

// bads books the broken obligations of the kinds asked for.
func (r *Rep) bads(rule string, x PartRes, f string, want func(string) bool) {
	n := 0
	for _, v := range x.Bad {
		if want(v.Rule) {
			n++
			r.ob(v.Rule, x.name(f)+": "+v.Construct, v.Detail)
		}
	}
	if n == 0 {
		r.ob(rule, x.name(f), "")
	}
}

func knownParts() []Part {
	var r []Part
	for _, p := range parts() {
		if p.Tag != 0 {
			r = append(r, p)
		}
	}
	return r
}
