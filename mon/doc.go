package mon

// Reference JSON and XML documents: a tree of the published names and the
// values a section states, a writer which renders it like other producers
// might, and a comparer which reads a document of the library against it.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"slices"
	"sort"
	"strconv"
	"strings"
	"time"
)

const scteNS = "http://www.scte.org/schemas/35"

// timeVal is a UTC time in a document, in seconds since the GPS epoch.
type timeVal int64

// hexVal is bytes written as hexadecimal digits.
type hexVal []byte

// fld is a member (JSON) or attribute (XML; text content if x is "#text").
type fld struct {
	j, x string
	v    any  // uint64, bool, string, timeVal, hexVal
	must bool // never omitted by producers; always expected in the output
}

// rawVal is written as it is.
type rawVal struct{ j, x string }

// kid is a nested object, element or list of them.
type kid struct {
	j    string // JSON key
	list bool
	els  []*node
	raw  string // JSON written instead
}

// node is an object or element.
type node struct {
	x    string // XML element name
	flds []fld
	kids []kid
	raw  string // JSON written instead
}

func (n *node) num(j, x string, v uint64)     { n.flds = append(n.flds, fld{j, x, v, false}) }
func (n *node) mustNum(j, x string, v uint64) { n.flds = append(n.flds, fld{j, x, v, true}) }
func (n *node) flag(j, x string, v bool)      { n.flds = append(n.flds, fld{j, x, v, false}) }
func (n *node) str(j, x string, v string)     { n.flds = append(n.flds, fld{j, x, v, false}) }
func (n *node) any(j, x string, v any, must bool) {
	n.flds = append(n.flds, fld{j, x, v, must})
}
func (n *node) kid(j string, k *node) {
	if k != nil {
		n.kids = append(n.kids, kid{j: j, els: []*node{k}})
	}
}

func isDefault(v any) bool {
	switch x := v.(type) {
	case uint64:
		return x == 0
	case bool:
		return !x
	case string:
		return x == ""
	case hexVal:
		return len(x) == 0
	}
	return false
}

func brkNode(b *Brk) *node {
	if b == nil {
		return nil
	}
	n := &node{x: "BreakDuration"}
	n.flag("autoReturn", "autoReturn", b.Auto)
	n.num("duration", "duration", b.Dur)
	return n
}

func timeNode(p *uint64) *node {
	n := &node{x: "SpliceTime"}
	if p != nil {
		n.mustNum("ptsTime", "ptsTime", *p)
	}
	return n
}

// docOf is the document tree of a section.
func (s *Sec) docOf() *node {
	r := &node{x: "SpliceInfoSection"}
	r.num("protocolVersion", "protocolVersion", uint64(s.Proto))
	r.num("ptsAdjustment", "ptsAdjustment", s.PTSAdj)
	r.num("preRollMilliSeconds", "preRollMilliSeconds", uint64(s.PreRoll))
	r.num("tier", "tier", uint64(s.Tier))
	r.any("sapType", "sapType", uint64(s.SAP), s.SAP != 3)
	e := &node{x: "EncryptedPacket"}
	e.num("encryptionAlgorithm", "encryptionAlgorithm", uint64(s.Alg))
	e.num("cwIndex", "cwIndex", uint64(s.CW))
	r.kid("encryptedPacket", e)
	if s.HasCmd {
		r.kid("spliceCommand", s.Cmd.doc())
	}
	if len(s.Descs) > 0 {
		k := kid{j: "spliceDescriptors", list: true}
		for i := range s.Descs {
			k.els = append(k.els, s.Descs[i].doc())
		}
		r.kids = append(r.kids, k)
	}
	return r
}

func (c *Cmd) doc() *node {
	switch c.Kind {
	case cmdNull:
		n := &node{x: "SpliceNull"}
		n.mustNum("type", "", 0)
		return n
	case cmdBW:
		n := &node{x: "BandwidthReservation"}
		n.mustNum("type", "", 7)
		return n
	case cmdTime:
		n := &node{x: "TimeSignal"}
		n.mustNum("type", "", 6)
		n.kid("spliceTime", timeNode(c.PTS))
		return n
	case cmdPrivate:
		n := &node{x: "PrivateCommand"}
		n.mustNum("type", "", 255)
		n.num("identifier", "identifier", uint64(c.Ident))
		n.any("privateBytes", "#text", hexVal(c.Bytes), false)
		return n
	case cmdInsert:
		i := c.Ins
		n := &node{x: "SpliceInsert"}
		n.mustNum("type", "", 5)
		n.num("spliceEventId", "spliceEventId", uint64(i.ID))
		n.flag("spliceEventCancelIndicator", "spliceEventCancelIndicator", i.Cancel)
		n.flag("spliceImmediateFlag", "spliceImmediateFlag", i.Imm)
		n.flag("outOfNetworkIndicator", "outOfNetworkIndicator", i.Out)
		n.num("uniqueProgramId", "uniqueProgramId", uint64(i.UPID))
		n.num("availNum", "availNum", uint64(i.AvailNum))
		n.num("availsExpected", "availsExpected", uint64(i.AvailsExp))
		if i.Program {
			p := &node{x: "Program"}
			p.kid("spliceTime", timeNode(i.PTS))
			n.kid("program", p)
		}
		if len(i.Comps) > 0 {
			k := kid{j: "components", list: true}
			for _, c := range i.Comps {
				m := &node{x: "Component"}
				m.num("componentTag", "componentTag", uint64(c.Tag))
				if c.PTS != nil {
					m.kid("spliceTime", timeNode(c.PTS))
				}
				k.els = append(k.els, m)
			}
			n.kids = append(n.kids, k)
		}
		n.kid("breakDuration", brkNode(i.Brk))
		return n
	case cmdSchedule:
		n := &node{x: "SpliceSchedule"}
		n.mustNum("type", "", 4)
		k := kid{j: "events", list: true}
		for x := range c.Sch {
			e := &c.Sch[x]
			m := &node{x: "Event"}
			m.num("spliceEventId", "spliceEventId", uint64(e.ID))
			m.flag("spliceEventCancelIndicator", "spliceEventCancelIndicator", e.Cancel)
			m.flag("eventIdComplianceFlag", "eventIdComplianceFlag", e.Compliance)
			m.flag("outOfNetworkIndicator", "outOfNetworkIndicator", e.Out)
			m.num("uniqueProgramId", "uniqueProgramId", uint64(e.UPID))
			m.num("availNum", "availNum", uint64(e.AvailNum))
			m.num("availsExpected", "availsExpected", uint64(e.AvailsExp))
			if e.Program {
				p := &node{x: "Program"}
				p.any("utcSpliceTime", "utcSpliceTime", timeVal(e.UTC), true)
				m.kid("program", p)
			}
			if len(e.Comps) > 0 {
				kc := kid{j: "components", list: true}
				for _, c := range e.Comps {
					q := &node{x: "Component"}
					q.num("componentTag", "componentTag", uint64(c.Tag))
					q.any("utcSpliceTime", "utcSpliceTime", timeVal(c.UTC), true)
					kc.els = append(kc.els, q)
				}
				m.kids = append(m.kids, kc)
			}
			m.kid("breakDuration", brkNode(e.Brk))
			k.els = append(k.els, m)
		}
		if len(k.els) > 0 {
			n.kids = append(n.kids, k)
		}
		return n
	}
	panic("bad command kind")
}

func (d *Desc) doc() *node {
	n := &node{}
	switch d.Kind {
	case dAvail:
		n.x = "AvailDescriptor"
		n.mustNum("type", "", 0)
		n.num("providerAvailId", "providerAvailId", uint64(d.Avail))
	case dDTMF:
		n.x = "DTMFDescriptor"
		n.mustNum("type", "", 1)
		n.num("preroll", "preroll", uint64(d.Preroll))
		n.str("chars", "chars", d.Chars)
	case dTime:
		n.x = "TimeDescriptor"
		n.mustNum("type", "", 3)
		n.num("taiSeconds", "taiSeconds", d.TAISec)
		n.num("taiNs", "taiNs", uint64(d.TAINS))
		n.num("utcOffset", "utcOffset", uint64(d.UTCOff))
	case dAudio:
		n.x = "AudioDescriptor"
		n.mustNum("type", "", 4)
		k := kid{j: "audioChannels", list: true}
		for _, c := range d.Audio {
			m := &node{x: "AudioChannel"}
			m.num("componentTag", "componentTag", uint64(c.Tag))
			m.str("isoCode", "ISOCode", c.ISO)
			m.num("bitStreamMode", "BitStreamMode", uint64(c.BSM))
			m.num("numChannels", "NumChannels", uint64(c.Num))
			m.flag("fullSrvcAudio", "FullSrvcAudio", c.Full)
			k.els = append(k.els, m)
		}
		if len(k.els) > 0 {
			n.kids = append(n.kids, k)
		}
	case dPriv:
		n.x = "PrivateDescriptor"
		n.mustNum("type", "", uint64(d.Tag))
		n.any("tag", "tag", uint64(d.Tag), d.Tag != 0)
		n.any("identifier", "identifier", uint64(d.Ident), true)
		n.any("privateBytes", "#text", hexVal(d.Bytes), false)
	case dSeg:
		g := d.Seg
		n.x = "SegmentationDescriptor"
		n.mustNum("type", "", 2)
		n.num("segmentationEventId", "segmentationEventId", uint64(g.ID))
		n.flag("segmentationEventCancelIndicator", "segmentationEventCancelIndicator", g.Cancel)
		n.flag("segmentationEventIdComplianceIndicator", "segmentationEventIdComplianceIndicator", g.Compliance)
		if g.Dur != nil {
			n.mustNum("segmentationDuration", "segmentationDuration", *g.Dur)
		}
		n.num("segmentationTypeId", "segmentationTypeId", uint64(g.TypeID))
		n.num("segmentNum", "segmentNum", uint64(g.Num))
		n.num("segmentsExpected", "segmentsExpected", uint64(g.Exp))
		if g.SubNum != nil {
			n.mustNum("subSegmentNum", "subSegmentNum", uint64(*g.SubNum))
		}
		if g.SubExp != nil {
			n.mustNum("subSegmentsExpected", "subSegmentsExpected", uint64(*g.SubExp))
		}
		if r := g.Restr; r != nil {
			m := &node{x: "DeliveryRestrictions"}
			m.flag("archiveAllowedFlag", "archiveAllowedFlag", r.Archive)
			m.flag("webDeliveryAllowedFlag", "webDeliveryAllowedFlag", r.Web)
			m.flag("noRegionalBlackoutFlag", "noRegionalBlackoutFlag", r.Regional)
			m.num("deviceRestrictions", "deviceRestrictions", uint64(r.Device))
			n.kid("deliveryRestrictions", m)
		}
		if len(g.Comps) > 0 {
			k := kid{j: "components", list: true}
			for _, c := range g.Comps {
				m := &node{x: "Component"}
				m.num("componentTag", "componentTag", uint64(c.Tag))
				m.num("ptsOffset", "ptsOffset", c.Off)
				k.els = append(k.els, m)
			}
			n.kids = append(n.kids, k)
		}
		if len(g.UPIDs) > 0 {
			k := kid{j: "segmentationUpids", list: true}
			for _, u := range g.UPIDs {
				m := &node{x: "SegmentationUpid"}
				m.num("segmentationUpidType", "segmentationUpidType", uint64(u.Type))
				if u.notXML() { // XML states it in another format
					m.str("segmentationUpidFormat", "", u.Format)
					m.str("value", "", u.Val)
					m.str("", "segmentationUpidFormat", "hex")
					m.any("", "#text", hexVal(u.Raw), false)
					k.els = append(k.els, m)
					continue
				}
				m.str("segmentationUpidFormat", "segmentationUpidFormat", u.Format)
				if u.FI != nil {
					m.mustNum("formatIdentifier", "formatIdentifier", uint64(*u.FI))
				}
				m.str("value", "#text", u.Val)
				k.els = append(k.els, m)
			}
			n.kids = append(n.kids, k)
		}
	default:
		panic("bad descriptor kind")
	}
	return n
}

func timeString(t timeVal, zone *time.Location) string {
	return time.Unix(int64(t)+gpsEpoch, 0).In(zone).Format(time.RFC3339)
}

// ------------------------------------------------------------- JSON writer

// style is how a producer writes a document.
type style struct {
	g       *gen
	shuffle bool
	omit    float64 // chance to omit a default value
	ws      bool
	nulls   bool // absent optional members as null
	zone    *time.Location
	prefix  string // XML prefix
	chars   bool   // character references, CDATA
	comment bool
	foreign bool // members and attributes of others
}

func (g *gen) style() *style {
	st := &style{g: g, shuffle: g.coin(), ws: g.coin(), nulls: g.p(0.2), zone: time.UTC, chars: g.p(0.4), comment: g.p(0.3)}
	switch g.Intn(3) {
	case 0:
		st.omit = 1
	case 1:
		st.omit = 0.5
	}
	if g.p(0.4) {
		st.zone = time.FixedZone("", (g.Intn(27)-12)*1800)
	}
	if g.p(0.5) {
		st.prefix = []string{"scte35", "s", "ns2"}[g.Intn(3)]
	}
	return st
}

// what other producers add under names of their own
var (
	foreignNames = []string{"$schema", "comment", "vendor", "x-id", "_", "", "meta.data", "infoSection", "durationSeconds"}
	extensions   = []string{"<Ext/>", "<Ext></Ext>", `<Ext v:a="1" xmlns:v="urn:vendor">text<v:Tier tier="3"><!-- --></v:Tier></Ext>`, "<Ext><Ext> x </Ext></Ext>",
		`<Ext><SpliceNull xmlns="` + scteNS + `"/><TimeSignal xmlns="` + scteNS + `"/></Ext>`, `<Ext tier="9"><a xmlns="">&lt;<![CDATA[</Ext>]]></a></Ext>`,
		`<Ext><SegmentationDescriptor xmlns="` + scteNS + `" segmentationEventId="7"/><Nothing/></Ext>`}
	foreignValues = []string{`null`, `-1.5e300`, `"\u0000\"}"`, `{}`, `[]`, `{"type":5,"tier":[{"a":null},-1]}`, `true`, `[[[{"x":"]"}]]]`, `"https://example.com/"`}
)

func (st *style) sp() string {
	if !st.ws {
		return ""
	}
	return []string{"", " ", "\n\t", "\r\n  ", "   "}[st.g.Intn(5)]
}

func (st *style) jsonString(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			sb.WriteByte('\\')
			sb.WriteRune(r)
		case r < 0x20 || st.chars && st.g.Intn(4) == 0:
			fmt.Fprintf(&sb, "\\u%04x", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (st *style) scalar(v any) string {
	switch x := v.(type) {
	case uint64:
		return strconv.FormatUint(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return st.jsonString(x)
	case hexVal:
		return `"` + st.hex(x) + `"`
	case timeVal:
		return `"` + timeString(x, st.zone) + `"`
	case rawVal:
		return x.j
	}
	panic("bad value")
}

func (st *style) hex(b []byte) string {
	s := hex.EncodeToString(b)
	if st.g.Intn(3) == 0 {
		s = strings.ToUpper(s)
	}
	return s
}

func (n *node) allDefault() bool {
	for _, f := range n.flds {
		if f.must || !isDefault(f.v) {
			return false
		}
	}
	return len(n.kids) == 0 && n.raw == ""
}

// JSON writes the document as a producer of the given style would.
func (st *style) JSON(n *node) string {
	if n.raw != "" {
		return n.raw
	}
	var ms []string
	add := func(k, v string) { ms = append(ms, st.sp()+`"`+k+`"`+st.sp()+":"+st.sp()+v+st.sp()) }
	for _, f := range n.flds {
		if f.j == "" {
			continue
		}
		if !f.must && (isDefault(f.v) || f.j == "sapType") && st.g.p(st.omit) {
			continue
		}
		add(f.j, st.scalar(f.v))
	}
	for _, k := range n.kids {
		if k.raw != "" {
			add(k.j, k.raw)
			continue
		}
		if !k.list {
			if k.j == "encryptedPacket" && k.els[0].allDefault() && st.g.p(st.omit) {
				continue
			}
			add(k.j, st.JSON(k.els[0]))
			continue
		}
		var es []string
		for _, e := range k.els {
			es = append(es, st.sp()+st.JSON(e)+st.sp())
		}
		add(k.j, "["+strings.Join(es, ",")+"]")
	}
	if st.nulls {
		have := map[string]bool{}
		for _, k := range n.kids {
			have[k.j] = true
		}
		var opt []string
		switch n.x {
		case "SpliceInsert", "Event":
			opt = []string{"program", "components", "breakDuration"}
		case "SegmentationDescriptor":
			opt = []string{"deliveryRestrictions", "components", "segmentationUpids"}
			for _, f := range []string{"segmentationDuration", "subSegmentNum", "subSegmentsExpected"} {
				found := false
				for _, g := range n.flds {
					found = found || g.j == f
				}
				if !found {
					opt = append(opt, f)
				}
			}
		case "SpliceInfoSection":
			opt = []string{"spliceDescriptors", "spliceCommand"}
		}
		for _, o := range opt {
			if !have[o] && st.g.coin() {
				add(o, "null")
			}
		}
	}
	if st.foreign && st.g.Intn(3) == 0 {
		k := foreignNames[st.g.Intn(len(foreignNames))]
		add(k, foreignValues[st.g.Intn(len(foreignValues))])
	}
	if st.shuffle {
		st.g.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	}
	return "{" + strings.Join(ms, ",") + st.sp() + "}"
}

// -------------------------------------------------------------- XML writer

func (st *style) xmlText(s string, attr bool) string {
	if !attr && st.chars && st.g.Intn(3) == 0 && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") && s != "" {
		return "<![CDATA[" + s + "]]>"
	}
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r == '<':
			sb.WriteString("&lt;")
		case r == '&':
			sb.WriteString("&amp;")
		case r == '"':
			sb.WriteString("&quot;")
		case r == '\'':
			sb.WriteString("&apos;")
		case r == '>' || r == '\t' || r == '\n' || r == '\r' || st.chars && st.g.Intn(4) == 0:
			if st.g.coin() {
				fmt.Fprintf(&sb, "&#%d;", r)
			} else {
				fmt.Fprintf(&sb, "&#x%X;", r)
			}
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (st *style) xmlScalar(v any, attr bool) string {
	switch x := v.(type) {
	case uint64:
		return strconv.FormatUint(x, 10)
	case bool:
		if st.g.Intn(3) == 0 {
			if x {
				return "1"
			}
			return "0"
		}
		return strconv.FormatBool(x)
	case string:
		return st.xmlText(x, attr)
	case hexVal:
		return st.hex(x)
	case timeVal:
		return timeString(x, st.zone)
	case rawVal:
		return x.x
	}
	panic("bad value")
}

func (st *style) xsp() string {
	if !st.ws {
		return ""
	}
	s := []string{"", " ", "\n\t", "\r\n  ", "   "}[st.g.Intn(5)]
	if st.comment && st.g.Intn(3) == 0 {
		s += "<!-- a <comment> -->"
	}
	return s
}

// XML writes the document as a producer of the given style would.
func (st *style) XML(n *node) string {
	s := ""
	if st.g.coin() {
		s = `<?xml version="1.0" encoding="UTF-8"?>` + "\n"
	}
	return s + st.xml(n, true)
}

func (st *style) xml(n *node, root bool) string {
	name := n.x
	if st.prefix != "" {
		name = st.prefix + ":" + name
	}
	var attrs []string
	text := ""
	hasText := false
	for _, f := range n.flds {
		switch f.x {
		case "":
			continue
		case "#text":
			hasText = true
			text = st.xmlScalar(f.v, false)
			if n.x == "SegmentationUpid" && st.ws && st.g.Intn(2) == 0 {
				// the text on a line of its own
				text = st.sp() + text + st.sp()
			}
			continue
		}
		if !f.must && (isDefault(f.v) || f.j == "sapType") && st.g.p(st.omit) {
			continue
		}
		q := `"`
		if st.g.Intn(3) == 0 {
			q = "'"
		}
		attrs = append(attrs, f.x+"="+q+st.xmlScalar(f.v, true)+q)
	}
	if root {
		if st.prefix != "" {
			attrs = append(attrs, `xmlns:`+st.prefix+`="`+scteNS+`"`)
		} else {
			attrs = append(attrs, `xmlns="`+scteNS+`"`)
		}
	}
	if st.foreign && root {
		attrs = append(attrs, `xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"`, `xsi:schemaLocation="`+scteNS+` scte_35.xsd"`)
	}
	if st.foreign && st.g.Intn(3) == 0 {
		attrs = append(attrs, []string{`xmlns:v="urn:vendor" v:note="1"`, `xml:lang="en"`, `comment="&lt;&#38;"`, `xmlns:v="urn:vendor" v:id=""`}[st.g.Intn(4)])
	}
	if st.shuffle {
		st.g.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	var kids []string
	lists := map[string][]string{}
	var order []string
	for _, k := range n.kids {
		if k.j == "encryptedPacket" && k.els[0].allDefault() && st.g.p(st.omit) {
			continue
		}
		for _, e := range k.els {
			if _, ok := lists[k.j]; !ok {
				order = append(order, k.j)
			}
			lists[k.j] = append(lists[k.j], st.xml(e, false))
		}
	}
	// elements of one list keep their order, everything else may mix
	if st.shuffle {
		st.g.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
		for len(order) > 0 {
			i := st.g.Intn(len(order))
			l := order[i]
			kids = append(kids, lists[l][0])
			lists[l] = lists[l][1:]
			if len(lists[l]) == 0 {
				order = append(order[:i], order[i+1:]...)
			}
		}
	} else {
		for _, l := range order {
			kids = append(kids, lists[l]...)
		}
	}
	if st.foreign && !hasText && st.g.Intn(3) == 0 {
		// the schema's place for extensions
		ext := "Ext"
		if st.prefix != "" {
			ext = st.prefix + ":Ext"
		}
		kids = append([]string{strings.ReplaceAll(extensions[st.g.Intn(len(extensions))], "Ext", ext)}, kids...)
	}
	head := "<" + name
	for _, a := range attrs {
		head += []string{" ", "\n  ", "  "}[st.g.Intn(3)] + a
	}
	if hasText {
		return head + ">" + text + "</" + name + ">"
	}
	if len(kids) == 0 && st.g.coin() {
		return head + []string{"/>", " />"}[st.g.Intn(2)]
	}
	var sb strings.Builder
	sb.WriteString(head + ">")
	for _, k := range kids {
		sb.WriteString(st.xsp())
		sb.WriteString(k)
	}
	sb.WriteString(st.xsp())
	sb.WriteString("</" + name + ">")
	return sb.String()
}

// ----------------------------------------------------------- JSON comparer

// jval is a JSON value which keeps duplicate keys.
type jval struct {
	kind byte // o a s n b 0
	keys []string
	vals []*jval
	s    string
}

func parseJSON(b []byte) (*jval, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("invalid JSON")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	v, err := readJSON(d)
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("data after the document")
	}
	return v, nil
}

func readJSON(d *json.Decoder) (*jval, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		v := &jval{kind: 'a'}
		if x == '{' {
			v.kind = 'o'
		}
		for d.More() {
			if v.kind == 'o' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v.keys = append(v.keys, k.(string))
			}
			e, err := readJSON(d)
			if err != nil {
				return nil, err
			}
			v.vals = append(v.vals, e)
		}
		_, err := d.Token()
		return v, err
	case string:
		return &jval{kind: 's', s: x}, nil
	case json.Number:
		return &jval{kind: 'n', s: x.String()}, nil
	case bool:
		return &jval{kind: 'b', s: strconv.FormatBool(x)}, nil
	case nil:
		return &jval{kind: '0'}, nil
	}
	return nil, fmt.Errorf("unexpected token")
}

// sameScalar compares a document value with the expected one.
func sameScalar(kind byte, s string, v any) bool {
	switch x := v.(type) {
	case uint64:
		return kind == 'n' && s == strconv.FormatUint(x, 10)
	case bool:
		return kind == 'b' && s == strconv.FormatBool(x)
	case string:
		return kind == 's' && s == x
	case hexVal:
		return kind == 's' && strings.EqualFold(s, hex.EncodeToString(x))
	case timeVal:
		if kind != 's' {
			return false
		}
		t, err := time.Parse(time.RFC3339, s)
		return err == nil && t.Unix() == int64(x)+gpsEpoch && t.Nanosecond() == 0
	}
	return false
}

// matchJSON compares the library's document with the expected tree; the result
// is "" if it agrees.
func (n *node) matchJSON(v *jval, path string) (sig, detail string) {
	if v.kind != 'o' {
		return path, path + " is not an object"
	}
	got := map[string]*jval{}
	for i, k := range v.keys {
		if got[k] != nil {
			return path + "." + k, "duplicate key " + path + "." + k
		}
		got[k] = v.vals[i]
	}
	for _, f := range n.flds {
		if f.j == "" {
			continue
		}
		g := got[f.j]
		p := path + "." + f.j
		delete(got, f.j)
		if g == nil {
			if f.must || !isDefault(f.v) || n.stated(f.j) {
				return p, fmt.Sprintf("%s is missing, should be %v", p, f.v)
			}
			continue
		}
		if g.kind == '0' && isDefault(f.v) && !f.must && !n.stated(f.j) {
			continue
		}
		if !sameScalar(g.kind, g.s, f.v) {
			return p, fmt.Sprintf("%s is %q, should be %v", p, g.s, f.v)
		}
	}
	for _, k := range n.kids {
		g := got[k.j]
		p := path + "." + k.j
		delete(got, k.j)
		if g == nil || g.kind == '0' {
			if !k.list && k.els[0].allDefault() && (k.j == "encryptedPacket" || k.j == "spliceTime") {
				continue
			}
			return p, p + " is missing"
		}
		if !k.list {
			if s, d := k.els[0].matchJSON(g, p); s != "" {
				return s, d
			}
			continue
		}
		if g.kind != 'a' || len(g.vals) != len(k.els) {
			return p, fmt.Sprintf("%s has %d members, should have %d", p, len(g.vals), len(k.els))
		}
		for i, e := range k.els {
			if s, d := e.matchJSON(g.vals[i], ix(p, i)); s != "" {
				return s, d
			}
		}
	}
	var left []string
	for k := range got {
		left = append(left, k)
	}
	sort.Strings(left)
	for _, k := range left {
		g := got[k]
		// members which are absent may be spelled out as null or empty lists
		if g.kind == '0' || g.kind == 'a' && len(g.vals) == 0 {
			if knownKeys[k] {
				continue
			}
		}
		return path + "." + k, fmt.Sprintf("unexpected member %s.%s", path, k)
	}
	return "", ""
}

// statedKeys has the members of JSON documents which are written whatever their
// value.
var statedKeys = map[string]string{
	"SpliceInfoSection": "sapType tier", "EncryptedPacket": "encryptionAlgorithm cwIndex",
	"SpliceInsert":  "spliceEventCancelIndicator spliceImmediateFlag outOfNetworkIndicator",
	"BreakDuration": "autoReturn duration", "Event": "spliceEventId spliceEventCancelIndicator",
	"PrivateCommand": "identifier privateBytes", "PrivateDescriptor": "tag identifier privateBytes",
	"AvailDescriptor": "providerAvailId", "DTMFDescriptor": "preroll chars", "TimeDescriptor": "taiSeconds taiNs utcOffset",
	"DeliveryRestrictions": "archiveAllowedFlag webDeliveryAllowedFlag noRegionalBlackoutFlag deviceRestrictions",
	"SegmentationUpid":     "segmentationUpidType value", "AudioChannel": "componentTag isoCode bitStreamMode numChannels fullSrvcAudio",
}

func (n *node) stated(key string) bool {
	if n.x == "Component" { // those of a splice_insert state what is not zero
		for _, f := range n.flds {
			if f.j == "utcSpliceTime" || f.j == "ptsOffset" {
				return key == "componentTag" || key == f.j
			}
		}
	}
	return n.x == "Program" && key == "utcSpliceTime" || slices.Contains(strings.Fields(statedKeys[n.x]), key)
}

var knownKeys = map[string]bool{"program": true, "components": true, "breakDuration": true, "events": true,
	"audioChannels": true, "segmentationUpids": true, "deliveryRestrictions": true, "segmentationDuration": true,
	"subSegmentNum": true, "subSegmentsExpected": true, "spliceDescriptors": true, "spliceCommand": true,
	"spliceTime": true, "ptsTime": true, "formatIdentifier": true}

// ------------------------------------------------------------ XML comparer

type xel struct {
	name  xml.Name
	attrs []xml.Attr
	kids  []*xel
	text  string
}

func parseXML(b []byte) (*xel, error) {
	d := xml.NewDecoder(bytes.NewReader(b))
	var stack []*xel
	var root *xel
	for {
		t, err := d.Token()
		if err == io.EOF {
			if root == nil || len(stack) > 0 {
				return nil, fmt.Errorf("incomplete XML")
			}
			return root, nil
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			e := &xel{name: x.Name}
			for _, a := range x.Attr {
				if a.Name.Local == "xmlns" || a.Name.Space == "xmlns" {
					continue
				}
				e.attrs = append(e.attrs, a)
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, e)
			} else if root != nil {
				return nil, fmt.Errorf("two roots")
			} else {
				root = e
			}
			stack = append(stack, e)
		case xml.EndElement:
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			}
		}
	}
}

// kindOf turns an attribute's text into the kind a value expects.
func kindOf(v any) byte {
	switch v.(type) {
	case uint64:
		return 'n'
	case bool:
		return 'b'
	}
	return 's'
}

// requiredAttr has the attributes which docs/scte_35_20230713.xsd requires:
// they are written whatever their value.
var requiredAttr = map[string]bool{
	"EncryptedPacket@encryptionAlgorithm": true, "EncryptedPacket@cwIndex": true,
	"Program@utcSpliceTime": true, "Component@componentTag": true,
	"Component@utcSpliceTime": true, "Component@ptsOffset": true,
	"PrivateCommand@identifier": true, "BreakDuration@autoReturn": true,
	"BreakDuration@duration": true, "AvailDescriptor@providerAvailId": true,
	"DeliveryRestrictions@archiveAllowedFlag":     true,
	"DeliveryRestrictions@webDeliveryAllowedFlag": true,
	"DeliveryRestrictions@noRegionalBlackoutFlag": true,
	"DeliveryRestrictions@deviceRestrictions":     true,
	"AudioChannel@ISOCode":                        true, "AudioChannel@BitStreamMode": true,
	"AudioChannel@NumChannels": true, "AudioChannel@FullSrvcAudio": true,
	"PrivateDescriptor@tag": true, "PrivateDescriptor@identifier": true,
}

// elementRank is the place of an element in the schema's sequences.
func elementRank(name string) int {
	switch name {
	case "EncryptedPacket", "Program", "DeliveryRestrictions":
		return 0
	case "SegmentationUpid":
		return 1
	case "Component":
		return 2
	case "BreakDuration":
		return 3
	}
	if strings.HasSuffix(name, "Descriptor") {
		return 5
	}
	return 4 // commands; SpliceTime, Event and AudioChannel are alone
}

func (n *node) matchXML(e *xel, path string) (sig, detail string) {
	path += "/" + n.x
	if e.name.Local != n.x || e.name.Space != scteNS {
		return path, fmt.Sprintf("element is {%s}%s, should be %s", e.name.Space, e.name.Local, path)
	}
	got := map[string]string{}
	for _, a := range e.attrs {
		if a.Name.Space != "" {
			return path, "attribute in a namespace: " + a.Name.Local
		}
		if _, dup := got[a.Name.Local]; dup {
			return path + "@" + a.Name.Local, "duplicate attribute"
		}
		got[a.Name.Local] = a.Value
	}
	text := ""
	isText := false
	for _, f := range n.flds {
		if f.x == "" {
			continue
		}
		p := path + "@" + f.x
		if f.x == "#text" {
			isText = true
			switch x := f.v.(type) {
			case string:
				text = x
				if strings.TrimSpace(e.text) != strings.TrimSpace(x) {
					return p, fmt.Sprintf("text of %s is %q, should be %q", path, e.text, x)
				}
			case hexVal:
				if !strings.EqualFold(e.text, hex.EncodeToString(x)) {
					return p, fmt.Sprintf("text of %s is %q, should be %x", path, e.text, []byte(x))
				}
			}
			continue
		}
		g, ok := got[f.x]
		delete(got, f.x)
		if !ok {
			if f.must || !isDefault(f.v) || requiredAttr[n.x+"@"+f.x] {
				return p, fmt.Sprintf("%s is missing, should be %v", p, f.v)
			}
			continue
		}
		if !sameScalar(kindOf(f.v), g, f.v) {
			return p, fmt.Sprintf("%s is %q, should be %v", p, g, f.v)
		}
	}
	_ = text
	for k := range got {
		return path + "@" + k, fmt.Sprintf("unexpected attribute %s@%s=%q", path, k, got[k])
	}
	if !isText && strings.TrimSpace(e.text) != "" {
		return path, fmt.Sprintf("unexpected text in %s: %q", path, e.text)
	}
	// children: as the schema's sequence has them, the elements of each list in
	// order, and nothing else
	for i := 1; i < len(e.kids); i++ {
		if a, b := e.kids[i-1].name.Local, e.kids[i].name.Local; elementRank(a) > elementRank(b) {
			return path + "/" + a, fmt.Sprintf("%s is before %s in %s", a, b, path)
		}
	}
	rest := e.kids
	take := func(want *node) *xel {
		for i, k := range rest {
			if k.name.Local == want.x {
				r := append([]*xel{}, rest[:i]...)
				rest = append(r, rest[i+1:]...)
				return k
			}
		}
		return nil
	}
	for _, k := range n.kids {
		if k.j == "spliceDescriptors" {
			var ds []*xel
			var others []*xel
			for _, r := range rest {
				if strings.HasSuffix(r.name.Local, "Descriptor") {
					ds = append(ds, r)
				} else {
					others = append(others, r)
				}
			}
			rest = others
			if len(ds) != len(k.els) {
				return path + "/descriptors", fmt.Sprintf("%d descriptors, should be %d", len(ds), len(k.els))
			}
			for i, d := range k.els {
				if s, de := d.matchXML(ds[i], path); s != "" {
					return s, de
				}
			}
			continue
		}
		for _, w := range k.els {
			g := take(w)
			if g == nil {
				if w.allDefault() && (w.x == "EncryptedPacket" || w.x == "SpliceTime") {
					continue
				}
				return path + "/" + w.x, path + "/" + w.x + " is missing"
			}
			if s, d := w.matchXML(g, path); s != "" {
				return s, d
			}
		}
	}
	if len(rest) > 0 {
		return path + "/" + rest[0].name.Local, "unexpected element " + path + "/" + rest[0].name.Local
	}
	return "", ""
}
