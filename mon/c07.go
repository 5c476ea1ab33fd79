package mon

// C07 to C09: the JSON and XML formats.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// docSec is a section for documents: no stuffing, with a pre-roll.
func (c *ctx) docSec(i int) *Sec {
	var s *Sec
	if i%4 == 0 {
		s = forms[i/4%len(forms)](c.gen)
	} else {
		s = c.sec()
	}
	s.canon()
	if c.coin() {
		s.PreRoll = c.n32(32)
	}
	s.features(c)
	return s
}

var zones = []*time.Location{time.UTC, time.FixedZone("", 5*3600+1800), time.FixedZone("PST", -8*3600), time.FixedZone("", -12*3600)}

// rezone shows the same instants in another zone.
func (c *ctx) rezone(x *SIS) {
	sc, ok := x.SpliceCommand.(*scte35.SpliceSchedule)
	if !ok || c.coin() {
		return
	}
	z := zones[c.Intn(len(zones))]
	for i := range sc.Events {
		e := &sc.Events[i]
		if e.Program != nil {
			e.Program.UTCSpliceTime.Time = e.Program.UTCSpliceTime.Time.In(z)
		}
		for k := range e.Components {
			e.Components[k].UTCSpliceTime.Time = e.Components[k].UTCSpliceTime.Time.In(z)
		}
	}
}

func (c *ctx) c07(s *Sec) {
	x := s.ToLib()
	c.rezone(x)
	c.setInput("%s", s.Dump())
	var j, j2 []byte
	var err error
	if !c.op("json.Marshal", func() { j, err = json.Marshal(x) }) {
		return
	}
	if err != nil {
		c.fail("marshal fails", "%v", err)
		return
	}
	c.distinct(j)
	if c.op("json.Marshal", func() { j2, err = json.Marshal(x) }) && (err != nil || !bytes.Equal(j, j2)) {
		c.fail("not deterministic", "%s then %s (%v)", j, j2, err)
	}
	doc := j
	switch c.Intn(5) {
	case 0:
		if c.op("json.MarshalIndent", func() { doc, err = json.MarshalIndent(x, " ", "\t") }); err != nil {
			c.fail("marshal indent fails", "%v", err)
			return
		}
	case 1:
		var buf bytes.Buffer
		e := json.NewEncoder(&buf)
		e.SetEscapeHTML(false)
		if c.op("json.Encoder", func() { err = e.Encode(x) }); err != nil {
			c.fail("json encoder fails", "%v", err)
			return
		}
		doc = buf.Bytes()
	}
	y := &SIS{}
	un := func() { err = json.Unmarshal(doc, y) }
	switch c.Intn(4) {
	case 0:
		un = func() { err = json.NewDecoder(bytes.NewReader(doc)).Decode(y) }
	case 1:
		un = func() {
			var l []*SIS
			err = json.Unmarshal([]byte("["+string(doc)+"]"), &l)
			if err == nil && len(l) == 1 {
				y = l[0]
			}
		}
	}
	if !c.op("json.Unmarshal", un) {
		return
	}
	if err != nil {
		c.fail("unmarshal fails", "%v: %s", err, doc)
		return
	}
	if sig, d := diff(s.Dump(), FromLib(y).Dump()); sig != "" {
		c.fail("lost "+sig, "%s; document %s", d, doc)
		return
	}
	b, err, ok := c.encode(y)
	if !ok {
		return
	}
	if err != nil {
		c.fail("encode of the result fails", "%v: %s", err, doc)
	} else if want := s.Bits(nil); !sameEnc(want, b, s.EncFlag) {
		c.fail("encoding differs in "+diffPart(s, want, b), "%s; document %s", byteDiff(want, b), doc)
	}
	if c.op("json.Marshal", func() { j2, err = json.Marshal(y) }) && (err != nil || !sameJSON(j, j2)) {
		c.fail("document changes", "%s then %s (%v)", j, j2, err)
	}
	if c.Intn(600) == 0 {
		c.sampleCase(string(j))
	}
}

// sameJSON: the same document; times may show another zone.
func sameJSON(a, b []byte) bool {
	if bytes.Equal(a, b) {
		return true
	}
	x, err := parseJSON(a)
	y, err2 := parseJSON(b)
	return err == nil && err2 == nil && x.same(y)
}

func (v *jval) same(w *jval) bool {
	if v.kind != w.kind || len(v.vals) != len(w.vals) || len(v.keys) != len(w.keys) {
		return false
	}
	if v.s != w.s {
		t, e1 := time.Parse(time.RFC3339, v.s)
		u, e2 := time.Parse(time.RFC3339, w.s)
		if v.kind != 's' || e1 != nil || e2 != nil || !t.Equal(u) {
			return false
		}
	}
	for i := range v.keys {
		if v.keys[i] != w.keys[i] {
			return false
		}
	}
	for i := range v.vals {
		if !v.vals[i].same(w.vals[i]) {
			return false
		}
	}
	return true
}

// trimText allows for white space lost around UPID text: the model is changed
// to what was read if that is all that differs.
func (s *Sec) trimText(got *Sec) {
	for i := range s.Descs {
		if s.Descs[i].Kind != dSeg || i >= len(got.Descs) || got.Descs[i].Kind != dSeg {
			continue
		}
		a, b := s.Descs[i].Seg, got.Descs[i].Seg
		for k := range a.UPIDs {
			if k >= len(b.UPIDs) {
				continue
			}
			w, g := a.UPIDs[k].Val, b.UPIDs[k].Val
			if w != g && (g == strings.TrimSpace(w) || g == strings.Trim(w, " \t\r\n")) {
				u := &a.UPIDs[k]
				u.Val = g
				switch u.Type {
				case 5, 6, 8, 0x0a, 0x0c:
				default:
					u.Raw = nil
					for _, r := range g {
						u.Raw = append(u.Raw, byte(r))
					}
				}
			}
		}
	}
}

func (c *ctx) c08(s *Sec) {
	if s.notXML() {
		c.see("upid text XML lacks characters for")
	}
	x := s.ToLib()
	c.rezone(x)
	c.setInput("%s", s.Dump())
	var j, j2 []byte
	var err error
	indent := c.coin()
	mar := func(v any) ([]byte, error) {
		if indent {
			return xml.MarshalIndent(v, "", "\t")
		}
		return xml.Marshal(v)
	}
	if !c.op("xml.Marshal", func() { j, err = mar(x) }) {
		return
	}
	if err != nil {
		c.fail("marshal fails", "%v", err)
		return
	}
	c.distinct(j)
	if c.op("xml.Marshal", func() { j2, err = mar(x) }) && (err != nil || !bytes.Equal(j, j2)) {
		c.fail("not deterministic", "%s then %s (%v)", j, j2, err)
	}
	y := &SIS{}
	un := func() { err = xml.Unmarshal(j, y) }
	switch c.Intn(4) {
	case 0:
		un = func() { err = xml.NewDecoder(bytes.NewReader(j)).Decode(y) }
	case 1:
		un = func() {
			var z *SIS
			if err = xml.Unmarshal(j, &z); err == nil {
				y = z
			}
		}
	}
	if !c.op("xml.Unmarshal", un) {
		return
	}
	if err != nil {
		c.fail("unmarshal fails", "%v: %s", err, j)
		return
	}
	got := FromLib(y)
	want := s.clone()
	want.trimText(got)
	if sig, d := diff(want.Dump(), got.Dump()); sig != "" {
		c.fail("lost "+sig, "%s; document %s", d, j)
		return
	}
	if !want.emptied() {
		b, err, ok := c.encode(y)
		if !ok {
			return
		}
		if err != nil {
			c.fail("encode of the result fails", "%v: %s", err, j)
		} else if w := want.Bits(nil); !sameEnc(w, b, s.EncFlag) {
			c.fail("encoding differs in "+diffPart(want, w, b), "%s; document %s", byteDiff(w, b), j)
		}
	}
	if c.op("xml.Marshal", func() { j2, err = mar(y) }) {
		if err != nil {
			c.fail("document cannot be marshalled again", "%v", err)
		} else if same := bytes.Equal(j, j2); !same && want.Dump() == s.Dump() {
			// times may show another zone
			e1, x1 := parseXML(j)
			e2, x2 := parseXML(j2)
			if x1 != nil || x2 != nil || !e1.same(e2) {
				c.fail("document changes", "%s then %s", j, j2)
			}
		}
	}
	if c.Intn(600) == 0 {
		c.sampleCase(string(j))
	}
}

// emptied: a lone UPID without text, which the wire cannot tell from none.
func (s *Sec) emptied() bool {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil && len(g.UPIDs) == 1 && len(g.UPIDs[0].Raw) == 0 {
			return true
		}
	}
	return false
}

func (e *xel) same(f *xel) bool {
	if e.name != f.name || len(e.attrs) != len(f.attrs) || len(e.kids) != len(f.kids) || e.text != f.text {
		return false
	}
	for i := range e.attrs {
		a, b := e.attrs[i], f.attrs[i]
		if a == b {
			continue
		}
		t, e1 := time.Parse(time.RFC3339, a.Value)
		u, e2 := time.Parse(time.RFC3339, b.Value)
		if a.Name != b.Name || e1 != nil || e2 != nil || !t.Equal(u) {
			return false
		}
	}
	for i := range e.kids {
		if !e.kids[i].same(f.kids[i]) {
			return false
		}
	}
	return true
}

// cross takes a section through all formats.
func (c *ctx) cross(s *Sec) {
	c.setInput("%s", s.Dump())
	b := s.Bits(nil)
	x, err, ok := c.decode(b)
	if !ok || err != nil {
		return
	}
	c.distinct(b)
	for k := 0; k < 4; k++ {
		y := &SIS{}
		var d []byte
		f := c.Intn(3)
		name := []string{"JSON", "XML", "binary"}[f]
		if !c.op("to and from "+name, func() {
			switch f {
			case 0:
				if d, err = json.Marshal(x); err == nil {
					err = json.Unmarshal(d, y)
				}
			case 1:
				if d, err = xml.Marshal(x); err == nil {
					err = xml.Unmarshal(d, y)
				}
			case 2:
				if d, err = x.Encode(); err == nil {
					err = y.Decode(d)
				}
			}
		}) {
			return
		}
		if err != nil {
			c.fail("path through "+name+" fails", "%v", err)
			return
		}
		x = y
	}
	if sig, d := diff(s.Dump(), FromLib(x).Dump()); sig != "" {
		c.fail("path through the formats loses "+sig, "%s", d)
		return
	}
	e, err, ok := c.encode(x)
	if ok && (err != nil || !sameEnc(b, e, s.EncFlag)) {
		c.fail("path through the formats changes the encoding", "%v %s", err, byteDiff(b, e))
	}
}

// xmlText leaves only characters XML 1.0 has in UPID text.
func (s *Sec) xmlText() *Sec {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k := range g.UPIDs {
				u := &g.UPIDs[k]
				switch u.Type {
				case 5, 6, 8, 0x0a, 0x0c:
					continue
				}
				raw := append([]byte{}, u.Raw...)
				for r, b := range raw {
					if !xmlChar(b) {
						raw[r] = 'x'
					}
				}
				*u = refUPID(u.Type, raw)
			}
		}
	}
	return s
}

// edgeFree has no white space at the ends of UPID text.
func (s *Sec) edgeFree() *Sec {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k := range g.UPIDs {
				u := &g.UPIDs[k]
				if strings.TrimSpace(u.Val) != u.Val && len(u.Raw) > 0 {
					u.Raw[0], u.Raw[len(u.Raw)-1] = 'a', 'z'
					*u = refUPID(u.Type, u.Raw)
				}
			}
		}
	}
	return s
}

func init() {
	register(&check{
		id:     "C07",
		rule:   "sections built through the API (all commands, descriptors, flags, values at field edges, dictionary values, any Latin-1 UPID text), marshalled with every json entry point and read back; distinct by document",
		assume: []string{"DTMF characters and ISO codes are ASCII", "UPIDs are well formed for their type"},
		need:   allForms,
		families: []family{
			{name: "roundtrip", quick: 120000, thorough: 1500000, fn: func(c *ctx, i int) { c.c07(c.docSec(i)) }},
			{name: "limits", quick: 400, thorough: 4000, fn: func(c *ctx, i int) { c.c07(c.atLimit(i).canon()) }},
			{name: "values", quick: 6000, thorough: 100000, fn: func(c *ctx, i int) { c.c07(c.edgeSec(i)) }},
			{name: "cross", quick: 12000, thorough: 200000, fn: func(c *ctx, i int) {
				c.textual = c.coin()
				s := c.docSec(i).edgeFree()
				s.PreRoll = 0
				c.cross(s)
			}},
		},
	})
	register(&check{
		id:     "C08",
		rule:   "as C07 with xml; UPID text of any Latin-1 characters, those XML lacks one by one; distinct by document",
		assume: []string{"DTMF characters and ISO codes are ASCII", "UPIDs are well formed for their type"},
		need:   append([]string{"upid text XML lacks characters for"}, allForms...),
		families: []family{
			{name: "roundtrip", quick: 120000, thorough: 1200000, fn: func(c *ctx, i int) {
				c.textual = c.coin()
				s := c.docSec(i)
				if c.coin() {
					s.edgeFree()
				}
				c.c08(s)
			}},
			{name: "limits", quick: 400, thorough: 4000, fn: func(c *ctx, i int) {
				c.c08(c.atLimit(i).canon())
			}},
			{name: "values", quick: 6000, thorough: 100000, fn: func(c *ctx, i int) {
				c.textual = c.coin()
				c.c08(c.edgeSec(i))
			}},
			{name: "cross", quick: 12000, thorough: 200000, fn: func(c *ctx, i int) {
				c.textual = c.coin()
				s := c.docSec(i).edgeFree()
				s.PreRoll = 0
				c.cross(s)
			}},
			{name: "control", quick: 6000, thorough: 100000, fn: func(c *ctx, i int) {
				// each character XML lacks, alone and within text
				t := []uint32{1, 2, 3, 4, 7, 9, 0x0b, 0x0e, 0x0f, 0x10, 0x11, 0x80, 0xFF}[i%13]
				v := byte(i / 13 % 32)
				raw := [][]byte{{v}, {v, 'a'}, {'a', v, 'b'}, {'a', v}, {' ', v, ' '}, {0xE9, v, '&', v}}[i/416%6]
				g := &Seg{ID: 1, Compliance: true, TypeID: 0x10, UPIDs: []UPID{refUPID(t, raw)}}
				for i/2496 > 0 && len(g.UPIDs) < 4 && c.coin() {
					g.UPIDs = append(g.UPIDs, c.upid(20))
				}
				c.c08(&Sec{SAP: 3, HasCmd: true, Cmd: Cmd{Kind: cmdNull}, Descs: []Desc{{Kind: dSeg, Seg: g}}})
			}},
		},
	})
	register(&check{
		id:     "C09",
		rule:   "documents of the library compared member by member with the published names and the section's values, and documents written by other producers (any order, omitted defaults, nulls, white space, prefixes, escapes, comments, time zones, members of others) read by the library; distinct by document",
		assume: []string{"the published names are those of the repository's documentation and tests; deviations of the library from the XSD which they fix (PrivateBytes as text, tag attribute) are part of them"},
		need:   append([]string{"producer json", "producer xml", "sapType absent", "zone", "foreign members", "no command in json", "no command in xml", "command null", "upid in hex for XML", "upid stated in hex", "upid stated in base-64", "encoded"}, allForms...),
		families: []family{
			{name: "jsonout", quick: 50000, thorough: 800000, fn: func(c *ctx, i int) {
				s := c.docSec(i)
				c.dropCmd(s)
				x := s.ToLib()
				c.rezone(x)
				c.setInput("%s", s.Dump())
				var j []byte
				var err error
				if !c.op("json.Marshal", func() { j, err = json.Marshal(x) }) {
					return
				}
				if err != nil {
					c.fail("json: marshal fails", "%v", err)
					return
				}
				c.distinct(j)
				v, err := parseJSON(j)
				if err != nil {
					c.fail("json: not a document", "%v: %s", err, j)
					return
				}
				if sig, d := s.docOf().matchJSON(v, "$"); sig != "" {
					c.fail("json: "+stripIdx(sig), "%s; document %s", d, j)
				}
			}},
			{name: "xmlout", quick: 50000, thorough: 800000, fn: func(c *ctx, i int) {
				c.textual = c.Intn(3) > 0
				s := c.docSec(i)
				if s.notXML() {
					c.see("upid in hex for XML")
				}
				c.dropCmd(s)
				x := s.ToLib()
				c.rezone(x)
				c.setInput("%s", s.Dump())
				var j []byte
				var err error
				if !c.op("xml.Marshal", func() { j, err = xml.Marshal(x) }) {
					return
				}
				if err != nil {
					c.fail("xml: marshal fails", "%v", err)
					return
				}
				c.distinct(j)
				v, err := parseXML(j)
				if err != nil {
					c.fail("xml: not a document", "%v: %s", err, j)
					return
				}
				if sig, d := s.docOf().matchXML(v, ""); sig != "" {
					c.fail("xml: "+stripIdx(sig), "%s; document %s", d, j)
				}
			}},
			{name: "jsonin", quick: 60000, thorough: 1000000, fn: func(c *ctx, i int) {
				s := c.docSec(i)
				c.dropFormats(s)
				c.stateFormats(s)
				c.dropCmd(s)
				st := c.style()
				st.foreign = c.p(0.3)
				c.c09in("json", s, st.JSON(s.docOf()), st)
			}},
			{name: "xmlin", quick: 30000, thorough: 1000000, fn: func(c *ctx, i int) {
				c.textual = c.Intn(3) > 0
				s := c.docSec(i)
				if !s.notXML() {
					c.dropFormats(s)
				}
				c.stateFormats(s)
				c.dropCmd(s)
				st := c.style()
				st.foreign = c.p(0.3)
				c.c09in("xml", s, st.XML(s.docOf()), st)
			}},
			{name: "decodedout", quick: 8000, thorough: 200000, fn: func(c *ctx, i int) {
				// documents of sections which came from the wire
				c.textual = true
				s := c.sec().xmlText()
				s.Alg = 0
				s.EncFlag = false
				b := s.Bits(nil)
				c.setInput("%s", hx(b))
				c.distinct(b)
				x, err, ok := c.decode(b)
				if !ok || err != nil {
					return
				}
				var j, k []byte
				if !c.op("Marshal", func() {
					j, err = json.Marshal(x)
					if err == nil {
						k, err = xml.Marshal(x)
					}
				}) || err != nil {
					return
				}
				if v, err := parseJSON(j); err != nil {
					c.fail("json: not a document", "%v", err)
				} else if sig, d := s.docOf().matchJSON(v, "$"); sig != "" {
					c.fail("json of a decoded signal: "+stripIdx(sig), "%s; document %s", d, j)
				}
				if v, err := parseXML(k); err != nil {
					c.fail("xml: not a document", "%v", err)
				} else if sig, d := s.docOf().matchXML(v, ""); sig != "" {
					c.fail("xml of a decoded signal: "+stripIdx(sig), "%s; document %s", d, k)
				}
			}},
		},
	})
}

// edgeSec has edge values in its wide fields.
func (c *ctx) edgeSec(i int) *Sec {
	s := c.sec().canon()
	s.PTSAdj, s.Tier, s.CW, s.Proto = edge(33, i), uint32(edge(12, i)), uint32(edge(8, i)), uint32(edge(8, i/7))
	s.PreRoll = uint32(edge(32, i))
	switch i % 5 {
	case 0:
		s.Cmd = Cmd{Kind: cmdTime, PTS: u64p(edge(33, i/5))}
	case 1:
		s.Cmd = Cmd{Kind: cmdInsert, Ins: &Ins{ID: uint32(edge(32, i/5)), Program: true, PTS: u64p(edge(33, i/5)), Brk: &Brk{c.coin(), edge(33, i/5)}, UPID: uint32(edge(16, i/5))}}
	case 2:
		s.Cmd = Cmd{Kind: cmdSchedule, Sch: []Event{{ID: uint32(edge(32, i/5)), Program: true, UTC: int64(edge(32, i/5)), Brk: &Brk{c.coin(), edge(33, i/5)}}}}
	case 3:
		s.Descs = []Desc{{Kind: dTime, TAISec: edge(48, i/5), TAINS: uint32(edge(32, i/5)), UTCOff: uint32(edge(16, i/5))}}
	case 4:
		s.Descs = []Desc{{Kind: dSeg, Seg: &Seg{ID: uint32(edge(32, i/5)), Dur: u64p(edge(40, i/5)), Comps: []SegComp{{1, edge(33, i/5)}}, TypeID: uint32(edge(8, i/5)),
			UPIDs: []UPID{refUPID(0x0c, []byte{byte(i), byte(i >> 8), 0xFF, 0, 1}), refUPID(8, []byte{0x80 >> uint(i%8), 0, 0, 0, 0, 0, 0, byte(i)})}}}}
	}
	if s.secLen() > 4093 {
		s.Descs = nil
	}
	return s
}

// dropCmd leaves some sections without a command.
func (c *ctx) dropCmd(s *Sec) {
	if c.Intn(25) == 0 {
		s.HasCmd, s.Cmd = false, Cmd{}
	}
}

// dropFormats leaves out the optional UPID format of some UPIDs.
func (c *ctx) dropFormats(s *Sec) {
	if c.coin() {
		return
	}
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k := range g.UPIDs {
				if c.coin() {
					g.UPIDs[k].Format = ""
				}
			}
		}
	}
}

// stateFormats states some UPIDs in hex or base-64.
func (c *ctx) stateFormats(s *Sec) {
	if c.Intn(3) > 0 {
		return
	}
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k, u := range g.UPIDs {
				if c.coin() {
					f := []string{"hex", "base-64"}[c.Intn(2)]
					u = u.in(f)
					if f == "hex" && c.Intn(3) == 0 {
						u.Val = strings.ToUpper(u.Val)
					}
					if g.UPIDs[k] = u; u.foreign() {
						c.see("upid stated in " + f)
					}
				}
			}
		}
	}
}

// notXML reports whether there is UPID text with characters XML lacks.
func (s *Sec) notXML() bool {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for _, u := range g.UPIDs {
				if u.notXML() {
					return true
				}
			}
		}
	}
	return false
}

func (c *ctx) c09in(kind string, s *Sec, doc string, st *style) {
	c.setInput("%s", doc)
	c.distinct([]byte(doc))
	c.see("producer " + kind)
	if !strings.Contains(doc, "sapType") {
		c.see("sapType absent")
	}
	if st.foreign {
		c.see("foreign members")
	}
	if !s.HasCmd {
		c.see("no command in " + kind)
		if strings.Contains(doc, `"spliceCommand"`) {
			c.see("command null")
		}
	}
	if st.zone != time.UTC && s.Cmd.Kind == cmdSchedule {
		c.see("zone")
	}
	x := &SIS{}
	var err error
	b := []byte(doc)
	un := func() { err = json.Unmarshal(b, x) }
	if kind == "xml" {
		un = func() { err = xml.Unmarshal(b, x) }
	}
	if !c.op(kind+".Unmarshal", un) {
		return
	}
	if err != nil {
		c.fail(kind+" document rejected", "%v", err)
		return
	}
	// whether the library keeps a format it would not choose is its own affair
	got := FromLib(x).ownFormats()
	want := s.clone().ownFormats()
	if kind == "xml" {
		want.trimText(got)
	}
	if sig, d := diff(want.Dump(), got.Dump()); sig != "" {
		c.fail(kind+" document: "+sig, "%s", d)
		return
	}
	if want.HasCmd && !want.emptied() && want.secLen() <= 4093 && (want.Dump() != s.Dump() || c.Intn(8) == 0) {
		if b, err, ok := c.encode(x); ok && err != nil {
			c.fail(kind+" document cannot be encoded", "%v", err)
		} else if w := want.Bits(nil); ok && !sameEnc(w, b, s.EncFlag) {
			c.fail(kind+" document: encoding differs in "+diffPart(want, w, b), "%s", byteDiff(w, b))
		}
		c.see("encoded")
	}
	if c.Intn(600) == 0 {
		c.sampleCase("read to exactly these values")
	}
}
