package mon

// C01 and C02: decoding is total and its result usable.

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// c01 decodes and uses the result.
func (c *ctx) c01(b []byte) {
	c.setInput("%s", hx(b))
	c.distinct(b)
	x, err, ok := c.decode(b)
	if !ok {
		// even then the section must be usable, but one report is enough
		return
	}
	cls := errClass(err)
	c.see("decode: " + map[string]string{"": "accepted"}[cls] + cls)
	if x.SpliceCommand != nil && err != nil {
		c.see("partial result with command rendered")
	}
	c.useAll(x)
	if c.Intn(200) == 0 {
		c.sampleCase("decode: " + cls + "; rendered as table, JSON, XML, binary, base64, hex, duration")
	}
}

func init() {
	register(&check{
		id:   "C01",
		rule: "byte strings: well-formed signals of every command/descriptor form, the same with structural facts broken (lengths, counts, tags, cuts), byte-mutated and random ones, text for the base64/hex entry points, systematic single-byte sweeps and large inputs; distinct by input bytes",
		need: []string{"decode: accepted", "decode: overflow", "decode: underflow", "decode: crc", "partial result with command rendered", "text: malformed", "text: decoded", "large input"},
		families: []family{
			{name: "layout", quick: 8000, thorough: 200000, fn: func(c *ctx, i int) {
				s := c.sec()
				s.features(c)
				c.c01(s.Bits(c.wire()))
			}},
			{name: "broken", quick: 40000, thorough: 1500000, fn: func(c *ctx, i int) {
				r := c.rawOf(c.sec(), c.wire())
				r.breakUp(c.gen)
				c.c01(r.bytes(c.gen))
			}},
			{name: "mutated", quick: 40000, thorough: 1500000, fn: func(c *ctx, i int) { c.c01(c.anySignal()) }},
			{name: "random", quick: 20000, thorough: 500000, fn: func(c *ctx, i int) {
				b := c.bytesN(c.Intn(200))
				if len(b) > 13 && c.coin() { // plausible command and lengths
					b[11], b[12] = b[11]&0xF0, byte(c.Intn(40))
					b[13] = []byte{0, 4, 5, 6, 7, 255}[c.Intn(6)]
				}
				c.c01(b)
			}},
			{name: "sweep", quick: 400, thorough: 4000, fn: func(c *ctx, i int) {
				// every byte of a signal set to edge values; every truncation
				var b []byte
				if i < len(corpus) {
					b = corpus[i]
				} else {
					b = c.sec().Bits(nil)
				}
				if len(b) > 300 {
					b = fixCRC(b[:300])
				}
				for k := range b {
					m := append([]byte{}, b...)
					m[k] = []byte{0, 0xFF, 0x80, 0x7F, m[k] + 1, m[k] - 1, 0x0D}[c.Intn(7)]
					if k < len(b)-4 {
						m = fixCRC(m)
					}
					c.c01(m)
					c.c01(b[:k])
					if k > 4 && c.coin() {
						c.c01(fixCRC(b[:k]))
					}
				}
			}},
			{name: "counts", quick: 3000, thorough: 60000, fn: func(c *ctx, i int) {
				// counts and lengths which claim more than there is
				kind := cmdKinds[c.Intn(len(cmdKinds))]
				s := &Sec{SAP: 3, Tier: 0xFFF, HasCmd: true, Cmd: c.cmdOf(kind)}
				s.Descs = append(s.Descs, c.descOf(descKinds[c.Intn(len(descKinds))]))
				r := c.rawOf(s, c.wire())
				if c.coin() && len(r.cmd) > 0 {
					r.cmd = append([]byte{}, r.cmd...)
					k := c.Intn(min(len(r.cmd), 12))
					r.cmd[k] = []byte{0xFF, 0x80, 0x0F, 0xF0}[c.Intn(4)]
					r.cmd = r.cmd[:k+1+c.Intn(len(r.cmd)-k)]
				} else if d := append([]byte{}, r.descs[0]...); len(d) > 7 {
					k := 6 + c.Intn(len(d)-6)
					d[k] = []byte{0xFF, 0x80, 0x0F, 0xF0, 0x0D, 0x08, 0x0C, 0x0A}[c.Intn(8)]
					if k+1 < len(d) && c.coin() {
						d[k+1] = byte(c.Intn(256))
					}
					d = d[:k+1+c.Intn(len(d)-k)]
					if c.coin() {
						d[1] = byte(len(d) - 2)
					}
					r.descs[0] = d
				}
				c.c01(r.bytes(c.gen))
			}},
			{name: "upids", quick: 6000, thorough: 150000, fn: func(c *ctx, i int) {
				// every UPID type with every length, alone and in a MID
				t := uint32(i % 256)
				if c.coin() {
					t = uint32(c.Intn(0x12))
				}
				n := c.Intn(24)
				if c.Intn(8) == 0 {
					n = c.Intn(230)
				}
				g := &Seg{ID: 1, UPIDs: []UPID{{Type: t, Raw: c.bytesN(n)}}, TypeID: 0x34}
				if c.coin() {
					g.UPIDs = append(g.UPIDs, UPID{Type: c.n32(8), Raw: c.bytesN(c.Intn(9))})
				}
				s := &Sec{HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Descs: []Desc{{Kind: dSeg, Seg: g}}}
				c.c01(s.Bits(c.wire()))
			}},
			{name: "text", quick: 15000, thorough: 300000, fn: c01text},
			{name: "large", quick: 24, thorough: 200, fn: func(c *ctx, i int) {
				n := []int{5000, 65535, 70000, 300000}[i%4]
				if c.tier == "thorough" && i%8 == 7 {
					n = 4 << 20
				}
				s := c.sec()
				s.Cmd = c.cmdOf(cmdKinds[i%len(cmdKinds)])
				s.Descs = nil
				o := c.wire()
				o.legacy = i%3 == 0
				b := s.Bits(o)
				switch i % 5 {
				case 0:
					b = append(b, c.bytesN(n)...)
				case 1: // many small descriptors
					for k := 0; k < n/6; k++ {
						b = append(b, 0x80, 4, 'A', 'B', 'C', 'D')
					}
				case 2:
					b = append(b, make([]byte, n)...)
				case 3:
					r := c.rawOf(s, o)
					for k := 0; k < min(n, 65000)/6; k++ {
						r.descs = append(r.descs, []byte{byte(k), 4, 'C', 'U', 'E', 'I'})
					}
					b = r.bytes(c.gen)
				case 4:
					for k := 0; k < n; k += 200 {
						b = append(b, s.Descs0(c)...)
					}
				}
				c.see("large input")
				c.c01(b)
			}},
		},
	})
	register(&check{
		id:   "C02",
		rule: "JSON and XML documents: those of valid sections in many producer styles with members/elements removed, nulled, retyped, duplicated, moved and renamed, with ill-formed values, damaged as text, and arbitrary bytes; distinct by document",
		need: []string{"json: accepted", "json: error", "xml: accepted", "xml: error", "accepted without command", "accepted and not encodable"},
		families: []family{
			{name: "json", quick: 40000, thorough: 1200000, fn: func(c *ctx, i int) {
				v := jsonTree(c.style().JSON(c.sec().docOf()))
				c.mutJSON(v)
				c.c02("json", v.String())
			}},
			{name: "xml", quick: 30000, thorough: 900000, fn: func(c *ctx, i int) {
				st := c.style()
				st.prefix = ""
				c.textual = true
				e, err := parseXML([]byte(st.XML(c.sec().docOf())))
				if err != nil {
					panic(err)
				}
				c.mutXML(e)
				var sb strings.Builder
				e.write(&sb, true)
				c.c02("xml", sb.String())
			}},
			{name: "jsontext", quick: 15000, thorough: 300000, fn: func(c *ctx, i int) {
				c.c02("json", c.mutText(c.style().JSON(c.sec().docOf())))
			}},
			{name: "xmltext", quick: 15000, thorough: 300000, fn: func(c *ctx, i int) {
				c.textual = true
				c.c02("xml", c.mutText(c.style().XML(c.sec().docOf())))
			}},
			{name: "sweep", quick: 160, thorough: 2000, fn: func(c *ctx, i int) {
				// each member of a document in turn nulled, removed and retyped
				s := c.sec()
				s.Cmd = c.cmdOf(cmdKinds[i%len(cmdKinds)])
				s.Descs = []Desc{c.descOf(descKinds[i%len(descKinds)])}
				doc := (&style{g: c.gen, zone: nil}).JSONz(s.docOf())
				var all []*jval
				jsonTree(doc).all(&all)
				for k := range all {
					if k > 300 {
						break
					}
					for _, m := range []*jval{nil, {kind: '0'}, {kind: 'o'}, {kind: 'a'}, {kind: 'a', vals: []*jval{{kind: '0'}}}, {kind: 's'}, {kind: 'n', s: "0"}} {
						t := jsonTree(doc)
						var tt []*jval
						t.all(&tt)
						if m == nil {
							p := parentOf(t, tt[k])
							if p == nil {
								continue
							}
							for q := range p.vals {
								if p.vals[q] == tt[k] {
									p.vals = append(p.vals[:q:q], p.vals[q+1:]...)
									if p.kind == 'o' {
										p.keys = append(p.keys[:q:q], p.keys[q+1:]...)
									}
									break
								}
							}
						} else {
							*tt[k] = *m
						}
						c.c02("json", t.String())
					}
				}
			}},
			{name: "elements", quick: 3000, thorough: 60000, fn: func(c *ctx, i int) {
				// sections made of a few bare elements and attributes
				var sb strings.Builder
				sb.WriteString(`<SpliceInfoSection xmlns="` + scteNS + `">`)
				var el func(d int)
				el = func(d int) {
					n := xmlNames[c.Intn(len(xmlNames))]
					sb.WriteString("<" + n)
					for k := c.Intn(3); k > 0; k-- {
						a := []string{"ptsTime", "utcSpliceTime", "segmentationUpidType", "segmentationTypeId", "duration", "ISOCode", "chars", "identifier", "tag", "formatIdentifier", "subSegmentNum", "spliceEventCancelIndicator", "segmentationDuration"}[c.Intn(13)]
						if strings.Contains(sb.String()[strings.LastIndexByte(sb.String(), '<'):], " "+a+"=") {
							continue
						}
						sb.WriteString(" " + a + `="` + []string{"", "0", "1", "10", "12", "true", "255", "99999999999", "2020-01-01T00:00:00Z", "eng"}[c.Intn(10)] + `"`)
					}
					sb.WriteString(">")
					if c.Intn(4) == 0 {
						sb.WriteString([]string{"abc", "00ff", "10.5240/AB", " ", "AAAA"}[c.Intn(5)])
					}
					for k := c.Intn(3); k > 0 && d < 4; k-- {
						el(d + 1)
					}
					sb.WriteString("</" + n + ">")
				}
				for k := c.Intn(4); k > 0; k-- {
					el(1)
				}
				sb.WriteString("</SpliceInfoSection>")
				c.c02("xml", sb.String())
			}},
			{name: "random", quick: 4000, thorough: 50000, fn: func(c *ctx, i int) {
				s := string(c.bytesN(c.Intn(60)))
				if c.coin() {
					s = "{" + s + "}"
				}
				c.c02([]string{"json", "xml"}[i%2], s)
			}},
			{name: "deep", quick: 16, thorough: 60, fn: func(c *ctx, i int) {
				n := []int{100, 5000, 20000, 200000}[i%4]
				var s string
				switch i / 4 % 4 {
				case 0:
					s = `{"spliceCommand":{"type":5,"components":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `}}`
				case 1:
					s = `{"spliceDescriptors":[` + strings.Repeat(`{"a":`, n) + "1" + strings.Repeat("}", n) + `]}`
				case 2:
					c.c02("xml", `<SpliceInfoSection xmlns="`+scteNS+`">`+strings.Repeat("<SpliceTime>", n)+strings.Repeat("</SpliceTime>", n)+`</SpliceInfoSection>`)
					return
				case 3:
					c.c02("xml", `<SpliceInfoSection xmlns="`+scteNS+`">`+strings.Repeat("<AudioDescriptor>", n)+strings.Repeat("</AudioDescriptor>", n)+`</SpliceInfoSection>`)
					return
				}
				c.c02("json", s)
			}},
		},
	})
}

// Descs0 is one encoded descriptor of any kind.
func (s *Sec) Descs0(c *ctx) []byte {
	d := c.desc()
	return d.bits(nil)
}

func parentOf(root, v *jval) *jval {
	for _, k := range root.vals {
		if k == v {
			return root
		}
		if p := parentOf(k, v); p != nil {
			return p
		}
	}
	return nil
}

// JSONz is JSON in a plain style.
func (st *style) JSONz(n *node) string {
	st.zone = utc
	return st.JSON(n)
}

func (c *ctx) c02(kind, doc string) {
	c.setInput("%s", doc)
	c.distinct([]byte(kind + doc))
	x := &SIS{}
	var err error
	b := []byte(doc)
	unm := func() { err = json.Unmarshal(b, x) }
	if kind == "xml" {
		unm = func() { err = xml.Unmarshal(b, x) }
	}
	if !c.op(kind+".Unmarshal", unm) {
		return
	}
	if err != nil {
		c.see(kind + ": error")
		if c.Intn(8) > 0 {
			return
		}
	} else {
		c.see(kind + ": accepted")
		if x.SpliceCommand == nil {
			c.see("accepted without command")
		}
		if c.Intn(300) == 0 {
			c.sampleCase("accepted; rendered as table, JSON, XML, binary, base64, hex, duration")
		}
	}
	if c.useAll(x) && err == nil {
		if _, e := x.Encode(); e != nil {
			c.see("accepted and not encodable")
		}
	}
}

// c01text drives the text entry points.
func c01text(c *ctx, i int) {
	b := c.anySignal()
	switch {
	case i%16 == 0:
		// of any length, and malformed far beyond its beginning
		b = append(b, c.bytesN(c.Intn([]int{600, 5000, 70000}[c.Intn(3)]))...)
		c.see("text: long")
	case len(b) > 400:
		b = b[:400]
	}
	var s string
	isHex := c.coin()
	if isHex {
		s = hex.EncodeToString(b)
		if c.Intn(3) == 0 {
			s = strings.ToUpper(s)
		}
		if c.Intn(2) == 0 {
			s = "0x" + s
		}
	} else {
		s = base64.StdEncoding.EncodeToString(b)
	}
	switch c.Intn(4) {
	case 0: // damaged
		t := []byte(s)
		for n := 1 + c.Intn(2); n > 0 && len(t) > 0; n-- {
			k := c.Intn(len(t))
			switch c.Intn(5) {
			case 0:
				t = t[:k]
			case 1:
				t[k] = byte(c.Intn(256))
			case 2:
				t = append(t, "=g x\n-_"[c.Intn(7)])
			case 3:
				t[k] = "=gG-_ \x00"[c.Intn(7)]
			case 4:
				t = append(t[:k:k], t[k+1:]...)
			}
		}
		s = string(t)
	case 1:
		if c.Intn(4) == 0 {
			s = string(c.bytesN(c.Intn(30)))
		}
	}
	c.setInput("%q", s)
	c.distinct([]byte(s))
	var x *SIS
	var err error
	var ref []byte
	var rerr error
	name := "DecodeBase64"
	if isHex {
		name = "DecodeHex"
		ref, rerr = hex.DecodeString(strings.TrimPrefix(s, "0x"))
		if !c.op(name, func() { x, err = scte35.DecodeHex(s) }) {
			return
		}
	} else {
		ref, rerr = base64.StdEncoding.DecodeString(s)
		if !c.op(name, func() { x, err = scte35.DecodeBase64(s) }) {
			return
		}
	}
	if x == nil {
		c.fail(name+": nil section", "%s returned a nil section", name)
		return
	}
	if rerr != nil {
		c.see("text: malformed")
		if !errors.Is(err, scte35.ErrUnsupportedEncoding) {
			c.fail(name+": malformed text", "malformed text gives error %v", err)
		}
	} else {
		c.see("text: decoded")
		if errors.Is(err, scte35.ErrUnsupportedEncoding) {
			c.fail(name+": well-formed text", "well-formed text gives %v", err)
		}
		y, yerr, ok := c.decode(ref)
		if ok {
			if errClass(yerr) != errClass(err) {
				c.fail(name+": differs from Decode", "error %v, Decode of the bytes gives %v", err, yerr)
			} else if sig, d := diff(FromLib(y).Dump(), FromLib(x).Dump()); sig != "" {
				c.fail(name+": differs from Decode at "+sig, "%s", d)
			}
		}
	}
	c.useAll(x)
}
