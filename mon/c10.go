package mon

// C10 to C12: failed decodes, the descriptor loop, legacy command lengths.

import (
	"bytes"
	"encoding/json"
	"fmt"
)

// std tells whether the header is as the standard says, such that only the
// rest decides on the result.
func std(b []byte) bool {
	return len(b) > 3 && b[0] == 0xFC && b[1]&0xC0 == 0 && int(b[1]&0x0F)<<8|int(b[2]) == len(b)-3
}

// c10 decodes and compares the error and the partial section with what the
// layout says.
func (c *ctx) c10(b []byte) {
	c.setInput("%s", hx(b))
	c.distinct(b)
	x, err, ok := c.decode(b)
	if !ok {
		return
	}
	p := parse(b)
	cls := errClass(err)
	switch {
	case err == nil && p.cls != clsOK:
		c.fail("no error for "+p.cls, "decoding succeeds, the layout says %s", p.cls)
	case err == nil:
		c.see("no error")
	case cls[0] == '?' || cls == "encoding":
		c.fail("unidentified error", "%v is %s", err, cls)
	case p.cls == clsOK:
		if std(b) {
			c.fail("error "+cls+" for a sound signal", "%v", err)
		}
	case !p.any[cls]:
		c.fail(fmt.Sprintf("error %s for %s", cls, p.cls), "error is %v, the layout says %v", err, sortedKeys(p.any))
	default:
		c.see("error " + cls)
	}
	got := FromLib(x).Dump()
	if m := isSubset(p.lines, got); m != "" {
		path, val, _ := cutLine(m)
		if path == "command" && x.SpliceCommand != nil && val != `"private_command"` {
			path = "kind of command"
		}
		c.fail("partial section: "+stripIdx(path), "%s is completely present but missing after %v; got %s", m, err, lineOf(got, path))
	}
	if err != nil && bytes.Count([]byte(p.lines), []byte("\n")) > 8 {
		c.see("partial section with values")
	}
	if c.Intn(600) == 0 {
		c.sampleCase(fmt.Sprintf("error %v, section has all of: %s", err, p.lines))
	}
}

func cutLine(l string) (path, val string, ok bool) {
	for i := range l {
		if l[i] == '=' {
			return l[:i], l[i+1:], true
		}
	}
	return l, "", false
}

func lineOf(dump, path string) string {
	for len(dump) > 0 {
		i := bytes.IndexByte([]byte(dump), '\n')
		if i < 0 {
			i = len(dump) - 1
		}
		if p, _, _ := cutLine(dump[:i]); p == path {
			return dump[:i]
		}
		dump = dump[i+1:]
	}
	return "nothing"
}

// tlv is one descriptor of a loop under test.
type tlv struct {
	b    []byte
	good bool
	odd  bool // perhaps not in canonical form
}

// loopOf lays out a signal with the given descriptors.
func (c *ctx) loopOf(ds []tlv) []byte {
	s := &Sec{SAP: 3, Tier: 0xFFF, PTSAdj: c.num(33), HasCmd: true, Cmd: c.cmdOf([]int{cmdNull, cmdTime, cmdTime, cmdBW, cmdInsert}[c.Intn(5)])}
	if i := s.Cmd.Ins; i != nil && len(i.Comps) > 8 {
		i.Comps = i.Comps[:8]
	}
	r := c.rawOf(s, nil)
	for _, d := range ds {
		r.descs = append(r.descs, d.b)
	}
	b := r.bytes(c.gen)
	if n := len(b) - 3; n <= 4095 {
		b[1], b[2] = b[1]&0xF0|byte(n>>8), byte(n)
		b = fixCRC(b)
	}
	return b
}

// c11 decodes a loop of descriptors: each is where and what its own bytes say.
func (c *ctx) c11(ds []tlv) {
	b := c.loopOf(ds)
	c.setInput("%s", hx(b))
	c.distinct(b)
	x, err, ok := c.decode(b)
	if !ok {
		return
	}
	bad, odd := false, false
	for _, d := range ds {
		if !d.good {
			bad = true
		}
		if d.odd {
			odd = true
		}
	}
	switch {
	case bad && err == nil:
		c.fail("malformed descriptor not reported", "no error")
	case !bad && err != nil:
		c.fail("loop rejected: "+errClass(err), "%v", err)
		return
	}
	if len(x.SpliceDescriptors) != len(ds) {
		c.fail("number of descriptors", "%d descriptors, the loop has %d", len(x.SpliceDescriptors), len(ds))
		return
	}
	for i, d := range ds {
		// the reference reading of this one alone
		dd := &dumper{}
		p := &parsed{wellUPIDs: true}
		pre := "descriptor."
		cls := parseDesc(dd, p, pre, d.b, false)
		if (cls == clsOK) != d.good {
			panic(fmt.Sprintf("descriptor %x: %q", d.b, cls))
		}
		if d.good {
			c.see("good descriptor")
		} else {
			c.see("malformed descriptor " + cls)
		}
		m := fromLibDesc(x.SpliceDescriptors[i])
		g := &dumper{}
		m.dump(g, pre)
		if !d.good {
			if miss := isSubset(dd.sb.String(), g.sb.String()); miss != "" {
				path, _, _ := cutLine(miss)
				c.fail("malformed descriptor: "+stripIdx(path), "descriptor %d %x: %s is completely present, got %s", i, d.b, miss, lineOf(g.sb.String(), path))
			}
			continue
		}
		if sig, det := diffWild(dd.sb.String(), g.sb.String()); sig != "" {
			why := ""
			for _, o := range ds[:i] {
				if !o.good {
					why = " after a malformed descriptor"
				}
			}
			c.fail(sig+why, "descriptor %d of %d, %x: %s", i, len(ds), d.b, det)
			return
		}
		if m.Kind == dPriv {
			c.see("private descriptor")
		}
		if tag := x.SpliceDescriptors[i].Tag(); tag != uint32(d.b[0]) {
			c.fail("Tag()", "descriptor %d %x: Tag() is %d", i, d.b, tag)
		}
	}
	if bad || odd || len(b) > 4096 {
		return
	}
	e, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.fail("re-encode fails", "%v", err)
	} else if !bytes.Equal(e, b) {
		c.fail("re-encoding differs", "%s", byteDiff(b, e))
	}
	if c.Intn(500) == 0 {
		c.sampleCase(fmt.Sprintf("%d descriptors, each as its own bytes say, same bytes again", len(ds)))
	}
}

// tlvOf is a descriptor of any tag and identifier.
func (c *ctx) tlvOf(tag, ident uint32, n int) tlv {
	d := Desc{Kind: dPriv, Tag: tag, Ident: ident, Bytes: c.bytesN(n)}
	t := tlv{b: d.bits(nil), good: true}
	if ident == cuei && tag <= 4 {
		t.odd = true
		t.good = parseDesc(&dumper{}, &parsed{}, "", t.b, false) == clsOK
	}
	return t
}

func (c *ctx) goodTLV() tlv {
	for {
		d := c.desc()
		if d.Kind == dSeg && len(d.Seg.UPIDs) == 1 && d.Seg.UPIDs[0].Val == "" && d.Seg.UPIDs[0].FI == nil {
			continue
		}
		return tlv{b: d.bits(nil), good: true}
	}
}

// badTLV is a malformed descriptor: too short or too long for its own syntax,
// or without an identifier.
func (c *ctx) badTLV() tlv {
	for {
		d := c.goodTLV().b
		d = append([]byte{}, d...)
		switch c.Intn(6) {
		case 0:
			d = d[:2+c.Intn(len(d)-1)]
		case 1:
			d = append(d, c.bytesN(1+c.Intn(9))...)
		case 2: // counts inside
			if len(d) > 6 {
				d[6+c.Intn(len(d)-6)] = byte(c.num(8))
			}
		case 3: // no room for an identifier
			d = d[:2+c.Intn(4)]
			if c.coin() {
				copy(d[2:], "CUEI")
			}
		case 4:
			k := d[0]
			d = append([]byte{k, 0}, "CUEI"...)
			d = append(d, c.bytesN(c.Intn(12))...)
		case 5:
			d = append([]byte{byte(c.Intn(6)), 0}, "CUEI"...)
			d = append(d, bytes.Repeat([]byte{byte(c.num(8))}, c.Intn(40))...)
		}
		if len(d) > 257 {
			continue
		}
		d[1] = byte(len(d) - 2)
		if parseDesc(&dumper{}, &parsed{}, "", d, false) != clsOK {
			return tlv{b: d}
		}
	}
}

var identSample = []uint32{cuei, 0, 0xFFFFFFFF, 0x43554548, 0x4355454A, 0x43554569, 0x49455543, 0x63756569, 0x434F4D43, 0x00000001, 0x80000000, 0x4355, 0x43554500, 0x53435445}

// fit drops descriptors until they fit a section.
func fit(ds []tlv) []tlv {
	n := 60 + 8*9
	for i := range ds {
		n += len(ds[i].b)
		if n > 4000 {
			return ds[:i]
		}
	}
	return ds
}

// c12 decodes the same signal with the true and the legacy command length.
func (c *ctx) c12(s *Sec, seed int64) {
	o := &wireOpt{}
	bits := func() func() bool {
		if seed%2 == 0 {
			return nil
		}
		r := newGen(seed, c.dict)
		return r.coin
	}
	o.res = bits()
	b := s.Bits(o)
	o.res, o.legacy = bits(), true
	l := s.Bits(o)
	if seed%5 == 0 { // both with a wrong CRC
		b[len(b)-1]++
		l[len(l)-1]++
	}
	c.setInput("%s", hx(l))
	c.distinct(l)
	x, err, ok := c.decode(b)
	y, lerr, lok := c.decode(l)
	if !ok || !lok {
		return
	}
	if errClass(err) != errClass(lerr) {
		c.fail("error: "+errClass(lerr), "with the true length: %v, with 0xFFF: %v", err, lerr)
		return
	}
	if lerr != nil {
		c.see("error in both")
	}
	want, got := s.Dump(), FromLib(y).Dump()
	if sig, d := diff(want, got); sig != "" {
		c.fail("value of "+sig, "%s", d)
		return
	}
	c.see("legacy length")
	s.features(c)
	e, err, ok := c.encode(y)
	if !ok {
		return
	}
	if err != nil {
		c.fail("re-encode fails", "%v", err)
		return
	}
	if w := s.Bits(nil); !sameEnc(w, e, s.EncFlag) {
		c.fail("re-encoding: "+diffPart(s, w, e), "%s", byteDiff(w, e))
	}
	var t1, t2 string
	var j1, j2 []byte
	if c.op("Table", func() { t1, t2 = x.Table("", "\t"), y.Table("", "\t") }) && t1 != t2 {
		c.fail("table differs", "with the true length:\n%s\nwith 0xFFF:\n%s", t1, t2)
	}
	if c.op("json.Marshal", func() { j1, _ = json.Marshal(x); j2, _ = json.Marshal(y) }) && !bytes.Equal(j1, j2) {
		c.fail("JSON differs", "%s and %s", j1, j2)
	}
	if c.Intn(500) == 0 {
		c.sampleCase("same section as with the true length")
	}
}

var selfDelimited = []int{cmdNull, cmdBW, cmdTime, cmdInsert, cmdSchedule}

func init() {
	register(&check{
		id:   "C10",
		rule: "signals with one or several structural facts broken, cut at every byte, byte-mutated, with wrong CRC, and malformed text; error and partial section against the reference parser's; distinct by bytes",
		need: []string{"error overflow", "error underflow", "error crc", "no error", "partial section with values", "text: malformed", "text: decoded", "whole section kept", "stuffing kept"},
		families: []family{
			{name: "broken", quick: 160000, thorough: 3000000, fn: func(c *ctx, i int) {
				r := c.rawOf(c.sec(), c.wire())
				r.breakUp(c.gen)
				c.c10(r.bytes(c.gen))
			}},
			{name: "mutated", quick: 120000, thorough: 2000000, fn: func(c *ctx, i int) { c.c10(c.anySignal()) }},
			{name: "cuts", quick: 1200, thorough: 30000, fn: func(c *ctx, i int) {
				var b []byte
				if i < len(corpus) {
					b = corpus[i]
				} else if c.coin() {
					b = forms[c.Intn(len(forms))](c.gen).Bits(nil)
				} else {
					b = c.sec().Bits(c.wireStd())
				}
				if len(b) > 250 {
					b = b[:250]
				}
				for k := 0; k <= len(b); k++ {
					c.c10(b[:k])
					if k > 4 && k%3 == i%3 {
						c.c10(fixCRC(b[:k]))
					}
				}
			}},
			{name: "cutparts", quick: 20000, thorough: 600000, fn: func(c *ctx, i int) {
				// a part shorter or longer than its syntax, everything else sound
				s := c.sec()
				if i%4 == 0 {
					s = forms[i/4%len(forms)](c.gen)
				}
				r := c.rawOf(s, c.wireStd())
				switch {
				case c.coin() && len(r.cmd) > 0:
					r.cmd = r.cmd[:c.Intn(len(r.cmd))]
				case c.Intn(3) == 0 || len(r.descs) == 0:
					r.cmd = append(append([]byte{}, r.cmd...), c.bytesN(1+c.Intn(5))...)
				default:
					k := c.Intn(len(r.descs))
					d := append([]byte{}, r.descs[k]...)
					if c.Intn(3) == 0 {
						d = append(d, c.bytesN(1+c.Intn(5))...)
					} else {
						d = d[:2+c.Intn(len(d)-2)]
					}
					if len(d) < 258 {
						d[1] = byte(len(d) - 2)
						r.descs[k] = d
					}
				}
				b := r.bytes(c.gen)
				if n := len(b) - 3; n <= 4095 {
					b[1], b[2] = b[1]&0xF0|byte(n>>8), byte(n)
					b = fixCRC(b)
				}
				c.c10(b)
			}},
			{name: "text", quick: 15000, thorough: 300000, fn: c01text},
			{name: "crc", quick: 12000, thorough: 300000, fn: func(c *ctx, i int) {
				// only the CRC is wrong: everything was decoded and is kept
				s := c.sec()
				b := s.Bits(nil)
				m := append([]byte{}, b...)
				m[len(m)-1-c.Intn(4)] ^= byte(1 + c.Intn(255))
				c.setInput("%s", hx(m))
				c.distinct(m)
				x, _, ok := c.decode(b)
				y, err, ok2 := c.decode(m)
				if !ok || !ok2 {
					return
				}
				if cls := errClass(err); cls != clsCRC {
					c.fail("error "+cls+" for a wrong CRC", "%v", err)
					return
				}
				c.see("whole section kept")
				if len(s.Stuff) > 0 {
					c.see("stuffing kept")
				}
				for _, op := range readOps {
					var r1, r2 []byte
					if c.op(op.name, func() { r1, r2 = op.f(x), op.f(y) }) && !bytes.Equal(r1, r2) {
						c.fail("wrong CRC changes "+op.name, "with the right CRC %q, with a wrong one %q", cut(r1), cut(r2))
						return
					}
				}
			}},
		},
	})
	register(&check{
		id:   "C11",
		rule: "descriptor loops: every tag under CUEI and other identifiers with every payload length, random known, private and malformed descriptors in any order and number, loops as long as the field allows; distinct by bytes",
		need: []string{"good descriptor", "private descriptor", "malformed descriptor overflow", "malformed descriptor underflow", "tag sweep", "long loop"},
		families: []family{
			{name: "tags", quick: 256 * len(identSample) * 4, thorough: 256 * len(identSample) * 60, fn: func(c *ctx, i int) {
				tag := uint32(i % 256)
				ident := identSample[i/256%len(identSample)]
				n := c.gen.count(40)
				if c.Intn(8) == 0 {
					n = c.Intn(252)
				}
				c.see("tag sweep")
				ds := []tlv{c.tlvOf(tag, ident, n)}
				if c.coin() {
					ds = append([]tlv{c.goodTLV()}, ds...)
				}
				c.c11(fit(append(ds, c.goodTLV())))
			}},
			{name: "lengths", quick: 252 * 6, thorough: 252 * 256, fn: func(c *ctx, i int) {
				tag := uint32(i / 252 * 53 % 256)
				ident := identSample[i/252%len(identSample)]
				c.c11([]tlv{c.goodTLV(), c.tlvOf(tag, ident, i%252), c.goodTLV()})
			}},
			{name: "loops", quick: 120000, thorough: 1500000, fn: func(c *ctx, i int) {
				var ds []tlv
				n := c.Intn(8)
				if c.Intn(10) == 0 {
					n = c.Intn(120)
				}
				for ; n > 0; n-- {
					switch c.Intn(5) {
					case 0:
						ds = append(ds, c.tlvOf(c.n32(8), identSample[c.Intn(len(identSample))], c.gen.count(30)))
					case 1:
						if len(ds) > 0 {
							ds = append(ds, ds[c.Intn(len(ds))])
						}
					default:
						ds = append(ds, c.goodTLV())
					}
				}
				c.c11(fit(ds))
			}},
			{name: "malformed", quick: 120000, thorough: 1500000, fn: func(c *ctx, i int) {
				var ds []tlv
				for n := 1 + c.Intn(5); n > 0; n-- {
					if c.Intn(3) == 0 {
						ds = append(ds, c.badTLV())
					} else {
						ds = append(ds, c.goodTLV())
					}
				}
				k := c.Intn(len(ds) + 1)
				ds = append(ds[:k:k], append([]tlv{c.badTLV()}, ds[k:]...)...)
				ds = append(ds, c.goodTLV())
				c.c11(fit(ds))
			}},
			{name: "long", quick: 200, thorough: 4000, fn: func(c *ctx, i int) {
				// up to 65535 bytes: more than a section may have, yet delimited
				var ds []tlv
				n := 0
				limit := []int{4000, 10000, 65535}[i%3]
				for {
					d := c.goodTLV()
					if c.Intn(20) == 0 {
						d = c.badTLV()
					}
					if i%4 == 0 {
						d = c.tlvOf(c.n32(8)|0x80, identSample[c.Intn(len(identSample))], c.Intn(3))
					}
					if n += len(d.b); n > limit {
						break
					}
					ds = append(ds, d)
				}
				c.see("long loop")
				c.c11(ds)
			}},
		},
	})
	register(&check{
		id:   "C12",
		rule: "signals of all self-delimited commands in all flag combinations, with descriptors, stuffing and encryption, written with splice_command_length 0xFFF and with the true length; distinct by bytes",
		need: []string{"legacy length", "error in both", "cmd splice_null", "cmd bandwidth_reservation", "cmd time_signal", "cmd splice_insert", "cmd splice_schedule",
			"splice_insert cancelled", "event cancelled", "stuffing", "encrypted"},
		families: []family{
			{name: "random", quick: 120000, thorough: 1500000, fn: func(c *ctx, i int) {
				s := c.sec()
				if s.Cmd.Kind == cmdPrivate {
					s.Cmd = c.cmdOf(selfDelimited[i%len(selfDelimited)])
					if s.secLen() > 4093 {
						s.Descs, s.Stuff = nil, nil
					}
				}
				if s.secLen() > 4093 {
					return
				}
				c.c12(s, int64(c.Intn(1<<30)))
			}},
			{name: "forms", quick: 6 * 1600, thorough: 100 * 1600, fn: func(c *ctx, i int) {
				s := forms[i%len(forms)](c.gen)
				if s.Cmd.Kind == cmdPrivate {
					return
				}
				if c.coin() && len(s.Descs) == 0 {
					s.Descs = append(s.Descs, c.desc())
				}
				c.c12(s, int64(c.Intn(1<<30)))
			}},
			{name: "lists", quick: 1500, thorough: 20000, fn: func(c *ctx, i int) {
				s := c.atLimit([]int{4, 5, 6}[i%3])
				s.Stuff = c.bytesN(c.Intn(5))
				if c.coin() {
					s.Descs = append(s.Descs, c.descOf(dAvail))
				}
				if s.secLen() > 4093 {
					s.Descs, s.Stuff = nil, nil
				}
				if s.Cmd.Kind == cmdInsert && c.coin() {
					s.Cmd.Ins.Comps = s.Cmd.Ins.Comps[:c.Intn(256)%len(s.Cmd.Ins.Comps)]
				}
				c.c12(s, int64(c.Intn(1<<30)))
			}},
			{name: "malformed", quick: 30000, thorough: 300000, fn: func(c *ctx, i int) {
				// what follows the command fails the same way
				s := c.sec()
				s.Cmd = c.cmdOf(selfDelimited[i%len(selfDelimited)])
				r := c.rawOf(s, nil)
				l := c.rawOf(s, nil)
				if len(r.descs) > 0 && c.coin() {
					d := append([]byte{}, r.descs[0]...)
					d[c.Intn(len(d))] ^= 1 << uint(c.Intn(8))
					r.descs[0], l.descs[0] = d, d
				} else {
					n := len(s.Stuff)
					for _, d := range r.descs {
						n += len(d)
					}
					r.loopLen = c.Intn(n + 1) // not into the CRC
					l.loopLen = r.loopLen
				}
				l.tail = r.tail
				l.cmdLen = 0xFFF
				b, lb := r.bytes(c.gen), l.bytes(c.gen)
				c.setInput("%s", hx(lb))
				c.distinct(lb)
				x, err, ok := c.decode(b)
				y, lerr, lok := c.decode(lb)
				if !ok || !lok {
					return
				}
				if errClass(err) != errClass(lerr) {
					c.fail("error: "+errClass(lerr), "with the true length: %v, with 0xFFF: %v", err, lerr)
				} else if sig, d := diff(FromLib(x).Dump(), FromLib(y).Dump()); sig != "" {
					c.fail("malformed signal: "+sig, "%s", d)
				}
			}},
		},
	})
}
