package mon

// C03 to C06: the binary format.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"hash/crc32"
	"reflect"
	"time"
)

// wireForm draws the forms only the wire has.
func (c *ctx) wireForm(s *Sec) {
	if s.Cmd.Kind == cmdPrivate && c.p(0.3) {
		t := c.n32(8)
		switch t {
		case cmdNull, cmdSchedule, cmdInsert, cmdTime, cmdBW, cmdPrivate:
		default:
			s.Cmd.WireType = t
			c.see("unassigned splice_command_type")
		}
	}
	for i := range s.Descs {
		if d := &s.Descs[i]; d.Kind == dDTMF && c.p(0.1) { // not only ASCII
			d.Chars = string(c.bytesN(len(d.Chars)))
		} else if d.Kind == dAudio {
			for k := range d.Audio {
				if c.p(0.05) {
					d.Audio[k].ISO = string(c.bytesN(3))
				}
			}
		}
		if g := s.Descs[i].Seg; g != nil && !g.Cancel {
			if len(g.UPIDs) == 1 && c.p(0.2) && len(s.Descs[i].bits(nil)) < 250 {
				g.ForceMID = true
				c.see("single UPID in a MID")
			}
			if len(g.Comps) == 0 && c.p(0.1) {
				if len(s.Descs[i].bits(nil)) < 250 {
					g.ZeroComps = true
				}
			}
		}
	}
	if s.EncFlag && c.p(0.2) {
		s.Alg = 0
	}
	if !s.EncFlag && c.p(0.03) {
		s.Alg = 1 + uint32(c.Intn(63))
	}
}

// wireStd is wire with a header as the standard says.
func (g *gen) wireStd() *wireOpt {
	o := g.wire()
	o.junkHdr = false
	return o
}

// c03 decodes a section laid out by the standard.
func (c *ctx) c03(s *Sec, o *wireOpt) {
	b := s.Bits(o)
	c.setInput("%s", hx(b))
	c.distinct(b)
	x, err, ok := c.decode(b)
	if !ok {
		return
	}
	if err != nil {
		c.fail("rejected: "+errClass(err), "a well-formed section is rejected: %v; it is %s", err, s.Dump())
		return
	}
	want, got := s.Dump(), FromLib(x).Dump()
	if sig, d := diff(want, got); sig != "" {
		c.fail("value of "+sig, "%s", d)
	}
	if c.Intn(500) == 0 {
		c.sampleCase(got)
	}
}

// c03any decodes any bytes: what is accepted has the values its bits carry.
func (c *ctx) c03any(b []byte) {
	c.setInput("%s", hx(b))
	c.distinct(b)
	x, err, ok := c.decode(b)
	if !ok || err != nil {
		return
	}
	c.see("accepted mutant")
	p := parse(b)
	if p.cls != clsOK {
		c.fail("accepted: "+p.cls, "decoding accepts bytes which the layout does not fit (%s)", p.cls)
		return
	}
	if sig, d := diffWild(p.lines, FromLib(x).Dump()); sig != "" {
		c.fail("accepted mutant: value of "+sig, "%s", d)
	}
}

// forms is every combination of the flags of a command or descriptor.
var forms = func() []func(g *gen) *Sec {
	var out []func(g *gen) *Sec
	base := func(g *gen) *Sec {
		return &Sec{SAP: g.n32(2), PTSAdj: g.num(33), CW: g.n32(8), Tier: g.n32(12), HasCmd: true, Cmd: Cmd{Kind: cmdTime, PTS: u64p(g.num(33))}}
	}
	for f := 0; f < 64; f++ {
		out = append(out, func(g *gen) *Sec {
			s := base(g)
			i := g.insert()
			*i = Ins{ID: i.ID, Out: f&1 > 0, Imm: f&2 > 0, Program: f&4 > 0, UPID: g.n32(16), AvailNum: g.n32(8), AvailsExp: g.n32(8)}
			if f&8 > 0 {
				i.Brk = &Brk{f&16 > 0, g.num(33)}
			}
			t := func() *uint64 {
				if f&32 > 0 && !i.Imm {
					return u64p(g.num(33))
				}
				return nil
			}
			if i.Program {
				i.PTS = t()
			} else {
				for n := g.Intn(4); n > 0; n-- {
					i.Comps = append(i.Comps, InsComp{g.n32(8), t()})
				}
			}
			s.Cmd = Cmd{Kind: cmdInsert, Ins: i}
			return s
		})
	}
	for f := 0; f < 32; f++ {
		out = append(out, func(g *gen) *Sec {
			s := base(g)
			e := Event{ID: g.n32(32), Compliance: f&1 > 0, Out: f&2 > 0, Program: f&4 > 0, UPID: g.n32(16), AvailNum: g.n32(8), AvailsExp: g.n32(8)}
			if f&8 > 0 {
				e.Brk = &Brk{f&16 > 0, g.num(33)}
			}
			if e.Program {
				e.UTC = int64(g.num(32))
			} else {
				for n := g.Intn(4); n > 0; n-- {
					e.Comps = append(e.Comps, EvComp{g.n32(8), int64(g.num(32))})
				}
			}
			cancel := Event{ID: g.n32(32), Cancel: true, Compliance: g.coin()}
			s.Cmd = Cmd{Kind: cmdSchedule, Sch: [][]Event{{e}, {cancel}, {e, cancel}, {cancel, e}, {e, e}}[g.Intn(5)]}
			return s
		})
	}
	for f := 0; f < 1024; f++ {
		out = append(out, func(g *gen) *Sec {
			s := base(g)
			x := &Seg{ID: g.n32(32), Compliance: f&1 > 0, TypeID: uint32(f>>2) & 0xFF, Num: g.n32(8), Exp: g.n32(8)}
			if f&2 > 0 {
				x.Restr = &Restr{g.coin(), g.coin(), g.coin(), g.n32(2)}
			}
			if g.coin() {
				x.Dur = u64p(g.num(40))
			}
			for n := g.Intn(3); n > 0 && g.coin(); n-- {
				x.Comps = append(x.Comps, SegComp{g.n32(8), g.num(33)})
			}
			for n := g.Intn(4); n > 0; n-- {
				if u := g.upid(30); len(u.Raw) > 0 {
					x.UPIDs = append(x.UPIDs, u)
				}
			}
			if subPermitted(x.TypeID) && g.coin() {
				x.SubNum, x.SubExp = u32p(g.n32(8)), u32p(g.n32(8))
			}
			s.Descs = []Desc{{Kind: dSeg, Seg: x}}
			return s
		})
	}
	for f := 0; f < 256; f++ {
		out = append(out, func(g *gen) *Sec { // UPID types
			s := base(g)
			t := uint32(f)
			if t == 0x0d {
				t = 0x0e
			}
			u := g.upidOf(t, 60)
			if len(u.Raw) == 0 {
				u = refUPID(t, g.bytesN(12))
			}
			x := &Seg{ID: g.n32(32), Compliance: true, TypeID: g.n32(8), UPIDs: []UPID{u}}
			if g.coin() {
				x.UPIDs = append(x.UPIDs, g.upid(40))
			}
			s.Descs = []Desc{{Kind: dSeg, Seg: x}}
			return s
		})
	}
	for f := 0; f < 64; f++ {
		out = append(out, func(g *gen) *Sec { // audio: every bit of a channel
			s := base(g)
			d := g.descOf(dAudio)
			for i := range d.Audio {
				d.Audio[i].BSM, d.Audio[i].Num, d.Audio[i].Full = uint32(g.Intn(8)), uint32(g.Intn(16)), g.coin()
			}
			d.Audio = append(d.Audio[:min(14, len(d.Audio))], Chan{g.n32(8), "eng", uint32(f) & 7, uint32(f>>3)&7 + 8*uint32(g.Intn(2)), f&1 > 0})
			s.Descs = []Desc{d}
			return s
		})
	}
	for f := 0; f < 8; f++ {
		out = append(out, func(g *gen) *Sec { // dtmf: every count
			s := base(g)
			d := g.descOf(dDTMF)
			d.Chars = g.asciiN(f)
			s.Descs = []Desc{d}
			return s
		})
	}
	for f := 0; f < 64; f++ {
		out = append(out, func(g *gen) *Sec { // encryption algorithms and sap types
			s := g.sec()
			s.SAP = uint32(f) & 3
			s.Alg, s.EncFlag = uint32(f), f != 0
			if s.secLen() > 4093 {
				s.Descs = nil
			}
			return s
		})
	}
	return out
}()

func init() {
	register(&check{
		id:   "C03",
		rule: "well-formed sections written by the reference bit writer (all commands, descriptors, flag combinations, random reserved bits), their single-bit neighbours with a repaired CRC, and mutated signals read by the reference parser; distinct by bytes",
		need: append([]string{"accepted mutant", "unassigned splice_command_type", "single UPID in a MID", "stuffing"}, allForms...),
		families: []family{
			{name: "layout", quick: 180000, thorough: 2500000, fn: func(c *ctx, i int) {
				s := c.sec()
				s.features(c)
				c.wireForm(s)
				c.c03(s, c.wireStd())
			}},
			{name: "forms", quick: 16 * 1600, thorough: 150 * 1600, fn: func(c *ctx, i int) {
				s := forms[i%len(forms)](c.gen)
				s.features(c)
				c.wireForm(s)
				c.c03(s, c.wireStd())
			}},
			{name: "bitwalk", quick: 800, thorough: 20000, fn: func(c *ctx, i int) {
				var b []byte
				if i < len(corpus) {
					b = corpus[i]
				} else if c.coin() {
					b = forms[c.Intn(len(forms))](c.gen).Bits(nil)
				} else {
					s := c.sec()
					b = s.Bits(nil)
				}
				if len(b) > 150 {
					return
				}
				for k := 0; k < (len(b)-4)*8; k++ {
					m := append([]byte{}, b...)
					m[k/8] ^= 0x80 >> (k % 8)
					c.c03any(fixCRC(m))
				}
			}},
			{name: "mutated", quick: 180000, thorough: 2500000, fn: func(c *ctx, i int) {
				b := c.anySignal()
				if c.coin() {
					b = fixCRC(b)
				}
				c.c03any(b)
			}},
			{name: "corpus", quick: len(corpus), thorough: len(corpus), fn: func(c *ctx, i int) { c.c03any(corpus[i]) }},
			{name: "values", quick: 12000, thorough: 200000, fn: func(c *ctx, i int) {
				// one field at a time takes each edge value of its width
				s := c.sec()
				s.Stuff = nil
				switch i % 6 {
				case 0:
					s.PTSAdj = edge(33, i/6)
				case 1:
					s.Cmd = Cmd{Kind: cmdTime, PTS: u64p(edge(33, i/6))}
				case 2:
					s.Cmd = Cmd{Kind: cmdInsert, Ins: &Ins{ID: uint32(edge(32, i/6)), Program: true, PTS: u64p(edge(33, i/6)), Brk: &Brk{c.coin(), edge(33, i/6)}, UPID: uint32(edge(16, i/6))}}
				case 3:
					s.Cmd = Cmd{Kind: cmdSchedule, Sch: []Event{{ID: uint32(edge(32, i/6)), Program: true, UTC: int64(edge(32, i/6)), Brk: &Brk{c.coin(), edge(33, i/6)}}}}
				case 4:
					s.Descs = []Desc{{Kind: dTime, TAISec: edge(48, i/6), TAINS: uint32(edge(32, i/6)), UTCOff: uint32(edge(16, i/6))}}
				case 5:
					s.Descs = []Desc{{Kind: dSeg, Seg: &Seg{ID: uint32(edge(32, i/6)), Dur: u64p(edge(40, i/6)), Comps: []SegComp{{1, edge(33, i/6)}}, TypeID: uint32(edge(8, i/6))}}}
				}
				if s.secLen() > 4093 {
					return
				}
				c.c03(s, c.wireStd())
			}},
		},
	})
	register(&check{
		id:   "C04",
		rule: "sections built through the exported API, compared bit for bit with the reference writer; includes fields a cancelled or immediate form leaves out, and sections exactly at the limits; distinct by reference bytes",
		need: append([]string{"at a limit", "fields left out", "empty list"}, allForms...),
		families: []family{
			{name: "api", quick: 240000, thorough: 3000000, fn: func(c *ctx, i int) {
				s := c.sec().canon()
				s.features(c)
				c.c04(s)
			}},
			{name: "forms", quick: 16 * 1600, thorough: 150 * 1600, fn: func(c *ctx, i int) { c.c04(forms[i%len(forms)](c.gen).canon()) }},
			{name: "leftout", quick: 24000, thorough: 300000, fn: func(c *ctx, i int) {
				s := c.sec().canon()
				s.Descs = s.Descs[:min(2, len(s.Descs))]
				s.hidden(c.gen, i%4)
				if s.secLen() > 4093 {
					return
				}
				c.see("fields left out")
				c.c04(s)
			}},
			{name: "limits", quick: 4000, thorough: 60000, fn: func(c *ctx, i int) {
				s := c.atLimit(i)
				if s.secLen() > 4093 {
					panic("limit case too long")
				}
				c.see("at a limit")
				c.c04(s.canon())
			}},
			{name: "values", quick: 6000, thorough: 200000, fn: func(c *ctx, i int) {
				s := c.sec().canon()
				for k := range s.Descs {
					if s.Descs[k].Kind == dTime {
						s.Descs[k].TAISec = edge(48, i)
					}
				}
				s.PTSAdj, s.Tier, s.CW, s.Proto = edge(33, i), uint32(edge(12, i)), uint32(edge(8, i)), uint32(edge(8, i/7))
				c.c04(s)
			}},
		},
	})
	register(&check{
		id:   "C05",
		rule: "sections built through the API, canonical encodings (with stuffing, encrypted) and any accepted signal with well-formed UPIDs, taken around the loop encode/decode twice; distinct by bytes",
		need: append([]string{"stuffing", "any: accepted", "any: stuffing", "any: encrypted"}, allForms...),
		families: []family{
			{name: "api", quick: 100000, thorough: 1500000, fn: func(c *ctx, i int) {
				s := c.sec().canon()
				if i%4 == 0 {
					s = forms[i/4%len(forms)](c.gen).canon()
				}
				s.features(c)
				x := s.ToLib()
				c.setInput("%s", s.Dump())
				b, err, ok := c.encode(x)
				if !ok {
					return
				}
				if err != nil {
					c.fail("encode fails", "%v", err)
					return
				}
				c.distinct(b)
				y, err, ok := c.decode(b)
				if !ok {
					return
				}
				if err != nil {
					c.fail("decode of the encoding fails: "+errClass(err), "%v", err)
					return
				}
				if sig, d := diff(s.Dump(), FromLib(y).Dump()); sig != "" {
					c.fail("lost "+sig, "%s", d)
				}
				c.again(y, b)
			}},
			{name: "canonical", quick: 100000, thorough: 1500000, fn: func(c *ctx, i int) {
				s := c.sec()
				s.features(c)
				b := s.Bits(nil)
				c.setInput("%s", hx(b))
				c.distinct(b)
				x, err, ok := c.decode(b)
				if !ok {
					return
				}
				if err != nil {
					c.fail("decode: "+errClass(err), "%v", err)
					return
				}
				e, err, ok := c.encode(x)
				if !ok {
					return
				}
				if err != nil {
					c.fail("re-encode fails", "%v", err)
					return
				}
				if !sameEnc(b, e, s.EncFlag) {
					c.fail("canonical signal changes in "+diffPart(s, b, e), "%s", byteDiff(b, e))
					return
				}
				c.again(x, e)
				if c.Intn(400) == 0 {
					c.sampleCase("re-encodes to itself")
				}
			}},
			{name: "any", quick: 60000, thorough: 2500000, fn: func(c *ctx, i int) {
				b := c.anySignal()
				if i%3 == 0 {
					s := c.sec()
					c.wireForm(s)
					b = s.Bits(c.wire())
				}
				if c.coin() {
					b = fixCRC(b)
				}
				c.c05any(b)
			}},
			{name: "bitwalk", quick: 500, thorough: 10000, fn: func(c *ctx, i int) {
				b := c.sec().Bits(nil)
				if i < len(corpus) {
					b = corpus[i]
				}
				if len(b) > 150 {
					return
				}
				c.c05any(b)
				for k := 0; k < (len(b)-4)*8; k++ {
					m := append([]byte{}, b...)
					m[k/8] ^= 0x80 >> (k % 8)
					c.c05any(fixCRC(m))
				}
			}},
		},
	})
	register(&check{
		id:   "C06",
		rule: "accepted signals with all one- and two-bit corruptions (short ones), bursts up to 32 bits, replaced CRC fields, every length, and arbitrary mutants; distinct by bytes",
		need: []string{"one bit flipped", "two bits flipped", "burst", "only the CRC wrong", "every length", "longer than a section", "CRC of a part"},
		families: []family{
			{name: "bits", quick: 160, thorough: 3000, fn: func(c *ctx, i int) {
				b := c.shortSignal(i)
				x, err, ok := c.decode(b)
				if !ok || err != nil || x == nil {
					c.setInput("%s", hx(b))
					if ok {
						c.fail("valid signal rejected", "%v", err)
					}
					return
				}
				n := len(b) * 8
				m := append([]byte{}, b...)
				flip := func(k int) { m[k/8] ^= 0x80 >> (k % 8) }
				for k := 0; k < n; k++ {
					flip(k)
					c.rejected(m, "one bit flipped")
					flip(k)
				}
				step := 1
				if len(b) > 40 {
					step = 7
				}
				for k := 0; k < n; k++ {
					flip(k)
					for l := k + 1 + c.Intn(step); l < n; l += step {
						flip(l)
						c.rejected(m, "two bits flipped")
						flip(l)
					}
					flip(k)
				}
			}},
			{name: "bursts", quick: 1500, thorough: 40000, fn: func(c *ctx, i int) {
				b := c.shortSignal(i)
				if c.Intn(4) == 0 {
					b = c.sec().Bits(nil)
				}
				n := len(b) * 8
				for k := 0; k < 60; k++ {
					m := append([]byte{}, b...)
					l := 2 + c.Intn(31)
					at := c.Intn(n - l)
					if c.Intn(3) == 0 {
						at = n - l - c.Intn(min(40, n-l))
					}
					for q := 0; q < l; q++ {
						if q == 0 || q == l-1 || c.coin() {
							m[(at+q)/8] ^= 0x80 >> ((at + q) % 8)
						}
					}
					c.rejected(m, "burst")
				}
			}},
			{name: "crconly", quick: 20000, thorough: 600000, fn: func(c *ctx, i int) {
				s := c.sec()
				b := s.Bits(c.wireStd())
				n := len(b) - 4
				ref := refCRC(b[:n])
				var v uint32
				switch i % 12 {
				case 0:
					v = 0
				case 1:
					v = 0xFFFFFFFF
				case 2:
					v = ref>>24 | ref>>8&0xFF00 | ref<<8&0xFF0000 | ref<<24
				case 3:
					v = crc32.ChecksumIEEE(b[:n])
				case 4:
					v = ^ref
				case 5:
					v = ref ^ 1<<uint(c.Intn(32))
				case 6:
					v = refCRC(b[:n-1])
				case 7:
					v = crc32.Checksum(b[:n], crc32.MakeTable(crc32.Castagnoli))
				case 8:
					v = refCRC(b[1:n])
				case 9:
					v = ref&0xFFFF0000 | uint32(c.Intn(65536))
				default:
					v = c.n32(32)
				}
				if v == ref {
					return
				}
				m := append(append([]byte{}, b[:n]...), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
				c.crcOnly(s, m)
				// the CRC of some of it, or of some of it as something else
				part := append([]byte{}, b[:n]...)
				lo, hi := min(c.Intn(14), n), n-min(c.Intn(14), n)
				switch i % 8 {
				case 0, 1:
					lo = 0
				case 2, 3:
					hi = n
				case 4:
					lo, hi = c.Intn(n), n
				case 5:
					lo, hi = 0, c.Intn(n)
				case 6: // bytes not there
					k := 1 + c.Intn(8)
					part = append(part, make([]byte, k)...)
					lo, hi = 0, n+k
					if c.coin() {
						for q := n; q < n+k; q++ {
							part[q] = 0xFF
						}
					}
				case 7: // a header field left out of account
					k := c.Intn(min(14, n))
					for q := k; q < min(n, k+1+c.Intn(4)); q++ {
						part[q] = byte(-c.Intn(2))
					}
					lo, hi = 0, n
				}
				if lo < hi {
					if v = refCRC(part[lo:hi]); v != ref {
						c.see("CRC of a part")
						m = append(append([]byte{}, b[:n]...), byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
						c.crcOnly(s, m)
					}
				}
			}},
			{name: "lengths", quick: 4060, thorough: 20000, fn: func(c *ctx, i int) {
				s := &Sec{HasCmd: true, Tier: 0xFFF, Cmd: Cmd{Kind: cmdPrivate, Ident: 7, Bytes: c.bytesN(i % 4060)}}
				b := s.Bits(nil)
				c.see("every length")
				c.setInput("%s", hx(b))
				if _, err, ok := c.decode(b); ok && err != nil {
					c.fail("valid signal rejected", "%v", err)
				}
				k := c.Intn(len(b) * 8)
				m := append([]byte{}, b...)
				m[k/8] ^= 0x80 >> (k % 8)
				c.rejected(m, "one bit flipped")
				b[len(b)-1-c.Intn(4)] ^= byte(1 + c.Intn(255))
				c.crcOnly(s, b)
			}},
			{name: "huge", quick: 160, thorough: 3000, fn: func(c *ctx, i int) {
				// longer than a section_length can say: nothing limits what
				// the decoder is given, and the CRC is to hold there too
				s := c.sec().canon()
				s.Descs = nil
				for n, l := 0, 1000+c.Intn(60000); n < l; {
					d := Desc{Kind: dPriv, Tag: uint32(c.Intn(256)), Ident: 0x01020304, Bytes: c.bytesN(c.Intn(252))}
					s.Descs = append(s.Descs, d)
					n += len(d.Bytes) + 6
				}
				b := s.Bits(nil)
				if len(b) > 4096 {
					c.see("longer than a section")
				}
				c.setInput("%s", hx(b))
				c.distinct(b)
				if _, err, ok := c.decode(b); ok && err != nil {
					c.fail("valid signal rejected", "%v", err)
					return
				}
				m := append([]byte{}, b...)
				for k := 0; k < 6; k++ {
					// spread over the signal and both ends
					q := []int{c.Intn(len(m) * 8), c.Intn(min(len(m), 300) * 8), len(m)*8 - 1 - c.Intn(300*8)}[k%3]
					m[q/8] ^= 0x80 >> (q % 8)
					c.rejected(m, "one bit flipped")
					m[q/8] ^= 0x80 >> (q % 8)
				}
				m[len(m)-1-c.Intn(4)] ^= byte(1 + c.Intn(255))
				c.crcOnly(s, m)
			}},
			{name: "any", quick: 60000, thorough: 2000000, fn: func(c *ctx, i int) {
				b := c.anySignal()
				switch c.Intn(4) {
				case 0: // valid signal followed by or cut by some bytes
					b = c.sec().Bits(nil)
					if c.coin() {
						b = append(b, c.bytesN(1+c.Intn(8))...)
					} else {
						b = b[:len(b)-1-c.Intn(8)]
					}
				case 1: // two bytes exchanged
					if len(b) > 1 {
						k, l := c.Intn(len(b)), c.Intn(len(b))
						b = append([]byte{}, b...)
						b[k], b[l] = b[l], b[k]
					}
				}
				c.setInput("%s", hx(b))
				c.distinct(b)
				_, err, ok := c.decode(b)
				if ok && err == nil && (len(b) < 4 || refCRC(b) != 0) {
					c.fail("accepted with a wrong CRC", "accepted; the last four bytes are not the CRC-32 of the rest")
				}
			}},
		},
	})
}

// edge is the i-th edge value of a field's width.
func edge(bits, i int) uint64 {
	max := ^uint64(0) >> uint(64-bits)
	i %= 2*bits + 4
	switch {
	case i < bits:
		return 1 << uint(i)
	case i < 2*bits:
		return max &^ (1 << uint(i-bits))
	case i == 2*bits:
		return 0
	case i == 2*bits+1:
		return max
	case i == 2*bits+2:
		return max / 3
	}
	return max / 5
}

// emptyLists makes lists without elements any of nil and empty.
func (c *ctx) emptyLists(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			c.emptyLists(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type() != reflect.TypeOf(time.Time{}) {
				c.emptyLists(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Len() == 0 {
			if c.coin() {
				v.SetZero()
			} else {
				v.Set(reflect.MakeSlice(v.Type(), 0, c.Intn(3)))
			}
			c.see("empty list")
		}
		for i := 0; i < v.Len(); i++ {
			c.emptyLists(v.Index(i))
		}
	}
}

func (c *ctx) c04(s *Sec) {
	want := s.Bits(nil)
	c.setInput("%s", s.Dump())
	c.distinct(want)
	x := s.ToLib()
	if c.Intn(6) == 0 {
		c.emptyLists(reflect.ValueOf(x).Elem())
	}
	got, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.fail("encode fails", "%v", err)
		return
	}
	if !sameEnc(want, got, s.EncFlag) {
		sig := diffPart(s, want, got)
		if sig == "" || sig == "tail" {
			sig = "tail"
		}
		c.fail("encoding: "+sig, "%s", byteDiff(want, got))
		return
	}
	var h, b string
	if c.op("Hex", func() { h = x.Hex() }) && h != hex.EncodeToString(got) {
		c.fail("Hex", "Hex() is %s, Encode() gives %x", h, got)
	}
	if c.op("Base64", func() { b = x.Base64() }) && b != base64.StdEncoding.EncodeToString(got) {
		c.fail("Base64", "Base64() is %s, Encode() gives %x", b, got)
	}
	if c.Intn(600) == 0 {
		c.sampleCase(hx(got))
	}
}

// atLimit is a section exactly at a limit of the format.
func (c *ctx) atLimit(i int) *Sec {
	s := &Sec{SAP: c.n32(2), Tier: c.n32(12), PTSAdj: c.num(33), HasCmd: true, Cmd: Cmd{Kind: cmdTime, PTS: u64p(c.num(33))}}
	if c.Intn(5) == 0 {
		s.Alg = 1 + uint32(c.Intn(3))
		s.EncFlag = true
	}
	fill := func(target int) { // private_command up to the section_length
		s.Cmd = Cmd{Kind: cmdPrivate, Ident: c.n32(32)}
		s.Cmd.Bytes = c.bytesN(target - s.secLen())
	}
	switch i % 14 {
	case 0:
		fill(4093)
	case 1:
		fill(4092)
	case 2:
		s.Descs = append(s.Descs, Desc{Kind: dPriv, Tag: 0x80, Ident: 1, Bytes: c.bytesN(251)})
	case 3:
		s.Descs = append(s.Descs, Desc{Kind: dPriv, Tag: 0x80, Ident: 1, Bytes: c.bytesN(250)}, c.descOf(dAvail))
	case 4:
		ins := &Ins{ID: 1, Imm: c.coin()}
		for k := 0; k < 255-i/14%2; k++ {
			ins.Comps = append(ins.Comps, InsComp{Tag: c.n32(8)})
			if !ins.Imm && c.coin() {
				ins.Comps[k].PTS = u64p(c.num(33))
			}
		}
		s.Cmd = Cmd{Kind: cmdInsert, Ins: ins}
	case 5:
		s.Cmd = Cmd{Kind: cmdSchedule}
		for k := 0; k < 255-i/14%2; k++ {
			e := Event{ID: c.n32(32), Cancel: c.p(0.7), Compliance: c.coin()}
			if !e.Cancel {
				e.Program = true
				e.UTC = int64(c.num(32))
			}
			s.Cmd.Sch = append(s.Cmd.Sch, e)
		}
		for s.secLen() > 4093 {
			s.Cmd.Sch[c.Intn(len(s.Cmd.Sch))] = Event{ID: 5, Cancel: true}
		}
	case 6:
		e := Event{ID: 3}
		for k := 0; k < 255-i/14%2; k++ {
			e.Comps = append(e.Comps, EvComp{c.n32(8), int64(c.num(32))})
		}
		s.Cmd = Cmd{Kind: cmdSchedule, Sch: []Event{e}}
	case 7:
		d := Desc{Kind: dAudio}
		for k := 0; k < 15; k++ {
			d.Audio = append(d.Audio, Chan{c.n32(8), c.asciiN(3), c.n32(3), c.n32(4), c.coin()})
		}
		s.Descs = append(s.Descs, d)
	case 8:
		s.Descs = append(s.Descs, Desc{Kind: dDTMF, Preroll: c.n32(8), Chars: c.asciiN(7)})
	case 9, 10: // a segmentation descriptor of exactly 255 or 254 bytes
		g := &Seg{ID: 9, TypeID: 0x34, SubNum: u32p(1), SubExp: u32p(2), Dur: u64p(c.num(40))}
		d := Desc{Kind: dSeg, Seg: g}
		n := 257 - len(d.bits(nil)) - c.Intn(2)
		g.UPIDs = []UPID{refUPID(0x0f, c.bytesN(n))}
		s.Descs = append(s.Descs, d)
	case 11: // the same with components
		g := &Seg{ID: 9, TypeID: 0x10}
		for k := 0; k < 39; k++ {
			g.Comps = append(g.Comps, SegComp{c.n32(8), c.num(33)})
		}
		d := Desc{Kind: dSeg, Seg: g}
		if n := 257 - len(d.bits(nil)); n > 0 {
			g.UPIDs = []UPID{refUPID(0x01, c.bytesN(n))}
		}
		s.Descs = append(s.Descs, d)
	case 12: // many descriptors up to the section_length
		for {
			d := c.desc()
			s.Descs = append(s.Descs, d)
			if s.secLen() > 4093 {
				s.Descs = s.Descs[:len(s.Descs)-1]
				break
			}
		}
	case 13: // MID with exactly the room there is
		g := &Seg{ID: 9, TypeID: 0x22}
		left := 255 - 18
		for left > 2 {
			u := refUPID(0x03, c.bytesN(min(left-2, c.Intn(60))))
			g.UPIDs = append(g.UPIDs, u)
			left -= 2 + len(u.Raw)
		}
		if len(g.UPIDs) == 1 && len(g.UPIDs[0].Raw) == 0 {
			g.UPIDs = nil
		}
		s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: g})
	}
	return s
}

// again re-encodes a decoded section and decodes it once more.
func (c *ctx) again(x *SIS, b []byte) {
	e, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.fail("second encode fails", "%v", err)
		return
	}
	if !bytes.Equal(e, b) {
		c.fail("encoding is not stable", "%s", byteDiff(b, e))
	}
}

func (c *ctx) c05any(b []byte) {
	c.setInput("%s", hx(b))
	x, err, ok := c.decode(b)
	if !ok || err != nil {
		return
	}
	p := parse(b)
	if p.cls != clsOK || !p.wellUPIDs || len(b) > 4092 {
		return
	}
	c.distinct(b)
	c.see("any: accepted")
	if p.stuff > 0 {
		c.see("any: stuffing")
	}
	if p.encFlag {
		c.see("any: encrypted")
	}
	e, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.fail("accepted signal cannot be re-encoded", "%v", err)
		return
	}
	y, err, ok := c.decode(e)
	if !ok {
		return
	}
	if err != nil {
		c.fail("re-encoding does not decode: "+errClass(err), "%v; re-encoding %x", err, e)
		return
	}
	if sig, d := diffWild(p.lines, FromLib(y).Dump()); sig != "" {
		c.fail("re-encoding loses "+sig, "%s; re-encoding %x", d, e)
	}
	if sig, d := diff(FromLib(x).Dump(), FromLib(y).Dump()); sig != "" {
		c.fail("re-encoding changes "+sig, "%s; re-encoding %x", d, e)
	}
	c.again(y, e)
}

// shortSignal is a valid signal of few bytes.
func (c *ctx) shortSignal(i int) []byte {
	if i < len(corpus) && len(corpus[i]) <= 60 && parse(corpus[i]).cls == clsOK {
		return corpus[i]
	}
	for {
		c.profile()
		s := &Sec{SAP: c.n32(2), Tier: c.n32(12), PTSAdj: c.num(33), HasCmd: true, Cmd: c.cmd()}
		if c.coin() {
			s.Descs = append(s.Descs, c.desc())
		}
		if b := s.Bits(c.wireStd()); len(b) <= 60 {
			return b
		}
	}
}

func (c *ctx) rejected(m []byte, how string) {
	c.see(how)
	c.input = ""
	x := &SIS{}
	var err error
	if c.slot != nil {
		c.setInput("%s", hx(m))
	}
	if !c.op("Decode", func() { err = x.Decode(m) }) {
		return
	}
	if err == nil {
		c.setInput("%s", hx(m))
		c.fail("corruption accepted: "+how, "a signal with %s is accepted", how)
	}
	if c.evals%97 == 0 {
		c.distinct(m)
	}
}

// crcOnly: only the CRC is wrong.
func (c *ctx) crcOnly(s *Sec, m []byte) {
	c.setInput("%s", hx(m))
	c.distinct(m)
	c.see("only the CRC wrong")
	x, err, ok := c.decode(m)
	if !ok {
		return
	}
	if err == nil {
		c.fail("wrong CRC accepted", "accepted with CRC %x", m[len(m)-4:])
		return
	}
	if cls := errClass(err); cls != clsCRC {
		c.fail("wrong CRC reported as "+cls, "error is %v", err)
	}
	if sig, d := diff(s.Dump(), FromLib(x).Dump()); sig != "" {
		c.fail("wrong CRC: section differs at "+sig, "%s", d)
	}
	if c.Intn(1000) == 0 {
		c.sampleCase(fmt.Sprintf("error: %v", err))
	}
}
