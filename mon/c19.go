package mon

// C19: encoding refuses what the binary format cannot hold.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// over is a number beyond a limit, with a liking for those which wrap around
// to something small in a count or length field.
func (g *gen) over(limit int) int {
	switch g.Intn(7) {
	case 0, 1:
		return limit + 1
	case 2:
		return limit + 1 + g.Intn(8)
	case 3: // wraps to a small value
		w := 1
		for w <= limit {
			w *= 2
		}
		return w + g.Intn(4)
	case 4:
		w := 256
		for w <= limit {
			w *= 2
		}
		return w*(1+g.Intn(3)) + g.Intn(20)
	case 5:
		if limit < 60000 && g.Intn(6) == 0 {
			return 65536 + g.Intn(limit+1)
		}
		return 2*limit + 1
	default:
		return limit + 1 + g.Intn(2*limit)
	}
}

// refused hands an API section to the encoder, which has to refuse it.
func (c *ctx) refused(x *SIS, what string) {
	b, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err == nil {
		y := &SIS{}
		_ = y.Decode(b)
		c.fail("accepted: "+what, "encodes without an error to %s", hx(b))
		return
	}
	c.see("refused: " + what)
	c.empties(x, err)
	if c.Intn(100) == 0 {
		c.sampleCase("error: " + err.Error())
	}
}

// empties: without an encoding the text forms are empty.
func (c *ctx) empties(x *SIS, err error) {
	var s string
	if c.op("Base64", func() { s = x.Base64() }) && s != "" {
		c.fail("Base64 not empty", "Encode gives %v, Base64 %q", err, oneLine(s))
	}
	if c.op("Hex", func() { s = x.Hex() }) && s != "" {
		c.fail("Hex not empty", "Encode gives %v, Hex %q", err, oneLine(s))
	}
}

// via passes an API section through a document, or leaves it as it is.
func (c *ctx) via(s *Sec, docs bool) *SIS {
	x := s.ToLib()
	if !docs {
		return x
	}
	y := &SIS{}
	switch c.Intn(4) {
	case 0:
		if b, err := json.Marshal(x); err == nil && json.Unmarshal(b, y) == nil {
			c.see("through JSON")
			return y
		}
	case 1:
		// XML does not keep white space around text
		if s.clone().edgeFree().Dump() != s.Dump() {
			return x
		}
		if b, err := xml.Marshal(x); err == nil && xml.Unmarshal(b, y) == nil {
			c.see("through XML")
			return y
		}
	}
	return x
}

// overLimit makes one thing in a section too large and names it.
func (c *ctx) overLimit(i int) (*Sec, string) {
	s := c.sec()
	s.canon()
	if len(s.Descs) > 4 {
		s.Descs = s.Descs[:4]
	}
	put := func(d Desc) {
		k := c.Intn(len(s.Descs) + 1)
		s.Descs = append(s.Descs[:k:k], append([]Desc{d}, s.Descs[k:]...)...)
	}
	small := func() { s.Cmd = Cmd{Kind: cmdTime} } // the rest is well below the limits
	switch i % 20 {
	case 0:
		s.HasCmd, s.Cmd = false, Cmd{}
		return s, "no command"
	case 1:
		ins := &Ins{ID: c.n32(32), Out: c.coin(), Imm: c.coin(), Brk: c.brk()}
		for n := c.over(255); n > 0; n-- {
			ins.Comps = append(ins.Comps, InsComp{Tag: c.n32(8)})
		}
		s.Cmd = Cmd{Kind: cmdInsert, Ins: ins}
		return s, "splice_insert components"
	case 2:
		e := c.event(0)
		e.Cancel, e.Program, e.Comps = false, false, nil
		for n := c.over(255); n > 0; n-- {
			e.Comps = append(e.Comps, EvComp{c.n32(8), int64(c.num(32))})
		}
		s.Cmd = Cmd{Kind: cmdSchedule, Sch: []Event{e}}
		if c.coin() {
			s.Cmd.Sch = append([]Event{{ID: 1, Cancel: true}}, s.Cmd.Sch...)
		}
		return s, "event components"
	case 3:
		s.Cmd = Cmd{Kind: cmdSchedule}
		n := c.over(255)
		for left := 4000 - s.secLen() - 5*n; n > 0; n-- {
			e := Event{ID: c.n32(32), Cancel: true, Compliance: c.coin()}
			if left > 15 && c.Intn(3) > 0 {
				e = c.event(1)
				left -= 15
			}
			s.Cmd.Sch = append(s.Cmd.Sch, e)
		}
		return s, "events"
	case 4:
		d := Desc{Kind: dAudio}
		for n := c.over(15); n > 0; n-- {
			d.Audio = append(d.Audio, Chan{c.n32(8), "eng", c.n32(3), c.n32(4), c.coin()})
		}
		put(d)
		return s, "audio channels"
	case 5, 6:
		d := c.descOf(dAudio)
		for len(d.Audio) == 0 {
			d = c.descOf(dAudio)
		}
		iso := []string{"", "e", "en", "engl", "english", "é", "日本", "e\x00", "    "}[c.Intn(9)]
		d.Audio[c.Intn(len(d.Audio))].ISO = iso
		if len(d.Audio) > 1 && i%20 == 6 { // two which make up for each other
			k := c.Intn(len(d.Audio))
			for j := range d.Audio {
				d.Audio[j].ISO = "eng"
			}
			d.Audio[k].ISO = "engl"
			d.Audio[(k+1)%len(d.Audio)].ISO = "en"
		}
		put(d)
		return s, "language code"
	case 7:
		n := c.over(7)
		put(Desc{Kind: dDTMF, Preroll: c.n32(8), Chars: c.asciiN(n)})
		return s, "DTMF characters"
	case 8:
		put(Desc{Kind: dPriv, Tag: c.n32(8), Ident: c.n32(31) &^ 1, Bytes: c.bytesN(c.over(251))})
		return s, "private descriptor"
	case 9:
		s.Cmd = Cmd{Kind: cmdPrivate, Ident: c.n32(32), Bytes: c.bytesN(c.over(4093))}
		if c.coin() { // exactly one too many for the section
			s.Cmd.Bytes = nil
			s.Cmd.Bytes = c.bytesN(max0(4094 - s.secLen()))
		}
		return s, "private command"
	case 10:
		small()
		g := c.seg()
		for g.Cancel {
			g = c.seg()
		}
		g.Comps = nil
		for n := c.over(40); n > 0; n-- {
			g.Comps = append(g.Comps, SegComp{c.n32(8), c.num(33)})
		}
		put(Desc{Kind: dSeg, Seg: g})
		return s, "segmentation components"
	case 11, 12:
		small()
		g := c.seg()
		for g.Cancel {
			g = c.seg()
		}
		g.UPIDs = nil
		left := 257 - len((&Desc{Kind: dSeg, Seg: g}).bits(nil))
		t := []uint32{1, 3, 9, 0x0f, 0x0c, 6, 0xFF}[c.Intn(7)]
		n := c.over(max(left, 4))
		if c.coin() {
			n = c.over(255)
		}
		g.UPIDs = []UPID{refUPID(t, c.bytesN(n))}
		put(Desc{Kind: dSeg, Seg: g})
		return s, "UPID"
	case 13, 14:
		small()
		g := c.seg()
		for g.Cancel {
			g = c.seg()
		}
		g.UPIDs = []UPID{c.upidOf(9, 20)}
		if i%20 == 13 { // one of them too long
			g.UPIDs = append(g.UPIDs, refUPID(0x0f, c.bytesN(c.over(255))))
		} else { // all of them together
			for n := 0; n < 256; {
				u := c.upid(60)
				g.UPIDs = append(g.UPIDs, u)
				n += 2 + len(u.Raw)
			}
			if c.Intn(3) == 0 { // past the wrap of the length
				for n := 0; n < 256; n += 42 {
					g.UPIDs = append(g.UPIDs, refUPID(0x0e, c.bytesN(40)))
				}
			}
		}
		c.Shuffle(len(g.UPIDs), func(a, b int) { g.UPIDs[a], g.UPIDs[b] = g.UPIDs[b], g.UPIDs[a] })
		put(Desc{Kind: dSeg, Seg: g})
		return s, "UPIDs"
	case 15, 16:
		g := c.seg()
		for g.Cancel {
			g = c.seg()
		}
		g.SubNum, g.SubExp = nil, nil
		if i%20 == 16 {
			g.TypeID = subTypes[c.Intn(len(subTypes))]
		}
		if len((&Desc{Kind: dSeg, Seg: g}).bits(nil)) > 250 {
			g.UPIDs, g.Comps = nil, nil
		}
		if c.coin() {
			g.SubNum = u32p(c.n32(8))
		} else {
			g.SubExp = u32p(c.n32(8))
		}
		put(Desc{Kind: dSeg, Seg: g})
		return s, "half a sub-segment pair"
	case 17: // nothing too long but the section
		s.Cmd = c.cmd()
		for s.secLen() <= 4093 {
			s.Descs = append(s.Descs, c.desc())
		}
		return s, "section"
	case 18: // exactly one byte too long
		small()
		for s.secLen() <= 4093-300 {
			s.Descs = append(s.Descs, c.desc())
		}
		for left := 4094 - s.secLen(); left > 0; left = 4094 - s.secLen() {
			k := min(max0(left-6), 200)
			if left-6-k > 0 && left-6-k < 6 {
				k -= 6
			}
			if left < 6 {
				s.Descs = append(s.Descs, c.descOf(dAvail))
				break
			}
			s.Descs = append(s.Descs, Desc{Kind: dPriv, Tag: 0x90, Ident: 2, Bytes: c.bytesN(max0(k))})
		}
		return s, "section by little"
	default: // descriptors past the 16 bits of the loop length
		small()
		n := 65536 + c.Intn(3000)
		for len(s.Descs) < 4 || n > 0 {
			d := Desc{Kind: dPriv, Tag: 0x91, Ident: 3, Bytes: make([]byte, 251)}
			s.Descs = append(s.Descs, d)
			n -= 257
		}
		return s, "descriptor loop"
	}
}

// numField is a numeric field of a section with its width on the wire.
type numField struct {
	name string
	bits int
	p32  *uint32
	p64  *uint64
	pi   *int64
}

func (f *numField) get() uint64 {
	switch {
	case f.p32 != nil:
		return uint64(*f.p32)
	case f.p64 != nil:
		return *f.p64
	}
	return uint64(*f.pi)
}

func (f *numField) set(v uint64) {
	switch {
	case f.p32 != nil:
		*f.p32 = uint32(v)
	case f.p64 != nil:
		*f.p64 = v
	default:
		*f.pi = int64(v)
	}
}

// narrow lists the numeric fields narrower than the type which holds them.
func (s *Sec) narrow() (out []numField) {
	a := func(n string, bits int, p *uint32) { out = append(out, numField{n, bits, p, nil, nil}) }
	b := func(n string, bits int, p *uint64) {
		if p != nil {
			out = append(out, numField{n, bits, nil, p, nil})
		}
	}
	u := func(n string, p *int64) { out = append(out, numField{n, 32, nil, nil, p}) }
	a("sap_type", 2, &s.SAP)
	a("protocol_version", 8, &s.Proto)
	if s.Alg != 0 {
		a("encryption_algorithm", 6, &s.Alg)
	}
	b("pts_adjustment", 33, &s.PTSAdj)
	a("cw_index", 8, &s.CW)
	a("tier", 12, &s.Tier)
	brk := func(n string, k *Brk) {
		if k != nil {
			b(n+" duration", 33, &k.Dur)
		}
	}
	switch s.Cmd.Kind {
	case cmdTime:
		b("time_signal pts_time", 33, s.Cmd.PTS)
	case cmdInsert:
		i := s.Cmd.Ins
		if !i.Cancel {
			if i.Program && !i.Imm {
				b("splice_insert pts_time", 33, i.PTS)
			}
			for k := range i.Comps {
				a("splice_insert component_tag", 8, &i.Comps[k].Tag)
				if !i.Imm {
					b("splice_insert component pts_time", 33, i.Comps[k].PTS)
				}
			}
			brk("splice_insert", i.Brk)
			a("splice_insert unique_program_id", 16, &i.UPID)
			a("splice_insert avail_num", 8, &i.AvailNum)
			a("splice_insert avails_expected", 8, &i.AvailsExp)
		}
	case cmdSchedule:
		for k := range s.Cmd.Sch {
			e := &s.Cmd.Sch[k]
			if e.Cancel {
				continue
			}
			if e.Program {
				u("event utc_splice_time", &e.UTC)
			}
			for j := range e.Comps {
				a("event component_tag", 8, &e.Comps[j].Tag)
				u("event component utc_splice_time", &e.Comps[j].UTC)
			}
			brk("event", e.Brk)
			a("event unique_program_id", 16, &e.UPID)
			a("event avail_num", 8, &e.AvailNum)
			a("event avails_expected", 8, &e.AvailsExp)
		}
	}
	for k := range s.Descs {
		d := &s.Descs[k]
		switch d.Kind {
		case dDTMF:
			a("preroll", 8, &d.Preroll)
		case dTime:
			b("TAI_seconds", 48, &d.TAISec)
			a("UTC_offset", 16, &d.UTCOff)
		case dAudio:
			for j := range d.Audio {
				a("audio component_tag", 8, &d.Audio[j].Tag)
				a("bit_stream_mode", 3, &d.Audio[j].BSM)
				a("num_channels", 4, &d.Audio[j].Num)
			}
		case dPriv:
			if d.Ident != cuei {
				a("splice_descriptor_tag", 8, &d.Tag)
			}
		case dSeg:
			g := d.Seg
			if g.Cancel {
				continue
			}
			if g.Restr != nil {
				a("device_restrictions", 2, &g.Restr.Device)
			}
			for j := range g.Comps {
				a("segmentation component_tag", 8, &g.Comps[j].Tag)
				b("pts_offset", 33, &g.Comps[j].Off)
			}
			b("segmentation_duration", 40, g.Dur)
			if g.SubNum == nil {
				a("segmentation_type_id", 8, &g.TypeID)
			} else {
				a("sub_segment_num", 8, g.SubNum)
				a("sub_segments_expected", 8, g.SubExp)
			}
			a("segment_num", 8, &g.Num)
			a("segments_expected", 8, &g.Exp)
			for j := range g.UPIDs {
				switch t := g.UPIDs[j].Type; t {
				case 5, 6, 8, 0x0a, 0x0c, 0x0d:
				default:
					a("segmentation_upid_type", 8, &g.UPIDs[j].Type)
				}
			}
		}
	}
	return out
}

// c19wide makes values too wide and looks at all the other bits.
func (c *ctx) c19wide(s *Sec) {
	s = s.clone().canon() // without shared parts
	fs := s.narrow()
	n := 1
	if c.Intn(3) == 0 {
		n = 1 + c.Intn(len(fs))
	}
	// the encoding with the fields' own values, and with all their bits flipped
	ref := s.Bits(nil)
	var names []string
	var picked []numField
	var wide []uint64
	for _, k := range c.Perm(len(fs))[:n] {
		f := fs[k]
		lim := 64
		if f.p32 != nil {
			lim = 32
		}
		v := f.get()
		hi := uint64(1+c.Intn(3)) << uint(f.bits)
		switch c.Intn(4) {
		case 0:
			hi = 1 << uint(f.bits+c.Intn(lim-f.bits))
		case 1:
			hi = ^uint64(0) << uint(f.bits)
		case 2:
			hi = c.Uint64() << uint(f.bits)
		}
		if f.pi != nil { // seconds, which time.Time can hold
			hi = uint64(int64(hi) >> 20 &^ (1<<32 - 1))
		}
		if lim == 32 {
			hi &= 1<<32 - 1
		}
		if hi == 0 {
			continue
		}
		m := uint64(1)<<uint(f.bits) - 1
		f.set(v ^ m)
		picked, wide = append(picked, f), append(wide, v|hi)
		if f.pi != nil {
			wide[len(wide)-1] = v + hi
		}
		names = append(names, fmt.Sprintf("%s %d (%d bits)", f.name, v|hi, f.bits))
	}
	if len(picked) == 0 {
		return
	}
	flip := s.Bits(nil)
	for k, f := range picked {
		f.set(wide[k])
	}
	c.setInput("%s\n%s", strings.Join(names, ", "), s.Dump())
	c.distinct([]byte(c.input))
	if len(ref) != len(flip) {
		panic("the structure depends on a field taken for plain")
	}
	x := c.via(s, !s.emptied())
	for _, f := range picked {
		c.see("wide " + f.name)
	}
	b, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil { // refusing is fine as well
		c.see("wide value refused")
		c.empties(x, err)
		return
	}
	name := "several fields"
	if len(picked) == 1 {
		name = picked[0].name
	}
	if len(b) != len(ref) {
		c.fail("too wide "+name+" changes the length", "%s: %d bytes should be %d", strings.Join(names, ", "), len(b), len(ref))
		return
	}
	end := len(ref) - 4
	if s.Alg != 0 {
		end -= 4
	}
	for i := 0; i < end; i++ {
		free := ref[i] ^ flip[i]
		if (b[i]^ref[i])&^free != 0 {
			c.fail("too wide "+name+" alters another field", "%s: byte %d is %#02x, should be %#02x but for the bits %#02x; %s", strings.Join(names, ", "), i, b[i], ref[i], free, hx(b))
			return
		}
	}
	if refCRC(b) != 0 {
		c.fail("too wide "+name+": CRC", "%s", hx(b))
	}
}

// sameUPIDText: the text says the same, but for white space around it and
// spellings of the same value.
func sameUPIDText(t uint32, a, b string) bool {
	switch t {
	case 5, 6, 0x0c:
		x, e1 := base64.StdEncoding.DecodeString(strings.TrimSpace(a))
		y, e2 := base64.StdEncoding.DecodeString(strings.TrimSpace(b))
		return e1 == nil && e2 == nil && bytes.Equal(x, y)
	case 8:
		x, ok1 := new(big.Int).SetString(strings.TrimSpace(a), 10)
		y, ok2 := new(big.Int).SetString(strings.TrimSpace(b), 10)
		return ok1 && ok2 && x.Cmp(y) == 0
	case 0x0a:
		f := func(s string) string { // 10.prefix/suffix
			s = strings.ToUpper(strings.TrimSpace(s))
			p := strings.FieldsFunc(s, func(r rune) bool { return r == '.' || r == '/' })
			if len(p) == 3 {
				s = p[0] + "." + strings.TrimLeft(p[1], "0+") + "/" + strings.ReplaceAll(p[2], "-", "")
			}
			return s
		}
		return strings.TrimSpace(a) == strings.TrimSpace(b) || f(a) == f(b)
	}
	return a == b
}

// badText is UPID text, often not valid for its type.
func (c *ctx) badText(t uint32) string {
	u := c.upidOf(t, 40)
	s := u.Val
	cut := func() string {
		if s == "" {
			return ""
		}
		return s[:c.Intn(len(s))]
	}
	switch t {
	case 5, 6, 0x0c:
		return []string{cut(), s + "=", s + "A", "*" + s, s + " " + s, "not base64", strings.ReplaceAll(s, "=", ""), strings.NewReplacer("+", "-", "/", "_").Replace(s), hex.EncodeToString(u.Raw), "=", "AAA", "é", s, " " + s + " ", "A A A A", "0x00"}[c.Intn(16)]
	case 8:
		return []string{"", "x", "0x10", "-1", "1.5", "18446744073709551616", "99999999999999999999999", "1e3", "1 2", "12a", "é", s, "00" + s, " " + s, "+5", "٣", "18446744073709551615", "1_000"}[c.Intn(18)]
	case 0x0a:
		h := func(n int) string { return strings.ToUpper(hex.EncodeToString(c.bytesN(n))) }
		can := "10.5240/" + h(2) + "-" + h(2) + "-" + h(2) + "-" + h(2) + "-" + h(2)
		return []string{can, strings.ToLower(can), can + "-C", can[:len(can)-1], can + "00", "10.5240/AB", "10.5240/" + h(10), "10.5240/" + h(11), "10.5240/" + h(9), "10.65536/" + can[8:], "10.99999/" + can[8:], "10.-1/" + can[8:], "11.5240/" + can[8:], "10.5240", "", "eidr", "10.5240/" + can[8:20] + "/" + can[21:], "10/5240/" + can[8:], "10.5240." + can[8:], "10.0/" + can[8:], "https://doi.org/" + can, can + ".", "/" + can, "10..5240/" + can[8:], "é/x", "abc/efghijkl", "a/b", "10.5240/" + strings.ReplaceAll(can[8:], "-", "--"), "10.5240/" + can[8:] + " x"}[c.Intn(29)]
	}
	return []string{"日本", s + "€", "Ā" + s, "é" + s, "\xff\xfe", s + "\x80", "😀", "a\u0300", "ÿ", "\u0080", "\u0100", s, "—", "\ufffd"}[c.Intn(14)]
}

// c19text: UPID text with or without a binary form.
func (c *ctx) c19text(i int) {
	t := []uint32{5, 6, 8, 0x0a, 0x0c, 1, 9, 0x0f, 3, 0x0a, 8, 0xFF}[i%12]
	g := &Seg{ID: 7, TypeID: 0x10, Compliance: true}
	k, n := 0, 1
	if c.coin() {
		n = 2 + c.Intn(3)
		k = c.Intn(n)
	}
	for j := 0; j < n; j++ {
		u := c.upidOf(3, 10)
		if j == k {
			u = UPID{Type: t, Format: "text", Val: c.badText(t)}
			if t == 0x0c {
				u.FI = u32p(c.n32(32))
			}
		}
		g.UPIDs = append(g.UPIDs, u)
	}
	s := &Sec{SAP: 3, HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Descs: []Desc{{Kind: dSeg, Seg: g}}}
	if c.coin() {
		s.Descs = append(s.Descs, c.descOf(dAvail))
	}
	c.setInput("UPID %d of %d, type %#x: %q", k, n, t, g.UPIDs[k].Val)
	c.distinct([]byte(c.input))
	x := s.ToLib()
	b, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.see("text refused, type " + upidClass(t))
		// a sound text is not to be refused
		if w := g.UPIDs[k].Val; upidTextSound(t, w) {
			c.fail("sound text refused, type "+upidClass(t), "%q: %v", w, err)
		}
		c.empties(x, err)
		return
	}
	c.see("text accepted, type " + upidClass(t))
	y, err, ok := c.decode(b)
	if !ok {
		return
	}
	if err != nil {
		c.fail("encodes to what does not decode", "%v: %s", err, hx(b))
		return
	}
	if len(y.SpliceDescriptors) != len(s.Descs) {
		c.fail("descriptors lost", "%s", hx(b))
		return
	}
	got, isSeg := y.SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
	if !isSeg {
		c.fail("another descriptor", "%s", hx(b))
		return
	}
	if len(got.SegmentationUPIDs) != n {
		if n == 1 && len(got.SegmentationUPIDs) == 0 && strings.TrimSpace(g.UPIDs[k].Val) == "" {
			return // nothing at all
		}
		c.fail("UPIDs lost, type "+upidClass(t), "%d UPIDs come back as %d: %s", n, len(got.SegmentationUPIDs), hx(b))
		return
	}
	for j, u := range got.SegmentationUPIDs {
		w := g.UPIDs[j]
		if u.Type != w.Type || !sameUPIDText(u.Type, w.Val, u.Value) {
			c.fail("text comes back as another, type "+upidClass(w.Type), "UPID %d of type %#x %q comes back as type %#x %q: %s", j, w.Type, w.Val, u.Type, u.Value, hx(b))
			return
		}
	}
}

// upidTextSound: text in the canonical form of its type.
func upidTextSound(t uint32, s string) bool {
	switch t {
	case 5, 6, 0x0c:
		b, err := base64.StdEncoding.DecodeString(s)
		return err == nil && base64.StdEncoding.EncodeToString(b) == s
	case 8:
		v, ok := new(big.Int).SetString(s, 10)
		return ok && v.Sign() >= 0 && v.BitLen() <= 64 && v.String() == s
	case 0x0a:
		p, rest, ok := strings.Cut(s, "/")
		v, ok2 := new(big.Int).SetString(strings.TrimPrefix(p, "10."), 10)
		if !ok || !ok2 || v.Sign() < 0 || v.BitLen() > 16 || p != "10."+v.String() || len(rest) != 24 {
			return false
		}
		for i, r := range rest {
			if i%5 == 4 && r != '-' || i%5 != 4 && !strings.ContainsRune("0123456789ABCDEF", r) {
				return false
			}
		}
		return true
	}
	for _, r := range s {
		if r > 0xFF {
			return false
		}
	}
	return strings.ToValidUTF8(s, "") == s
}

// wildEdit changes something somewhere inside a value.
func (c *ctx) wildEdit(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() && c.Intn(60) > 0 {
			c.wildEdit(v.Elem())
		} else if v.Type().Name() == "SpliceCommand" && c.Intn(4) == 0 {
			v.SetZero()
		}
	case reflect.Pointer:
		switch {
		case v.IsNil():
			if v.CanSet() {
				v.Set(reflect.New(v.Type().Elem()))
				c.wildEdit(v.Elem())
			}
		case v.CanSet() && c.Intn(4) == 0:
			v.SetZero()
		default:
			c.wildEdit(v.Elem())
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(int64(c.Uint64()>>uint(8+c.Intn(50)))-int64(c.num(36)), int64(c.Intn(1e9)))))
			return
		}
		var fs []int
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && f.Name != "XMLName" && f.Name != "JSONType" {
				fs = append(fs, i)
			}
		}
		if len(fs) > 0 {
			c.wildEdit(v.Field(fs[c.Intn(len(fs))]))
		}
	case reflect.Slice:
		n := v.Len()
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes(c.bytesN(c.over(1 + c.Intn(300))))
			return
		}
		switch c.Intn(4) {
		case 0:
			v.Set(v.Slice(0, c.Intn(n+1)))
			return
		case 1:
			for k := c.over(1 + c.Intn(255)); n > 0 && k > 0 && v.Len() < 600; k-- {
				v.Set(reflect.Append(v, v.Index(c.Intn(n))))
			}
			return
		case 2:
			if e := v.Type().Elem(); e.Kind() == reflect.Struct {
				z := reflect.New(e).Elem()
				c.wildEdit(z)
				v.Set(reflect.Append(v, z))
			}
			return
		}
		if n > 0 {
			c.wildEdit(v.Index(c.Intn(n)))
		}
	case reflect.String:
		v.SetString([]string{"", "x", string(c.bytesN(c.Intn(40))), c.badText(8), c.badText(0x0a), c.badText(5), c.badText(1), strings.Repeat("é", c.Intn(200))}[c.Intn(8)])
	case reflect.Uint32, reflect.Uint64:
		if c.coin() {
			v.SetUint(c.num(64) & (1<<uint(v.Type().Bits()) - 1))
		} else {
			v.SetUint(c.num(10))
		}
	case reflect.Bool:
		v.SetBool(!v.Bool())
	}
}

// c19wild: whatever the fields hold, what is emitted is a section.
func (c *ctx) c19wild(i int) {
	s := c.sec()
	x := s.canon().ToLib()
	n := 1 + c.Intn(6)
	x = cloneLib(x)
	for ; n > 0; n-- {
		c.wildEdit(reflect.ValueOf(x).Elem())
	}
	for _, d := range x.SpliceDescriptors {
		if v, ok := d.(*scte35.PrivateDescriptor); ok && v.Identifier == cuei {
			v.Identifier++
		}
	}
	c.setInput("%s", snapshot(x))
	c.distinct([]byte(c.input))
	b, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.see("wild refused")
		c.empties(x, err)
		return
	}
	c.see("wild accepted")
	if len(b) < 15 || len(b)-3 != int(b[1]&0x0F)<<8|int(b[2]) || refCRC(b) != 0 {
		c.fail("emits no section", "%s", hx(b))
		return
	}
	if _, err, ok = c.decode(b); ok && err != nil {
		c.fail("emits what does not decode: "+errClass(err), "%v: %s", err, hx(b))
	}
	var t string
	if c.op("Hex", func() { t = x.Hex() }) && t != hex.EncodeToString(b) {
		c.fail("Hex differs", "%s", t)
	}
}

func init() {
	var need []string
	for _, w := range []string{"no command", "splice_insert components", "event components", "events", "audio channels", "language code", "DTMF characters", "private descriptor", "private command", "segmentation components", "UPID", "UPIDs", "half a sub-segment pair", "section", "section by little", "descriptor loop"} {
		need = append(need, "refused: "+w)
	}
	need = append(need, "through JSON", "through XML", "text refused, type EIDR", "text refused, type TI", "text refused, type ISAN", "text refused, type MPU", "text refused, type text", "wild accepted", "wild refused",
		"wide sap_type", "wide tier", "wide pts_adjustment", "wide segmentation_duration", "wide bit_stream_mode", "wide num_channels", "wide device_restrictions", "wide event utc_splice_time", "wide TAI_seconds")
	register(&check{
		id:     "C19",
		rule:   "sections beyond each limit of the format by one, by little, by amounts which wrap around the count or length field and by much, built through the API, JSON or XML; numeric fields with bits above their width; UPID text of each type, sound and not; sections with arbitrary values; distinct by the section's values",
		assume: []string{"fields which the syntax leaves out (of a cancelled or immediate splice, program and components together) are not part of a section", "a private descriptor does not pose as a known one", "a too wide UPID type or descriptor tag does not become another special one", "UPID text which denotes the same bytes in another spelling is the same"},
		need:   need,
		families: []family{
			{name: "limits", quick: 20 * 800, thorough: 20 * 30000, fn: func(c *ctx, i int) {
				if i%20 == 19 && i%200 != 19 {
					i--
				}
				s, what := c.overLimit(i)
				c.setInput("%s: %s", what, s.Dump())
				c.distinct([]byte(c.input))
				docs := s.HasCmd && what != "language code"
				c.refused(c.via(s, docs), what)
			}},
			{name: "wide", quick: 60000, thorough: 2000000, fn: func(c *ctx, i int) {
				if i%2 == 0 {
					c.c19wide(c.sec())
				} else {
					c.c19wide(forms[i/2%len(forms)](c.gen))
				}
			}},
			{name: "text", quick: 12 * 2500, thorough: 12 * 50000, fn: func(c *ctx, i int) { c.c19text(i) }},
			{name: "wild", quick: 20000, thorough: 600000, fn: func(c *ctx, i int) { c.c19wild(i) }},
		},
	})
}
