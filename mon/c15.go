package mon

// C15 to C17: times, tables, UPIDs.

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"math"
	"math/big"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// maxTicks is the longest duration the segmentation descriptors of one signal
// add up to: 4093 bytes hold fewer than 256 of them, 40 bits each.
const maxTicks = 1<<48 - 1

// refDur is floor(ticks * 10^9 / 90000).
func refDur(t uint64) time.Duration {
	var b, k big.Int
	b.Mul(b.SetUint64(t), k.SetUint64(1e9))
	b.Div(&b, k.SetUint64(90000))
	return time.Duration(b.Int64())
}

// refTicks is ceil(ns * 90000 / 10^9).
func refTicks(d time.Duration) uint64 {
	var b, k big.Int
	b.Mul(b.SetInt64(int64(d)), k.SetUint64(90000))
	b.Add(&b, k.SetUint64(1e9-1))
	b.Div(&b, k.SetUint64(1e9))
	return b.Uint64()
}

// ticks checks a range of tick counts.
func (c *ctx) ticks(from, n, step uint64) {
	c.setInput("ticks %d + k*%d, k < %d", from, step, n)
	prev, havePrev := time.Duration(0), false
	t := from
	var sig, det string
	c.op("TicksToDuration", func() {
		for k := uint64(0); k < n && t <= maxTicks; k++ {
			d := scte35.TicksToDuration(t)
			// 128-bit free arithmetic: t*100000/9 in parts
			want := time.Duration(t/9*100000 + t%9*100000/9)
			if k%1024 == 0 {
				want = refDur(t)
			}
			switch {
			case d != want:
				sig, det = "ticks to duration", fmt.Sprintf("TicksToDuration(%d) is %d ns, exact is %d", t, d, want)
			case havePrev && d < prev:
				sig, det = "ticks to duration not monotonic", fmt.Sprintf("at %d: %d after %d", t, d, prev)
			default:
				if back := scte35.DurationToTicks(d); back != t {
					sig, det = "ticks there and back", fmt.Sprintf("DurationToTicks(TicksToDuration(%d)) is %d", t, back)
				}
			}
			if sig != "" {
				return
			}
			prev, havePrev = d, true
			c.evals++
			t += step
		}
	})
	c.distinct([]byte(c.input))
	if sig != "" {
		c.fail(sig, "%s", det)
	}
	c.see("ticks")
}

// durations checks durations to ticks.
func (c *ctx) durations(from int64, n int, step int64) {
	c.setInput("durations %d + k*%d ns, k < %d", from, step, n)
	var sig, det string
	prev, havePrev := uint64(0), false
	c.op("DurationToTicks", func() {
		d := from
		for k := 0; k < n && d >= 0; k++ {
			got := scte35.DurationToTicks(time.Duration(d))
			if want := refTicks(time.Duration(d)); got != want {
				sig, det = "duration to ticks", fmt.Sprintf("DurationToTicks(%d ns) is %d, the least not shorter is %d", d, got, want)
				return
			}
			if havePrev && got < prev {
				sig, det = "duration to ticks not monotonic", fmt.Sprintf("at %d ns", d)
				return
			}
			prev, havePrev = got, true
			c.evals++
			if d > math.MaxInt64-step {
				return
			}
			d += step
		}
	})
	c.distinct([]byte(c.input))
	c.see("durations")
	if sig != "" {
		c.fail(sig, "%s", det)
	}
}

// gps checks GPS seconds.
func (c *ctx) gps(from uint64, n uint64, step uint64) {
	c.setInput("GPS seconds %d + k*%d, k < %d", from, step, n)
	var sig, det string
	c.op("UTCSpliceTime", func() {
		for k := uint64(0); k < n; k++ {
			v := from + k*step
			if v > math.MaxUint32 {
				return
			}
			t := scte35.NewUTCSpliceTime(uint32(v))
			if t.Unix() != int64(v)+gpsEpoch || t.Nanosecond() != 0 {
				sig, det = "GPS to UTC", fmt.Sprintf("NewUTCSpliceTime(%d) is %v", v, t.Time.UTC())
				return
			}
			if g := t.GPSSeconds(); g != uint32(v) {
				sig, det = "UTC to GPS", fmt.Sprintf("GPSSeconds of %d is %d", v, g)
				return
			}
			if k%64 == 0 {
				u := scte35.UTCSpliceTime{Time: time.Unix(int64(v)+gpsEpoch, 0).In(zones[k/64%uint64(len(zones))])}
				if k%128 == 0 { // a part of a second does not count
					u.Time = u.Add(time.Duration(c.Intn(1e9)))
					if c.Intn(4) == 0 {
						u.Time = u.Truncate(time.Second).Add(999999999)
					}
				}
				if g := u.GPSSeconds(); g != uint32(v) {
					sig, det = "UTC to GPS", fmt.Sprintf("GPSSeconds of %v is %d, not %d", u.Time, g, v)
					return
				}
			}
			c.evals++
		}
	})
	c.distinct([]byte(c.input))
	c.see("gps")
	if sig != "" {
		c.fail(sig, "%s", det)
	}
}

// refDuration is the duration of a section.
func (s *Sec) refDuration() time.Duration {
	if s.Cmd.Kind == cmdInsert && s.HasCmd && s.Cmd.Ins.Brk != nil {
		return refDur(s.Cmd.Ins.Brk.Dur)
	}
	var t uint64
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil && g.Dur != nil {
			t += *g.Dur
		}
	}
	return refDur(t)
}

func (c *ctx) c15section(i int) {
	s := c.sec()
	switch i % 4 {
	case 0:
		s.Cmd = c.cmdOf(cmdInsert)
	case 1:
		s.Cmd = c.cmdOf(cmdTime)
	case 2:
		for k := c.Intn(4); k > 0; k-- {
			s.Descs = append(s.Descs, c.descOf(dSeg))
		}
	}
	if s.secLen() > 4093 {
		s.Descs, s.Stuff = s.Descs[:0], nil
		if s.secLen() > 4093 {
			return
		}
	}
	s.features(c)
	by := c.Intn(4)
	if by < 2 && c.Intn(3) == 0 { // with fields a cancelled form leaves out
		s.hidden(c.gen, []int{0, 3, 3}[c.Intn(3)])
		c.see("fields left out")
	}
	n := 0
	for k := range s.Descs {
		if g := s.Descs[k].Seg; g != nil && g.Dur != nil {
			n++
		}
	}
	hasBrk := s.Cmd.Kind == cmdInsert && s.Cmd.Ins.Brk != nil
	switch {
	case hasBrk && n > 0:
		c.see("break duration and segmentation durations")
	case hasBrk:
		c.see("break duration")
	case n > 1:
		c.see("several segmentation durations")
	case n == 1:
		c.see("segmentation duration")
	}
	x := &SIS{}
	b := s.Bits(nil)
	c.setInput("%s", hx(b))
	c.distinct(b)
	var err error
	switch by {
	case 0:
		x = s.ToLib()
	case 1:
		j, _ := json.Marshal(s.ToLib())
		if !c.op("json.Unmarshal", func() { err = json.Unmarshal(j, x) }) || err != nil {
			return
		}
	case 2:
		s.xmlText()
		j, _ := xml.Marshal(s.ToLib())
		if !c.op("xml.Unmarshal", func() { err = xml.Unmarshal(j, x) }) || err != nil {
			return
		}
	default:
		if !c.op("Decode", func() { err = x.Decode(b) }) || err != nil {
			return
		}
	}
	var d time.Duration
	if c.op("Duration", func() { d = x.Duration() }) {
		if w := s.refDuration(); d != w {
			c.fail("section duration", "Duration() is %d ns, should be %d ns; %s", d, w, s.Dump())
		}
	}
	if c.Intn(500) == 0 {
		c.sampleCase(fmt.Sprintf("duration %v", d))
	}
}

// ----------------------------------------------------------------- tables

// oneLineText leaves no line breaks in UPID text, which would break a row.
func (s *Sec) oneLineText() *Sec {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k := range g.UPIDs {
				u := &g.UPIDs[k]
				switch u.Type {
				case 5, 6, 8, 0x0a, 0x0c:
					continue
				}
				raw := append([]byte{}, u.Raw...)
				for r, b := range raw {
					if b == '\n' || b == '\r' {
						raw[r] = ' '
					}
				}
				*u = refUPID(u.Type, raw)
			}
		}
	}
	return s
}

var prefixes = []string{"", "", "", "# ", "\t", "  ", "%d ", "%s%!v(", "// ", "»", "{", "}", "splice_info_section() {", ": ", " ", "0"}
var indents = []string{"\t", "\t", "  ", "", " ", "    ", "|", "%", "··", "-> ", "}", "{"}

func (c *ctx) c16(s *Sec, x *SIS) {
	prefix, indent := prefixes[c.Intn(len(prefixes))], indents[c.Intn(len(indents))]
	var got string
	if !c.op("Table", func() { got = x.Table(prefix, indent) }) {
		return
	}
	rows := s.refTable()
	c.feat["rows"] += int64(len(rows))
	if sig, d := matchTable(got, rows, prefix, indent); sig != "" {
		c.fail("table: "+sig, "%s", d)
	}
	if prefix != "" {
		c.see("prefixed")
	}
	if c.Intn(800) == 0 {
		c.sampleCase(got)
	}
}

func (c *ctx) c16sec(s *Sec, i int) {
	s.oneLineText()
	s.features(c)
	c.setInput("%s", s.Dump())
	c.distinct([]byte(c.input))
	x := &SIS{}
	var err error
	switch i % 4 {
	case 1: // as decoded, possibly with stuffing
		b := s.Bits(nil)
		if !c.op("Decode", func() { err = x.Decode(b) }) || err != nil {
			return
		}
		s.EncFlag = s.Alg != 0
		c.see("decoded")
	case 2:
		s.canon()
		j, _ := json.Marshal(s.ToLib())
		if !c.op("json.Unmarshal", func() { err = json.Unmarshal(j, x) }) || err != nil {
			return
		}
		c.see("from JSON")
	default:
		s.canon()
		x = s.ToLib()
	}
	c.c16(s, x)
}

// ------------------------------------------------------------------ UPIDs

// c17one maps one UPID between bytes and text.
func (c *ctx) c17one(t uint32, raw []byte) {
	c.setInput("type %#x bytes %s", t, hx(raw))
	c.distinct(append([]byte{byte(t)}, raw...))
	in := append([]byte{}, raw...)
	var u scte35.SegmentationUPID
	if !c.op("NewSegmentationUPID", func() { u = scte35.NewSegmentationUPID(t, in) }) {
		return
	}
	w := refUPID(t, raw)
	if u.Type != t || u.Format != w.Format || u.Value != w.Val {
		c.fail(fmt.Sprintf("text form of type %s", upidClass(t)), "NewSegmentationUPID gives type %#x format %q value %q, should be %#x %q %q", u.Type, u.Format, u.Value, t, w.Format, w.Val)
		return
	}
	if (u.FormatIdentifier == nil) != (w.FI == nil) || w.FI != nil && *u.FormatIdentifier != *w.FI {
		c.fail("format identifier", "format identifier %v, should be %v", u.FormatIdentifier, w.FI)
		return
	}
	var a, name string
	if !c.op("ASCIIValue", func() { a = u.ASCIIValue() }) {
		return
	}
	want := make([]byte, len(raw))
	for i, b := range raw {
		want[i] = '.'
		if b >= 32 && b < 127 {
			want[i] = b
		}
	}
	if a != string(want) {
		c.fail("ASCIIValue", "type %#x: ASCII form is %q, should be %q", t, a, want)
	}
	if c.op("Name", func() { name = u.Name() }) && name != upidName(t, w.Val) {
		c.fail("UPID name", "type %#x: name is %q, should be %q", t, name, upidName(t, w.Val))
	}
	c.see("UPID " + upidClass(t))
	// through a section, both ways
	if len(raw) == 0 || len(raw) > 230 {
		return
	}
	g := &Seg{ID: c.n32(32), Compliance: true, TypeID: 0x10, UPIDs: []UPID{w}}
	c.c17sec(&Sec{SAP: 3, HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Descs: []Desc{{Kind: dSeg, Seg: g}}})
}

func upidClass(t uint32) string {
	switch t {
	case 5, 6:
		return "ISAN"
	case 8:
		return "TI"
	case 0x0a:
		return "EIDR"
	case 0x0c:
		return "MPU"
	}
	return "text"
}

// c17stated is a UPID given through the API in a format which is not the one
// of its type.
func (c *ctx) c17stated(u UPID, format string) {
	f := u.in(format)
	c.setInput("%+v", f)
	c.distinct([]byte(c.input))
	v := scte35.SegmentationUPID{Type: f.Type, Format: f.Format, FormatIdentifier: cp32(f.FI), Value: f.Val}
	w := scte35.SegmentationUPID{Type: u.Type, Format: u.Format, FormatIdentifier: cp32(u.FI), Value: u.Val}
	var a, b string
	if c.op("ASCIIValue", func() { a, b = v.ASCIIValue(), w.ASCIIValue() }) && a != b {
		c.fail("ASCIIValue of a value in "+format, "type %#x: ASCII form is %q, should be %q", u.Type, a, b)
	}
	if c.op("Name", func() { a, b = v.Name(), w.Name() }) && a != b {
		c.fail("Name of a value in "+format, "type %#x: name is %q, should be %q", u.Type, a, b)
	}
	c.see("value in " + format)
	if len(u.Raw) == 0 {
		return
	}
	g := &Seg{ID: c.n32(32), Compliance: true, TypeID: 0x10, UPIDs: []UPID{f}}
	if c.coin() {
		g.UPIDs = append(g.UPIDs, c.upid(20))
		if c.coin() {
			g.UPIDs = append(g.UPIDs, c.upid(20).in([]string{"hex", "base-64"}[c.Intn(2)]))
		}
	}
	c.c17sec(&Sec{SAP: 3, HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Descs: []Desc{{Kind: dSeg, Seg: g}}})
}

// c17sec carries the UPIDs of a section's descriptors to the wire and back.
func (c *ctx) c17sec(s *Sec) {
	b := s.Bits(nil)
	x := s.ToLib()
	e, err, ok := c.encode(x)
	if !ok {
		return
	}
	if err != nil {
		c.fail("encode fails", "%v", err)
		return
	}
	if !bytes.Equal(e, b) {
		c.fail("bytes of the text form", "%s", byteDiff(b, e))
	}
	y, err, ok := c.decode(b)
	if !ok {
		return
	}
	if err != nil {
		c.fail("decode fails: "+errClass(err), "%v", err)
		return
	}
	if sig, d := diff(s.clone().ownFormats().Dump(), FromLib(y).Dump()); sig != "" {
		c.fail("text form of the bytes: "+sig, "%s", d)
		return
	}
	z := x
	if c.coin() {
		z = y
	}
	for i, sd := range z.SpliceDescriptors {
		if v, ok := sd.(*scte35.SegmentationDescriptor); ok && s.Descs[i].Seg != nil {
			n := 0
			ups := s.Descs[i].Seg.UPIDs
			for _, u := range ups {
				n += len(u.Raw)
				if len(ups) > 1 {
					n += 2
				}
			}
			var got int
			if c.op("SegmentationUpidLength", func() { got = int(v.SegmentationUpidLength()) }) && got != n {
				c.fail("UPID length", "SegmentationUpidLength() is %d, the UPIDs take %d bytes", got, n)
			}
		}
	}
	if e, err, ok = c.encode(y); ok && (err != nil || !bytes.Equal(e, b)) {
		c.fail("bytes there and back", "%v %s", err, byteDiff(b, e))
	}
	if c.Intn(800) == 0 {
		c.sampleCase(FromLib(y).Dump())
	}
}

func init() {
	register(&check{
		id:   "C15",
		rule: "tick counts up to 2^48 (an initial range without gaps, around every power of two, the wrap of 33 and 40 bits, multiples of a second, random), durations over the whole range of time.Duration, GPS seconds (thorough: every 32-bit value), sections with break and segmentation durations; against integer arithmetic checked by math/big; distinct by range or bytes",
		need: []string{"ticks", "durations", "gps", "break duration", "break duration and segmentation durations", "several segmentation durations", "segmentation duration"},
		families: []family{
			{name: "ticks", quick: 200, thorough: 4000, fn: func(c *ctx, i int) { c.ticks(uint64(i)*100000, 100000, 1) }},
			{name: "edges", quick: 49 * 8, thorough: 49 * 8, fn: func(c *ctx, i int) {
				c.ticks(max(uint64(1)<<uint(i%49), 20000)-20000, 40000, 1)
			}},
			{name: "strides", quick: 400, thorough: 20000, fn: func(c *ctx, i int) {
				switch i % 4 {
				case 0:
					c.ticks(uint64(c.Intn(9)), 100000, 90000*uint64(1+c.Intn(7)))
				case 1:
					c.ticks(c.num(33), 50000, 1+c.num(17))
				case 2:
					c.ticks(c.num(40), 50000, 1+c.num(24))
				case 3:
					c.ticks(c.num(48), 50000, 1+c.num(12))
				}
			}},
			{name: "durations", quick: 400, thorough: 20000, fn: func(c *ctx, i int) {
				switch i % 6 {
				case 0:
					c.durations(int64(i/6)*20000, 20000, 1)
				case 1:
					c.durations(int64(c.num(63)>>uint(c.Intn(40))), 10000, 1)
				case 2:
					c.durations(int64(c.num(50)), 10000, 11111)
				case 3:
					c.durations(int64(c.num(30))*int64(time.Second), 10000, int64(time.Millisecond))
				case 4:
					c.durations(math.MaxInt64-int64(c.num(40)), 10000, 1+int64(c.num(20)))
				case 5:
					c.durations(int64(1)<<uint(i/6%63)-min(5000, int64(1)<<uint(i/6%63)), 10000, 1)
				}
			}},
			{name: "gps", quick: 512, thorough: 512, fn: func(c *ctx, i int) {
				n := uint64(1<<32) / 512
				if c.tier == "thorough" {
					c.gps(uint64(i)*n, n, 1)
				} else {
					c.gps(uint64(i)*n+uint64(c.Intn(251)), n/251, 251)
					c.gps(uint64(i)*n, 64, 1)
				}
			}},
			{name: "gpsedges", quick: 33, thorough: 33, fn: func(c *ctx, i int) {
				v := uint64(1) << uint(i)
				c.gps(max(v, 5000)-5000, 10000, 1)
				w := uint64(1)<<32 - uint64(gpsEpoch) // 2^32 seconds after the Unix epoch
				c.gps(w-5000, 10000, 1)
				c.gps(1<<31-gpsEpoch-5000, 10000, 1)
				c.gps(1<<32-10000, 10000, 1)
			}},
			{name: "sections", quick: 80000, thorough: 600000, fn: func(c *ctx, i int) { c.c15section(i) }},
		},
	})
	register(&check{
		id:     "C16",
		rule:   "tables of sections of every form, API-built, decoded (with stuffing) and read from JSON, with various prefixes and indents, matched row by row; distinct by the section's values",
		assume: []string{"UPID text has no line breaks (which would break its row)", "alternative spellings of numbers (hex case) and times are accepted"},
		need:   append([]string{"decoded", "from JSON", "prefixed", "no command", "stuffing", "segmentation types", "UPID types", "names"}, allForms...),
		families: []family{
			{name: "random", quick: 120000, thorough: 1500000, fn: func(c *ctx, i int) {
				s := c.sec()
				if i%50 == 0 {
					s.HasCmd, s.Cmd = false, Cmd{}
					s.canon()
					i = 0
				}
				c.c16sec(s, i)
			}},
			{name: "forms", quick: 6 * 1600, thorough: 100 * 1600, fn: func(c *ctx, i int) { c.c16sec(forms[i%len(forms)](c.gen), i/len(forms)) }},
			{name: "limits", quick: 280, thorough: 5000, fn: func(c *ctx, i int) { c.c16sec(c.atLimit(i), i/14) }},
			{name: "names", quick: 3 * 2048, thorough: 20 * 2048, fn: func(c *ctx, i int) {
				// every type code next to every other field
				g := c.seg()
				g.Cancel, g.SubNum, g.SubExp = false, nil, nil
				s := &Sec{SAP: uint32(i) & 3, Proto: c.n32(8), HasCmd: true, Cmd: Cmd{Kind: cmdTime, PTS: c.optPTS()}, Descs: []Desc{{Kind: dSeg, Seg: g}}}
				switch i / 256 % 4 {
				case 0:
					g.TypeID = uint32(i % 256)
					if subPermitted(g.TypeID) && c.coin() {
						g.SubNum, g.SubExp = u32p(c.n32(8)), u32p(c.n32(8))
					}
					c.see("segmentation types")
				case 1:
					if i%256 == 0x0d {
						return
					}
					g.Comps = nil
					g.UPIDs = []UPID{c.upidOf(uint32(i%256), 40)}
					if len(g.UPIDs[0].Raw) == 0 {
						return
					}
					c.see("UPID types")
				case 2:
					s.Alg = uint32(i % 64)
					g.Restr = &Restr{c.coin(), c.coin(), c.coin(), uint32(i) & 3}
					c.see("names")
				case 3:
					s.Descs = []Desc{{Kind: dPriv, Tag: uint32(i % 256), Ident: c.n32(32) | 0x20000000, Bytes: c.bytesN(c.Intn(20))}, {Kind: dDTMF, Preroll: uint32(i % 256), Chars: c.asciiN(c.Intn(8))}}
				}
				if s.Alg != 0 {
					s.EncFlag = true
				}
				if len(s.Descs[0].bits(nil)) > 257 {
					return
				}
				c.c16sec(s, 0)
			}},
		},
	})
	register(&check{
		id:   "C17",
		rule: "every UPID type with every length and many byte strings, all EIDR prefixes, TI edge values, all single Latin-1 bytes, MIDs of up to 120 UPIDs; between bytes and text through the constructor, the decoder and the encoder; distinct by type and bytes",
		need: []string{"UPID text", "UPID EIDR", "UPID MPU", "UPID TI", "UPID ISAN", "MID", "EIDR prefixes", "MID in a MID", "MID in a full descriptor", "MID of more than 100", "value in hex", "value in base-64"},
		families: []family{
			{name: "types", quick: 512 * 60, thorough: 256 * 1500, fn: func(c *ctx, i int) {
				t := uint32(i % 256)
				if t == 0x0d {
					return
				}
				n := i / 256 % 60
				if n > 40 {
					n = c.Intn(231)
				}
				switch t {
				case 0x0a:
					n = 12
				case 0x08:
					n = 8
				case 0x0c:
					n = max(4, n)
				}
				c.c17one(t, c.bytesN(n))
			}},
			{name: "special", quick: 60000, thorough: 500000, fn: func(c *ctx, i int) {
				t := []uint32{5, 6, 8, 0x0a, 0x0c, 0x0c, 0x09, 0x0e, 0x0f, 0x10, 1, 3}[i%12]
				u := c.upidOf(t, 230)
				c.c17one(u.Type, u.Raw)
			}},
			{name: "eidr", quick: 65536 / 4, thorough: 65536 * 3, fn: func(c *ctx, i int) {
				b := c.bytesN(12)
				v := i * 4
				if c.tier == "thorough" {
					v = i
				} else {
					v += c.Intn(4)
				}
				b[0], b[1] = byte(v>>8), byte(v)
				c.see("EIDR prefixes")
				c.c17one(0x0a, b)
			}},
			{name: "bytes", quick: 256 * 8, thorough: 256 * 40, fn: func(c *ctx, i int) {
				// each byte alone, at either end and in the middle
				v := byte(i)
				t := []uint32{1, 3, 7, 9, 0x0f, 0x10, 0xFF, 0}[i/256%8]
				c.c17one(t, []byte{v})
				c.c17one(t, []byte{v, 'a'})
				c.c17one(t, []byte{'a', v})
				c.c17one(t, []byte{'a', v, v, 'b'})
				c.c17one(6, []byte{v})
				c.c17one(0x0c, []byte{v, v, v, v, v})
				c.c17one(0x0c, []byte{0, v, 'C', 'D'})
			}},
			{name: "ti", quick: 4000, thorough: 100000, fn: func(c *ctx, i int) {
				v := edge(64, i)
				if i > 200 {
					v = c.Uint64() >> uint(c.Intn(64))
				}
				b := make([]byte, 8)
				for k := range b {
					b[k] = byte(v >> uint(56-8*k))
				}
				c.c17one(8, b)
			}},
			{name: "mid", quick: 20000, thorough: 600000, fn: func(c *ctx, i int) {
				g := &Seg{ID: c.n32(32), TypeID: c.n32(8), Compliance: true}
				room := 255 - 15
				if c.coin() {
					g.Dur = u64p(c.num(40))
					room -= 5
				}
				n, nested := 2+c.Intn(5), false
				if i%9 == 0 {
					n = 120
					c.see("MID in a full descriptor")
				}
				small := n == 120 && i%2 == 0 // as many as there can be

				for ; n > 0 && room >= 2; n-- {
					u := c.upid(min(room-2, 1+c.Intn(40)))
					if small {
						u = refUPID([]uint32{1, 2, 3, 4, 7, 9, 0x0e, 0x0f, 0x10, 0x11, 0x80, 6}[c.Intn(12)], c.bytesN(c.Intn(2)*c.Intn(2)))
					}
					if c.Intn(4) == 0 && len(g.UPIDs) > 0 {
						u = g.UPIDs[c.Intn(len(g.UPIDs))]
					}
					if c.Intn(12) == 0 && room > 20 { // one of the types a MID has no use for
						in := c.upid(10)
						u = refUPID(0x0d, append([]byte{byte(in.Type), byte(len(in.Raw))}, in.Raw...))
						nested = true
					}
					if len(u.Raw)+2 > room {
						break
					}
					room -= 2 + len(u.Raw)
					g.UPIDs = append(g.UPIDs, u)
				}
				if len(g.UPIDs) < 2 {
					return
				}
				c.see("MID")
				if len(g.UPIDs) > 100 {
					c.see("MID of more than 100")
				}
				if nested {
					c.see("MID in a MID")
				}
				s := &Sec{SAP: 3, HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Descs: []Desc{{Kind: dSeg, Seg: g}}}
				if c.coin() {
					s.Descs = append(s.Descs, c.descOf(dSeg))
				}
				c.setInput("%s", s.Dump())
				c.distinct(s.Bits(nil))
				c.c17sec(s)
			}},
			{name: "stated", quick: 20000, thorough: 400000, fn: func(c *ctx, i int) {
				u := c.upid(100)
				if i%3 == 0 {
					u = c.upidOf([]uint32{5, 6, 8, 0x0a, 0x0c, 0x0c, 0x09, 3}[i/3%8], 100)
				}
				c.c17stated(u, []string{"hex", "base-64"}[c.Intn(2)])
			}},
			{name: "ascii", quick: 3000, thorough: 50000, fn: func(c *ctx, i int) {
				// the ASCII form of text given through the API
				u := c.upid(60)
				v := scte35.SegmentationUPID{Type: u.Type, Format: u.Format, FormatIdentifier: cp32(u.FI), Value: u.Val}
				c.setInput("%+v", v)
				c.distinct([]byte(c.input))
				var a string
				if !c.op("ASCIIValue", func() { a = v.ASCIIValue() }) {
					return
				}
				if len(a) != len(u.Raw) || strings.IndexFunc(a, func(r rune) bool { return r < 32 || r > 126 }) >= 0 {
					c.fail("ASCIIValue", "ASCII form %q of %x", a, u.Raw)
				}
			}},
		},
	})
}
