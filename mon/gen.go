package mon

// Generators of sections: random with a bias to boundary values, dictionary
// values and small alphabets; all values fit their field unless asked for.

import (
	"math/rand"
)

type gen struct {
	*rand.Rand
	d *dictionary
	// the part of the dictionary the current section draws from
	ints []uint64
	strs []string
	// profile of the current section, redrawn per section
	pDict   float64
	pEdge   float64
	big     bool // large counts
	textual bool // only text every document format can carry
	noStuff bool
	noEnc   bool
}

func newGen(seed int64, d *dictionary) *gen {
	return &gen{Rand: rand.New(rand.NewSource(seed)), d: d, ints: d.ints, strs: d.strs}
}

func (g *gen) p(x float64) bool { return g.Float64() < x }

func (g *gen) coin() bool { return g.Intn(2) == 0 }

// profile draws what kind of values the next section is made of.
func (g *gen) profile() {
	switch g.Intn(6) {
	case 0:
		g.pDict, g.pEdge = 0, 0.9
	case 1:
		g.pDict, g.pEdge = 0.6, 0.3
	case 2:
		g.pDict, g.pEdge = 0.95, 0.03
	case 3:
		g.pDict, g.pEdge = 0.05, 0.1
	default:
		g.pDict, g.pEdge = 0.25, 0.35
	}
	g.big = g.p(0.06)
	// all literals, or a few which are neighbours in the sources
	g.ints, g.strs = g.d.ints, g.d.strs
	if k := g.Intn(6); k < 3 {
		seq, n := g.d.intSeq, 1+g.Intn(8)
		if k > 0 {
			seq, n = g.d.cmpSeq, 1+g.Intn(4)
		}
		o := g.Intn(len(seq))
		g.ints = seq[o:min(o+n, len(seq))]
		n = 1 + g.Intn(3)
		o = g.Intn(len(g.d.strSeq))
		g.strs = g.d.strSeq[o:min(o+n, len(g.d.strSeq))]
		g.pDict = []float64{0.4, 0.7, 0.9}[g.Intn(3)]
	}
}

// num is a value of the given width.
func (g *gen) num(bits int) uint64 {
	max := uint64(1)<<uint(bits) - 1
	if bits == 64 {
		max = ^uint64(0)
	}
	x := g.Float64()
	if x < g.pDict {
		v := g.ints[g.Intn(len(g.ints))]
		switch g.Intn(8) {
		case 0:
			v++
		case 1:
			v--
		case 2:
			v <<= uint(g.Intn(bits))
		}
		if v > max {
			v &= max
		}
		return v
	}
	if x < g.pDict+g.pEdge {
		switch g.Intn(9) {
		case 0:
			return 0
		case 1:
			return 1
		case 2:
			return max
		case 3:
			return max - 1
		case 4:
			return max>>1 + 1
		case 5:
			return max >> 1
		case 6:
			return 1 << uint(g.Intn(bits))
		case 7:
			return max &^ (1 << uint(g.Intn(bits)))
		default:
			return uint64(g.Intn(8)) & max
		}
	}
	if g.Intn(3) == 0 { // small
		return g.Uint64() & max >> uint(g.Intn(bits))
	}
	return g.Uint64() & max
}

func (g *gen) n32(bits int) uint32 { return uint32(g.num(bits)) }

// count is a list length up to max.
func (g *gen) count(max int) int {
	if max <= 0 {
		return 0
	}
	if g.big {
		switch g.Intn(4) {
		case 0:
			return max
		case 1:
			return max - 1
		default:
			return g.Intn(max + 1)
		}
	}
	switch g.Intn(12) {
	case 0, 1:
		return 0
	case 2, 3, 4, 5:
		return min(1, max)
	case 6, 7:
		return min(2, max)
	case 8:
		return g.Intn(min(max, 40) + 1)
	case 9:
		if v := g.ints[g.Intn(len(g.ints))]; v <= uint64(max) && v < 64 {
			return int(v)
		}
		return min(1, max)
	default:
		return min(2+g.Intn(6), max)
	}
}

func (g *gen) bytesN(n int) []byte {
	b := make([]byte, n)
	mode := g.Intn(7)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(g.Intn(256))
		case 1:
			b[i] = byte(32 + g.Intn(95))
		case 2:
			b[i] = byte(128 + g.Intn(128))
		case 3:
			b[i] = "0123456789ABCDEF-/.:"[g.Intn(20)]
		case 4:
			b[i] = []byte{0, 0xFF, 0x0A, 0x0D, 0x20, 0x09, 0x2F, 0x7F, 0x80, 0x85, 0xA0, '"', '<', '&', '\\', 'C', 'U', 'E', 'I'}[g.Intn(19)]
		case 5:
			b[i] = byte(g.num(8))
		default:
			b[i] = "abcxyzAZ09 _"[g.Intn(12)]
		}
	}
	if n > 0 && g.p(0.15) {
		s := g.strs[g.Intn(len(g.strs))]
		copy(b[g.Intn(n):], s)
	}
	if n >= 4 && g.p(0.1) {
		v := g.n32(32)
		o := g.Intn(n - 3)
		b[o], b[o+1], b[o+2], b[o+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	return b
}

// text is n bytes of the given alphabet, or dictionary text.
func (g *gen) asciiN(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(33 + g.Intn(94))
	}
	if n > 0 && g.p(0.3) {
		s := g.strs[g.Intn(len(g.strs))]
		for i := range b {
			if i < len(s) && s[i] > 32 && s[i] < 127 {
				b[i] = s[i]
			}
		}
	}
	return string(b)
}

func (g *gen) optPTS() *uint64 {
	if g.p(0.3) {
		return nil
	}
	return u64p(g.num(33))
}

func (g *gen) brk() *Brk {
	if g.p(0.4) {
		return nil
	}
	return &Brk{g.coin(), g.num(33)}
}

func (g *gen) insert() *Ins {
	i := &Ins{ID: g.n32(32)}
	if g.p(0.12) {
		i.Cancel = true
		return i
	}
	i.Out, i.Imm = g.coin(), g.p(0.35)
	i.Program = g.p(0.55)
	if i.Program {
		if !i.Imm {
			i.PTS = g.optPTS()
		}
	} else {
		for n := g.count(255); n > 0; n-- {
			c := InsComp{Tag: g.n32(8)}
			if !i.Imm {
				c.PTS = g.optPTS()
			}
			i.Comps = append(i.Comps, c)
		}
	}
	i.Brk = g.brk()
	i.UPID, i.AvailNum, i.AvailsExp = g.n32(16), g.n32(8), g.n32(8)
	return i
}

func (g *gen) event(maxComps int) Event {
	e := Event{ID: g.n32(32), Compliance: g.coin()}
	if g.p(0.2) {
		e.Cancel = true
		return e
	}
	e.Out = g.coin()
	e.Program = g.p(0.5)
	if e.Program {
		e.UTC = int64(g.num(32))
	} else {
		for n := g.count(maxComps); n > 0; n-- {
			e.Comps = append(e.Comps, EvComp{g.n32(8), int64(g.num(32))})
		}
	}
	e.Brk = g.brk()
	e.UPID, e.AvailNum, e.AvailsExp = g.n32(16), g.n32(8), g.n32(8)
	return e
}

var cmdKinds = []int{cmdNull, cmdSchedule, cmdSchedule, cmdInsert, cmdInsert, cmdInsert, cmdTime, cmdTime, cmdBW, cmdPrivate}

func (g *gen) cmd() Cmd { return g.cmdOf(cmdKinds[g.Intn(len(cmdKinds))]) }

func (g *gen) cmdOf(kind int) Cmd {
	c := Cmd{Kind: kind}
	switch kind {
	case cmdTime:
		c.PTS = g.optPTS()
	case cmdPrivate:
		c.Ident = g.n32(32)
		if g.p(0.1) {
			c.Ident = cuei
		}
		n := g.count(40)
		if g.big && g.coin() {
			n = g.Intn(600)
		}
		c.Bytes = g.bytesN(n)
	case cmdInsert:
		c.Ins = g.insert()
	case cmdSchedule:
		n := g.count(255)
		mc := 255
		if n > 3 {
			mc = 1
			if n < 60 {
				mc = 3
			}
		}
		for ; n > 0; n-- {
			c.Sch = append(c.Sch, g.event(mc))
		}
	}
	return c
}

var segTypes = []uint32{0, 1, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x20, 0x21, 0x22, 0x23, 0x24, 0x25, 0x26, 0x27,
	0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x3b, 0x3c, 0x3d, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x50, 0x51}
var subTypes = []uint32{0x30, 0x32, 0x34, 0x36, 0x38, 0x3a, 0x44, 0x46}

// upid is a well-formed UPID of at most max bytes.
func (g *gen) upid(max int) UPID {
	var t uint32
	switch g.Intn(4) {
	case 0:
		t = g.n32(8)
	case 1:
		t = []uint32{5, 6, 8, 0x0a, 0x0c, 0x0c}[g.Intn(6)]
	default:
		t = uint32(g.Intn(0x12))
	}
	if t == 0x0d {
		t = 0x0e
	}
	return g.upidOf(t, max)
}

func (g *gen) upidOf(t uint32, max int) UPID {
	max = max0(max)
	n := g.count(min(max, 60))
	if g.big && g.p(0.3) {
		n = g.Intn(max + 1)
	}
	switch t {
	case 0x0a:
		if max < 12 {
			return g.upidOf(3, max)
		}
		n = 12
	case 0x08:
		if max < 8 {
			return g.upidOf(3, max)
		}
		v := g.num(64)
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(v >> uint(56-8*i))
		}
		return refUPID(t, b)
	case 0x0c:
		if max < 4 {
			return g.upidOf(3, max)
		}
		if n < 4 {
			n = 4
		}
	}
	b := g.bytesN(n)
	if t == 0x0a && g.p(0.5) {
		v := []int{5237, 5238, 5239, 5240, 0, 65535, 2047, int(g.num(16))}[g.Intn(8)]
		b[0], b[1] = byte(v>>8), byte(v)
	}
	if t == 0x0c && g.p(0.5) {
		v := g.n32(32)
		b[0], b[1], b[2], b[3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
	}
	if g.textual && t != 0x0a && t != 0x0c && t != 5 && t != 6 {
		for i, c := range b {
			if !xmlChar(c) {
				b[i] = 'a' + c%26
			}
		}
	}
	return refUPID(t, b)
}

// xmlChar: characters of Latin-1 text that XML 1.0 can carry.
func xmlChar(c byte) bool { return c >= 0x20 || c == 9 || c == 10 || c == 13 }

func max0(n int) int {
	if n < 0 {
		return 0
	}
	return n
}

func (g *gen) seg() *Seg {
	s := &Seg{ID: g.n32(32), Compliance: g.coin()}
	if g.p(0.1) {
		s.Cancel = true
		return s
	}
	if g.coin() {
		s.Restr = &Restr{g.coin(), g.coin(), g.coin(), g.n32(2)}
	}
	room := 255 - 4 - 4 - 1 - 1 - 2 - 3 - 2 - 5 - 1
	if g.p(0.25) {
		n := g.count(room / 6)
		if n == 0 {
			n = 1
		}
		for ; n > 0; n-- {
			s.Comps = append(s.Comps, SegComp{g.n32(8), g.num(33)})
		}
		room -= 6 * len(s.Comps)
	}
	if g.p(0.6) {
		s.Dur = u64p(g.num(40))
	}
	switch g.Intn(5) {
	case 0:
	case 1, 2, 3:
		u := g.upid(room)
		if len(u.Raw) > 0 {
			s.UPIDs = []UPID{u}
		}
	default:
		n := 2 + g.Intn(4)
		if g.big {
			n = 2 + g.Intn(40)
		}
		for ; n > 0 && room >= 2; n-- {
			u := g.upid(room - 2)
			room -= 2 + len(u.Raw)
			s.UPIDs = append(s.UPIDs, u)
		}
		if len(s.UPIDs) == 1 && len(s.UPIDs[0].Raw) == 0 {
			s.UPIDs = nil
		}
	}
	switch g.Intn(5) {
	case 0:
		s.TypeID = g.n32(8)
	case 1, 2:
		s.TypeID = subTypes[g.Intn(len(subTypes))]
	default:
		s.TypeID = segTypes[g.Intn(len(segTypes))]
	}
	s.Num, s.Exp = g.n32(8), g.n32(8)
	if subPermitted(s.TypeID) && g.coin() {
		s.SubNum, s.SubExp = u32p(g.n32(8)), u32p(g.n32(8))
	}
	return s
}

var descKinds = []int{dAvail, dDTMF, dSeg, dSeg, dSeg, dSeg, dTime, dAudio, dPriv, dPriv}

func (g *gen) desc() Desc { return g.descOf(descKinds[g.Intn(len(descKinds))]) }

func (g *gen) descOf(kind int) Desc {
	d := Desc{Kind: kind}
	switch kind {
	case dAvail:
		d.Avail = g.n32(32)
	case dDTMF:
		d.Preroll = g.n32(8)
		n := g.Intn(8)
		if g.coin() {
			b := make([]byte, n)
			for i := range b {
				b[i] = "0123456789*#ABCD"[g.Intn(16)]
			}
			d.Chars = string(b)
		} else {
			d.Chars = g.asciiN(n)
		}
	case dTime:
		d.TAISec, d.TAINS, d.UTCOff = g.num(48), g.n32(32), g.n32(16)
	case dAudio:
		for n := g.count(15); n > 0; n-- {
			iso := g.asciiN(3)
			if g.coin() {
				iso = []string{"eng", "spa", "fra", "und", "ENG"}[g.Intn(5)]
			}
			d.Audio = append(d.Audio, Chan{g.n32(8), iso, g.n32(3), g.n32(4), g.coin()})
		}
	case dSeg:
		d.Seg = g.seg()
	case dPriv:
		d.Ident = g.n32(32)
		switch g.Intn(4) {
		case 0:
			d.Ident = cuei
			d.Tag = 5 + uint32(g.Intn(251))
		case 1:
			d.Ident = cuei ^ 1<<uint(g.Intn(32))
			d.Tag = uint32(g.Intn(6))
		default:
			d.Tag = g.n32(8)
		}
		if d.Ident == cuei && d.Tag < 5 {
			d.Tag += 5
		}
		n := g.count(40)
		if g.big {
			n = g.count(251)
		}
		d.Bytes = g.bytesN(n)
	}
	return d
}

// sec is a section in canonical form that fits the format.
func (g *gen) sec() *Sec {
	g.profile()
	for {
		s := g.try()
		if s.secLen() <= 4093 {
			return s
		}
		g.big = false
	}
}

func (s *Sec) secLen() int {
	n := 11 + len(s.cmdBits(nil)) + 2 + len(s.Stuff) + 4
	for i := range s.Descs {
		n += len(s.Descs[i].bits(nil))
	}
	if s.EncFlag {
		n += 4
	}
	return n
}

func (g *gen) try() *Sec {
	s := &Sec{SAP: g.n32(2), Proto: g.n32(8), PTSAdj: g.num(33), CW: g.n32(8), Tier: g.n32(12), HasCmd: true}
	if g.p(0.4) {
		s.Proto = 0
	}
	if g.p(0.3) {
		s.PTSAdj = 0
	}
	s.Cmd = g.cmd()
	nd := 0
	switch g.Intn(8) {
	case 0:
	case 1, 2, 3:
		nd = 1
	case 4, 5:
		nd = 2
	case 6:
		nd = 3 + g.Intn(3)
	default:
		nd = g.Intn(12)
		if g.big {
			nd = g.Intn(60)
		}
	}
	for ; nd > 0; nd-- {
		s.Descs = append(s.Descs, g.desc())
	}
	if !g.noEnc && g.p(0.08) {
		s.EncFlag = true
		s.Alg = 1 + uint32(g.Intn(63))
		if g.coin() {
			s.Alg = 1 + uint32(g.Intn(3))
		}
	}
	if !g.noStuff && g.p(0.1) {
		s.Stuff = g.bytesN(1 + g.Intn(9))
	}
	return s
}

// hidden sets fields which the form of the section leaves out.
func (s *Sec) hidden(g *gen, kind int) {
	switch kind {
	case 0:
		ins := g.insert()
		ins.Cancel = true
		s.HasCmd, s.Cmd = true, Cmd{Kind: cmdInsert, Ins: ins}
	case 1:
		ins := &Ins{ID: g.n32(32), Imm: true, Program: g.coin(), PTS: u64p(g.num(33))}
		for k := g.Intn(4); k > 0; k-- {
			ins.Comps = append(ins.Comps, InsComp{g.n32(8), u64p(g.num(33))})
		}
		s.HasCmd, s.Cmd = true, Cmd{Kind: cmdInsert, Ins: ins}
	case 2:
		s.HasCmd, s.Cmd = true, g.cmdOf(cmdSchedule)
		for k := range s.Cmd.Sch {
			if g.coin() {
				s.Cmd.Sch[k].Cancel = true
			}
		}
		if len(s.Cmd.Sch) == 0 {
			s.Cmd.Sch = []Event{g.event(2)}
			s.Cmd.Sch[0].Cancel = true
		}
	case 3:
		h := g.seg()
		h.Cancel = true
		s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: h})
	}
}
