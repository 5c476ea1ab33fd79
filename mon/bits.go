package mon

// Reference bit-level writer: the layouts of SCTE 35 tables 5 to 29.

import "fmt"

type bitw struct {
	b []byte
	n int // bits
}

func (w *bitw) bit(v bool) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	if v {
		w.b[w.n/8] |= 0x80 >> (w.n % 8)
	}
	w.n++
}

func (w *bitw) u(bits int, v uint64) {
	for i := bits - 1; i >= 0; i-- {
		w.bit(v>>uint(i)&1 == 1)
	}
}

func (w *bitw) bytes(p []byte) {
	for _, c := range p {
		w.u(8, uint64(c))
	}
}

// wireOpt selects the form of the encoding.
type wireOpt struct {
	res      func() bool // value of each reserved bit; nil: ones
	legacy   bool        // splice_command_length 0xFFF
	ecrc     uint32      // E_CRC_32 of encrypted sections
	useECRC  bool        // use ecrc instead of the CRC over the bytes so far
	tableID  uint64
	junkHdr  bool   // arbitrary table_id, indicators and section_length
	hdr      uint64 // for junkHdr
	noCRCFix bool
}

func (o *wireOpt) r(w *bitw, n int) {
	for i := 0; i < n; i++ {
		if o != nil && o.res != nil {
			w.bit(o.res())
		} else {
			w.bit(true)
		}
	}
}

// refCRC is the MPEG-2 CRC-32, bit by bit.
func refCRC(b []byte) uint32 {
	crc := uint32(0xFFFFFFFF)
	for _, c := range b {
		crc ^= uint32(c) << 24
		for i := 0; i < 8; i++ {
			if crc&0x80000000 != 0 {
				crc = crc<<1 ^ 0x04C11DB7
			} else {
				crc <<= 1
			}
		}
	}
	return crc
}

func withCRC(b []byte) []byte {
	c := refCRC(b)
	return append(append([]byte{}, b...), byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
}

// fixCRC replaces the last four bytes with the CRC of those before them.
func fixCRC(b []byte) []byte {
	if len(b) < 4 {
		return b
	}
	return withCRC(b[:len(b)-4])
}

func (s *Sec) cmdBits(o *wireOpt) []byte {
	w := &bitw{}
	c := &s.Cmd
	brk := func(b *Brk) {
		if b != nil {
			w.bit(b.Auto)
			o.r(w, 6)
			w.u(33, b.Dur)
		}
	}
	stime := func(p *uint64) {
		w.bit(p != nil)
		if p != nil {
			o.r(w, 6)
			w.u(33, *p)
		} else {
			o.r(w, 7)
		}
	}
	switch c.Kind {
	case cmdNull, cmdBW:
	case cmdTime:
		stime(c.PTS)
	case cmdPrivate:
		w.u(32, uint64(c.Ident))
		w.bytes(c.Bytes)
	case cmdInsert:
		i := c.Ins
		w.u(32, uint64(i.ID))
		w.bit(i.Cancel)
		o.r(w, 7)
		if !i.Cancel {
			w.bit(i.Out)
			w.bit(i.Program)
			w.bit(i.Brk != nil)
			w.bit(i.Imm)
			o.r(w, 4)
			if i.Program && !i.Imm {
				stime(i.PTS)
			}
			if !i.Program {
				w.u(8, uint64(len(i.Comps)))
				for _, cc := range i.Comps {
					w.u(8, uint64(cc.Tag))
					if !i.Imm {
						stime(cc.PTS)
					}
				}
			}
			brk(i.Brk)
			w.u(16, uint64(i.UPID))
			w.u(8, uint64(i.AvailNum))
			w.u(8, uint64(i.AvailsExp))
		}
	case cmdSchedule:
		w.u(8, uint64(len(c.Sch)))
		for k := range c.Sch {
			e := &c.Sch[k]
			w.u(32, uint64(e.ID))
			w.bit(e.Cancel)
			w.bit(!e.Compliance)
			o.r(w, 6)
			if !e.Cancel {
				w.bit(e.Out)
				w.bit(e.Program)
				w.bit(e.Brk != nil)
				o.r(w, 5)
				if e.Program {
					w.u(32, uint64(e.UTC))
				} else {
					w.u(8, uint64(len(e.Comps)))
					for _, cc := range e.Comps {
						w.u(8, uint64(cc.Tag))
						w.u(32, uint64(cc.UTC))
					}
				}
				brk(e.Brk)
				w.u(16, uint64(e.UPID))
				w.u(8, uint64(e.AvailNum))
				w.u(8, uint64(e.AvailsExp))
			}
		}
	default:
		panic("bad kind")
	}
	if w.n%8 != 0 {
		panic(fmt.Sprintf("reference command is %d bits", w.n))
	}
	return w.b
}

func (x *Desc) bits(o *wireOpt) []byte {
	w := &bitw{}
	tag, ident := uint64(0), uint64(cuei)
	switch x.Kind {
	case dAvail:
		tag = 0
		w.u(32, uint64(x.Avail))
	case dDTMF:
		tag = 1
		w.u(8, uint64(x.Preroll))
		w.u(3, uint64(len(x.Chars)))
		o.r(w, 5)
		w.bytes([]byte(x.Chars))
	case dTime:
		tag = 3
		w.u(48, x.TAISec)
		w.u(32, uint64(x.TAINS))
		w.u(16, uint64(x.UTCOff))
	case dAudio:
		tag = 4
		w.u(4, uint64(len(x.Audio)))
		o.r(w, 4)
		for _, c := range x.Audio {
			w.u(8, uint64(c.Tag))
			w.bytes([]byte(c.ISO))
			w.u(3, uint64(c.BSM))
			w.u(4, uint64(c.Num))
			w.bit(c.Full)
		}
	case dPriv:
		tag, ident = uint64(x.Tag), uint64(x.Ident)
		w.bytes(x.Bytes)
	case dSeg:
		tag = 2
		g := x.Seg
		w.u(32, uint64(g.ID))
		w.bit(g.Cancel)
		w.bit(!g.Compliance)
		o.r(w, 6)
		if !g.Cancel {
			compMode := len(g.Comps) > 0 || g.ZeroComps
			w.bit(!compMode)
			w.bit(g.Dur != nil)
			w.bit(g.Restr == nil)
			if g.Restr != nil {
				w.bit(g.Restr.Web)
				w.bit(g.Restr.Regional)
				w.bit(g.Restr.Archive)
				w.u(2, uint64(g.Restr.Device))
			} else {
				o.r(w, 5)
			}
			if compMode {
				w.u(8, uint64(len(g.Comps)))
				for _, c := range g.Comps {
					w.u(8, uint64(c.Tag))
					o.r(w, 7)
					w.u(33, c.Off)
				}
			}
			if g.Dur != nil {
				w.u(40, *g.Dur)
			}
			switch {
			case len(g.UPIDs) == 0:
				if g.ForceMID {
					w.u(8, 0x0d)
				} else {
					w.u(8, 0)
				}
				w.u(8, 0)
			case len(g.UPIDs) == 1 && !g.ForceMID:
				w.u(8, uint64(g.UPIDs[0].Type))
				w.u(8, uint64(len(g.UPIDs[0].Raw)))
				w.bytes(g.UPIDs[0].Raw)
			default:
				m := &bitw{}
				for _, u := range g.UPIDs {
					m.u(8, uint64(u.Type))
					m.u(8, uint64(len(u.Raw)))
					m.bytes(u.Raw)
				}
				w.u(8, 0x0d)
				w.u(8, uint64(len(m.b)))
				w.bytes(m.b)
			}
			w.u(8, uint64(g.TypeID))
			w.u(8, uint64(g.Num))
			w.u(8, uint64(g.Exp))
			if g.SubNum != nil {
				w.u(8, uint64(*g.SubNum))
				w.u(8, uint64(*g.SubExp))
			}
		}
	}
	if w.n%8 != 0 {
		panic(fmt.Sprintf("reference descriptor %d is %d bits", x.Kind, w.n))
	}
	h := &bitw{}
	h.u(8, tag)
	h.u(8, uint64(len(w.b)+4))
	h.u(32, ident)
	return append(h.b, w.b...)
}

// wireType is the splice_command_type.
func (c *Cmd) wireType() uint32 {
	if c.Kind == cmdPrivate && c.WireType != 0 {
		return c.WireType
	}
	return uint32(c.Kind)
}

// Bits is the reference encoding.
func (s *Sec) Bits(o *wireOpt) []byte {
	cmd := s.cmdBits(o)
	var descs []byte
	for i := range s.Descs {
		descs = append(descs, s.Descs[i].bits(o)...)
	}
	total := 14 + len(cmd) + 2 + len(descs) + len(s.Stuff) + 4
	if s.EncFlag {
		total += 4
	}
	w := &bitw{}
	if o != nil && o.junkHdr {
		w.u(8, o.hdr>>16)
		w.u(2, o.hdr>>14)
		w.u(2, uint64(s.SAP))
		w.u(12, o.hdr)
	} else {
		w.u(8, 0xFC)
		w.bit(false)
		w.bit(false)
		w.u(2, uint64(s.SAP))
		w.u(12, uint64(total-3))
	}
	w.u(8, uint64(s.Proto))
	w.bit(s.EncFlag)
	w.u(6, uint64(s.Alg))
	w.u(33, s.PTSAdj)
	w.u(8, uint64(s.CW))
	w.u(12, uint64(s.Tier))
	if o != nil && o.legacy {
		w.u(12, 0xFFF)
	} else {
		w.u(12, uint64(len(cmd)))
	}
	w.u(8, uint64(s.Cmd.wireType()))
	w.bytes(cmd)
	w.u(16, uint64(len(descs)))
	w.bytes(descs)
	w.bytes(s.Stuff)
	if s.EncFlag {
		e := refCRC(w.b)
		if o != nil && o.useECRC {
			e = o.ecrc
		}
		w.u(32, uint64(e))
	}
	return withCRC(w.b)
}
