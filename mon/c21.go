package mon

// C21: derived accessors, names and constructors.

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// fact is the value of one derived accessor.
type fact struct{ name, val string }

func fct(name string, v any) fact { return fact{name, fmt.Sprint(v)} }

// libFacts asks the library; every accessor is called under watch.
func (c *ctx) libFacts(x *SIS) (out []fact, ok bool) {
	ok = c.op("accessors", func() {
		p := func(n string, v any) { out = append(out, fct(n, v)) }
		p("EncryptedPacketFlag", x.EncryptedPacketFlag())
		p("SAPTypeName", x.SAPTypeName())
		if x.SpliceCommand != nil {
			p("Type", x.SpliceCommand.Type())
		}
		switch v := x.SpliceCommand.(type) {
		case *scte35.SpliceInsert:
			p("SpliceInsert.ProgramSpliceFlag", v.ProgramSpliceFlag())
			p("SpliceInsert.DurationFlag", v.DurationFlag())
			p("SpliceInsert.TimeSpecifiedFlag", v.TimeSpecifiedFlag())
			p("SpliceInsertProgram.TimeSpecifiedFlag", v.Program.TimeSpecifiedFlag())
			if v.Program != nil {
				p("SpliceTime.TimeSpecifiedFlag", v.Program.SpliceTime.TimeSpecifiedFlag())
			}
			for i := range v.Components {
				p("SpliceInsertComponent.TimeSpecifiedFlag", v.Components[i].TimeSpecifiedFlag())
			}
		case *scte35.SpliceSchedule:
			for i := range v.Events {
				p("Event.ProgramSpliceFlag", v.Events[i].ProgramSpliceFlag())
				p("Event.DurationFlag", v.Events[i].DurationFlag())
			}
		case *scte35.TimeSignal:
			p("SpliceTime.TimeSpecifiedFlag", v.SpliceTime.TimeSpecifiedFlag())
		case *scte35.PrivateCommand:
			p("PrivateCommand.IdentifierString", v.IdentifierString())
		}
		for _, d := range x.SpliceDescriptors {
			p("Tag", d.Tag())
			switch v := d.(type) {
			case *scte35.SegmentationDescriptor:
				p("SegmentationDescriptor.Name", v.Name())
				p("SegmentationDescriptor.ProgramSegmentationFlag", v.ProgramSegmentationFlag())
				p("SegmentationDescriptor.SegmentationDurationFlag", v.SegmentationDurationFlag())
				p("SegmentationDescriptor.DeliveryNotRestrictedFlag", v.DeliveryNotRestrictedFlag())
				p("SegmentationDescriptor.SegmentationUpidLength", v.SegmentationUpidLength())
				for i := range v.SegmentationUPIDs {
					u := &v.SegmentationUPIDs[i]
					p("SegmentationUPID.Name", u.Name())
				}
			case *scte35.PrivateDescriptor:
				p("PrivateDescriptor.IdentifierString", v.IdentifierString())
			}
		}
	})
	return
}

func ident(v uint32) string { return string(binary.BigEndian.AppendUint32(nil, v)) }

// facts is what the section's fields imply.
func (s *Sec) facts() (out []fact) {
	p := func(n string, v any) { out = append(out, fct(n, v)) }
	p("EncryptedPacketFlag", s.Alg != 0)
	p("SAPTypeName", sapName(s.SAP))
	if s.HasCmd {
		p("Type", map[int]int{cmdNull: 0, cmdSchedule: 4, cmdInsert: 5, cmdTime: 6, cmdBW: 7, cmdPrivate: 255}[s.Cmd.Kind])
		switch s.Cmd.Kind {
		case cmdInsert:
			i := s.Cmd.Ins
			p("SpliceInsert.ProgramSpliceFlag", i.Program)
			p("SpliceInsert.DurationFlag", i.Brk != nil)
			p("SpliceInsert.TimeSpecifiedFlag", i.Program && i.PTS != nil)
			p("SpliceInsertProgram.TimeSpecifiedFlag", i.Program && i.PTS != nil)
			if i.Program {
				p("SpliceTime.TimeSpecifiedFlag", i.PTS != nil)
			}
			for _, k := range i.Comps {
				p("SpliceInsertComponent.TimeSpecifiedFlag", k.PTS != nil)
			}
		case cmdSchedule:
			for _, e := range s.Cmd.Sch {
				p("Event.ProgramSpliceFlag", e.Program)
				p("Event.DurationFlag", e.Brk != nil)
			}
		case cmdTime:
			p("SpliceTime.TimeSpecifiedFlag", s.Cmd.PTS != nil)
		case cmdPrivate:
			p("PrivateCommand.IdentifierString", ident(s.Cmd.Ident))
		}
	}
	for i := range s.Descs {
		d := &s.Descs[i]
		t := uint32(d.Kind)
		if d.Kind == dPriv {
			t = d.Tag
		}
		p("Tag", t)
		switch d.Kind {
		case dSeg:
			g := d.Seg
			p("SegmentationDescriptor.Name", segName(g.TypeID))
			p("SegmentationDescriptor.ProgramSegmentationFlag", len(g.Comps) == 0)
			p("SegmentationDescriptor.SegmentationDurationFlag", g.Dur != nil)
			p("SegmentationDescriptor.DeliveryNotRestrictedFlag", g.Restr == nil)
			n := 0
			for _, u := range g.UPIDs {
				n += len(u.Raw)
				if len(g.UPIDs) > 1 {
					n += 2
				}
			}
			p("SegmentationDescriptor.SegmentationUpidLength", n)
			for _, u := range g.UPIDs {
				p("SegmentationUPID.Name", upidName(u.Type, u.own().Val))
			}
		case dPriv:
			p("PrivateDescriptor.IdentifierString", ident(d.Ident))
		}
	}
	return
}

// wireFacts reads the flags and lengths from an encoded section, without
// regard to any model; what the syntax leaves out is not mentioned.
func wireFacts(b []byte) (out map[string]string, ok bool) {
	out = map[string]string{}
	p := func(n string, v any) { out[n] = fmt.Sprint(v) }
	r := &bitr{b: b}
	cls := r.guard(func() {
		r.u(10)
		p("SAPTypeName", sapName(uint32(r.u(2))))
		r.u(20)
		p("EncryptedPacketFlag", r.bit())
		r.u(6 + 33 + 8 + 12)
		n := int(r.u(12))
		t := r.u(8)
		p("Type", t)
		q := &bitr{b: r.bytes(n)}
		tm := func() bool {
			if q.bit() {
				q.u(39)
				return true
			}
			q.u(7)
			return false
		}
		switch t {
		case cmdInsert:
			q.u(32)
			if q.bit() {
				break
			}
			q.u(8)
			prog, dur, imm := q.bit(), q.bit(), q.bit()
			q.u(4)
			p("SpliceInsert.ProgramSpliceFlag", prog)
			p("SpliceInsert.DurationFlag", dur)
			if prog && !imm {
				v := tm()
				p("SpliceInsert.TimeSpecifiedFlag", v)
				p("SpliceInsertProgram.TimeSpecifiedFlag", v)
				p("SpliceTime.TimeSpecifiedFlag", v)
			} else if !prog {
				for k, m := 0, int(q.u(8)); k < m; k++ {
					q.u(8)
					if !imm {
						p(ix("SpliceInsertComponent.TimeSpecifiedFlag", k), tm())
					}
				}
			}
		case cmdSchedule:
			for k, m := 0, int(q.u(8)); k < m; k++ {
				q.u(32)
				cancel := q.bit()
				q.u(7)
				if cancel {
					continue
				}
				q.u(1)
				prog, dur := q.bit(), q.bit()
				q.u(5)
				p(ix("Event.ProgramSpliceFlag", k), prog)
				p(ix("Event.DurationFlag", k), dur)
				if prog {
					q.u(32)
				} else {
					q.bytes(5 * int(q.u(8)))
				}
				if dur {
					q.u(40)
				}
				q.u(32)
			}
		case cmdTime:
			p("SpliceTime.TimeSpecifiedFlag", tm())
		case cmdPrivate:
			p("PrivateCommand.IdentifierString", string(q.bytes(4)))
		}
		l := &bitr{b: r.bytes(int(r.u(16)))}
		for k := 0; l.left() > 0; k++ {
			tag := l.u(8)
			p(ix("Tag", k), tag)
			d := &bitr{b: l.bytes(int(l.u(8)))}
			id := d.bytes(4)
			if string(id) != "CUEI" || tag > 4 {
				p(ix("PrivateDescriptor.IdentifierString", k), string(id))
			} else if tag == 2 {
				d.u(32)
				cancel := d.bit()
				d.u(7)
				if cancel {
					continue
				}
				prog, dur, nr := d.bit(), d.bit(), d.bit()
				d.u(5)
				p(ix("SegmentationDescriptor.ProgramSegmentationFlag", k), prog)
				p(ix("SegmentationDescriptor.SegmentationDurationFlag", k), dur)
				p(ix("SegmentationDescriptor.DeliveryNotRestrictedFlag", k), nr)
				if !prog {
					d.bytes(6 * int(d.u(8)))
				}
				if dur {
					d.u(40)
				}
				d.u(8)
				ul := d.u(8)
				p(ix("SegmentationDescriptor.SegmentationUpidLength", k), ul)
				d.bytes(int(ul))
				p(ix("SegmentationDescriptor.Name", k), segName(uint32(d.u(8))))
			}
		}
		r.rest()
	})
	return out, cls == clsOK
}

// number gives the facts of repeated parts the index of their part.
func number(fs []fact) map[string]string {
	out := map[string]string{}
	comp, desc := 0, -1
	ev := map[string]int{}
	for _, f := range fs {
		n := f.name
		switch {
		case n == "Tag":
			desc++
			n = ix(n, desc)
		case strings.HasPrefix(n, "SpliceInsertComponent."):
			n = ix(n, comp)
			comp++
		case strings.HasPrefix(n, "Event."):
			k := ev[n]
			ev[n]++
			n = ix(n, k)
		case strings.HasPrefix(n, "SegmentationDescriptor."), strings.HasPrefix(n, "PrivateDescriptor."):
			n = ix(n, desc)
		}
		out[n] = f.val
	}
	return out
}

// c21check compares the accessors with the model, if there is one, and with
// the section's own encoding.
func (c *ctx) c21check(how string, x *SIS, s *Sec) {
	got, ok := c.libFacts(x)
	if !ok {
		return
	}
	if s != nil {
		want := s.facts()
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				g := fact{"nothing", ""}
				if i < len(got) {
					g = got[i]
				}
				c.fail(how+": "+want[i].name, "%s is %q, should be %s %q", g.name, g.val, want[i].name, want[i].val)
				return
			}
			c.see(want[i].name)
		}
		if len(got) > len(want) {
			c.fail(how+": additional "+got[len(want)].name, "%v, should be %v", got, want)
			return
		}
	}
	b, err, ok := c.encode(x)
	if !ok || err != nil {
		return
	}
	wire, ok := wireFacts(b)
	if !ok {
		c.fail(how+": encoding is no section", "%s", hx(b))
		return
	}
	gm := number(got)
	for _, n := range sortedKeys(wire) {
		g, there := gm[n]
		if !there {
			c.fail(how+": encodes what is not there: "+strings.TrimRight(n, "0123456789[]"), "%s=%s in %s", n, wire[n], hx(b))
			return
		}
		if g != wire[n] {
			c.fail(how+": encodes another "+strings.TrimRight(n, "0123456789[]"), "%s is %q, encoded %q: %s", n, g, wire[n], hx(b))
			return
		}
	}
	c.see("compared with encoding")
}

func (c *ctx) c21section(s *Sec, i int) {
	s.canon()
	s.features(c)
	x := &SIS{}
	how := ""
	switch i % 5 {
	case 0:
		how = "API"
		if c.Intn(6) == 0 { // more than a descriptor can hold
			g := c.seg()
			for n := 1 + c.Intn(14); n > 0; n-- {
				g.UPIDs = append(g.UPIDs, refUPID([]uint32{1, 9, 0x0f, 6, 0x0c}[c.Intn(5)], c.bytesN(4+c.Intn(300))))
			}
			s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: g})
			c.see("UPIDs of any length")
		}
		x = s.ToLib()
	case 1:
		how = "binary"
		b := s.Bits(c.wire())
		c.setInput("%s", hx(b))
		var err error
		if x, err, _ = c.decode(b); err != nil {
			c.fail("decode", "%v", err)
			return
		}
	case 2:
		how = "JSON"
		st := c.style()
		t := st.JSON(s.docOf())
		c.setInput("%s", t)
		var err error
		if !c.op("json.Unmarshal", func() { err = json.Unmarshal([]byte(t), x) }) {
			return
		} else if err != nil {
			c.fail("unmarshal JSON", "%v", err)
			return
		}
	case 3:
		how = "XML"
		s.xmlText().edgeFree()
		st := c.style()
		t := st.XML(s.docOf())
		c.setInput("%s", t)
		var err error
		if !c.op("xml.Unmarshal", func() { err = xml.Unmarshal([]byte(t), x) }) {
			return
		} else if err != nil {
			c.fail("unmarshal XML", "%v", err)
			return
		}
	default: // values and combinations which no decoder yields
		how, x = "edited API", cloneLib(s.ToLib())
		for n := 1 + c.Intn(6); n > 0; n-- {
			c.editPresence(x)
		}
		s = nil
		c.setInput("%s", snapshot(x))
	}
	if c.input == "" {
		c.setInput("%s", s.Dump())
	}
	c.distinct([]byte(how + c.input))
	c.see("section by " + how)
	c.c21check(how, x, s)
}

// editPresence changes what is present in a section, in any combination.
func (c *ctx) editPresence(x *SIS) {
	pt := func() *uint64 {
		if c.coin() {
			return nil
		}
		return u64p(c.num(33))
	}
	bd := func() *scte35.BreakDuration {
		if c.coin() {
			return nil
		}
		return &scte35.BreakDuration{AutoReturn: c.coin(), Duration: c.num(33)}
	}
	switch v := x.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		v.SpliceEventCancelIndicator = c.Intn(5) == 0
		v.SpliceImmediateFlag = c.coin()
		v.BreakDuration = bd()
		v.Program = nil
		if c.coin() {
			v.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: pt()}}
		}
		v.Components = nil
		for n := c.Intn(4); n > 0; n-- {
			k := scte35.SpliceInsertComponent{Tag: c.n32(8)}
			if c.coin() {
				k.SpliceTime = &scte35.SpliceTime{PTSTime: pt()}
			}
			v.Components = append(v.Components, k)
		}
	case *scte35.SpliceSchedule:
		for j := range v.Events {
			e := &v.Events[j]
			e.SpliceEventCancelIndicator = c.Intn(5) == 0
			e.BreakDuration = bd()
			e.Program = nil
			if c.coin() {
				e.Program = &scte35.EventProgram{UTCSpliceTime: utcTo(int64(c.num(32)))}
			}
			e.Components = nil
			for n := c.Intn(4); n > 0; n-- {
				e.Components = append(e.Components, scte35.EventComponent{Tag: c.n32(8), UTCSpliceTime: utcTo(int64(c.num(32)))})
			}
		}
	case *scte35.TimeSignal:
		v.SpliceTime.PTSTime = pt()
	}
	for _, d := range x.SpliceDescriptors {
		v, ok := d.(*scte35.SegmentationDescriptor)
		if !ok {
			continue
		}
		v.SegmentationEventCancelIndicator = c.Intn(5) == 0
		if v.SegmentationDuration = nil; c.coin() {
			v.SegmentationDuration = u64p(c.num(40))
		}
		if v.DeliveryRestrictions = nil; c.coin() {
			v.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: c.coin(), DeviceRestrictions: c.n32(2)}
		}
		if c.coin() {
			v.Components = nil
		} else if c.coin() {
			v.Components = []scte35.SegmentationDescriptorComponent{}
		} else {
			v.Components = append(v.Components, scte35.SegmentationDescriptorComponent{Tag: c.n32(8), PTSOffset: c.num(33)})
		}
		if n := len(v.SegmentationUPIDs); n > 0 && c.coin() {
			v.SegmentationUPIDs = v.SegmentationUPIDs[:c.Intn(n)]
		} else if c.coin() {
			// the same value can have several spellings
			u := c.upid(20)
			if c.Intn(3) == 0 {
				u = u.in([]string{"hex", "base-64"}[c.Intn(2)])
			}
			lu := scte35.SegmentationUPID{Type: u.Type, Format: u.Format, FormatIdentifier: u.FI, Value: u.Val}
			switch {
			case u.foreign():
				c.see("stated format")
			case u.Type == 0x0c && c.coin():
				lu.FormatIdentifier = nil
			case (u.Type == 5 || u.Type == 6 || u.Type == 8 || u.Type == 10 || u.Type == 12) && c.coin():
				lu.Value = " " + lu.Value + "\n"
			case u.Type == 8 && c.coin():
				lu.Value = "000" + lu.Value
			case u.Type == 1:
				lu.Value = "é" + lu.Value
			}
			v.SegmentationUPIDs = append(v.SegmentationUPIDs, lu)
		}
	}
}

// c21value checks everything which is named by, or constructed from, a number.
func (c *ctx) c21value(v uint32) {
	c.setInput("%#x", v)
	b := binary.BigEndian.AppendUint32(nil, v)
	c.distinct(b)
	is := func(what, got, want string) {
		if got != want {
			c.fail(what, "%s of %#x is %q, should be %q", what, v, got, want)
		}
	}
	c.op("names", func() {
		is("SAPTypeName", (&SIS{SAPType: v}).SAPTypeName(), sapName(v))
		enc := (&SIS{EncryptedPacket: scte35.EncryptedPacket{EncryptionAlgorithm: v, CWIndex: c.n32(8)}}).EncryptedPacketFlag()
		is("EncryptedPacketFlag", fmt.Sprint(enc), fmt.Sprint(v != 0))
		is("SegmentationDescriptor.Name", (&scte35.SegmentationDescriptor{SegmentationTypeID: v}).Name(), segName(v))
		val := c.eidrText()
		is("SegmentationUPID.Name", (&scte35.SegmentationUPID{Type: v, Value: val}).Name(), upidName(v, val))
		is("PrivateCommand.IdentifierString", (&scte35.PrivateCommand{Identifier: v}).IdentifierString(), string(b))
		is("PrivateDescriptor.IdentifierString", (&scte35.PrivateDescriptor{Identifier: v, PrivateTag: c.n32(8)}).IdentifierString(), string(b))
	})
	c.op("NewSpliceCommand", func() {
		k := scte35.NewSpliceCommand(v)
		want, t := "*scte35.PrivateCommand", uint32(0xFF)
		switch v {
		case 0:
			want, t = "*scte35.SpliceNull", v
		case 4:
			want, t = "*scte35.SpliceSchedule", v
		case 5:
			want, t = "*scte35.SpliceInsert", v
		case 6:
			want, t = "*scte35.TimeSignal", v
		case 7:
			want, t = "*scte35.BandwidthReservation", v
		}
		is("NewSpliceCommand", fmt.Sprintf("%T", k), want)
		is("type of NewSpliceCommand", fmt.Sprint(k.Type()), fmt.Sprint(t))
		is("content of NewSpliceCommand", snapshot(k), snapshot(newLike(k)))
	})
	for _, id := range []uint32{cuei, v, 0, cuei + 1, cuei ^ 1<<uint(c.Intn(32)), c.n32(32), 0xFFFFFFFF} {
		tags := []uint32{v, uint32(c.Intn(6)), c.n32(8)}
		for _, tag := range tags {
			c.op("NewSpliceDescriptor", func() {
				d := scte35.NewSpliceDescriptor(id, tag)
				want := "*scte35.PrivateDescriptor"
				if id == cuei && tag <= 4 {
					want = []string{"*scte35.AvailDescriptor", "*scte35.DTMFDescriptor", "*scte35.SegmentationDescriptor", "*scte35.TimeDescriptor", "*scte35.AudioDescriptor"}[tag]
				}
				if g := fmt.Sprintf("%T", d); g != want {
					c.fail("NewSpliceDescriptor", "identifier %#x tag %#x: %s, should be %s", id, tag, g, want)
				} else if p, ok := d.(*scte35.PrivateDescriptor); ok {
					if p.Identifier != id || len(p.PrivateBytes) != 0 {
						c.fail("private descriptor", "identifier %#x tag %#x: %+v", id, tag, p)
					}
					c.see("constructed private descriptor")
				} else {
					is("content of NewSpliceDescriptor", snapshot(d), snapshot(newLike(d)))
					if d.Tag() != tag {
						c.fail("tag of NewSpliceDescriptor", "%#x gives %#x", tag, d.Tag())
					}
					c.see("constructed " + want)
				}
			})
		}
	}
	c.op("NewTimeSignal", func() {
		p, q := uint64(v)<<1|uint64(v&1), c.num(64)
		t, t2 := scte35.NewTimeSignal(p), scte35.NewTimeSignal(q)
		i, i2 := scte35.NewSpliceInsertProgram(p), scte35.NewSpliceInsertProgram(q)
		if t.SpliceTime.PTSTime == nil || *t.SpliceTime.PTSTime != p || t2.SpliceTime.PTSTime == nil || *t2.SpliceTime.PTSTime != q || !t2.SpliceTime.TimeSpecifiedFlag() {
			c.fail("NewTimeSignal", "%d and %d give %s and %s", p, q, snapshot(t), snapshot(t2))
		}
		if i.SpliceTime.PTSTime == nil || *i.SpliceTime.PTSTime != p || i2.SpliceTime.PTSTime == nil || *i2.SpliceTime.PTSTime != q || !i2.TimeSpecifiedFlag() {
			c.fail("NewSpliceInsertProgram", "%d and %d give %s and %s", p, q, snapshot(i), snapshot(i2))
		}
	})
	c.see("values")
}

// newLike is a zero value of the same kind.
func newLike(v any) any {
	switch v.(type) {
	case *scte35.SpliceNull:
		return &scte35.SpliceNull{}
	case *scte35.SpliceSchedule:
		return &scte35.SpliceSchedule{}
	case *scte35.SpliceInsert:
		return &scte35.SpliceInsert{}
	case *scte35.TimeSignal:
		return &scte35.TimeSignal{}
	case *scte35.BandwidthReservation:
		return &scte35.BandwidthReservation{}
	case *scte35.PrivateCommand:
		return &scte35.PrivateCommand{}
	case *scte35.AvailDescriptor:
		return &scte35.AvailDescriptor{}
	case *scte35.DTMFDescriptor:
		return &scte35.DTMFDescriptor{}
	case *scte35.SegmentationDescriptor:
		return &scte35.SegmentationDescriptor{}
	case *scte35.TimeDescriptor:
		return &scte35.TimeDescriptor{}
	case *scte35.AudioDescriptor:
		return &scte35.AudioDescriptor{}
	}
	return nil
}

// eidrText is the text of an EIDR, often one with a known prefix or nearly so.
func (c *ctx) eidrText() string {
	p := []string{"10.5237", "10.5238", "10.5239", "10.5240"}[c.Intn(4)]
	suffix := strings.ToUpper(hex.EncodeToString(c.bytesN(2)) + "-" + hex.EncodeToString(c.bytesN(2)))
	switch c.Intn(12) {
	case 0:
		return ""
	case 1:
		return p + suffix
	case 2:
		return p + "0/" + suffix
	case 3:
		return "10." + fmt.Sprint(c.n32(16)) + "/" + suffix
	case 4:
		return "1" + p + "/" + suffix
	case 5:
		// whether a bare prefix tells the kind is nobody's business
		if v := string(c.mutTextBytes([]byte(p + "/" + suffix))); strings.Contains(v, "/") {
			return v
		}
	case 6:
		return "https://doi.org/" + p + "/" + suffix
	case 7:
		return "10.5240-5237/" + suffix
	}
	return p + "/" + suffix
}

// c21absent: the flags of parts which are not there are not set.
func (c *ctx) c21absent() {
	c.setInput("absent parts")
	c.distinct([]byte("absent"))
	c.op("flags of absent parts", func() {
		var st *scte35.SpliceTime
		var ic *scte35.SpliceInsertComponent
		var ip *scte35.SpliceInsertProgram
		var e *scte35.Event
		if st.TimeSpecifiedFlag() || ic.TimeSpecifiedFlag() || ip.TimeSpecifiedFlag() || e.DurationFlag() || e.ProgramSpliceFlag() {
			c.fail("flag of an absent part", "is set")
		}
	})
}

// c21constants: the published constants have the standard's values.
func (c *ctx) c21constants() {
	c.setInput("constants")
	for _, k := range []struct {
		name      string
		got, want uint64
	}{
		{"TableID", scte35.TableID, 0xFC}, {"CUEIdentifier", scte35.CUEIdentifier, cuei},
		{"SpliceNullType", scte35.SpliceNullType, 0}, {"SpliceScheduleType", scte35.SpliceScheduleType, 4}, {"SpliceInsertType", scte35.SpliceInsertType, 5},
		{"TimeSignalType", scte35.TimeSignalType, 6}, {"BandwidthReservationType", scte35.BandwidthReservationType, 7}, {"PrivateCommandType", scte35.PrivateCommandType, 0xFF},
		{"AvailDescriptorTag", scte35.AvailDescriptorTag, 0}, {"DTMFDescriptorTag", scte35.DTMFDescriptorTag, 1}, {"SegmentationDescriptorTag", scte35.SegmentationDescriptorTag, 2},
		{"TimeDescriptorTag", scte35.TimeDescriptorTag, 3}, {"AudioDescriptorTag", scte35.AudioDescriptorTag, 4},
		{"SAPType1", uint64(scte35.SAPType1), 0}, {"SAPType2", uint64(scte35.SAPType2), 1}, {"SAPType3", uint64(scte35.SAPType3), 2}, {"SAPTypeNotSpecified", uint64(scte35.SAPTypeNotSpecified), 3},
	} {
		c.eval()
		if k.got != k.want {
			c.fail("constant "+k.name, "%#x, should be %#x", k.got, k.want)
		}
	}
}

func init() {
	var need []string
	for _, n := range []string{"API", "binary", "JSON", "XML", "edited API"} {
		need = append(need, "section by "+n)
	}
	need = append(need, "values", "compared with encoding", "Event.ProgramSpliceFlag", "SpliceInsertComponent.TimeSpecifiedFlag", "SpliceTime.TimeSpecifiedFlag",
		"PrivateCommand.IdentifierString", "PrivateDescriptor.IdentifierString", "SegmentationDescriptor.SegmentationUpidLength", "SegmentationUPID.Name", "stated format", "constructed private descriptor", "constructed *scte35.AudioDescriptor")
	register(&check{
		id:   "C21",
		rule: "every value of every coded field up to 16 bits and a sample of the 32-bit ones; sections of every form obtained through the API, binary, JSON and XML and sections with every combination of present parts; accessors against the model and against the bits of the section's own encoding; distinct by value or section",
		need: need,
		families: []family{
			{name: "values", quick: 66000, thorough: 1 << 20, fn: func(c *ctx, i int) { c.c21value(uint32(i)) }},
			{name: "wide values", quick: 40000, thorough: 1000000, fn: func(c *ctx, i int) { c.c21value(c.n32(32)) }},
			{name: "bits", quick: 32 * 3, thorough: 32 * 3, fn: func(c *ctx, i int) { c.c21value(uint32(1)<<uint(i/3) + uint32(i%3) - 1) }},
			{name: "absent", quick: 1, thorough: 1, fn: func(c *ctx, i int) { c.c21absent(); c.c21constants() }},
			{name: "forms", quick: 10 * len(forms), thorough: 400 * len(forms), fn: func(c *ctx, i int) { c.c21section(forms[i/10%len(forms)](c.gen), i) }},
			{name: "sections", quick: 120000, thorough: 3000000, fn: func(c *ctx, i int) { c.c21section(c.sec(), i) }},
			{name: "base64", quick: 2000, thorough: 50000, fn: func(c *ctx, i int) {
				s := c.sec().canon()
				t := base64.StdEncoding.EncodeToString(s.Bits(nil))
				c.setInput("%s", t)
				var x *SIS
				var err error
				if c.op("DecodeBase64", func() { x, err = scte35.DecodeBase64(t) }) && err == nil {
					c.c21check("base64", x, s)
				}
			}},
		},
	})
}
