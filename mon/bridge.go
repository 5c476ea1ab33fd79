package mon

// Conversions between the reference model and the library's exported structs.

import (
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

const gpsEpoch = 315964800

var elsewhere = []*time.Location{time.FixedZone("", 5*3600+1800), time.FixedZone("EST", -5*3600), time.FixedZone("", 14*3600), time.FixedZone("X", -43200)}

func utcOf(t scte35.UTCSpliceTime) int64 { return t.Time.Unix() - gpsEpoch }

func utcTo(s int64) scte35.UTCSpliceTime {
	// the same instant, as programs in other places write it
	t := time.Unix(s+gpsEpoch, 0)
	switch s % 5 {
	case 0: // in time.Local, which the cases vary
	case 1:
		t = t.In(elsewhere[s/5%int64(len(elsewhere))])
	default:
		t = t.UTC()
	}
	return scte35.UTCSpliceTime{Time: t}
}

func cp64(p *uint64) *uint64 {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

func cp32(p *uint32) *uint32 {
	if p == nil {
		return nil
	}
	v := *p
	return &v
}

// FromLib reads all exported fields of a section.
func FromLib(x *scte35.SpliceInfoSection) *Sec {
	s := &Sec{
		SAP: x.SAPType, Proto: x.ProtocolVersion, Alg: x.EncryptedPacket.EncryptionAlgorithm,
		PTSAdj: x.PTSAdjustment, CW: x.EncryptedPacket.CWIndex, Tier: x.Tier, PreRoll: x.PreRollMilliSeconds,
	}
	s.EncFlag = s.Alg != 0
	brk := func(b *scte35.BreakDuration) *Brk {
		if b == nil {
			return nil
		}
		return &Brk{b.AutoReturn, b.Duration}
	}
	s.HasCmd = x.SpliceCommand != nil
	c := &s.Cmd
	switch v := x.SpliceCommand.(type) {
	case nil:
	case *scte35.SpliceNull:
		c.Kind = cmdNull
	case *scte35.BandwidthReservation:
		c.Kind = cmdBW
	case *scte35.TimeSignal:
		c.Kind = cmdTime
		c.PTS = cp64(v.SpliceTime.PTSTime)
	case *scte35.PrivateCommand:
		c.Kind = cmdPrivate
		c.Ident = v.Identifier
		c.Bytes = append([]byte{}, v.PrivateBytes...)
	case *scte35.SpliceInsert:
		c.Kind = cmdInsert
		i := &Ins{ID: v.SpliceEventID, Cancel: v.SpliceEventCancelIndicator, Out: v.OutOfNetworkIndicator,
			Imm: v.SpliceImmediateFlag, UPID: v.UniqueProgramID, AvailNum: v.AvailNum, AvailsExp: v.AvailsExpected,
			Brk: brk(v.BreakDuration)}
		if v.Program != nil {
			i.Program = true
			i.PTS = cp64(v.Program.SpliceTime.PTSTime)
		}
		for _, cc := range v.Components {
			ic := InsComp{Tag: cc.Tag}
			if cc.SpliceTime != nil {
				ic.PTS = cp64(cc.SpliceTime.PTSTime)
			}
			i.Comps = append(i.Comps, ic)
		}
		c.Ins = i
	case *scte35.SpliceSchedule:
		c.Kind = cmdSchedule
		for _, e := range v.Events {
			m := Event{ID: e.SpliceEventID, Cancel: e.SpliceEventCancelIndicator, Compliance: e.EventIDComplianceFlag,
				Out: e.OutOfNetworkIndicator, Brk: brk(e.BreakDuration), UPID: e.UniqueProgramID,
				AvailNum: e.AvailNum, AvailsExp: e.AvailsExpected}
			if e.Program != nil {
				m.Program = true
				m.UTC = utcOf(e.Program.UTCSpliceTime)
			}
			for _, cc := range e.Components {
				m.Comps = append(m.Comps, EvComp{cc.Tag, utcOf(cc.UTCSpliceTime)})
			}
			c.Sch = append(c.Sch, m)
		}
	default:
		c.Kind = -1
	}
	for _, d := range x.SpliceDescriptors {
		s.Descs = append(s.Descs, fromLibDesc(d))
	}
	return s
}

func fromLibDesc(d scte35.SpliceDescriptor) Desc {
	m := Desc{Kind: -2}
	switch v := d.(type) {
	case *scte35.AvailDescriptor:
		m.Kind, m.Avail = dAvail, v.ProviderAvailID
	case *scte35.DTMFDescriptor:
		m.Kind, m.Preroll, m.Chars = dDTMF, v.Preroll, v.DTMFChars
	case *scte35.TimeDescriptor:
		m.Kind, m.TAISec, m.TAINS, m.UTCOff = dTime, v.TAISeconds, v.TAINS, v.UTCOffset
	case *scte35.AudioDescriptor:
		m.Kind = dAudio
		for _, a := range v.AudioChannels {
			m.Audio = append(m.Audio, Chan{a.ComponentTag, a.ISOCode, a.BitStreamMode, a.NumChannels, a.FullSrvcAudio})
		}
	case *scte35.PrivateDescriptor:
		m.Kind, m.Tag, m.Ident = dPriv, v.PrivateTag, v.Identifier
		m.Bytes = append([]byte{}, v.PrivateBytes...)
	case *scte35.SegmentationDescriptor:
		m.Kind = dSeg
		g := &Seg{ID: v.SegmentationEventID, Cancel: v.SegmentationEventCancelIndicator,
			Compliance: v.SegmentationEventIDComplianceIndicator, Dur: cp64(v.SegmentationDuration),
			TypeID: v.SegmentationTypeID, Num: v.SegmentNum, Exp: v.SegmentsExpected,
			SubNum: cp32(v.SubSegmentNum), SubExp: cp32(v.SubSegmentsExpected)}
		if r := v.DeliveryRestrictions; r != nil {
			g.Restr = &Restr{r.WebDeliveryAllowedFlag, r.NoRegionalBlackoutFlag, r.ArchiveAllowedFlag, r.DeviceRestrictions}
		}
		for _, c := range v.Components {
			g.Comps = append(g.Comps, SegComp{c.Tag, c.PTSOffset})
		}
		for _, u := range v.SegmentationUPIDs {
			g.UPIDs = append(g.UPIDs, UPID{Type: u.Type, Format: u.Format, FI: cp32(u.FormatIdentifier), Val: u.Value})
		}
		m.Seg = g
	}
	return m
}

// ToLib builds the section through the exported API.
func (s *Sec) ToLib() *scte35.SpliceInfoSection {
	x := &scte35.SpliceInfoSection{
		SAPType: s.SAP, ProtocolVersion: s.Proto, PTSAdjustment: s.PTSAdj, Tier: s.Tier, PreRollMilliSeconds: s.PreRoll,
	}
	x.EncryptedPacket.EncryptionAlgorithm = s.Alg
	x.EncryptedPacket.CWIndex = s.CW
	brk := func(b *Brk) *scte35.BreakDuration {
		if b == nil {
			return nil
		}
		return &scte35.BreakDuration{AutoReturn: b.Auto, Duration: b.Dur}
	}
	if s.HasCmd {
		c := &s.Cmd
		switch c.Kind {
		case cmdNull:
			x.SpliceCommand = &scte35.SpliceNull{}
		case cmdBW:
			x.SpliceCommand = &scte35.BandwidthReservation{}
		case cmdTime:
			x.SpliceCommand = &scte35.TimeSignal{SpliceTime: scte35.SpliceTime{PTSTime: cp64(c.PTS)}}
		case cmdPrivate:
			x.SpliceCommand = &scte35.PrivateCommand{Identifier: c.Ident, PrivateBytes: append(scte35.Bytes{}, c.Bytes...)}
		case cmdInsert:
			i := c.Ins
			v := &scte35.SpliceInsert{SpliceEventID: i.ID, SpliceEventCancelIndicator: i.Cancel,
				OutOfNetworkIndicator: i.Out, SpliceImmediateFlag: i.Imm, UniqueProgramID: i.UPID,
				AvailNum: i.AvailNum, AvailsExpected: i.AvailsExp, BreakDuration: brk(i.Brk)}
			if i.Program {
				v.Program = &scte35.SpliceInsertProgram{SpliceTime: scte35.SpliceTime{PTSTime: cp64(i.PTS)}}
			}
			for _, cc := range i.Comps {
				ic := scte35.SpliceInsertComponent{Tag: cc.Tag}
				if cc.PTS != nil {
					ic.SpliceTime = &scte35.SpliceTime{PTSTime: cp64(cc.PTS)}
				}
				v.Components = append(v.Components, ic)
			}
			x.SpliceCommand = v
		case cmdSchedule:
			v := &scte35.SpliceSchedule{}
			for k := range c.Sch {
				e := &c.Sch[k]
				m := scte35.Event{SpliceEventID: e.ID, SpliceEventCancelIndicator: e.Cancel, EventIDComplianceFlag: e.Compliance,
					OutOfNetworkIndicator: e.Out, BreakDuration: brk(e.Brk), UniqueProgramID: e.UPID,
					AvailNum: e.AvailNum, AvailsExpected: e.AvailsExp}
				if e.Program {
					m.Program = &scte35.EventProgram{UTCSpliceTime: utcTo(e.UTC)}
				}
				for _, cc := range e.Comps {
					m.Components = append(m.Components, scte35.EventComponent{Tag: cc.Tag, UTCSpliceTime: utcTo(cc.UTC)})
				}
				v.Events = append(v.Events, m)
			}
			x.SpliceCommand = v
		}
	}
	for i := range s.Descs {
		x.SpliceDescriptors = append(x.SpliceDescriptors, s.Descs[i].toLib())
	}
	return x
}

func (m *Desc) toLib() scte35.SpliceDescriptor {
	switch m.Kind {
	case dAvail:
		return &scte35.AvailDescriptor{ProviderAvailID: m.Avail}
	case dDTMF:
		return &scte35.DTMFDescriptor{Preroll: m.Preroll, DTMFChars: m.Chars}
	case dTime:
		return &scte35.TimeDescriptor{TAISeconds: m.TAISec, TAINS: m.TAINS, UTCOffset: m.UTCOff}
	case dAudio:
		v := &scte35.AudioDescriptor{}
		for _, a := range m.Audio {
			v.AudioChannels = append(v.AudioChannels, scte35.AudioChannel{ComponentTag: a.Tag, ISOCode: a.ISO,
				BitStreamMode: a.BSM, NumChannels: a.Num, FullSrvcAudio: a.Full})
		}
		return v
	case dPriv:
		return &scte35.PrivateDescriptor{PrivateTag: m.Tag, Identifier: m.Ident, PrivateBytes: append(scte35.Bytes{}, m.Bytes...)}
	case dSeg:
		g := m.Seg
		v := &scte35.SegmentationDescriptor{SegmentationEventID: g.ID, SegmentationEventCancelIndicator: g.Cancel,
			SegmentationEventIDComplianceIndicator: g.Compliance, SegmentationDuration: cp64(g.Dur),
			SegmentationTypeID: g.TypeID, SegmentNum: g.Num, SegmentsExpected: g.Exp,
			SubSegmentNum: cp32(g.SubNum), SubSegmentsExpected: cp32(g.SubExp)}
		if r := g.Restr; r != nil {
			v.DeliveryRestrictions = &scte35.DeliveryRestrictions{ArchiveAllowedFlag: r.Archive,
				WebDeliveryAllowedFlag: r.Web, NoRegionalBlackoutFlag: r.Regional, DeviceRestrictions: r.Device}
		}
		for _, c := range g.Comps {
			v.Components = append(v.Components, scte35.SegmentationDescriptorComponent{Tag: c.Tag, PTSOffset: c.Off})
		}
		for _, u := range g.UPIDs {
			v.SegmentationUPIDs = append(v.SegmentationUPIDs, scte35.SegmentationUPID{Type: u.Type, Format: u.Format,
				FormatIdentifier: cp32(u.FI), Value: u.Val})
		}
		return v
	}
	panic("bad descriptor kind")
}
