package mon

// The reference model of a splice_info_section. It is written from the
// standard's tables and shares no code with the library. Conversions from and
// to the library's exported structs are in bridge.go.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
)

const cuei = 0x43554549

const (
	cmdNull     = 0x00
	cmdSchedule = 0x04
	cmdInsert   = 0x05
	cmdTime     = 0x06
	cmdBW       = 0x07
	cmdPrivate  = 0xFF
)

const (
	dAvail = 0
	dDTMF  = 1
	dSeg   = 2
	dTime  = 3
	dAudio = 4
	dPriv  = -1
)

// Sec is a splice_info_section.
type Sec struct {
	SAP     uint32
	Proto   uint32
	EncFlag bool // wire flag; equals Alg != 0 in canonical sections
	Alg     uint32
	PTSAdj  uint64
	CW      uint32
	Tier    uint32
	PreRoll uint32
	HasCmd  bool
	Cmd     Cmd
	Descs   []Desc
	Stuff   []byte // alignment_stuffing; not visible in the library's API
}

// Cmd is a splice_command.
type Cmd struct {
	Kind     int    // one of cmd*
	WireType uint32 // splice_command_type on the wire, for Kind cmdPrivate
	Ins      *Ins
	Sch      []Event
	PTS      *uint64 // time_signal
	Ident    uint32  // private_command
	Bytes    []byte
}

// Ins is a splice_insert.
type Ins struct {
	ID        uint32
	Cancel    bool
	Out       bool
	Program   bool
	PTS       *uint64 // program mode
	Comps     []InsComp
	Imm       bool
	Brk       *Brk
	UPID      uint32
	AvailNum  uint32
	AvailsExp uint32
}

// InsComp is a component of a splice_insert.
type InsComp struct {
	Tag uint32
	PTS *uint64
}

// Brk is a break_duration.
type Brk struct {
	Auto bool
	Dur  uint64
}

// Event is an event of a splice_schedule.
type Event struct {
	ID         uint32
	Cancel     bool
	Compliance bool // inverted on the wire
	Out        bool
	Program    bool
	UTC        int64 // seconds since GPS epoch (unix - 315964800)
	Comps      []EvComp
	Brk        *Brk
	UPID       uint32
	AvailNum   uint32
	AvailsExp  uint32
}

// EvComp is a component of an Event.
type EvComp struct {
	Tag uint32
	UTC int64
}

// Desc is a splice_descriptor.
type Desc struct {
	Kind  int
	Avail uint32

	Preroll uint32
	Chars   string

	Seg *Seg

	TAISec uint64
	TAINS  uint32
	UTCOff uint32

	Audio []Chan

	Tag   uint32
	Ident uint32
	Bytes []byte
}

// Chan is an audio channel.
type Chan struct {
	Tag  uint32
	ISO  string
	BSM  uint32
	Num  uint32
	Full bool
}

// Seg is a segmentation_descriptor.
type Seg struct {
	ID         uint32
	Cancel     bool
	Compliance bool // inverted on the wire
	Restr      *Restr
	Comps      []SegComp
	Dur        *uint64
	UPIDs      []UPID
	TypeID     uint32
	Num        uint32
	Exp        uint32
	SubNum     *uint32
	SubExp     *uint32
	ForceMID   bool // wire: a single UPID inside a MID
	ZeroComps  bool // wire: component mode with component_count 0
}

// Restr holds the delivery restrictions.
type Restr struct {
	Web, Regional, Archive bool
	Device                 uint32
}

// SegComp is a component of a segmentation_descriptor.
type SegComp struct {
	Tag uint32
	Off uint64
}

// UPID is a segmentation_upid: its bytes and the text form.
type UPID struct {
	Type   uint32
	Raw    []byte
	Format string
	FI     *uint32
	Val    string
}

func u64p(v uint64) *uint64 { return &v }
func u32p(v uint32) *uint32 { return &v }

// refUPID returns the UPID with the text form that its bytes have.
func refUPID(typ uint32, raw []byte) UPID {
	u := UPID{Type: typ, Raw: append([]byte{}, raw...), Format: "text"}
	switch typ {
	case 0x0a: // EIDR
		if len(raw) == 12 {
			u.Val = "10." + fmt.Sprint(int(raw[0])<<8|int(raw[1])) + "/"
			for i := 2; i < 12; i += 2 {
				if i > 2 {
					u.Val += "-"
				}
				u.Val += strings.ToUpper(hex.EncodeToString(raw[i : i+2]))
			}
		} else if bytes.IndexByte(raw, '/') >= 0 {
			u.Val = string(raw) // already text
		}
	case 0x05, 0x06: // ISAN
		u.Format = "base-64"
		u.Val = base64.StdEncoding.EncodeToString(raw)
	case 0x0c: // MPU
		u.Format = "base-64"
		var fi uint32
		for i := 0; i < 4; i++ {
			fi <<= 8
			if i < len(raw) {
				fi |= uint32(raw[i])
			}
		}
		u.FI = &fi
		if len(raw) > 4 {
			u.Val = base64.StdEncoding.EncodeToString(raw[4:])
		}
	case 0x08: // TI
		u.Val = new(big.Int).SetBytes(raw).String()
	default:
		var sb strings.Builder
		for _, c := range raw {
			sb.WriteRune(rune(c))
		}
		u.Val = sb.String()
	}
	return u
}

// foreign reports whether the value is stated in another format than the one
// the constructor gives UPIDs of the type.
func (u UPID) foreign() bool {
	return u.Format == "hex" || u.Format == "base-64" && u.Type != 5 && u.Type != 6 && u.Type != 0x0c
}

// own is the same UPID in the format of its type.
func (u UPID) own() UPID {
	if !u.foreign() {
		return u
	}
	b, err := hex.DecodeString(u.Val)
	if u.Format != "hex" {
		b, err = base64.StdEncoding.DecodeString(u.Val)
	}
	if err != nil {
		return u
	}
	if u.Type == 0x0c {
		var f uint32
		if u.FI != nil {
			f = *u.FI
		}
		b = append([]byte{byte(f >> 24), byte(f >> 16), byte(f >> 8), byte(f)}, b...)
	}
	return refUPID(u.Type, b)
}

// in is the same UPID stated in the format.
func (u UPID) in(format string) UPID {
	b := u.Raw
	if u.Type == 0x0c {
		b = b[4:]
	}
	u.Format, u.Val = format, hex.EncodeToString(b)
	if format != "hex" {
		u.Val = base64.StdEncoding.EncodeToString(b)
	}
	return u
}

// notXML reports whether the value has characters which XML lacks.
func (u UPID) notXML() bool {
	switch u.Type {
	case 5, 6, 8, 0x0a, 0x0c:
		return false
	}
	if u.foreign() {
		return false
	}
	for _, b := range u.Raw {
		if !xmlChar(b) {
			return true
		}
	}
	return false
}

// ownFormats states all UPIDs in the formats of their types.
func (s *Sec) ownFormats() *Sec {
	for i := range s.Descs {
		if g := s.Descs[i].Seg; g != nil {
			for k := range g.UPIDs {
				g.UPIDs[k] = g.UPIDs[k].own()
			}
		}
	}
	return s
}

// upidWellFormed reports whether the bytes are well formed for the type, such
// that text and bytes determine each other.
func upidWellFormed(typ uint32, raw []byte) bool {
	switch typ {
	case 0x0a:
		return len(raw) == 12
	case 0x0c:
		return len(raw) >= 4
	case 0x08:
		return len(raw) == 8
	}
	return true
}

// subPermitted reports whether the segmentation type has sub-segments
// (SCTE 35 2023, table 23).
func subPermitted(t uint32) bool {
	switch t {
	case 0x30, 0x32, 0x34, 0x36, 0x38, 0x3A, 0x44, 0x46:
		return true
	}
	return false
}

// ---------------------------------------------------------------- dump

// dumper collects the exposed fields as "path=value" lines.
type dumper struct {
	sb strings.Builder
}

func (d *dumper) p(path string, v any) {
	d.sb.WriteString(path)
	d.sb.WriteByte('=')
	switch x := v.(type) {
	case string:
		fmt.Fprintf(&d.sb, "%q", x)
	case []byte:
		d.sb.WriteString(hex.EncodeToString(x))
	case *uint64:
		if x == nil {
			d.sb.WriteString("none")
		} else {
			fmt.Fprint(&d.sb, *x)
		}
	case *uint32:
		if x == nil {
			d.sb.WriteString("none")
		} else {
			fmt.Fprint(&d.sb, *x)
		}
	default:
		fmt.Fprint(&d.sb, x)
	}
	d.sb.WriteByte('\n')
}

func ix(base string, i int) string { return fmt.Sprintf("%s[%d]", base, i) }

// Dump lists every field of the section that the library exposes.
func (s *Sec) Dump() string {
	d := &dumper{}
	s.dumpHeader(d)
	s.dumpCmd(d)
	s.dumpDescs(d)
	return d.sb.String()
}

func (s *Sec) dumpHeader(d *dumper) {
	d.p("sap_type", s.SAP)
	d.p("protocol_version", s.Proto)
	d.p("encryption_algorithm", s.Alg)
	d.p("pts_adjustment", s.PTSAdj)
	d.p("cw_index", s.CW)
	d.p("tier", s.Tier)
	d.p("pre_roll", s.PreRoll)
}

func dumpBrk(d *dumper, pre string, b *Brk) {
	d.p(pre+"duration_flag", b != nil)
	if b != nil {
		d.p(pre+"auto_return", b.Auto)
		d.p(pre+"duration", b.Dur)
	}
}

func (s *Sec) dumpCmd(d *dumper) {
	if !s.HasCmd {
		d.p("command", "none")
		return
	}
	c := &s.Cmd
	switch c.Kind {
	case cmdNull:
		d.p("command", "splice_null")
	case cmdBW:
		d.p("command", "bandwidth_reservation")
	case cmdTime:
		d.p("command", "time_signal")
		d.p("time_signal.pts_time", c.PTS)
	case cmdPrivate:
		d.p("command", "private_command")
		d.p("private_command.identifier", c.Ident)
		d.p("private_command.bytes", c.Bytes)
	case cmdInsert:
		d.p("command", "splice_insert")
		const pre = "splice_insert."
		i := c.Ins
		d.p(pre+"event_id", i.ID)
		d.p(pre+"cancel", i.Cancel)
		if !i.Cancel {
			d.p(pre+"out_of_network", i.Out)
			d.p(pre+"immediate", i.Imm)
			d.p(pre+"program_splice_flag", i.Program)
			if i.Program {
				if !i.Imm {
					d.p(pre+"pts_time", i.PTS)
				}
			} else {
				d.p(pre+"component_count", len(i.Comps))
				for j, cc := range i.Comps {
					d.p(ix(pre+"component", j)+".tag", cc.Tag)
					if !i.Imm {
						d.p(ix(pre+"component", j)+".pts_time", cc.PTS)
					}
				}
			}
			dumpBrk(d, pre, i.Brk)
			d.p(pre+"unique_program_id", i.UPID)
			d.p(pre+"avail_num", i.AvailNum)
			d.p(pre+"avails_expected", i.AvailsExp)
		}
	case cmdSchedule:
		d.p("command", "splice_schedule")
		d.p("splice_schedule.count", len(c.Sch))
		for k := range c.Sch {
			e := &c.Sch[k]
			pre := ix("splice_schedule.event", k) + "."
			d.p(pre+"event_id", e.ID)
			d.p(pre+"cancel", e.Cancel)
			d.p(pre+"compliance", e.Compliance)
			if !e.Cancel {
				d.p(pre+"out_of_network", e.Out)
				d.p(pre+"program_splice_flag", e.Program)
				if e.Program {
					d.p(pre+"utc_splice_time", e.UTC)
				} else {
					d.p(pre+"component_count", len(e.Comps))
					for j, cc := range e.Comps {
						d.p(ix(pre+"component", j)+".tag", cc.Tag)
						d.p(ix(pre+"component", j)+".utc_splice_time", cc.UTC)
					}
				}
				dumpBrk(d, pre, e.Brk)
				d.p(pre+"unique_program_id", e.UPID)
				d.p(pre+"avail_num", e.AvailNum)
				d.p(pre+"avails_expected", e.AvailsExp)
			}
		}
	}
}

func (s *Sec) dumpDescs(d *dumper) {
	d.p("descriptors", len(s.Descs))
	for i := range s.Descs {
		s.Descs[i].dump(d, ix("descriptor", i)+".")
	}
}

func (x *Desc) dump(d *dumper, pre string) {
	switch x.Kind {
	case dAvail:
		d.p(pre+"kind", "avail")
		d.p(pre+"avail.provider_avail_id", x.Avail)
	case dDTMF:
		d.p(pre+"kind", "dtmf")
		d.p(pre+"dtmf.preroll", x.Preroll)
		d.p(pre+"dtmf.chars", x.Chars)
	case dTime:
		d.p(pre+"kind", "time")
		d.p(pre+"time.tai_seconds", x.TAISec)
		d.p(pre+"time.tai_ns", x.TAINS)
		d.p(pre+"time.utc_offset", x.UTCOff)
	case dAudio:
		d.p(pre+"kind", "audio")
		d.p(pre+"audio.count", len(x.Audio))
		for j, c := range x.Audio {
			q := ix(pre+"audio.channel", j)
			d.p(q+".tag", c.Tag)
			d.p(q+".iso_code", c.ISO)
			d.p(q+".bit_stream_mode", c.BSM)
			d.p(q+".num_channels", c.Num)
			d.p(q+".full", c.Full)
		}
	case dPriv:
		d.p(pre+"kind", "private")
		d.p(pre+"private.tag", x.Tag)
		d.p(pre+"private.identifier", x.Ident)
		d.p(pre+"private.bytes", x.Bytes)
	case dSeg:
		d.p(pre+"kind", "segmentation")
		x.Seg.dump(d, pre+"seg.")
	}
}

func (g *Seg) dump(d *dumper, pre string) {
	d.p(pre+"event_id", g.ID)
	d.p(pre+"cancel", g.Cancel)
	d.p(pre+"compliance", g.Compliance)
	if g.Cancel {
		return
	}
	d.p(pre+"restricted", g.Restr != nil)
	if g.Restr != nil {
		d.p(pre+"web", g.Restr.Web)
		d.p(pre+"regional", g.Restr.Regional)
		d.p(pre+"archive", g.Restr.Archive)
		d.p(pre+"device", g.Restr.Device)
	}
	d.p(pre+"component_count", len(g.Comps))
	for j, c := range g.Comps {
		d.p(ix(pre+"component", j)+".tag", c.Tag)
		d.p(ix(pre+"component", j)+".pts_offset", c.Off)
	}
	d.p(pre+"duration", g.Dur)
	ups := g.UPIDs
	if len(ups) == 1 && ups[0].Val == "" && ups[0].FI == nil {
		ups = nil // a single empty UPID is the same as none
	}
	d.p(pre+"upid_count", len(ups))
	for j := range ups {
		q := ix(pre+"upid", j)
		d.p(q+".type", ups[j].Type)
		d.p(q+".format", ups[j].Format)
		d.p(q+".format_identifier", ups[j].FI)
		d.p(q+".value", ups[j].Val)
	}
	d.p(pre+"type_id", g.TypeID)
	d.p(pre+"segment_num", g.Num)
	d.p(pre+"segments_expected", g.Exp)
	d.p(pre+"sub_segment_num", g.SubNum)
	d.p(pre+"sub_segments_expected", g.SubExp)
}

// diff returns the first difference between two dumps, with the path's indexes
// removed as its signature.
func diff(want, got string) (sig, detail string) {
	if want == got {
		return "", ""
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			p := a
			if p == "" {
				p = b
			}
			path, _, _ := strings.Cut(p, "=")
			return stripIdx(path), fmt.Sprintf("want %s, got %s", a, b)
		}
	}
	return "?", "?"
}

func stripIdx(p string) string {
	var sb strings.Builder
	in := false
	for _, r := range p {
		if r == '[' {
			in = true
		}
		if !in {
			sb.WriteRune(r)
		}
		if r == ']' {
			in = false
		}
	}
	return sb.String()
}
