package mon

// Reference table: the rows a section's table has, and a matcher.

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// trow is an expected row: its depth, key and acceptable values.
type trow struct {
	depth int
	key   string
	vals  []string // nil: no value
	utc   *int64   // the value is a time
}

func hexForms(v uint64) []string {
	return []string{fmt.Sprintf("%#02x", v), fmt.Sprintf("0x%02x", v), fmt.Sprintf("0x%02X", v), fmt.Sprintf("0x%X", v)}
}

func named(forms []string, name string) []string {
	var out []string
	for _, f := range forms {
		out = append(out, f+" ("+name+")", f+", ("+name+")")
	}
	return out
}

type tab struct{ rows []trow }

func (t *tab) open(d int, name string) { t.rows = append(t.rows, trow{depth: d, key: name + " {"}) }
func (t *tab) close(d int)             { t.rows = append(t.rows, trow{depth: d, key: "}"}) }
func (t *tab) row(d int, key string, vals ...string) {
	t.rows = append(t.rows, trow{depth: d, key: key, vals: vals})
}
func (t *tab) n(d int, key string, v uint64) { t.row(d, key, strconv.FormatUint(v, 10)) }
func (t *tab) b(d int, key string, v bool)   { t.row(d, key, strconv.FormatBool(v)) }
func (t *tab) utc(d int, key string, v int64) {
	t.rows = append(t.rows, trow{depth: d, key: key, utc: &v})
}

func identForms(v uint32) []string {
	name := string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	return named([]string{fmt.Sprintf("%#08x", v), fmt.Sprintf("0x%08x", v), fmt.Sprintf("0x%08X", v)}, name)
}

func bytesForms(b []byte) []string {
	if len(b) == 0 {
		return []string{"", "0x"}
	}
	return []string{fmt.Sprintf("0x%x", b), fmt.Sprintf("0x%X", b)}
}

// refTable is the table of a section. section_length needs the encoded length.
func (s *Sec) refTable() []trow {
	t := &tab{}
	t.open(0, "splice_info_section()")
	t.row(1, "table_id", "0xfc", "0xFC")
	t.b(1, "section_syntax_indicator", false)
	t.b(1, "private_indicator", false)
	t.row(1, "sap_type", fmt.Sprintf("%d (%s)", s.SAP, sapName(s.SAP)))
	t.n(1, "section_length", uint64(s.tableLen()))
	t.close(0)
	t.n(0, "protocol_version", uint64(s.Proto))
	t.row(0, "encryption_algorithm", fmt.Sprintf("%d (%s)", s.Alg, algName(s.Alg)))
	t.n(0, "pts_adjustment", s.PTSAdj)
	t.n(0, "cw_index", uint64(s.CW))
	t.n(0, "tier", uint64(s.Tier))
	if s.HasCmd {
		t.n(0, "splice_command_length", uint64(len(s.cmdBits(nil))))
		t.row(0, "splice_command_type", hexForms(uint64(uint32(s.Cmd.Kind)))...)
		s.Cmd.rows(t)
	}
	loop := 0
	for i := range s.Descs {
		loop += len(s.Descs[i].bits(nil))
	}
	t.n(0, "descriptor_loop_length", uint64(loop))
	for i := range s.Descs {
		s.Descs[i].rows(t)
	}
	return t.rows
}

func (s *Sec) tableLen() int {
	if s.HasCmd {
		return s.secLen()
	}
	x := *s
	x.HasCmd, x.Cmd = true, Cmd{Kind: cmdNull}
	return x.secLen()
}

func (c *Cmd) rows(t *tab) {
	stime := func(d int, p *uint64) {
		t.b(d, "time_specified_flag", p != nil)
		if p != nil {
			t.n(d, "pts_time", *p)
		}
	}
	brk := func(d int, b *Brk) {
		if b != nil {
			t.b(d, "auto_return", b.Auto)
			t.n(d, "duration", b.Dur)
		}
	}
	switch c.Kind {
	case cmdNull:
		t.rows = append(t.rows, trow{key: "splice_null() {}"})
	case cmdBW:
		t.rows = append(t.rows, trow{key: "bandwidth_reservation() {}"})
	case cmdTime:
		t.open(0, "time_signal()")
		stime(1, c.PTS)
		t.close(0)
	case cmdPrivate:
		t.open(0, "private_command()")
		t.row(1, "identifier", identForms(c.Ident)...)
		t.row(1, "private_byte", bytesForms(c.Bytes)...)
		t.close(0)
	case cmdInsert:
		i := c.Ins
		t.open(0, "splice_insert()")
		t.n(1, "splice_event_id", uint64(i.ID))
		t.b(1, "splice_event_cancel_indicator", i.Cancel)
		if !i.Cancel {
			t.b(1, "out_of_network_indicator", i.Out)
			t.b(1, "program_splice_flag", i.Program)
			t.b(1, "duration_flag", i.Brk != nil)
			t.b(1, "splice_immediate_flag", i.Imm)
			if i.Program && !i.Imm {
				stime(1, i.PTS)
			}
			if !i.Program {
				t.n(1, "component_count", uint64(len(i.Comps)))
				for k, c := range i.Comps {
					t.open(1, fmt.Sprintf("component[%d]", k))
					t.n(2, "component_tag", uint64(c.Tag))
					if !i.Imm {
						stime(2, c.PTS)
					}
					t.close(1)
				}
			}
			brk(1, i.Brk)
			t.n(1, "unique_program_id", uint64(i.UPID))
			t.n(1, "avail_num", uint64(i.AvailNum))
			t.n(1, "avails_expected", uint64(i.AvailsExp))
		}
		t.close(0)
	case cmdSchedule:
		t.open(0, "splice_schedule()")
		t.n(1, "splice_count", uint64(len(c.Sch)))
		for k := range c.Sch {
			e := &c.Sch[k]
			t.open(1, fmt.Sprintf("event[%d]", k))
			t.n(2, "splice_event_id", uint64(e.ID))
			t.b(2, "splice_event_cancel_indicator", e.Cancel)
			t.b(2, "event_id_compliance_flag", e.Compliance)
			if !e.Cancel {
				t.b(2, "out_of_network_indicator", e.Out)
				t.b(2, "program_splice_flag", e.Program)
				t.b(2, "duration_flag", e.Brk != nil)
				if e.Program {
					t.utc(2, "utc_splice_time", e.UTC)
				} else {
					t.n(2, "component_count", uint64(len(e.Comps)))
					for j, c := range e.Comps {
						t.open(2, fmt.Sprintf("component[%d]", j))
						t.n(3, "component_tag", uint64(c.Tag))
						t.utc(3, "utc_splice_time", c.UTC)
						t.close(2)
					}
				}
				brk(2, e.Brk)
				t.n(2, "unique_program_id", uint64(e.UPID))
				t.n(2, "avail_num", uint64(e.AvailNum))
				t.n(2, "avails_expected", uint64(e.AvailsExp))
			}
			t.close(1)
		}
		t.close(0)
	}
}

func (x *Desc) rows(t *tab) {
	head := func(name string, tag uint32, ident uint32) {
		t.open(0, name)
		t.row(1, "splice_descriptor_tag", hexForms(uint64(tag))...)
		t.n(1, "descriptor_length", uint64(len(x.bits(nil))-2))
		t.row(1, "identifier", identForms(ident)...)
	}
	switch x.Kind {
	case dAvail:
		head("avail_descriptor()", 0, cuei)
		t.n(1, "provider_avail_id", uint64(x.Avail))
	case dDTMF:
		head("dtmf_descriptor()", 1, cuei)
		v := float64(x.Preroll) / 10
		t.row(1, "preroll", fmt.Sprintf("%.2f", v), fmt.Sprintf("%.1f", v), fmt.Sprint(v))
		t.n(1, "dtmf_count", uint64(len(x.Chars)))
		t.row(1, "dtmf_chars", x.Chars)
	case dTime:
		head("time_descriptor()", 3, cuei)
		t.n(1, "tai_seconds", x.TAISec)
		t.n(1, "tai_ns", uint64(x.TAINS))
		t.n(1, "utc_offset", uint64(x.UTCOff))
	case dAudio:
		head("audio_descriptor()", 4, cuei)
		t.n(1, "audio_count", uint64(len(x.Audio)))
		for i, c := range x.Audio {
			t.open(1, fmt.Sprintf("audio_channel[%d]", i))
			t.n(2, "component_tag", uint64(c.Tag))
			t.row(2, "iso_code", c.ISO)
			t.n(2, "bit_stream_mode", uint64(c.BSM))
			t.n(2, "num_channels", uint64(c.Num))
			t.b(2, "full_srvc_audio", c.Full)
			t.close(1)
		}
	case dPriv:
		head("private_descriptor()", x.Tag, x.Ident)
		t.row(1, "private_bytes", bytesForms(x.Bytes)...)
	case dSeg:
		g := x.Seg
		head("segmentation_descriptor()", 2, cuei)
		t.n(1, "segmentation_event_id", uint64(g.ID))
		t.b(1, "segmentation_event_cancel_indicator", g.Cancel)
		t.b(1, "segmentation_event_id_compliance_indicator", g.Compliance)
		if g.Cancel {
			break
		}
		t.b(1, "program_segmentation_flag", len(g.Comps) == 0)
		t.b(1, "segmentation_duration_flag", g.Dur != nil)
		t.b(1, "delivery_not_restricted_flag", g.Restr == nil)
		if r := g.Restr; r != nil {
			t.b(1, "web_delivery_allowed_flag", r.Web)
			t.b(1, "no_regional_blackout_flag", r.Regional)
			t.b(1, "archive_allowed_flag", r.Archive)
			t.row(1, "device_restrictions", fmt.Sprintf("%d (%s)", r.Device, deviceName(r.Device)))
		}
		if len(g.Comps) > 0 {
			t.n(1, "component_count", uint64(len(g.Comps)))
			for i, c := range g.Comps {
				t.open(1, fmt.Sprintf("component[%d]", i))
				t.n(2, "component_tag", uint64(c.Tag))
				t.n(2, "pts_offset", c.Off)
				t.close(1)
			}
		}
		if g.Dur != nil {
			t.n(1, "segmentation_duration", *g.Dur)
		}
		ul := 0
		for _, u := range g.UPIDs {
			ul += len(u.Raw)
			if len(g.UPIDs) > 1 {
				ul += 2
			}
		}
		t.n(1, "segmentation_upid_length", uint64(ul))
		for i := range g.UPIDs {
			u := &g.UPIDs[i]
			t.open(1, fmt.Sprintf("segmentation_upid[%d]", i))
			t.row(2, "segmentation_upid_type", named(hexForms(uint64(u.Type)), upidName(u.Type, u.Val))...)
			if u.Type == 0x0c {
				var f [4]byte
				if u.FI != nil {
					f = [4]byte{byte(*u.FI >> 24), byte(*u.FI >> 16), byte(*u.FI >> 8), byte(*u.FI)}
				}
				t.row(2, "format_identifier", string(f[:]))
			}
			t.row(2, "segmentation_upid", u.Val)
			t.close(1)
		}
		t.row(1, "segmentation_type_id", named(hexForms(uint64(g.TypeID)), segName(g.TypeID))...)
		t.n(1, "segment_num", uint64(g.Num))
		t.n(1, "segments_expected", uint64(g.Exp))
		if g.SubNum != nil {
			t.n(1, "sub_segment_num", uint64(*g.SubNum))
		}
		if g.SubExp != nil {
			t.n(1, "sub_segments_expected", uint64(*g.SubExp))
		}
	}
	t.close(0)
}

var timeLayouts = []string{time.RFC3339Nano, "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 -0700 -07", "2006-01-02 15:04:05 -0700 -0700", "2006-01-02 15:04:05 -0700 +0000"}

// matchTable compares a table with the expected rows; "" if it agrees.
func matchTable(got string, rows []trow, prefix, indent string) (sig, detail string) {
	rest := got
	section := ""
	for i, r := range rows {
		if r.depth == 0 && strings.HasSuffix(r.key, "{") {
			section = strings.TrimSuffix(r.key, " {")
		}
		where := section + " " + stripIdx(r.key)
		ctx := func() string {
			l := rest
			if k := strings.IndexByte(l, '\n'); k >= 0 {
				l = l[:k]
			}
			if len(l) > 200 {
				l = l[:200]
			}
			return fmt.Sprintf("row %d should be %q = %q at depth %d with prefix %q and indent %q, got %q", i, r.key, r.vals, r.depth, prefix, indent, l)
		}
		lead := prefix + strings.Repeat(indent, r.depth) + r.key
		if !strings.HasPrefix(rest, lead) {
			return where, ctx()
		}
		after := rest[len(lead):]
		switch {
		case r.utc != nil:
			line, tail, ok := strings.Cut(after, "\n")
			if !ok || !strings.HasPrefix(line, ": ") {
				return where, ctx()
			}
			good := false
			for _, l := range timeLayouts {
				if t, err := time.Parse(l, line[2:]); err == nil && t.Unix() == *r.utc+gpsEpoch && t.Nanosecond() == 0 {
					good = true
				}
			}
			if !good {
				return where, fmt.Sprintf("time %q is not %s", line, time.Unix(*r.utc+gpsEpoch, 0).UTC())
			}
			rest = tail
		case r.vals == nil:
			if !strings.HasPrefix(after, "\n") {
				return where, ctx()
			}
			rest = after[1:]
		default:
			found := false
			for _, v := range r.vals {
				if strings.HasPrefix(after, ": "+v+"\n") {
					rest = after[len(v)+3:]
					found = true
					break
				}
				if v == "" && strings.HasPrefix(after, ":\n") {
					rest = after[2:]
					found = true
					break
				}
			}
			if !found {
				return where, ctx()
			}
		}
	}
	if rest != "" {
		l, _, _ := strings.Cut(rest, "\n")
		return "extra rows", fmt.Sprintf("extra text after the last row: %q", l)
	}
	return "", ""
}
