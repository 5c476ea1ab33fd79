package mon

// Mutators: byte strings, structurally broken sections, JSON and XML trees.

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// raw is a section taken apart, with its lengths open to change.
type raw struct {
	head    []byte // 11 bytes up to splice_command_length, whose low 12 bits are set by cmdLen
	cmdType byte
	cmd     []byte
	cmdLen  int // -1: true
	descs   [][]byte
	loopLen int    // -1: true
	tail    []byte // stuffing and E_CRC_32
	crc     int    // 0 valid, 1 random, 2 absent
	cut     int    // bytes removed from the end before the CRC is set
}

func (g *gen) rawOf(s *Sec, o *wireOpt) *raw {
	b := s.Bits(o)
	r := &raw{head: append([]byte{}, b[:13]...), cmdType: b[13], cmd: s.cmdBits(o), cmdLen: -1, loopLen: -1}
	for i := range s.Descs {
		r.descs = append(r.descs, s.Descs[i].bits(o))
	}
	r.tail = append([]byte{}, s.Stuff...)
	if s.EncFlag {
		r.tail = append(r.tail, g.bytesN(4)...)
	}
	return r
}

func (r *raw) bytes(g *gen) []byte {
	b := append([]byte{}, r.head...)
	n := len(r.cmd)
	if r.cmdLen >= 0 {
		n = r.cmdLen
	}
	b[11] = b[11]&0xF0 | byte(n>>8)&0x0F
	b[12] = byte(n)
	b = append(b, r.cmdType)
	b = append(b, r.cmd...)
	l := 0
	for _, d := range r.descs {
		l += len(d)
	}
	if r.loopLen >= 0 {
		l = r.loopLen
	}
	b = append(b, byte(l>>8), byte(l))
	for _, d := range r.descs {
		b = append(b, d...)
	}
	b = append(b, r.tail...)
	switch r.crc {
	case 0:
		b = withCRC(b)
	case 1:
		b = append(b, g.bytesN(4)...)
	}
	if r.cut > 0 && r.cut < len(b) {
		b = b[:len(b)-r.cut]
		if g.coin() {
			b = fixCRC(b)
		}
	}
	return b
}

// breakUp changes one or several structural facts.
func (r *raw) breakUp(g *gen) {
	n := 1
	if g.p(0.3) {
		n = 2 + g.Intn(2)
	}
	for ; n > 0; n-- {
		switch g.Intn(16) {
		case 0: // command longer than its syntax
			r.cmd = append(append([]byte{}, r.cmd...), g.bytesN(1+g.Intn(6))...)
		case 1: // command cut
			if len(r.cmd) > 0 {
				r.cmd = r.cmd[:g.Intn(len(r.cmd))]
			}
		case 2: // command length off
			r.cmdLen = max(0, len(r.cmd)+g.Intn(9)-4)
		case 3:
			r.cmdLen = int(g.num(12))
		case 4:
			r.cmdLen = 0xFFF
		case 5:
			r.cmdType = byte(g.num(8))
		case 6: // descriptor longer than its syntax
			if k := len(r.descs); k > 0 {
				i := g.Intn(k)
				d := append(append([]byte{}, r.descs[i]...), g.bytesN(1+g.Intn(6))...)
				if g.p(0.8) && len(d) < 258 && len(d) > 1 {
					d[1] = byte(len(d) - 2)
				}
				r.descs[i] = d
			}
		case 7: // descriptor cut
			if k := len(r.descs); k > 0 {
				i := g.Intn(k)
				d := append([]byte{}, r.descs[i][:g.Intn(len(r.descs[i])+1)]...)
				if g.p(0.8) && len(d) > 1 {
					d[1] = byte(len(d) - 2)
				}
				r.descs[i] = d
			}
		case 8: // descriptor length off
			if k := len(r.descs); k > 0 {
				if d := append([]byte{}, r.descs[g.Intn(k)]...); len(d) > 1 {
					d[1] = byte(int(d[1]) + g.Intn(9) - 4)
					r.descs[g.Intn(k)] = d
				}
			}
		case 9: // a byte inside a descriptor: counts, lengths, flags, type
			if k := len(r.descs); k > 0 {
				i := g.Intn(k)
				if d := append([]byte{}, r.descs[i]...); len(d) > 6 {
					d[6+g.Intn(len(d)-6)] = byte(g.num(8))
					r.descs[i] = d
				}
			}
		case 10: // loop length off
			l := 0
			for _, d := range r.descs {
				l += len(d)
			}
			r.loopLen = max(0, l+g.Intn(13)-6)
			if g.p(0.2) {
				r.loopLen = int(g.num(16))
			}
		case 11: // a byte inside the command
			if len(r.cmd) > 0 {
				r.cmd = append([]byte{}, r.cmd...)
				r.cmd[g.Intn(len(r.cmd))] = byte(g.num(8))
			}
		case 12:
			r.tail = append(r.tail, g.bytesN(g.Intn(8))...)
		case 13:
			r.crc = 1 + g.Intn(2)
		case 14:
			r.cut = 1 + g.Intn(20)
		case 15: // encrypted flag without its bytes, or the other way round
			r.head[4] ^= 0x80
		}
	}
}

// mutBytes changes bytes without regard to structure.
func (g *gen) mutBytes(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			b = g.bytesN(1 + g.Intn(20))
		}
		switch g.Intn(9) {
		case 0:
			b = b[:g.Intn(len(b)+1)]
		case 1:
			b = append(b, g.bytesN(1+g.Intn(40))...)
		case 2:
			b[g.Intn(len(b))] ^= 1 << uint(g.Intn(8))
		case 3:
			b[g.Intn(len(b))] = byte(g.num(8))
		case 4:
			b[g.Intn(len(b))] = []byte{0, 1, 0x7F, 0x80, 0xFF, 0x0D, 0x0C}[g.Intn(7)]
		case 5: // delete
			i := g.Intn(len(b))
			j := min(len(b), i+1+g.Intn(4))
			b = append(b[:i:i], b[j:]...)
		case 6: // insert
			i := g.Intn(len(b) + 1)
			b = append(b[:i:i], append(g.bytesN(1+g.Intn(4)), b[i:]...)...)
		case 7: // 16-bit edge value
			if len(b) > 1 {
				i := g.Intn(len(b) - 1)
				v := g.num(16)
				b[i], b[i+1] = byte(v>>8), byte(v)
			}
		case 8: // splice with another signal
			o := corpus[g.Intn(len(corpus))]
			i, j := g.Intn(len(b)+1), g.Intn(len(o))
			b = append(b[:i:i], o[j:]...)
		}
	}
	if g.p(0.6) {
		b = fixCRC(b)
	}
	return b
}

// anySignal is a byte string of some origin.
func (g *gen) anySignal() []byte {
	switch g.Intn(10) {
	case 0:
		return g.bytesN(g.Intn(120))
	case 1, 2:
		return g.mutBytes(corpus[g.Intn(len(corpus))])
	case 3, 4:
		return g.mutBytes(g.sec().Bits(g.wire()))
	case 5:
		return g.sec().Bits(g.wire())
	default:
		r := g.rawOf(g.sec(), g.wire())
		r.breakUp(g)
		return r.bytes(g)
	}
}

// wire draws how a well-formed section is written.
func (g *gen) wire() *wireOpt {
	o := &wireOpt{}
	if g.coin() {
		o.res = g.coin
	}
	if g.p(0.2) {
		o.junkHdr = true
		o.hdr = uint64(g.n32(24))
	}
	if g.p(0.3) {
		o.useECRC, o.ecrc = true, g.n32(32)
	}
	return o
}

// ------------------------------------------------------------- JSON trees

// jsonTree reads a document for mutation.
func jsonTree(s string) *jval {
	v, err := parseJSON([]byte(s))
	if err != nil {
		panic(err)
	}
	return v
}

func (v *jval) String() string {
	var sb strings.Builder
	v.write(&sb)
	return sb.String()
}

func (v *jval) write(sb *strings.Builder) {
	switch v.kind {
	case 'o':
		sb.WriteByte('{')
		for i := range v.vals {
			if i > 0 {
				sb.WriteByte(',')
			}
			k, _ := json.Marshal(v.keys[i])
			sb.Write(k)
			sb.WriteByte(':')
			v.vals[i].write(sb)
		}
		sb.WriteByte('}')
	case 'a':
		sb.WriteByte('[')
		for i := range v.vals {
			if i > 0 {
				sb.WriteByte(',')
			}
			v.vals[i].write(sb)
		}
		sb.WriteByte(']')
	case 's':
		k, _ := json.Marshal(v.s)
		sb.Write(k)
	case '0':
		sb.WriteString("null")
	default:
		sb.WriteString(v.s)
	}
}

func (v *jval) all(out *[]*jval) {
	*out = append(*out, v)
	for _, k := range v.vals {
		k.all(out)
	}
}

func (g *gen) jsonValue() *jval {
	switch g.Intn(14) {
	case 0, 1, 2:
		return &jval{kind: '0'}
	case 3:
		return &jval{kind: 'o'}
	case 4:
		return &jval{kind: 'a'}
	case 5:
		return &jval{kind: 'b', s: strconv.FormatBool(g.coin())}
	case 6:
		return &jval{kind: 's', s: ""}
	case 7:
		return &jval{kind: 's', s: g.weird()}
	case 8:
		return &jval{kind: 'n', s: strconv.FormatUint(g.num(64), 10)}
	case 9:
		return &jval{kind: 'n', s: strconv.FormatUint(g.num(32), 10)}
	case 10:
		return &jval{kind: 'n', s: []string{"-1", "1.5", "1e3", "0", "4294967296", "18446744073709551616", "1e400", "255", "256"}[g.Intn(9)]}
	case 11:
		return &jval{kind: 'a', vals: []*jval{{kind: '0'}}}
	case 12:
		return &jval{kind: 'a', vals: []*jval{{kind: 'o'}, {kind: 'o'}}}
	default:
		return &jval{kind: 'n', s: strconv.Itoa(g.Intn(16))}
	}
}

// weird is text that parsers of some field may not expect.
func (g *gen) weird() string {
	switch g.Intn(12) {
	case 0:
		return "10.5240/"
	case 1:
		return "10./AB"
	case 2:
		return "10.5240/AABB-CCDD-EEFF-0011-2233-4455-6677"
	case 3:
		return strings.Repeat("x", g.Intn(300))
	case 4:
		return "AQI"
	case 5:
		return "-1"
	case 6:
		return "99999999999999999999"
	case 7:
		return "日本語 ünï 😀"
	case 8:
		return "2020-02-30T25:00:00Z"
	case 9:
		return fmt.Sprintf("%d-01-01T00:00:00Z", 1000+g.Intn(8999))
	case 10:
		return g.d.strs[g.Intn(len(g.d.strs))]
	default:
		return string(g.bytesN(g.Intn(12)))
	}
}

// mutJSON changes a document's tree.
func (g *gen) mutJSON(v *jval) {
	for n := 1 + g.Intn(4); n > 0; n-- {
		var all []*jval
		v.all(&all)
		t := all[g.Intn(len(all))]
		switch g.Intn(8) {
		case 0, 1: // remove a member
			if k := len(t.vals); k > 0 {
				i := g.Intn(k)
				t.vals = append(t.vals[:i:i], t.vals[i+1:]...)
				if t.kind == 'o' {
					t.keys = append(t.keys[:i:i], t.keys[i+1:]...)
				}
			}
		case 2, 3, 4: // replace a member
			if k := len(t.vals); k > 0 {
				t.vals[g.Intn(k)] = g.jsonValue()
			} else if t != v {
				*t = *g.jsonValue()
			}
		case 5: // duplicate a member, maybe with another value
			if k := len(t.vals); k > 0 {
				i := g.Intn(k)
				d := t.vals[i]
				if g.coin() {
					d = g.jsonValue()
				}
				t.vals = append(t.vals, d)
				if t.kind == 'o' {
					t.keys = append(t.keys, t.keys[i])
				}
			}
		case 6: // move a value elsewhere
			if k := len(t.vals); k > 0 {
				o := all[g.Intn(len(all))]
				if o.kind != 'o' && o.kind != 'a' {
					cp := *o
					t.vals[g.Intn(k)] = &cp
				}
			}
		case 7: // rename or change case of a key
			if t.kind == 'o' && len(t.keys) > 0 {
				i := g.Intn(len(t.keys))
				switch g.Intn(3) {
				case 0:
					t.keys[i] = strings.ToUpper(t.keys[i])
				case 1:
					t.keys[i] = "x"
				default:
					t.keys[i] = t.keys[g.Intn(len(t.keys))]
				}
			}
		}
	}
}

// -------------------------------------------------------------- XML trees

func (e *xel) all(out *[]*xel) {
	*out = append(*out, e)
	for _, k := range e.kids {
		k.all(out)
	}
}

func xmlEsc(s string) string {
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r == '<':
			sb.WriteString("&lt;")
		case r == '&':
			sb.WriteString("&amp;")
		case r == '"':
			sb.WriteString("&quot;")
		case r == '\r' || r == '\n' || r == '\t':
			fmt.Fprintf(&sb, "&#%d;", r)
		case r < 0x20 || r == 0xFFFD:
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

func (e *xel) write(sb *strings.Builder, root bool) {
	sb.WriteString("<" + e.name.Local)
	if root {
		fmt.Fprintf(sb, ` xmlns="%s"`, e.name.Space)
	}
	for _, a := range e.attrs {
		fmt.Fprintf(sb, ` %s="%s"`, a.Name.Local, xmlEsc(a.Value))
	}
	sb.WriteString(">")
	sb.WriteString(xmlEsc(e.text))
	for _, k := range e.kids {
		k.write(sb, false)
	}
	sb.WriteString("</" + e.name.Local + ">")
}

var xmlNames = []string{"SpliceInfoSection", "EncryptedPacket", "SpliceNull", "SpliceSchedule", "SpliceInsert", "TimeSignal",
	"BandwidthReservation", "PrivateCommand", "Event", "Program", "Component", "SpliceTime", "BreakDuration",
	"AvailDescriptor", "DTMFDescriptor", "SegmentationDescriptor", "TimeDescriptor", "AudioDescriptor", "AudioChannel",
	"PrivateDescriptor", "DeliveryRestrictions", "SegmentationUpid", "X"}

// mutXML changes a document's tree.
func (g *gen) mutXML(e *xel) {
	for n := 1 + g.Intn(4); n > 0; n-- {
		var all []*xel
		e.all(&all)
		t := all[g.Intn(len(all))]
		switch g.Intn(9) {
		case 0: // remove an element
			if k := len(t.kids); k > 0 {
				i := g.Intn(k)
				t.kids = append(t.kids[:i:i], t.kids[i+1:]...)
			}
		case 1: // duplicate or move an element
			o := all[g.Intn(len(all))]
			if o != e && !contains(o, t) {
				t.kids = append(t.kids, o)
			}
		case 2: // remove an attribute
			if k := len(t.attrs); k > 0 {
				i := g.Intn(k)
				t.attrs = append(t.attrs[:i:i], t.attrs[i+1:]...)
			}
		case 3, 4: // change an attribute
			if k := len(t.attrs); k > 0 {
				i := g.Intn(k)
				a := append(t.attrs[:0:0], t.attrs...)
				switch g.Intn(4) {
				case 0:
					a[i].Value = g.weird()
				case 1:
					a[i].Value = strconv.FormatUint(g.num(64), 10)
				case 2:
					a[i].Value = strconv.FormatUint(g.num(16), 10)
				default:
					a[i].Value = ""
				}
				t.attrs = a
			}
		case 5: // an empty element
			k := &xel{}
			k.name.Local = xmlNames[g.Intn(len(xmlNames))]
			t.kids = append(t.kids, k)
		case 6:
			t.text = g.weird()
		case 7:
			if t != e {
				t.name.Local = xmlNames[g.Intn(len(xmlNames))]
			}
		case 8:
			t.kids, t.attrs = nil, nil
		}
	}
}

func contains(o, t *xel) bool {
	if o == t {
		return true
	}
	for _, k := range o.kids {
		if contains(k, t) {
			return true
		}
	}
	return false
}

// mutText damages a document as text.
func (g *gen) mutText(s string) string { return string(g.mutTextBytes([]byte(s))) }

func (g *gen) mutTextBytes(b []byte) []byte {
	for n := 1 + g.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			return b
		}
		i := g.Intn(len(b))
		switch g.Intn(6) {
		case 0:
			b = b[:i]
		case 1:
			j := min(len(b), i+1+g.Intn(10))
			b = append(b[:i:i], b[j:]...)
		case 2:
			b = append(b[:i:i], append([]byte{"{}[]\",:<>/&; 0\x00\xff"[g.Intn(16)]}, b[i:]...)...)
		case 3:
			b = append([]byte{}, b...)
			b[i] = byte(g.Intn(256))
		case 4:
			j := g.Intn(len(b))
			if j < i {
				i, j = j, i
			}
			if j-i > 200 {
				j = i + 200
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 5:
			b = append([]byte{}, b...)
			b[i] ^= 1 << uint(g.Intn(7))
		}
	}
	return b
}
