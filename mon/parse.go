package mon

// Reference parser: reads any byte string by the standard's layout, with a
// strict notion of "enough bytes", and reports the fields which are completely
// present and the class of the first thing wrong.

const (
	clsOK        = ""
	clsOverflow  = "overflow"
	clsUnderflow = "underflow"
	clsCRC       = "crc"
)

type bitr struct {
	b   []byte
	pos int
}

type overflow struct{}

func (r *bitr) left() int { return len(r.b)*8 - r.pos }

func (r *bitr) u(n int) uint64 {
	if r.left() < n {
		r.pos = len(r.b) * 8
		panic(overflow{})
	}
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<1 | uint64(r.b[r.pos/8]>>(7-r.pos%8)&1)
		r.pos++
	}
	return v
}

func (r *bitr) bit() bool { return r.u(1) == 1 }

func (r *bitr) bytes(n int) []byte {
	if r.left() < n*8 {
		r.pos = len(r.b) * 8
		panic(overflow{})
	}
	p := r.b[r.pos/8 : r.pos/8+n]
	r.pos += n * 8
	return p
}

func (r *bitr) rest() []byte {
	p := r.b[r.pos/8:]
	r.pos = len(r.b) * 8
	return p
}

// guard runs f and returns the class of a structure's result.
func (r *bitr) guard(f func()) (cls string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(overflow); !ok {
				panic(e)
			}
			cls = clsOverflow
		}
	}()
	f()
	if r.left() > 0 {
		return clsUnderflow
	}
	return clsOK
}

// parsed is the result of parsing.
type parsed struct {
	cls       string
	any       map[string]bool // acceptable classes, if more than one applies
	lines     string          // fully present fields, in Dump format
	wellUPIDs bool            // all UPIDs are well formed and unambiguous
	cmdLen    int             // bytes of the command by its own syntax
	kind      int
	size      int
	encFlag   bool
	alg       uint32
	stuff     int
}

const wild = "*"

func parse(b []byte) *parsed {
	p := &parsed{wellUPIDs: true, any: map[string]bool{}, size: len(b)}
	d := &dumper{}
	defer func() { p.lines = d.sb.String() }()
	fail := func(c string) *parsed {
		p.cls = c
		p.any[c] = true
		return p
	}

	r := &bitr{b: b}
	var enc bool
	var alg, cw, tier, cmdlen, cmdtype uint64
	if r.guard(func() {
		r.u(10)
		d.p("sap_type", r.u(2))
		r.u(12)
		d.p("protocol_version", r.u(8))
		enc = r.bit()
		alg = r.u(6)
		d.p("encryption_algorithm", alg)
		d.p("pts_adjustment", r.u(33))
		cw = r.u(8)
		d.p("cw_index", cw)
		tier = r.u(12)
		d.p("tier", tier)
		d.p("pre_roll", 0)
		cmdlen = r.u(12)
		cmdtype = r.u(8)
	}) == clsOverflow {
		return fail(clsOverflow)
	}
	p.encFlag, p.alg = enc, uint32(alg)

	// command
	avail := r.b[r.pos/8:]
	cb := avail
	if cmdlen != 0xFFF && int(cmdlen) < len(avail) {
		cb = avail[:cmdlen]
	}
	cr := &bitr{b: cb}
	end := 0
	cls := parseCmd(d, p, cr, int(cmdtype), &end)
	p.cmdLen = end / 8
	if cmdlen == 0xFFF {
		if cls == clsOverflow {
			return fail(cls)
		}
		r.pos += end
	} else {
		if cls != clsOK {
			return fail(cls)
		}
		if int(cmdlen) > len(avail) {
			return fail(clsOverflow) // no room for the rest
		}
		r.pos += int(cmdlen) * 8
	}

	// descriptors
	if r.left() < 16 {
		return fail(clsOverflow)
	}
	loop := int(r.u(16))
	short := loop*8 > r.left()
	if short {
		loop = r.left() / 8
	}
	lb := r.bytes(loop)
	dd := &dumper{}
	n := 0
	for len(lb) > 0 {
		pre := ix("descriptor", n) + "."
		dl := 0
		if len(lb) > 1 {
			dl = int(lb[1])
		}
		own := lb
		clipped := dl+2 > len(lb)
		if !clipped {
			own = lb[:dl+2]
		}
		c := parseDesc(dd, p, pre, own, clipped)
		if c != clsOK {
			p.any[c] = true
			if p.cls == clsOK {
				p.cls = c
			}
		}
		n++
		lb = lb[len(own):]
	}
	d.p("descriptors", n)
	d.sb.WriteString(dd.sb.String())
	if p.cls != clsOK {
		return p
	}
	if short {
		return fail(clsOverflow)
	}
	need := 4
	if enc {
		need = 8
	}
	rest := len(r.rest())
	if rest < need {
		return fail(clsOverflow)
	}
	p.stuff = rest - need
	if refCRC(b) != 0 { // the CRC of data followed by its CRC is zero
		return fail(clsCRC)
	}
	return p
}

func parseBrk(d *dumper, pre string, r *bitr, flag bool) {
	d.p(pre+"duration_flag", flag)
	if flag {
		d.p(pre+"auto_return", r.bit())
		r.u(6)
		d.p(pre+"duration", r.u(33))
	}
}

func parseTime(d *dumper, path string, r *bitr) {
	if r.bit() {
		r.u(6)
		d.p(path, r.u(33))
	} else {
		r.u(7)
		d.p(path, (*uint64)(nil))
	}
}

func parseCmd(d *dumper, p *parsed, r *bitr, typ int, end *int) string {
	return r.guard(func() {
		defer func() { *end = r.pos }()
		switch typ {
		case cmdNull:
			p.kind = cmdNull
			d.p("command", "splice_null")
		case cmdBW:
			p.kind = cmdBW
			d.p("command", "bandwidth_reservation")
		case cmdTime:
			p.kind = cmdTime
			d.p("command", "time_signal")
			parseTime(d, "time_signal.pts_time", r)
		case cmdInsert:
			p.kind = cmdInsert
			d.p("command", "splice_insert")
			const pre = "splice_insert."
			d.p(pre+"event_id", r.u(32))
			cancel := r.bit()
			d.p(pre+"cancel", cancel)
			r.u(7)
			if cancel {
				return
			}
			d.p(pre+"out_of_network", r.bit())
			prog, dur, imm := r.bit(), r.bit(), r.bit()
			r.u(4)
			d.p(pre+"immediate", imm)
			d.p(pre+"program_splice_flag", prog)
			if prog {
				if !imm {
					parseTime(d, pre+"pts_time", r)
				}
			} else {
				n := int(r.u(8))
				d.p(pre+"component_count", n)
				for j := 0; j < n; j++ {
					d.p(ix(pre+"component", j)+".tag", r.u(8))
					if !imm {
						parseTime(d, ix(pre+"component", j)+".pts_time", r)
					}
				}
			}
			parseBrk(d, pre, r, dur)
			d.p(pre+"unique_program_id", r.u(16))
			d.p(pre+"avail_num", r.u(8))
			d.p(pre+"avails_expected", r.u(8))
		case cmdSchedule:
			p.kind = cmdSchedule
			d.p("command", "splice_schedule")
			n := int(r.u(8))
			d.p("splice_schedule.count", n)
			for k := 0; k < n; k++ {
				pre := ix("splice_schedule.event", k) + "."
				d.p(pre+"event_id", r.u(32))
				cancel := r.bit()
				d.p(pre+"cancel", cancel)
				d.p(pre+"compliance", !r.bit())
				r.u(6)
				if cancel {
					continue
				}
				d.p(pre+"out_of_network", r.bit())
				prog, dur := r.bit(), r.bit()
				r.u(5)
				d.p(pre+"program_splice_flag", prog)
				if prog {
					d.p(pre+"utc_splice_time", r.u(32))
				} else {
					m := int(r.u(8))
					d.p(pre+"component_count", m)
					for j := 0; j < m; j++ {
						d.p(ix(pre+"component", j)+".tag", r.u(8))
						d.p(ix(pre+"component", j)+".utc_splice_time", r.u(32))
					}
				}
				parseBrk(d, pre, r, dur)
				d.p(pre+"unique_program_id", r.u(16))
				d.p(pre+"avail_num", r.u(8))
				d.p(pre+"avails_expected", r.u(8))
			}
		default:
			p.kind = cmdPrivate
			d.p("command", "private_command")
			d.p("private_command.identifier", r.u(32))
			d.p("private_command.bytes", r.rest())
		}
	})
}

func parseDesc(d *dumper, p *parsed, pre string, b []byte, clipped bool) string {
	if len(b) < 6 {
		return clsOverflow
	}
	r := &bitr{b: b}
	tag := r.u(8)
	r.u(8)
	ident := r.u(32)
	kind := dPriv
	if ident == cuei && tag <= 4 {
		kind = int(tag)
	}
	cls := r.guard(func() {
		switch kind {
		case dPriv:
			d.p(pre+"kind", "private")
			d.p(pre+"private.tag", tag)
			d.p(pre+"private.identifier", ident)
			rest := r.rest()
			if !clipped {
				d.p(pre+"private.bytes", rest)
			}
		case dAvail:
			d.p(pre+"kind", "avail")
			d.p(pre+"avail.provider_avail_id", r.u(32))
		case dDTMF:
			d.p(pre+"kind", "dtmf")
			d.p(pre+"dtmf.preroll", r.u(8))
			n := int(r.u(3))
			r.u(5)
			d.p(pre+"dtmf.chars", string(r.bytes(n)))
		case dTime:
			d.p(pre+"kind", "time")
			d.p(pre+"time.tai_seconds", r.u(48))
			d.p(pre+"time.tai_ns", r.u(32))
			d.p(pre+"time.utc_offset", r.u(16))
		case dAudio:
			d.p(pre+"kind", "audio")
			n := int(r.u(4))
			r.u(4)
			d.p(pre+"audio.count", n)
			for j := 0; j < n; j++ {
				q := ix(pre+"audio.channel", j)
				d.p(q+".tag", r.u(8))
				d.p(q+".iso_code", string(r.bytes(3)))
				d.p(q+".bit_stream_mode", r.u(3))
				d.p(q+".num_channels", r.u(4))
				d.p(q+".full", r.bit())
			}
		case dSeg:
			d.p(pre+"kind", "segmentation")
			parseSeg(d, p, pre+"seg.", r)
		}
	})
	if cls == clsOK && clipped {
		cls = clsOverflow
	}
	return cls
}

func parseSeg(d *dumper, p *parsed, pre string, r *bitr) {
	d.p(pre+"event_id", r.u(32))
	cancel := r.bit()
	d.p(pre+"cancel", cancel)
	d.p(pre+"compliance", !r.bit())
	r.u(6)
	if cancel {
		return
	}
	prog, durf, notrestr := r.bit(), r.bit(), r.bit()
	d.p(pre+"restricted", !notrestr)
	if notrestr {
		r.u(5)
	} else {
		d.p(pre+"web", r.bit())
		d.p(pre+"regional", r.bit())
		d.p(pre+"archive", r.bit())
		d.p(pre+"device", r.u(2))
	}
	n := 0
	if !prog {
		n = int(r.u(8))
	}
	d.p(pre+"component_count", n)
	for j := 0; j < n; j++ {
		d.p(ix(pre+"component", j)+".tag", r.u(8))
		r.u(7)
		d.p(ix(pre+"component", j)+".pts_offset", r.u(33))
	}
	if durf {
		d.p(pre+"duration", u64p(r.u(40)))
	} else {
		d.p(pre+"duration", (*uint64)(nil))
	}
	typ := uint32(r.u(8))
	ul := int(r.u(8))
	raw := r.bytes(ul)
	var ups []UPID
	if ul > 0 {
		if typ == 0x0d {
			for len(raw) > 0 {
				t := uint32(raw[0])
				var v []byte
				if len(raw) == 1 {
					raw = nil
					p.wellUPIDs = false
				} else {
					l := int(raw[1])
					raw = raw[2:]
					if l > len(raw) {
						l = len(raw)
						p.wellUPIDs = false
					}
					v = raw[:l]
					raw = raw[l:]
				}
				if !upidWellFormed(t, v) || t == 0x0d {
					p.wellUPIDs = false
				}
				ups = append(ups, refUPID(t, v))
			}
			if len(ups) == 1 && len(ups[0].Raw) == 0 {
				p.wellUPIDs = false
			}
		} else {
			if !upidWellFormed(typ, raw) {
				p.wellUPIDs = false
			}
			ups = []UPID{refUPID(typ, raw)}
		}
	}
	show := ups
	if len(ups) == 1 && ups[0].Val == "" && ups[0].FI == nil {
		show = nil
	}
	d.p(pre+"upid_count", len(show))
	for j, u := range show {
		q := ix(pre+"upid", j)
		d.p(q+".type", u.Type)
		d.p(q+".format", u.Format)
		d.p(q+".format_identifier", u.FI)
		if u.Type == 0x08 && len(u.Raw) > 8 {
			d.sb.WriteString(q + ".value=" + wild + "\n")
		} else {
			d.p(q+".value", u.Val)
		}
	}
	tid := uint32(r.u(8))
	d.p(pre+"type_id", tid)
	d.p(pre+"segment_num", r.u(8))
	d.p(pre+"segments_expected", r.u(8))
	if r.left() == 16 && subPermitted(tid) {
		d.p(pre+"sub_segment_num", r.u(8))
		d.p(pre+"sub_segments_expected", r.u(8))
	} else {
		d.p(pre+"sub_segment_num", (*uint32)(nil))
		d.p(pre+"sub_segments_expected", (*uint32)(nil))
	}
}
