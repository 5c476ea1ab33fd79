P = "pkg/scte35/"
SEEDS = [
 dict(id="c01-ti-short", property="C01",
  needs="a TI UPID of fewer than eight bytes in the signal",
  breaks="NewSegmentationUPID reads a TI with a fixed-width read and panics when the UPID is shorter",
  edits=[(P+"segmentation_upid.go", "strconv.FormatUint(r.Uint64(r.LeftBits()), 10),", "strconv.FormatUint(binary.BigEndian.Uint64(r.LeftBytes()), 10),")],
  demo='''
func TestDemo(t *testing.T) {
	for n := 0; n <= 12; n++ {
		sis := &scte35.SpliceInfoSection{}
		_ = sis.Decode(raw(6, []byte{0x7F}, seg(8, make([]byte, n), 0x30)))
		use(sis)
	}
}
'''),
 dict(id="c01-tail-negative", property="C01",
  needs="a signal with the encrypted flag which ends inside E_CRC_32 or CRC_32",
  breaks="a negative number of stuffing bytes reaches the reader and the decoder panics",
  edits=[(P+"splice_info_section.go", '''	if encryptedPacket {
		stuffedBytes := (int(r.LeftBits()) - 64) / 8
		if stuffedBytes > 0 {''', '''	if encryptedPacket {
		stuffedBytes := (int(r.LeftBits()) - 64) / 8
		if stuffedBytes != 0 {''')],
  demo='''
func TestDemo(t *testing.T) {
	b := withCRC(payload(1, -1, 6, []byte{0x7F}, nil, []byte{1, 2, 3, 4}))
	for n := 0; n <= len(b); n++ {
		sis := &scte35.SpliceInfoSection{}
		err := sis.Decode(b[:n])
		if (err == nil) != (n == len(b)) {
			t.Errorf("%d of %d bytes: %v", n, len(b), err)
		}
		use(sis)
	}
}
'''),
 dict(id="c02-empty-component-time", property="C02",
  needs="a document with a splice_insert component whose SpliceTime element has no ptsTime",
  breaks="TimeSpecifiedFlag no longer looks at the PTS time, which is then dereferenced although nil",
  edits=[(P+"splice_insert.go", "return c != nil && c.SpliceTime != nil && c.SpliceTime.PTSTime != nil", "return c != nil && c.SpliceTime != nil")],
  demo='''
func TestDemo(t *testing.T) {
	for _, doc := range []string{
		`{"spliceCommand":{"type":5,"components":[{"componentTag":1,"spliceTime":{}}]},"tier":1}`,
		`{"spliceCommand":{"type":5,"components":[{"componentTag":1,"spliceTime":{"ptsTime":null}}]},"tier":1}`,
	} {
		var sis scte35.SpliceInfoSection
		if err := json.Unmarshal([]byte(doc), &sis); err == nil {
			use(&sis)
		}
	}
	var sis scte35.SpliceInfoSection
	if err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceInsert><Component componentTag="1"><SpliceTime/></Component></SpliceInsert></SpliceInfoSection>`), &sis); err == nil {
		use(&sis)
	}
}
'''),
 dict(id="c02-device-restrictions-index", property="C02",
  needs="a document whose deviceRestrictions is above 3, rendered as a table",
  breaks="the names of device_restrictions come from an array indexed with an unchecked value",
  edits=[(P+"delivery_restrictions.go", '''	switch dr.DeviceRestrictions {
	case DeviceRestrictionsGroup0:
		return "Restrict Group 0"
	case DeviceRestrictionsGroup1:
		return "Restrict Group 1"
	case DeviceRestrictionsGroup2:
		return "Restrict Group 2"
	case DeviceRestrictionsNone:
		return "None"
	default:
		// nolint:goconst
		return "Unknown"
	}
''', '''	return [...]string{
		DeviceRestrictionsGroup0: "Restrict Group 0",
		DeviceRestrictionsGroup1: "Restrict Group 1",
		DeviceRestrictionsGroup2: "Restrict Group 2",
		DeviceRestrictionsNone:   "None",
	}[dr.DeviceRestrictions]
''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, n := range []uint32{0, 1, 2, 3, 4, 5, 255, 1 << 31} {
		var sis scte35.SpliceInfoSection
		doc := fmt.Sprintf(`{"spliceCommand":{"type":0},"spliceDescriptors":[{"type":2,"deliveryRestrictions":{"deviceRestrictions":%d}}]}`, n)
		if err := json.Unmarshal([]byte(doc), &sis); err == nil {
			use(&sis)
		}
	}
}
'''),
 dict(id="c03-pts-offset-33rd-bit", property="C03",
  needs="a segmentation descriptor in component mode with a PTS offset of 2^32 or more",
  breaks="the topmost bit of the 33-bit pts_offset is taken for a reserved bit",
  edits=[(P+"segmentation_descriptor.go", '''				r.Skip(7) // reserved
				c.PTSOffset = r.Uint64(33)''', '''				r.Skip(8) // reserved
				c.PTSOffset = uint64(r.Uint32(32))''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, off := range []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<33 - 1} {
		loop := desc(2, 0, 0, 0, 1, 0x7F, 0x3F, 1, 9, 0xFE|byte(off>>32), byte(off>>24), byte(off>>16), byte(off>>8), byte(off), 0, 0, 0x10, 0, 0)
		sd := decode(t, raw(6, []byte{0x7F}, loop)).SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
		if len(sd.Components) != 1 || sd.Components[0].Tag != 9 || sd.Components[0].PTSOffset != off {
			t.Errorf("%d decoded as %+v", off, sd.Components)
		}
	}
}
'''),
 dict(id="c03-reserved-bits-matter", property="C03",
  needs="a splice_insert with a break duration whose auto_return is set and whose reserved bits are not all ones",
  breaks="auto_return is compared together with the six reserved bits after it, which therefore change its value",
  edits=[(P+"splice_insert.go", '''			cmd.BreakDuration.AutoReturn = r.Bit()
			r.Skip(6) // reserved
''', '''			cmd.BreakDuration.AutoReturn = r.Uint32(7) == 0x7F // reserved bits are 1
''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, b := range []byte{0xFE, 0x80, 0xAA, 0x7E, 0x00} {
		cmd := []byte{0, 0, 0, 7, 0x7F, 0xFF, b, 0, 0, 0, 5, 0, 1, 2, 3}
		bd := decode(t, raw(5, cmd, nil)).SpliceCommand.(*scte35.SpliceInsert).BreakDuration
		if bd == nil || bd.AutoReturn != (b&0x80 != 0) || bd.Duration != 5 {
			t.Errorf("%x: %+v", b, bd)
		}
	}
}
'''),
 dict(id="c04-untimed-component-reserved", property="C04",
  needs="a splice_insert in component mode, not immediate, with a component without a time",
  breaks="the reserved bits after the cleared time_specified_flag of a component are emitted as zeros",
  edits=[(P+"splice_insert.go", '''						iow.PutUint64(33, *c.SpliceTime.PTSTime)
					} else {
						iow.PutBit(false)
						iow.PutUint32(7, Reserved)
					}''', '''						iow.PutUint64(33, *c.SpliceTime.PTSTime)
					} else {
						iow.PutUint32(8, 0) // no time specified
					}''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.SpliceInsert{SpliceEventID: 1, Components: []scte35.SpliceInsertComponent{
		{Tag: 5}, {Tag: 6, SpliceTime: &scte35.SpliceTime{PTSTime: u64(3)}}}})
	want := []byte{0, 0, 0, 1, 0x7F, 0x0F, 2, 5, 0x7F, 6, 0xFE, 0, 0, 0, 3, 0, 0, 0, 0}
	if b := encode(t, sis); !bytes.Contains(b, want) {
		t.Errorf("%x does not contain %x", b, want)
	}
}
'''),
 dict(id="c04-duration-33", property="C04",
  needs="a segmentation duration of 2^33 ticks or more (26 hours)",
  breaks="segmentation_duration, 40 bits wide, is emitted like a 33-bit PTS value",
  edits=[(P+"segmentation_descriptor.go", '''			iow.PutUint64(40, *sd.SegmentationDuration)
''', '''			iow.PutUint32(7, 0)
			iow.PutUint64(33, *sd.SegmentationDuration)
''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, d := range []uint64{0, 1, 1<<33 - 1, 1 << 33, 1<<40 - 1} {
		sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationDuration: u64(d)})
		want := []byte{0xFF, byte(d >> 32), byte(d >> 24), byte(d >> 16), byte(d >> 8), byte(d), 0, 0}
		if b := encode(t, sis); !bytes.Contains(b, want) {
			t.Errorf("%d: %x does not contain %x", d, b, want)
		}
	}
}
'''),
 dict(id="c05-windows-1252", property="C05",
  needs="a text UPID with a byte between 0x80 and 0x9F",
  breaks="UPID text is decoded as Windows-1252, whose 0x80 to 0x9F the Latin-1 encoder cannot write back",
  edits=[(P+"segmentation_upid.go", "charmap.ISO8859_1.NewDecoder()", "charmap.Windows1252.NewDecoder()")],
  demo='''
func TestDemo(t *testing.T) {
	for c := 0; c < 256; c++ {
		b := raw(6, []byte{0x7F}, seg(9, []byte{'a', byte(c), 'b'}, 0x10))
		if got := encode(t, decode(t, b)); !bytes.Equal(got, b) {
			t.Errorf("%x became %x", b, got)
		}
	}
}
'''),
 dict(id="c05-user-private-encryption", property="C05",
  needs="an encrypted signal with a user private encryption algorithm (above 3)",
  breaks="the encrypted flag is only set for the standard's algorithms while E_CRC_32 is still emitted, so the encoding is not the signal any more",
  edits=[(P+"splice_info_section.go", '''func (sis *SpliceInfoSection) EncryptedPacketFlag() bool {
	return sis.EncryptedPacket.EncryptionAlgorithm != EncryptionAlgorithmNone
}''', '''func (sis *SpliceInfoSection) EncryptedPacketFlag() bool {
	switch sis.EncryptedPacket.EncryptionAlgorithm {
	case EncryptionAlgorithmDESECB, EncryptionAlgorithmDESCBC, EncryptionAlgorithmTripleDES:
		return true
	default:
		return false
	}
}''')],
  demo='''
func TestDemo(t *testing.T) {
	for alg := byte(1); alg < 64; alg++ {
		b := withCRC(payload(alg, -1, 6, []byte{0x7F}, nil, []byte{9, 9, 1, 2, 3, 4}))
		got := encode(t, decode(t, b))
		if len(got) != len(b) || !bytes.Equal(got[:len(b)-8], b[:len(b)-8]) {
			t.Errorf("%x became %x", b, got)
		}
	}
}
'''),
 dict(id="c06-zero-crc", property="C06",
  needs="a signal whose CRC_32 field is all zeros",
  breaks="a CRC_32 of zero is taken for 'not filled in' and accepted",
  edits=[(P+"crc_32.go", '''	if calculated != crc {''', '''	if calculated != crc && crc != 0 { // some encoders leave it out''')],
  demo='''
func TestDemo(t *testing.T) {
	b := raw(6, []byte{0x7F}, nil)
	copy(b[len(b)-4:], []byte{0, 0, 0, 0})
	sis := &scte35.SpliceInfoSection{}
	if err := sis.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Errorf("%x: %v", b, err)
	}
}
'''),
 dict(id="c06-legacy-unchecked", property="C06",
  needs="a legacy signal (command length 0xFFF) of a table id other than 0xFC with a wrong CRC",
  breaks="the CRC of sections whose table_id is not 0xFC is not verified",
  edits=[(P+"splice_info_section.go", '''	r.Skip(8) // table_id (shall be 0xFC)
''', '''	tableID := r.Uint32(8) // shall be 0xFC
'''), (P+"splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {
		return''', '''	if err = verifyCRC32(b); err != nil && tableID == TableID {
		return''')],
  demo='''
func TestDemo(t *testing.T) {
	b := raw(6, []byte{0x7F}, nil)
	for i := range b {
		for bit := 0; bit < 8; bit++ {
			c := append([]byte{}, b...)
			c[i] ^= 1 << bit
			sis := &scte35.SpliceInfoSection{}
			if err := sis.Decode(c); err == nil {
				t.Errorf("%x accepted", c)
			}
		}
	}
}
'''),
 dict(id="c07-local-time-as-utc", property="C07",
  needs="a splice_schedule with a time in a zone other than UTC, as a program or a document can give it",
  breaks="times are written to JSON with their local clock reading and a Z",
  edits=[(P+"scte35.go", '''	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch
}
''', '''	return uint32(t.Time.Unix() - int64(unixEpochToGPSEpoch))
}

// MarshalJSON writes whole seconds only.
func (t UTCSpliceTime) MarshalJSON() ([]byte, error) {
	return []byte(t.Time.Format("\\"2006-01-02T15:04:05Z\\"")), nil
}
''')],
  demo='''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("EST", -5*3600)
	sis := section(&scte35.SpliceSchedule{Events: []scte35.Event{{Program: &scte35.EventProgram{UTCSpliceTime: scte35.UTCSpliceTime{Time: time.Unix(1315964800, 0)}}}}})
	want := encode(t, sis)
	b, _ := json.Marshal(sis)
	var got scte35.SpliceInfoSection
	if err := json.Unmarshal(b, &got); err != nil {
		t.Fatal(err)
	}
	if e := encode(t, &got); !bytes.Equal(e, want) {
		t.Errorf("%s encodes as %x, want %x", b, e, want)
	}
}
'''),
 dict(id="c07-identifier-zero", property="C07",
  needs="a private descriptor with identifier 0 and a tag between 0 and 4",
  breaks="an identifier of zero in JSON is taken for a missing one, so the descriptor comes back as a CUEI descriptor",
  edits=[(P+"splice_descriptor.go", '''		sdt := sdtype{Identifier: CUEIdentifier}
		if err := json.Unmarshal(items[i], &sdt); err != nil {
			return err
		}
''', '''		var sdt sdtype
		if err := json.Unmarshal(items[i], &sdt); err != nil {
			return err
		}
		if sdt.Identifier == 0 {
			sdt.Identifier = CUEIdentifier
		}
''')],
  demo='''
func TestDemo(t *testing.T) {
	for tag := uint32(0); tag < 6; tag++ {
		sis := section(&scte35.SpliceNull{}, &scte35.PrivateDescriptor{PrivateTag: tag, PrivateBytes: scte35.Bytes{1, 2}})
		want := encode(t, sis)
		b, _ := json.Marshal(sis)
		var got scte35.SpliceInfoSection
		if err := json.Unmarshal(b, &got); err != nil {
			t.Fatal(err)
		}
		if e := encode(t, &got); !bytes.Equal(e, want) {
			t.Errorf("tag %d: %s encodes as %x, want %x", tag, b, e, want)
		}
	}
}
'''),
 dict(id="c08-pts-adjustment-32", property="C08",
  needs="a PTS adjustment of 2^32 or more, through XML",
  breaks="PTS adjustment is read from documents as a 32-bit number",
  edits=[(P+"splice_info_section.go", '''	PTSAdjustment        uint64                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`''', '''	PTSAdjustment        uint32                `xml:"ptsAdjustment,attr" json:"ptsAdjustment"`'''),
    (P+"splice_info_section.go", '''func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
	var tmp iSIS
	if err := json.Unmarshal(b, &tmp); err != nil {
		return err
	}
''', '''func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
	var tmp struct {
		iSIS
		PTSAdjustment uint64 `json:"ptsAdjustment"`
	}
	if err := json.Unmarshal(b, &tmp); err != nil {
		return err
	}
'''), (P+"splice_info_section.go", '''	if err := d.DecodeElement(&tmp, &start); err != nil {
		return err
	}
	sc, err := tmp.SpliceCommand()
	if err != nil {
		return err
	}

	*sis = SpliceInfoSection{} // discard any previous contents
	sis.EncryptedPacket = tmp.EncryptedPacket
	sis.SpliceCommand = sc
	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if tmp.SAPType != nil {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
	sis.PTSAdjustment = tmp.PTSAdjustment
''', '''	if err := d.DecodeElement(&tmp, &start); err != nil {
		return err
	}
	sc, err := tmp.SpliceCommand()
	if err != nil {
		return err
	}

	*sis = SpliceInfoSection{} // discard any previous contents
	sis.EncryptedPacket = tmp.EncryptedPacket
	sis.SpliceCommand = sc
	sis.SpliceDescriptors = tmp.SpliceDescriptors
	if tmp.SAPType != nil {
		sis.SAPType = *tmp.SAPType
	} else {
		sis.SAPType = SAPTypeNotSpecified
	}
	sis.PreRollMilliSeconds = tmp.PreRollMilliSeconds
	sis.PTSAdjustment = uint64(tmp.PTSAdjustment)
''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, adj := range []uint64{0, 1, 1<<32 - 1, 1 << 32, 1<<33 - 1} {
		sis := section(&scte35.SpliceNull{})
		sis.PTSAdjustment = adj
		b, err := xml.Marshal(sis)
		if err != nil {
			t.Fatal(err)
		}
		var got scte35.SpliceInfoSection
		if err := xml.Unmarshal(b, &got); err != nil || got.PTSAdjustment != adj {
			t.Errorf("%s: %v, %d", b, err, got.PTSAdjustment)
		}
	}
}
'''),
 dict(id="c08-equal-descriptors-merged", property="C08",
  needs="a section with the same descriptor twice in a row, through XML",
  breaks="a descriptor equal to the one before it is dropped while unmarshalling XML",
  edits=[(P+"splice_descriptor.go", '''	// add it to the slice
	tmp = append(*sds, sd)
	*sds = tmp
''', '''	// add it to the slice, unless it repeats the previous one
	tmp = *sds
	if n := len(tmp); n == 0 || !reflect.DeepEqual(tmp[n-1], sd) {
		tmp = append(tmp, sd)
	}
	*sds = tmp
'''), (P+"splice_descriptor.go", '''	"encoding/xml"
	"fmt"
''', '''	"encoding/xml"
	"fmt"
	"reflect"
''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.SpliceNull{}, &scte35.AvailDescriptor{ProviderAvailID: 1}, &scte35.AvailDescriptor{ProviderAvailID: 1})
	want := encode(t, sis)
	b, _ := xml.Marshal(sis)
	var got scte35.SpliceInfoSection
	if err := xml.Unmarshal(b, &got); err != nil {
		t.Fatal(err)
	}
	if e := encode(t, &got); !bytes.Equal(e, want) {
		t.Errorf("%s encodes as %x, want %x", b, e, want)
	}
}
'''),
 dict(id="c09-schedule-attribute", property="C09",
  needs="a splice_schedule event with a unique program ID in XML from (or for) another producer",
  breaks="the attribute uniqueProgramId of Event is spelled uniqueProgramID, consistently when writing and reading",
  edits=[(P+"splice_schedule.go", '''`xml:"uniqueProgramId,attr" json:"uniqueProgramId,omitempty"`''', '''`xml:"uniqueProgramID,attr" json:"uniqueProgramId,omitempty"`''')],
  demo='''
func TestDemo(t *testing.T) {
	var sis scte35.SpliceInfoSection
	doc := `<SpliceInfoSection xmlns="http://www.scte.org/schemas/35"><SpliceSchedule><Event spliceEventId="1" uniqueProgramId="77"><Program utcSpliceTime="2020-01-01T00:00:00Z"/></Event></SpliceSchedule></SpliceInfoSection>`
	if err := xml.Unmarshal([]byte(doc), &sis); err != nil {
		t.Fatal(err)
	}
	if e := sis.SpliceCommand.(*scte35.SpliceSchedule).Events[0]; e.UniqueProgramID != 77 {
		t.Errorf("%+v", e)
	}
}
'''),
 dict(id="c09-private-bytes-base64", property="C09",
  needs="private bytes in a document",
  breaks="private bytes are written and read as base64 instead of hex, which round trips but is not the published form",
  edits=[(P+"scte35.go", '''	tmp := hex.EncodeToString(bb)
''', '''	tmp := base64.RawStdEncoding.EncodeToString(bb)
'''), (P+"scte35.go", '''	tmp, err := hex.DecodeString(string(b))
''', '''	tmp, err := base64.RawStdEncoding.DecodeString(string(b))
''')],
  demo='''
func TestDemo(t *testing.T) {
	b, _ := json.Marshal(section(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: scte35.Bytes{0xDE, 0xAD}}))
	if !strings.Contains(strings.ToLower(string(b)), `"privatebytes":"dead"`) {
		t.Errorf("%s", b)
	}
}
'''),
 dict(id="c10-schedule-error-unwrapped", property="C10",
  needs="a truncated or overlong splice_schedule",
  breaks="the splice_schedule error is formatted with %v and no longer identifies itself through errors.Is",
  edits=[(P+"splice_schedule.go", '''fmt.Errorf("splice_schedule: %w", err)''', '''fmt.Errorf("splice_schedule: %v", err)''')],
  demo='''
func TestDemo(t *testing.T) {
	cmd := []byte{1, 0, 0, 0, 9, 0xFF}
	for n := 1; n < len(cmd); n++ {
		sis := &scte35.SpliceInfoSection{}
		if err := sis.Decode(raw(4, cmd[:n], nil)); !errors.Is(err, scte35.ErrBufferOverflow) {
			t.Errorf("%d bytes: %v", n, err)
		}
	}
	sis := &scte35.SpliceInfoSection{}
	if err := sis.Decode(raw(4, append(cmd, 0), nil)); !errors.Is(err, scte35.ErrBufferUnderflow) {
		t.Errorf("one byte more: %v", err)
	}
}
'''),
 dict(id="c10-command-dropped", property="C10",
  needs="a splice_insert or other command with bytes left over or missing",
  breaks="a command that fails to decode is returned as nil, so what was read of it is lost",
  edits=[(P+"splice_command.go", '''	if err := cmd.decode(b); err != nil {
		return cmd, err
	}
	return cmd, nil''', '''	err := cmd.decode(b)
	if errors.Is(err, ErrBufferOverflow) {
		return &PrivateCommand{PrivateBytes: append(Bytes{}, b...)}, err // undecodable, keep it raw
	}
	return cmd, err'''), (P+"splice_command.go", '''package scte35
''', '''package scte35

import "errors"
''')],
  demo='''
func TestDemo(t *testing.T) {
	cmd := []byte{0, 0, 0, 9, 0x7F, 0xDF, 0, 1, 2} // avails_expected is missing
	sis := &scte35.SpliceInfoSection{}
	err := sis.Decode(raw(5, cmd, nil))
	si, ok := sis.SpliceCommand.(*scte35.SpliceInsert)
	if !errors.Is(err, scte35.ErrBufferOverflow) || !ok || si.SpliceEventID != 9 || !si.OutOfNetworkIndicator || si.UniqueProgramID != 1 || si.AvailNum != 2 {
		t.Errorf("%v, %+v", err, sis.SpliceCommand)
	}
}
'''),
 dict(id="c11-segmentation-any-identifier", property="C11",
  needs="a descriptor with tag 3 (time) under another owner's identifier",
  breaks="tag 3 is taken for a time descriptor whatever the identifier, and re-encoded under CUEI",
  edits=[(P+"splice_descriptor.go", '''	if identifier == CUEIdentifier {
		switch tag {''', '''	if identifier == CUEIdentifier || tag == TimeDescriptorTag {
		switch tag {''')],
  demo='''
func TestDemo(t *testing.T) {
	for tag := byte(0); tag < 8; tag++ {
		d := append([]byte{tag, 16, 'A', 'B', 'C', 'D'}, make([]byte, 12)...)
		b := raw(6, []byte{0x7F}, d)
		sis := decode(t, b)
		pd, ok := sis.SpliceDescriptors[0].(*scte35.PrivateDescriptor)
		if !ok || pd.Identifier != 0x41424344 || pd.PrivateTag != uint32(tag) {
			t.Errorf("tag %d: %#v", tag, sis.SpliceDescriptors[0])
		}
		if got := encode(t, sis); !bytes.Equal(got, b) {
			t.Errorf("%x became %x", b, got)
		}
	}
}
'''),
 dict(id="c11-loop-cap", property="C11",
  needs="a descriptor loop with more than 256 descriptors",
  breaks="the descriptor loop stops without an error after 256 descriptors",
  edits=[(P+"splice_descriptor.go", '''	for r.LeftBits() > 0 {
		// Peek''', '''	for r.LeftBits() > 0 && len(sds) < 256 {
		// Peek''')],
  demo='''
func TestDemo(t *testing.T) {
	var loop []byte
	for i := 0; i < 300; i++ {
		loop = append(loop, 0x80, 6, 'A', 'B', 'C', 'D', byte(i>>8), byte(i))
	}
	b := raw(6, []byte{0x7F}, loop)
	sis := decode(t, b)
	if len(sis.SpliceDescriptors) != 300 {
		t.Errorf("%d descriptors", len(sis.SpliceDescriptors))
	}
	if got := encode(t, sis); !bytes.Equal(got, b) {
		t.Errorf("%d bytes became %d", len(b), len(got))
	}
}
'''),
]
