P = "pkg/scte35/"
SEEDS = [
 dict(id="c01-hex-prefix", property="C01",
  needs="a text of one character handed to the hex entry point",
  breaks="DecodeHex looks at the first two bytes of the text without checking that there are two",
  edits=[(P+"scte35.go", 'b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))', 'if len(s) > 0 && s[:2] == "0x" {\n\t\ts = s[2:]\n\t}\n\tb, err := hex.DecodeString(strings.TrimSpace(s))')],
  demo='''
func TestDemo(t *testing.T) {
	for _, s := range []string{"", "0", "0x", "x", "00", " ", "0xFC"} {
		if sis, err := scte35.DecodeHex(s); err == nil || sis == nil {
			t.Errorf("%q: %v %v", s, sis, err)
		}
	}
}
'''),
 dict(id="c01-loop-peek", property="C01",
  needs="a descriptor loop which ends within the first six bytes of its last descriptor",
  breaks="the identifier is read from the loop by slicing, which panics if the loop ends first",
  edits=[(P+"splice_descriptor.go", '''		sdr := r.Peek()
		spliceDescriptorTag := sdr.Uint32(8)
		descriptorLength := int(sdr.Uint32(8))
		identifier := sdr.Uint32(32)
''', '''		head := b[len(b)-int(r.LeftBits()/8):]
		spliceDescriptorTag := uint32(head[0])
		descriptorLength, identifier := 0, uint32(0)
		if len(head) > 1 {
			descriptorLength = int(head[1])
			identifier = binary.BigEndian.Uint32(head[2:])
		}
'''), (P+"splice_descriptor.go", '''	"encoding/json"
	"encoding/xml"
''', '''	"encoding/binary"
	"encoding/json"
	"encoding/xml"
''')],
  demo='''
func TestDemo(t *testing.T) {
	for n := 0; n <= 12; n++ {
		sis := &scte35.SpliceInfoSection{}
		_ = sis.Decode(raw(6, []byte{0x7F}, desc(0, 0, 0, 0, 1, 2, 3, 4, 5)[:n]))
		use(sis)
	}
}
'''),
 dict(id="c02-program-null", property="C02",
  needs="a JSON document of a splice_schedule whose events array holds an event without program and components, rendered as a table",
  breaks="the table of an event without components takes it for one with a program",
  edits=[(P+"splice_schedule.go", '''			if e.ProgramSpliceFlag() {
				t.row(2, "utc_splice_time", e.Program.UTCSpliceTime)
			} else {''', '''			if len(e.Components) == 0 {
				t.row(2, "utc_splice_time", e.Program.UTCSpliceTime)
			} else {''')],
  demo='''
func TestDemo(t *testing.T) {
	var sis scte35.SpliceInfoSection
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":4,"events":[{"spliceEventId":1}]},"tier":1}`), &sis); err == nil {
		use(&sis)
	}
}
'''),
 dict(id="c03-subsegments-excess", property="C03",
  needs="a segmentation_descriptor with a sub_segment_num above sub_segments_expected",
  breaks="sub_segment_num above sub_segments_expected is taken for absent",
  edits=[(P+"segmentation_descriptor.go", '''				sd.SubSegmentNum = &n
				sd.SubSegmentsExpected = &e
''', '''				if n <= e {
					sd.SubSegmentNum = &n
					sd.SubSegmentsExpected = &e
				}
''')],
  demo='''
func TestDemo(t *testing.T) {
	d := desc(2, 0, 0, 0, 1, 0x7F, 0xBF, 0, 0, 0x34, 1, 1, 3, 2)
	sd := decode(t, raw(6, []byte{0x7F}, d)).SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
	if sd.SubSegmentNum == nil || sd.SubSegmentsExpected == nil {
		t.Error("no sub-segments")
	}
}
'''),
 dict(id="c03-component-time-shared", property="C03",
  needs="a splice_insert with two components which have different splice times",
  breaks="all components refer to the time of the last one",
  edits=[(P+"splice_insert.go", '''			cmd.Components = make([]SpliceInsertComponent, componentCount)
			for i := range componentCount {''', '''			cmd.Components = make([]SpliceInsertComponent, componentCount)
			var ptsTime uint64
			for i := range componentCount {'''), (P+"splice_insert.go", '''						ptsTime := r.Uint64(33)
						c.SpliceTime = &SpliceTime{''', '''						ptsTime = r.Uint64(33)
						c.SpliceTime = &SpliceTime{''')],
  demo='''
func TestDemo(t *testing.T) {
	b := []byte{0, 0, 0, 1, 0x7F, 0x8F, 2}
	for i := byte(1); i <= 2; i++ {
		b = append(b, i, 0xFE, 0, 0, 0, i)
	}
	b = append(b, 0, 1, 0, 0)
	cmd := decode(t, raw(5, b, nil)).SpliceCommand.(*scte35.SpliceInsert)
	for i, c := range cmd.Components {
		if *c.SpliceTime.PTSTime != uint64(i+1) {
			t.Errorf("component %d: %d", i, *c.SpliceTime.PTSTime)
		}
	}
}
'''),
 dict(id="c04-event-duration-reserved", property="C04",
  needs="a splice_schedule event with a break duration",
  breaks="the reserved bits of break_duration() in schedules are zero",
  edits=[(P+"splice_schedule.go", '''				iow.PutUint32(6, Reserved)
				iow.PutUint64(33, e.BreakDuration.Duration)''', '''				iow.PutUint64(39, e.BreakDuration.Duration)''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.SpliceSchedule{Events: []scte35.Event{{Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)}, BreakDuration: &scte35.BreakDuration{Duration: 1}}}})
	if b := encode(t, sis); !bytes.Contains(b, []byte{0, 0, 0, 5, 0x7E, 0, 0, 0, 1}) {
		t.Errorf("%x", b)
	}
}
'''),
 dict(id="c06-covers-section-only", property="C06",
  needs="bytes after the end of the section",
  breaks="only the bytes which section_length covers are checked, so what follows may be corrupt",
  edits=[(P+"splice_info_section.go", '''	if err = verifyCRC32(b); err != nil {''', '''	covered := b
	if n := (int(b[1]&0x0F)<<8 | int(b[2])) + 3; n > 16 && n < len(b) {
		covered = b[:n]
	}
	if err = verifyCRC32(covered); err != nil {''')],
  demo='''
func TestDemo(t *testing.T) {
	b := raw(0, nil, nil)
	for n := 1; n < 12; n++ {
		sis := &scte35.SpliceInfoSection{}
		if err := sis.Decode(append(append([]byte{}, b...), bytes.Repeat([]byte{0xA7}, n)...)); err == nil {
			t.Errorf("%d bytes more are accepted", n)
		}
	}
}
'''),
 dict(id="c07-leading-zeros", property="C07",
  needs="private bytes which start with zeros",
  breaks="leading zeros are cut off with an optional 0x when reading hexadecimal bytes",
  edits=[(P+"scte35.go", '''	tmp, err := hex.DecodeString(string(b))
	if err != nil {''', '''	digits := strings.TrimLeft(string(b), "0x")
	if len(digits)%2 != 0 {
		digits = "0" + digits
	}
	tmp, err := hex.DecodeString(digits)
	if err != nil {''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.PrivateCommand{Identifier: 1, PrivateBytes: []byte{0, 0, 1, 2}})
	b, _ := json.Marshal(sis)
	var got scte35.SpliceInfoSection
	if err := json.Unmarshal(b, &got); err != nil || !bytes.Equal(encode(t, &got), encode(t, sis)) {
		t.Errorf("%s: %v", b, err)
	}
}
'''),
 dict(id="c08-descriptors-grouped", property="C08",
  needs="a section whose descriptors of different kinds alternate",
  breaks="private descriptors move to the front when reading XML",
  edits=[(P+"splice_descriptor.go", '''	tmp = append(*sds, sd)
	*sds = tmp
''', '''	if _, ok := sd.(*PrivateDescriptor); ok {
		tmp = append(tmp, sd)
		sd = nil
	}
	tmp = append(tmp, *sds...)
	if sd != nil {
		tmp = append(tmp, sd)
	}
	*sds = tmp
''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.AvailDescriptor{ProviderAvailID: 1}, &scte35.PrivateDescriptor{PrivateTag: 7, Identifier: 1, PrivateBytes: []byte{1}})
	b, _ := xml.Marshal(sis)
	var got scte35.SpliceInfoSection
	if err := xml.Unmarshal(b, &got); err != nil || !bytes.Equal(encode(t, &got), encode(t, sis)) {
		t.Errorf("%s: %v", b, err)
	}
}
'''),
 dict(id="c15-wall-clock", property="C15",
  needs="a UTC time in another zone than UTC, from a document or after local time zone changes",
  breaks="GPS seconds are calculated from the clock reading in the time's own zone",
  edits=[(P+"scte35.go", "	return uint32(t.Time.Unix()) - unixEpochToGPSEpoch", '''	epoch := time.Date(1980, time.January, 6, 0, 0, 0, 0, t.Time.Location())
	return uint32(t.Time.Unix()-epoch.Unix())''')],
  demo='''
func TestDemo(t *testing.T) {
	at := scte35.UTCSpliceTime{Time: time.Date(2020, 1, 1, 2, 0, 0, 0, time.FixedZone("", 7200))}
	if s := at.GPSSeconds(); s != 1577836800-315964800 {
		t.Errorf("%d", s)
	}
}
'''),
 dict(id="c09-cancelled-json", property="C09",
  needs="the JSON of a splice_schedule with a cancelled event, or of an event that is compliant",
  breaks="an event's eventIdComplianceFlag has the name it has in segmentation descriptors",
  edits=[(P+"splice_schedule.go", '`xml:"eventIdComplianceFlag,attr,omitempty" json:"eventIdComplianceFlag,omitempty"`', '`xml:"eventIdComplianceFlag,attr,omitempty" json:"eventIdComplianceIndicator,omitempty"`')],
  demo='''
func TestDemo(t *testing.T) {
	b, _ := json.Marshal(section(&scte35.SpliceSchedule{Events: []scte35.Event{{EventIDComplianceFlag: true, SpliceEventCancelIndicator: true}}}))
	if !strings.Contains(string(b), `"eventIdComplianceFlag":true`) {
		t.Errorf("%s", b)
	}
}
'''),
 dict(id="c10-two-kinds", property="C10",
  needs="a signal with two malformed descriptors, one too short and one too long",
  breaks="the errors of all descriptors are joined, so the result is both an overflow and an underflow",
  edits=[(P+"splice_descriptor.go", '''			// Store the error but continue decoding the rest of the signal.
			err = derr''', '''			// Store the errors but continue decoding the rest of the signal.
			err = errors.Join(err, derr)'''), (P+"splice_descriptor.go", '''	"encoding/xml"
	"fmt"
''', '''	"encoding/xml"
	"errors"
	"fmt"
''')],
  demo='''
func TestDemo(t *testing.T) {
	loop := append(desc(0, 1, 2, 3), desc(0, 1, 2, 3, 4, 5)...)
	sis := &scte35.SpliceInfoSection{}
	err := sis.Decode(raw(6, []byte{0x7F}, loop))
	if errors.Is(err, scte35.ErrBufferOverflow) == errors.Is(err, scte35.ErrBufferUnderflow) {
		t.Errorf("%v", err)
	}
}
'''),
 dict(id="c10-last-error-hidden", property="C10",
  needs="a malformed descriptor followed by a well-formed private descriptor",
  breaks="a private descriptor which decodes clears the error of the descriptors before it",
  edits=[(P+"splice_descriptor.go", '''		sd := NewSpliceDescriptor(identifier, spliceDescriptorTag)
''', '''		var sd SpliceDescriptor = &PrivateDescriptor{Identifier: identifier}
		if identifier == CUEIdentifier {
			sd = NewSpliceDescriptor(identifier, spliceDescriptorTag)
		} else {
			err = nil // none of those can be malformed
		}
''')],
  demo='''
func TestDemo(t *testing.T) {
	loop := append(desc(0, 1, 2, 3), 0x77, 5, 'A', 'B', 'C', 'D', 1)
	sis := &scte35.SpliceInfoSection{}
	if err := sis.Decode(raw(6, []byte{0x7F}, loop)); !errors.Is(err, scte35.ErrBufferOverflow) {
		t.Errorf("%v", err)
	}
}
'''),
 dict(id="c11-minimum-length", property="C11",
  needs="a descriptor whose length is below four, followed by others",
  breaks="every descriptor is taken to have at least an identifier, so those after a shorter one are disturbed",
  edits=[(P+"splice_descriptor.go", '''		descriptorLength := int(sdr.Uint32(8))
''', '''		descriptorLength := max(int(sdr.Uint32(8)), 4)
''')],
  demo='''
func TestDemo(t *testing.T) {
	loop := append([]byte{0, 2, 'C', 'U'}, desc(0, 1, 2, 3, 4)...)
	sis := &scte35.SpliceInfoSection{}
	_ = sis.Decode(raw(6, []byte{0x7F}, loop))
	if n := len(sis.SpliceDescriptors); n != 2 {
		t.Fatalf("%d descriptors", n)
	}
	if d, ok := sis.SpliceDescriptors[1].(*scte35.AvailDescriptor); !ok || d.ProviderAvailID != 0x01020304 {
		t.Errorf("%+v", sis.SpliceDescriptors[1])
	}
}
'''),
 dict(id="c12-legacy-components", property="C12",
  needs="a legacy signal with a splice_insert in component mode",
  breaks="a legacy splice_insert is taken to end after the longest program-mode form",
  edits=[(P+"splice_info_section.go", '''		r2 := r.Peek()
		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, r2.LeftBytes())''', '''		r2 := r.Peek()
		legacy := r2.LeftBytes()
		if spliceCommandType == SpliceInsertType && len(legacy) > 64 {
			legacy = legacy[:64] // there are no longer ones
		}
		sis.SpliceCommand, err = decodeSpliceCommand(spliceCommandType, legacy)''')],
  demo='''
func TestDemo(t *testing.T) {
	cmd := []byte{0, 0, 0, 1, 0x7F, 0x8F, 12}
	for i := byte(0); i < 12; i++ {
		cmd = append(cmd, i, 0xFE, 0, 0, 0, i)
	}
	cmd = append(cmd, 0, 1, 2, 3)
	a := decode(t, raw(5, cmd, nil))
	b := decode(t, withCRC(payload(0, 0xFFF, 5, cmd, nil, nil)))
	if !bytes.Equal(encode(t, a), encode(t, b)) {
		t.Error("differ")
	}
}
'''),
 dict(id="c13-tmp-carry-over", property="C13",
  needs="unmarshalling two different JSON documents one after the other, the second without a member the first had",
  breaks="the intermediate structure is taken from a pool and keeps members the next document does not state",
  edits=[(P+"splice_info_section.go", '''func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
	var tmp iSIS
	if err := json.Unmarshal(b, &tmp); err != nil {
''', '''func (sis *SpliceInfoSection) UnmarshalJSON(b []byte) error {
	tmp := iSISPool.Get().(*iSIS)
	defer iSISPool.Put(tmp)
	tmp.SpliceCommandRaw, tmp.SpliceDescriptors, tmp.SAPType = nil, nil, nil
	tmp.Tier, tmp.PTSAdjustment, tmp.ProtocolVersion, tmp.EncryptedPacket = 0, 0, 0, EncryptedPacket{}
	if err := json.Unmarshal(b, tmp); err != nil {
'''), (P+"splice_info_section.go", '''// UnmarshalJSON decodes a SpliceInfoSection from JSON.''', '''var iSISPool = sync.Pool{New: func() any { return &iSIS{} }}

// UnmarshalJSON decodes a SpliceInfoSection from JSON.'''), (P+"splice_info_section.go", '''	"fmt"
	"time"
''', '''	"fmt"
	"sync"
	"time"
''')],
  demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		var a, b scte35.SpliceInfoSection
		if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":0},"tier":5,"ptsAdjustment":77,"preRollMilliSeconds":3}`), &a); err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":0},"tier":5}`), &b); err != nil {
			t.Fatal(err)
		}
		if b.PreRollMilliSeconds != 0 {
			t.Fatalf("%+v", b)
		}
	}
}
'''),
 dict(id="c13-failed-encode-drops", property="C13",
  needs="encoding a section with a descriptor that cannot be encoded, twice",
  breaks="a failed encoding of a descriptor removes it from the section",
  edits=[(P+"splice_info_section.go", '''	for _, sd := range sis.SpliceDescriptors {
		sde, err := sd.encode()
		if err != nil {
			return buf, err
		}
''', '''	for i, sd := range sis.SpliceDescriptors {
		sde, err := sd.encode()
		if err != nil {
			// it cannot be encoded next time either
			sis.SpliceDescriptors = append(sis.SpliceDescriptors[:i:i], sis.SpliceDescriptors[i+1:]...)
			return buf, err
		}
''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.DTMFDescriptor{DTMFChars: "12345678"}, &scte35.AvailDescriptor{})
	for i := 0; i < 2; i++ {
		if _, err := sis.Encode(); err == nil {
			t.Error("encoded")
		}
		if len(sis.SpliceDescriptors) != 2 {
			t.Error("descriptor lost")
		}
	}
}
'''),
 dict(id="c14-pool-early", property="C14",
  needs="two goroutines decoding sections with private bytes at the same time",
  breaks="a decoded private command refers to a pooled buffer which another goroutine overwrites",
  race=True,
  edits=[(P+"splice_command.go", '''	cmd := NewSpliceCommand(spliceCommandType)
	if err := cmd.decode(b); err != nil {
		return cmd, err
	}
	return cmd, nil
}''', '''	cmd := NewSpliceCommand(spliceCommandType)
	commandCopy = append(commandCopy[:0], b...)
	if err := cmd.decode(commandCopy); err != nil {
		return cmd, err
	}
	return cmd, nil
}

// commandCopy keeps commands from referring to the caller's bytes.
var commandCopy []byte''')],
  demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := byte(1); g <= 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := raw(5, []byte{0, 0, 0, g, 0xFF}, nil)
			for i := 0; i < 500; i++ {
				sis := &scte35.SpliceInfoSection{}
				if err := sis.Decode(b); err != nil || sis.SpliceCommand.(*scte35.SpliceInsert).SpliceEventID != uint32(g) {
					t.Error("wrong result", err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="c16-utc-zone", property="C16",
  needs="a row whose value is a UTC time kept in another time zone, as in a section made by a program or read from a document with an offset",
  breaks="utc_splice_time of components is shown without its zone",
  edits=[(P+"splice_schedule.go", '''t.row(3, "utc_splice_time", c.UTCSpliceTime)''', '''t.row(3, "utc_splice_time", c.UTCSpliceTime.Time.Format("2006-01-02T15:04:05Z"))''')],
  demo='''
func TestDemo(t *testing.T) {
	time.Local = time.FixedZone("", 7200)
	at := scte35.UTCSpliceTime{Time: time.Unix(315964800+1000, 0)}
	s := section(&scte35.SpliceSchedule{Events: []scte35.Event{{Components: []scte35.EventComponent{{Tag: 1, UTCSpliceTime: at}}}}}).Table("", "")
	i := strings.Index(s, "utc_splice_time: ")
	v, _, _ := strings.Cut(s[i+17:], "\\n")
	for _, layout := range []string{time.RFC3339, "2006-01-02 15:04:05 -0700 MST", "2006-01-02 15:04:05 -0700 -0700"} {
		if got, err := time.Parse(layout, v); err == nil {
			if !got.Equal(at.Time) {
				t.Errorf("%s is not %s", v, at)
			}
			return
		}
	}
}
'''),
 dict(id="c16-upid-index", property="C16",
  needs="the table of a descriptor with several UPIDs",
  breaks="the table numbers the UPIDs of a MID by type, which repeats indices",
  edits=[(P+"segmentation_descriptor.go", '''		for i, u := range sd.SegmentationUPIDs {
			t.row(1, "segmentation_upid["+strconv.Itoa(i)+"] {", nil)''', '''		seen := map[uint32]int{}
		for _, u := range sd.SegmentationUPIDs {
			i := seen[u.Type]
			seen[u.Type]++
			t.row(1, "segmentation_upid["+strconv.Itoa(i)+"] {", nil)''')],
  demo='''
func TestDemo(t *testing.T) {
	s := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Value: "a"}, {Type: 15, Value: "b"}}}).Table("", "")
	if !strings.Contains(s, "segmentation_upid[0]") || !strings.Contains(s, "segmentation_upid[1]") {
		t.Errorf("%s", s)
	}
}
'''),
 dict(id="c17-ti-signed", property="C17",
  needs="a TI of 2^63 or more",
  breaks="the text of a TI is read as a signed number",
  edits=[(P+"segmentation_upid.go", "strconv.FormatUint(r.Uint64(r.LeftBits()), 10),", "strconv.FormatInt(int64(r.Uint64(r.LeftBits())), 10),")],
  demo='''
func TestDemo(t *testing.T) {
	v := []byte{0x80, 0, 0, 0, 0, 0, 0, 1}
	b := raw(6, []byte{0x7F}, seg(8, v, 0x10))
	if got := encode(t, decode(t, b)); !bytes.Equal(got, b) {
		t.Errorf("%x, want %x", got, b)
	}
}
'''),
 dict(id="c17-upid-utf8", property="C17",
  needs="a UPID with a byte above 0x7F which is part of valid UTF-8",
  breaks="text which happens to be valid UTF-8 is not read as Latin-1",
  edits=[(P+"segmentation_upid.go", '''		b, _ := charmap.ISO8859_1.NewDecoder().Bytes(r.LeftBytes())
''', '''		b := r.LeftBytes()
		if !utf8.Valid(b) {
			b, _ = charmap.ISO8859_1.NewDecoder().Bytes(b)
		}
'''), (P+"segmentation_upid.go", '''	"strings"

''', '''	"strings"
	"unicode/utf8"

''')],
  demo='''
func TestDemo(t *testing.T) {
	if got := scte35.NewSegmentationUPID(9, []byte{0xC3, 0xA9}).Value; got != "\u00c3\u00a9" {
		t.Errorf("%q", got)
	}
}
'''),
 dict(id="c18-untrimmed", property="C18",
  needs="a document with white space or a newline before it",
  breaks="the kind of document is decided by its very first byte",
  edits=[("cmd/encode.go", 'case strings.HasPrefix(strings.TrimSpace(input), "{"):', 'case strings.HasPrefix(input, "{"):')],
  cli='''
printf '\\n {"spliceCommand":{"type":0},"tier":1}' | "$tmp/scte35" encode | grep -q '^Base64: '
'''),
 dict(id="c19-components-masked", property="C19",
  needs="a segmentation descriptor with more than 31 components",
  breaks="a list of components longer than its count is cut off at the count it has room for",
  edits=[(P+"segmentation_descriptor.go", '''			iow.PutUint32(8, uint32(len(sd.Components)))
			for _, c := range sd.Components {''', '''			n := len(sd.Components)
			iow.PutUint32(8, uint32(n))
			for _, c := range sd.Components[:n&0x1F] {''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, n := range []int{31, 32, 33, 39, 40, 41, 200} {
		cs := make([]scte35.SegmentationDescriptorComponent, n)
		cs[n-1].Tag = 77
		sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{Components: cs})
		b, err := sis.Encode()
		if err != nil {
			continue
		}
		var got scte35.SpliceInfoSection
		if err := got.Decode(b); err != nil || !reflect.DeepEqual(got.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).Components, cs) {
			t.Errorf("%d components: %v", n, err)
		}
	}
}
'''),
 dict(id="c19-language-padded", property="C19",
  needs="an audio channel with a language code of two bytes",
  breaks="ISO codes are padded or cut to three bytes, whatever they are",
  edits=None, demo=None),
 dict(id="c20-table-concat", property="C20",
  needs="a long descriptor loop rendered as a table",
  breaks="the table is copied whenever the descriptors it shows grow by one",
  edits=[(P+"splice_info_section.go", '''	for _, sd := range sis.SpliceDescriptors {
		sd.writeTo(t)
	}
	return t.String()''', '''	s := t.String()
	for _, sd := range sis.SpliceDescriptors {
		t = newTable(prefix, indent)
		sd.writeTo(t)
		s += t.String()
	}
	return s''')],
  demo='''
func TestDemo(t *testing.T) {
	alloc := func(n int) uint64 {
		sis := section(scte35.NewTimeSignal(1))
		for i := 0; i < n; i++ {
			sis.SpliceDescriptors = append(sis.SpliceDescriptors, &scte35.AvailDescriptor{})
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		_ = sis.Table("", "")
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	if a, b := alloc(200), alloc(4000); b > 60*a {
		t.Errorf("%d and %d bytes", a, b)
	}
}
'''),
 dict(id="c21-tag-wraps", property="C21",
  needs="a constructor called with a tag above 255",
  breaks="NewSpliceDescriptor looks at the low eight bits of the tag",
  edits=[(P+"splice_descriptor.go", '''		switch tag {
		case AvailDescriptorTag:''', '''		switch uint8(tag) {
		case AvailDescriptorTag:''')],
  demo='''
func TestDemo(t *testing.T) {
	for tag := uint32(0x100); tag < 0x105; tag++ {
		if d, ok := scte35.NewSpliceDescriptor(scte35.CUEIdentifier, tag).(*scte35.PrivateDescriptor); !ok {
			t.Errorf("%x: %T", tag, d)
		}
	}
}
'''),
 dict(id="c21-sap-masked", property="C21",
  needs="a SAP type above 3 or a section read from a document",
  breaks="SAPTypeName looks at the low two bits only",
  edits=[(P+"splice_info_section.go", "	switch sis.SAPType {\n	case SAPType1:", "	switch sis.SAPType & 3 {\n	case SAPType1:")],
  demo='''
func TestDemo(t *testing.T) {
	sis := scte35.SpliceInfoSection{SAPType: 4}
	if n := sis.SAPTypeName(); n != "Not Specified" {
		t.Error(n)
	}
}
'''),
]
SEEDS = [s for s in SEEDS if s["edits"]]
