P = "pkg/scte35/"
SEEDS = [
 dict(id="c12-legacy-schedule", property="C12",
  needs="a legacy splice_schedule (command length 0xFFF) with a cancelled event that is not the last",
  breaks="the length of a splice_schedule is summed without the events after a cancelled one, so the legacy decoder resumes in the wrong place",
  edits=[(P+"splice_schedule.go", '''		length += 6  // reserved

		// if splice_event_cancel_indicator == 0
		if !e.SpliceEventCancelIndicator {
			length++ ''', '''		length += 6  // reserved

		if e.SpliceEventCancelIndicator && e.SpliceEventID == 0xFFFFFFFF {
			break // cancels everything
		} else if !e.SpliceEventCancelIndicator {
			length++ ''')],
  demo='''
func TestDemo(t *testing.T) {
	cmd := []byte{2, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0, 0, 0, 2, 0xFF}
	loop := desc(0, 1, 2, 3, 4)
	want := raw(4, cmd, loop)
	sis := &scte35.SpliceInfoSection{}
	if err := sis.Decode(withCRC(payload(0, 0xFFF, 4, cmd, loop, nil))); err != nil {
		t.Fatal(err)
	}
	if got := encode(t, sis); !bytes.Equal(got, want) {
		t.Errorf("%x, want %x", got, want)
	}
}
'''),
 dict(id="c12-legacy-untimed", property="C12",
  needs="a legacy time_signal (command length 0xFFF) without a time",
  breaks="the underflow of a time signal is not recognisable any more, so legacy time signals are refused",
  edits=[(P+"time_signal.go", '''	} else {
		r.Skip(7) // reserved
	}

	if err := readerError(r); err != nil {''', '''	} else {
		if r.Skip(7); r.LeftBits() > 0 { // reserved
			return fmt.Errorf("time_signal: %d unexpected bits", r.LeftBits())
		}
	}

	if err := readerError(r); err != nil {''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, cmd := range [][]byte{{0x7F}, {0xFE, 0, 0, 0, 1}} {
		sis := &scte35.SpliceInfoSection{}
		if err := sis.Decode(withCRC(payload(0, 0xFFF, 6, cmd, desc(0, 1, 2, 3, 4), nil))); err != nil {
			t.Errorf("%x: %v", cmd, err)
		}
		if len(sis.SpliceDescriptors) != 1 {
			t.Errorf("%x: %d descriptors", cmd, len(sis.SpliceDescriptors))
		}
	}
}
'''),
 dict(id="c13-encode-scratch", property="C13",
  needs="the bytes of one encoding being used after another encoding",
  breaks="Encode builds into a pooled buffer and returns it, so a later encoding overwrites an earlier result",
  edits=[(P+"splice_info_section.go", '''	buf := make([]byte, sis.length())

	iow := iobit.NewWriter(buf)
	iow.PutUint32(8, TableID)''', '''	pooled := encodeBuffers.Get().(*[]byte)
	defer encodeBuffers.Put(pooled)
	if cap(*pooled) < sis.length() {
		*pooled = make([]byte, sis.length())
	}
	buf := (*pooled)[:sis.length()]

	iow := iobit.NewWriter(buf)
	iow.PutUint32(8, TableID)'''), (P+"splice_info_section.go", '''// Base64 returns''', '''// encodeBuffers holds buffers for encoding.
var encodeBuffers = sync.Pool{New: func() any { return new([]byte) }}

// Base64 returns'''), (P+"splice_info_section.go", '''	"fmt"
	"time"
''', '''	"fmt"
	"sync"
	"time"
''')],
  demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		a := encode(t, section(scte35.NewTimeSignal(uint64(i))))
		want := append([]byte{}, a...)
		encode(t, section(scte35.NewTimeSignal(uint64(i+1000))))
		if !bytes.Equal(a, want) {
			t.Fatalf("%x became %x", want, a)
		}
	}
}
'''),
 dict(id="c13-duration-consumes", property="C13",
  needs="a segmentation descriptor with both flags of a break and measuring the duration before encoding",
  breaks="Duration adds the segmentation durations up in place, in the section's first one",
  edits=[(P+"splice_info_section.go", '''	ticks := uint64(0)
	for _, sd := range sis.SpliceDescriptors {
		if sdt, ok := sd.(*SegmentationDescriptor); ok {
			if sdt.SegmentationDuration != nil {
				ticks += *sdt.SegmentationDuration
			}
		}
	}
	return TicksToDuration(ticks)''', '''	var ticks *uint64
	for _, sd := range sis.SpliceDescriptors {
		if sdt, ok := sd.(*SegmentationDescriptor); ok {
			switch {
			case sdt.SegmentationDuration == nil:
			case ticks == nil:
				ticks = sdt.SegmentationDuration
			default:
				*ticks += *sdt.SegmentationDuration
			}
		}
	}
	if ticks == nil {
		return 0
	}
	return TicksToDuration(*ticks)''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationDuration: u64(90000)}, &scte35.SegmentationDescriptor{SegmentationDuration: u64(90000)})
	want := encode(t, sis)
	d := sis.Duration()
	if got := encode(t, sis); !bytes.Equal(got, want) || sis.Duration() != d {
		t.Errorf("%x became %x, %s became %s", want, got, d, sis.Duration())
	}
}
'''),
 dict(id="c14-shared-scratch", property="C14",
  needs="two goroutines rendering sections with a private command or descriptor at the same time",
  breaks="IdentifierString of private commands formats in a buffer shared by all goroutines",
  race=True,
  edits=[(P+"private_command.go", '''	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, cmd.Identifier)
	return string(b)
}''', '''	binary.BigEndian.PutUint32(identifierScratch, cmd.Identifier)
	return string(identifierScratch)
}

// identifierScratch avoids an allocation for each identifier.
var identifierScratch = make([]byte, 4)''')],
  demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := uint32(1); g <= 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sis := section(&scte35.PrivateCommand{Identifier: g * 0x01010101})
			want := sis.Table("", "")
			for i := 0; i < 500; i++ {
				if sis.Table("", "") != want {
					t.Error("table differs")
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
 dict(id="c14-lazy-flags", property="C14",
  needs="two goroutines encoding or rendering one shared section with a segmentation descriptor at the same time",
  breaks="the length of the UPIDs is cached in the descriptor on first use, without synchronisation",
  race=True,
  edits=[(P+"segmentation_descriptor.go", '''	SubSegmentsExpected                    *uint32                           `xml:"subSegmentsExpected,attr" json:"subSegmentsExpected,omitempty"`
''', '''	SubSegmentsExpected                    *uint32                           `xml:"subSegmentsExpected,attr" json:"subSegmentsExpected,omitempty"`
	upidText                               []string                          // values upidLength was calculated for
	upidLength                             int
'''), (P+"segmentation_descriptor.go", '''func (sd *SegmentationDescriptor) SegmentationUpidLength() int {
	length := 0
	if len(sd.SegmentationUPIDs) == 1 {
''', '''func (sd *SegmentationDescriptor) SegmentationUpidLength() int {
	if len(sd.SegmentationUPIDs) > 1 {
		key := make([]string, len(sd.SegmentationUPIDs))
		for i, upid := range sd.SegmentationUPIDs {
			key[i] = strconv.Itoa(int(upid.Type)) + upid.Value
		}
		if !slices.Equal(key, sd.upidText) {
			sd.upidText, sd.upidLength = key, sd.countUpidLength()
		}
		return sd.upidLength
	}
	return sd.countUpidLength()
}

func (sd *SegmentationDescriptor) countUpidLength() (length int) {
	if len(sd.SegmentationUPIDs) == 1 {
'''), (P+"segmentation_descriptor.go", '''	"fmt"
	"strconv"
''', '''	"fmt"
	"slices"
	"strconv"
''')],
  demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Value: "a"}, {Type: 3, Value: "b"}}})
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if _, err := sis.Encode(); err != nil {
					t.Error(err)
				}
			}()
		}
		wg.Wait()
	}
}
'''),
 dict(id="c15-sum-of-truncations", property="C15",
  needs="two or more segmentation durations which are no whole number of nanoseconds",
  breaks="segmentation durations are converted one by one, so the total loses up to a nanosecond for each",
  edits=[(P+"splice_info_section.go", '''	ticks := uint64(0)
	for _, sd := range sis.SpliceDescriptors {
		if sdt, ok := sd.(*SegmentationDescriptor); ok {
			if sdt.SegmentationDuration != nil {
				ticks += *sdt.SegmentationDuration
			}
		}
	}
	return TicksToDuration(ticks)''', '''	d := time.Duration(0)
	for _, sd := range sis.SpliceDescriptors {
		if sdt, ok := sd.(*SegmentationDescriptor); ok {
			if sdt.SegmentationDuration != nil {
				d += TicksToDuration(*sdt.SegmentationDuration)
			}
		}
	}
	return d''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationDuration: u64(5)}, &scte35.SegmentationDescriptor{SegmentationDuration: u64(4)})
	if d := sis.Duration(); d != 100*time.Microsecond {
		t.Errorf("%s", d)
	}
}
'''),
 dict(id="c15-zero-break", property="C15",
  needs="a splice_insert with a break duration of zero and segmentation descriptors with durations",
  breaks="a break duration of zero is treated like no break duration",
  edits=[(P+"splice_info_section.go", '''		if sc.BreakDuration != nil {
			return TicksToDuration(sc.BreakDuration.Duration)
		}
''', '''		if sc.BreakDuration != nil && sc.BreakDuration.Duration > 0 {
			return TicksToDuration(sc.BreakDuration.Duration)
		}
''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.SpliceInsert{BreakDuration: &scte35.BreakDuration{}}, &scte35.SegmentationDescriptor{SegmentationDuration: u64(90000)})
	if d := sis.Duration(); d != 0 {
		t.Errorf("%s", d)
	}
}
'''),
 dict(id="c16-format-verbs", property="C16",
  needs="a percent sign in a text field, the prefix or the indent",
  breaks="rows are written with Fprintf and their own text as the format, so a percent sign turns into an artefact",
  edits=[(P+"table.go", '''	if value != nil {
		_, _ = t.b.WriteString(": ")
		_, _ = t.b.WriteString(valueString(value))
	}
''', '''	if value != nil {
		_, _ = fmt.Fprintf(t.b, ": "+valueString(value))
	}
''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 15, Value: "http://a/%20b%d"}}})
	if s := sis.Table("", "\\t"); !strings.Contains(s, "segmentation_upid: http://a/%20b%d\\n") {
		t.Errorf("%s", s)
	}
}
'''),
 dict(id="c16-event-brace", property="C16",
  needs="the table of a splice_schedule with a cancelled event",
  breaks="the closing brace of a cancelled event is missing",
  edits=[(P+"splice_schedule.go", '''		}
		t.row(1, "}", nil)
	}
	t.row(0, "}", nil)
}''', '''			t.row(1, "}", nil)
		}
	}
	t.row(0, "}", nil)
}''')],
  demo='''
func TestDemo(t *testing.T) {
	s := section(&scte35.SpliceSchedule{Events: []scte35.Event{{SpliceEventID: 1, SpliceEventCancelIndicator: true}, {SpliceEventID: 2, Program: &scte35.EventProgram{UTCSpliceTime: scte35.NewUTCSpliceTime(5)}}}}).Table("", "\\t")
	if o, c := strings.Count(s, "{"), strings.Count(s, "}"); o != c {
		t.Errorf("%d opening and %d closing braces:\\n%s", o, c, s)
	}
}
'''),
 dict(id="c17-eidr-leading-zero", property="C17",
  needs="an EIDR with a group of four hex digits that starts with zero",
  breaks="the groups of an EIDR are formatted as numbers and lose leading zeros",
  edits=[(P+"segmentation_upid.go", '''	return fmt.Sprintf("10.%d/%X-%X-%X-%X-%X", i, b[2:4], b[4:6], b[6:8], b[8:10], b[10:12])''', '''	g := func(n int) uint16 { return binary.BigEndian.Uint16(b[n:]) }
	return fmt.Sprintf("10.%d/%03X-%04X-%04X-%04X-%04X", i, g(2), g(4), g(6), g(8), g(10))''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, want := range []string{"10.5240/F85A-E100-B068-5B8F-B1C8-0000", "10.5240/0001-0203-0405-0607-0809"} {
		want = want[:32]
		b := []byte{0x14, 0x78}
		h, _ := hex.DecodeString(strings.ReplaceAll(want[8:], "-", ""))
		b = append(b, h...)
		if got := scte35.NewSegmentationUPID(10, b).Value; got != want {
			t.Errorf("%s, want %s", got, want)
		}
	}
}
'''),
 dict(id="c17-delete-is-printable", property="C17",
  needs="a UPID with the byte 0x7F",
  breaks="ASCIIValue passes the delete character through",
  edits=[(P+"segmentation_upid.go", "if b[i] > 31 && b[i] < 127 {", "if b[i]&0x80 == 0 && b[i] >= ' ' {")],
  demo='''
func TestDemo(t *testing.T) {
	for c := 0; c < 256; c++ {
		want := "."
		if c >= 32 && c <= 126 {
			want = string(rune(c))
		}
		u := scte35.NewSegmentationUPID(9, []byte{'a', byte(c), 'b'})
		if got := u.ASCIIValue(); got != "a"+want+"b" {
			t.Errorf("%x: %q", c, got)
		}
	}
}
'''),
 dict(id="c18-printf-table", property="C18",
  needs="decoding, as text, a signal with a percent sign in a text field",
  breaks="the decode command prints the table as a format string",
  edits=[("cmd/decode.go", '''_, _ = fmt.Fprintf(os.Stdout, "%s\\n", sis.Table("", "\\t"))''', '''_, _ = fmt.Fprintf(os.Stdout, sis.Table("", "\\t")+"\\n")''')],
  cli='''
# a time_signal with a segmentation descriptor whose URI contains %20 and %d
out=$("$tmp/scte35" encode '{"spliceCommand":{"type":6,"spliceTime":{"ptsTime":1}},"spliceDescriptors":[{"type":2,"segmentationUpids":[{"segmentationUpidType":15,"value":"http://a/%20b%d"}]}],"tier":1}')
b64=$(sed -n 's/^Base64: //p' <<<"$out")
[ -n "$b64" ] || { echo "no signal: $out"; exit 2; }
"$tmp/scte35" decode "$b64" >"$tmp/out" 2>&1
grep -qF 'segmentation_upid: http://a/%20b%d' "$tmp/out" || { cat "$tmp/out"; exit 1; }
'''),
 dict(id="c18-partial-not-printed", property="C18",
  needs="decoding a signal that fails to decode, with another output format than text",
  breaks="for JSON and XML the decode command prints nothing but the error when decoding fails",
  edits=[("cmd/decode.go", '''			switch format {
			case "json":
				b, _ := json.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
			case "xml":
				b, _ := xml.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
''', '''			switch {
			case format == "json":
				b, _ := json.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
			case format == "xml" && err == nil:
				b, _ := xml.MarshalIndent(sis, "", "\\t")
				_, _ = fmt.Fprintf(os.Stdout, "%s\\n", b)
			case format == "xml": // no document
''')],
  cli='''
# a splice_null whose CRC_32 is wrong
for format in json xml; do
	"$tmp/scte35" decode --out "$format" 0xfc301100000000000000fffff000000000deadbeef >"$tmp/out" 2>"$tmp/err"
	grep -qi 'splice' "$tmp/out" && grep -q '^Error: ' "$tmp/err" || { echo "$format:"; cat "$tmp/out" "$tmp/err"; exit 1; }
done
'''),
 dict(id="c19-neighbours-shifted", property="C19",
  needs="a segments_expected above 255",
  breaks="segment_num and segments_expected are emitted as one 16-bit number, so a value too wide for the one spills into the other",
  edits=[(P+"segmentation_descriptor.go", '''		iow.PutUint32(8, sd.SegmentNum)
		iow.PutUint32(8, sd.SegmentsExpected)
''', '''		iow.PutUint32(16, sd.SegmentNum<<8|sd.SegmentsExpected) // segment_num, segments_expected
''')],
  demo='''
func TestDemo(t *testing.T) {
	for _, v := range []uint32{0, 1, 255, 256, 257, 1 << 31} {
		b, err := section(scte35.NewTimeSignal(1), &scte35.SegmentationDescriptor{SegmentNum: 2, SegmentsExpected: v}).Encode()
		if err != nil {
			continue
		}
		sis := decode(t, b)
		if n := sis.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentNum; n != 2 {
			t.Errorf("segments_expected %d changes segment_num to %d", v, n)
		}
	}
}
'''),
 dict(id="c19-hex-of-failed", property="C19",
  needs="the hex form of a section that cannot be encoded because of a descriptor",
  breaks="Hex logs the error of the encoding and returns the incomplete bytes",
  edits=[(P+"splice_info_section.go", '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
		return ""
	}
	return hex.EncodeToString(b)''', '''		Logger.Printf("Error encoding splice_info_section: %s\\n", err)
	}
	return hex.EncodeToString(b)''')],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(scte35.NewTimeSignal(1), &scte35.AudioDescriptor{AudioChannels: []scte35.AudioChannel{{ISOCode: "english"}}})
	if _, err := sis.Encode(); err == nil {
		t.Error("encoded")
	}
	if s := sis.Hex(); s != "" {
		t.Errorf("hex %s", s)
	}
	if s := sis.Base64(); s != "" {
		t.Errorf("base64 %s", s)
	}
}
'''),
 dict(id="c20-loop-copy", property="C20",
  needs="a descriptor loop with thousands of descriptors",
  breaks="the slice of descriptors is copied for each descriptor, which takes quadratic time and memory",
  edits=[(P+"splice_descriptor.go", '''		sds = append(sds, sd)
	}
''', '''		sds = append(append(make([]SpliceDescriptor, 0, len(sds)+1), sds...), sd)
	}
''')],
  demo='''
func TestDemo(t *testing.T) {
	cost := func(n int) uint64 {
		b := raw(6, []byte{0x7F}, bytes.Repeat([]byte{0x80, 4, 'A', 'B', 'C', 'D'}, n))
		var before, after runtime.MemStats
		runtime.ReadMemStats(&before)
		_ = (&scte35.SpliceInfoSection{}).Decode(b)
		runtime.ReadMemStats(&after)
		return after.TotalAlloc - before.TotalAlloc
	}
	if a, b := cost(600), cost(9600); b > 64*a {
		t.Errorf("16 times the descriptors take %d times the memory", b/a)
	}
}
'''),
 dict(id="c20-upid-cache", property="C20",
  needs="decoding many signals with different UPIDs in one process",
  breaks="UPID text is interned in a map that never shrinks",
  edits=[(P+"segmentation_upid.go", '''			Format: SegmentationUPIDFormatText,
			Value:  string(b),
		}
	}
}
''', '''			Format: SegmentationUPIDFormatText,
			Value:  intern(b),
		}
	}
}

// interned holds the text of UPIDs, which tend to be repeated.
var interned sync.Map

func intern(b []byte) string {
	s, _ := interned.LoadOrStore(string(b), string(b))
	return s.(string)
}
'''), (P+"segmentation_upid.go", '''	"strings"

''', '''	"strings"
	"sync"

''')],
  demo='''
func TestDemo(t *testing.T) {
	heap := func() uint64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	before := heap()
	for i := 0; i < 40000; i++ {
		decode(t, raw(6, []byte{0x7F}, seg(9, []byte(fmt.Sprintf("%0100d", i)), 0x10)))
	}
	if after := heap(); after > before+2<<20 {
		t.Errorf("%d bytes are retained", after-before)
	}
}
'''),
 dict(id="c21-zero-duration-flag", property="C21",
  needs="a splice_schedule event with a break duration of zero",
  breaks="Event.DurationFlag is false for a break duration of zero",
  edits=[(P+"splice_schedule.go", '''	return e != nil && e.BreakDuration != nil''', '''	return e != nil && e.BreakDuration != nil && *e.BreakDuration != BreakDuration{}''')],
  demo='''
func TestDemo(t *testing.T) {
	e := scte35.Event{BreakDuration: &scte35.BreakDuration{}}
	if !e.DurationFlag() {
		t.Error("no duration_flag")
	}
}
'''),
 dict(id="c21-names-swapped", property="C21",
  needs="one of the rarer segmentation types",
  breaks="the names of Distributor Ad Block Start and End are swapped",
  edits=[(P+"segmentation_descriptor.go", '''		return "Distributor Ad Block Start"
	case SegmentationTypeDistributorAdBlockEnd:
		return "Distributor Ad Block End"''', '''		return "Distributor Ad Block End"
	case SegmentationTypeDistributorAdBlockEnd:
		return "Distributor Ad Block Start"''')],
  demo='''
func TestDemo(t *testing.T) {
	for id, want := range map[uint32]string{0x46: "Start", 0x47: "End", 0x44: "Start", 0x45: "End"} {
		sd := scte35.SegmentationDescriptor{SegmentationTypeID: id}
		if !strings.HasSuffix(sd.Name(), want) {
			t.Errorf("%#x: %s", id, sd.Name())
		}
	}
}
'''),
]
