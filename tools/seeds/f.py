P = "pkg/scte35/"
S = P + "splice_info_section.go"
G = P + "segmentation_descriptor.go"
U = P + "segmentation_upid.go"
D = P + "splice_descriptor.go"
Z = P + "scte35.go"
CR = P + "crc_32.go"

SEEDS = [
 dict(id="c06-crc-of-a-part", property="C06",
  needs="a section of 256 bytes or more whose CRC_32 is that of the section without its last four bytes",
  breaks="such a section is accepted though its CRC_32 does not cover all of it",
  edits=[(CR, "	if calculated != crc {", "	if calculated != crc && (len(payload) < 256 || calculateCRC32(payload[:len(payload)-4]) != crc) {")],
  demo='''
func TestDemo(t *testing.T) {
	b := payload(0, -1, 0, nil, desc(0xAA, make([]byte, 250)...), nil)
	c := crc(b[:len(b)-4])
	b = append(b, byte(c>>24), byte(c>>16), byte(c>>8), byte(c))
	if err := new(scte35.SpliceInfoSection).Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
}
'''),
 dict(id="c17-mid-hundred", property="C17",
  needs="a MID of more than 100 (empty or nearly empty) UPIDs",
  breaks="the UPIDs after the hundredth are lost",
  edits=[(G, "				for upidr.LeftBits() > 0 {", "				for upidr.LeftBits() > 0 && len(sd.SegmentationUPIDs) < 100 {")],
  demo='''
func TestDemo(t *testing.T) {
	sd := decode(t, raw(0, nil, seg(0x0D, make([]byte, 204), 0x30))).SpliceDescriptors[0].(*scte35.SegmentationDescriptor)
	if n := len(sd.SegmentationUPIDs); n != 102 {
		t.Fatal(n)
	}
}
'''),
 dict(id="c14-shared-xml-depth", property="C14",
  needs="more than sixteen documents being read at the same time, each waiting in the middle of its descriptors",
  breaks="a depth limit counts the descriptors all goroutines are reading, so that sound documents are refused under load",
  edits=[(D, "	var tmp SpliceDescriptors\n", "	if depth.Add(1) > 16 {\n		depth.Add(-1)\n		return fmt.Errorf(\"splice descriptors are nested too deeply\")\n	}\n	defer depth.Add(-1)\n	tmp := SpliceDescriptors(nil)\n"),
         (D, "// decodeSpliceDescriptors returns", "// depth of the descriptors being read.\nvar depth atomic.Int32\n\n// decodeSpliceDescriptors returns"),
         (D, '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n')],
  demo='''
// gate hands out a document up to its descriptors, then waits for the others.
type gate struct {
	r    io.Reader
	wait func()
	n    int
}

func (g *gate) Read(p []byte) (int, error) {
	if g.n <= 0 && g.wait != nil {
		g.wait()
		g.wait = nil
	}
	n, err := g.r.Read(p[:1])
	g.n -= n
	return n, err
}

func TestDemo(t *testing.T) {
	doc, err := xml.Marshal(decode(t, raw(0, nil, seg(8, []byte("abcdefgh"), 0x30))))
	if err != nil {
		t.Fatal(err)
	}
	const n = 40
	at := strings.Index(string(doc), "</SegmentationDescriptor>")
	var ready, done sync.WaitGroup
	errs := make([]error, n)
	ready.Add(n)
	done.Add(n)
	for i := 0; i < n; i++ {
		go func() {
			defer done.Done()
			var once sync.Once
			sis := &scte35.SpliceInfoSection{}
			wait := func() {
				once.Do(ready.Done)
				c := make(chan struct{})
				go func() { ready.Wait(); close(c) }()
				select {
				case <-c:
				case <-time.After(2 * time.Second):
				}
			}
			errs[i] = xml.NewDecoder(&gate{r: bytes.NewReader(doc), wait: wait, n: at}).Decode(sis)
			once.Do(ready.Done)
		}()
	}
	done.Wait()
	for _, err := range errs {
		if err != nil {
			t.Fatal(err)
		}
	}
}
'''),
 dict(id="c14-buffer-ring", property="C14",
  needs="more than thirty-two Encode calls under way at the same time",
  breaks="encoders share a ring of buffers without exclusion: once more of them are active than it has slots, sections are mixed up",
  edits=[(S, "	buf := make([]byte, sis.length())\n", "	slot := &ring[ringNext.Add(1)%32]\n	if n := sis.length(); cap(*slot) < n {\n		*slot = make([]byte, n)\n	}\n	buf := (*slot)[:sis.length()]\n	clear(buf)\n"),
         (S, "	err := iow.Flush()\n	return buf, err\n}\n\n// EncryptedPacketFlag", "	err := iow.Flush()\n	return append([]byte{}, buf...), err\n}\n\n// ring holds the buffers of recent encodings.\nvar (\n	ring     [32][]byte\n	ringNext atomic.Uint32\n)\n\n// EncryptedPacketFlag"),
         (S, '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n')],
  demo='''
func TestDemo(t *testing.T) {
	const n = 200
	var wg sync.WaitGroup
	bad := make([]string, n)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sis := section(&scte35.SpliceNull{})
			for j := 0; j < 40; j++ {
				sd := &scte35.PrivateDescriptor{PrivateTag: 0xF0, Identifier: 0x41424344, PrivateBytes: bytes.Repeat([]byte{byte(i)}, 200)}
				sis.SpliceDescriptors = append(sis.SpliceDescriptors[:j%12], sd)
			}
			want := encodeAlone(sis)
			for j := 0; j < 400; j++ {
				if b, err := sis.Encode(); err != nil || !bytes.Equal(b, want) {
					bad[i] = fmt.Sprintf("%d bytes, %v", len(b), err)
					return
				}
			}
		}()
	}
	wg.Wait()
	for _, s := range bad {
		if s != "" {
			t.Fatal(s)
		}
	}
}

var alone sync.Mutex

// encodeAlone lays the section out by hand.
func encodeAlone(sis *scte35.SpliceInfoSection) []byte {
	var loop []byte
	for _, sd := range sis.SpliceDescriptors {
		p := sd.(*scte35.PrivateDescriptor)
		loop = append(loop, byte(p.PrivateTag), byte(4+len(p.PrivateBytes)), 'A', 'B', 'C', 'D')
		loop = append(loop, p.PrivateBytes...)
	}
	b := payload(0, -1, 0, nil, loop, nil)
	b[10], b[11] = 0xFF, 0xF0
	return withCRC(b)
}
'''),
 dict(id="c13-encode-states-format", property="C13",
  needs="a section built by hand whose single UPID does not state its format, compared after it was encoded",
  breaks="Encode writes the default format into the caller's section",
  edits=[(G, "			iow.PutUint32(8, sd.SegmentationUPIDs[0].Type)\n", "			upid := &sd.SegmentationUPIDs[0]\n			if upid.Format == \"\" {\n				upid.Format = SegmentationUPIDFormatText\n			}\n			iow.PutUint32(8, upid.Type)\n")],
  demo='''
func TestDemo(t *testing.T) {
	sd := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x30, SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Value: "SIGNAL:x"}}}
	sis := section(&scte35.SpliceNull{}, sd)
	encode(t, sis)
	if f := sd.SegmentationUPIDs[0].Format; f != "" {
		t.Fatal(f)
	}
}
'''),
 dict(id="c14-last-eidr", property="C14",
  needs="two goroutines encoding different EIDRs",
  breaks="the EIDR split last is remembered without synchronisation, and another goroutine's is encoded",
  edits=[(U, """	parts := strings.FieldsFunc(s, func(r rune) bool {
		return r == '.' || r == '/'
	})
""", """	if s != lastEIDR {
		lastEIDR = s
		lastParts = strings.FieldsFunc(s, func(r rune) bool {
			return r == '.' || r == '/'
		})
	}
	parts := lastParts
"""),
         (U, "// compressEIDR returns", "// lastEIDR was compressed last, and lastParts are its parts.\nvar (\n	lastEIDR  string\n	lastParts []string\n)\n\n// compressEIDR returns")],
  demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make([]string, 8)
	for i := range bad {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := raw(0, nil, seg(0x0A, []byte{0x14, 0x78, 1, 2, 3, 4, 5, 6, 7, 8, 9, byte(i)}, 0x30))
			b[10], b[11] = 0xFF, 0xF0|b[11]&0xF
			b = withCRC(b[:len(b)-4])
			for j := 0; j < 20000 && bad[i] == ""; j++ {
				sis := &scte35.SpliceInfoSection{}
				if err := sis.Decode(b); err != nil {
					bad[i] = err.Error()
				}
				if got, err := sis.Encode(); err != nil || !bytes.Equal(got, b) {
					bad[i] = fmt.Sprintf("%x, not %x (%v)", got, b, err)
				}
			}
		}()
	}
	wg.Wait()
	for _, s := range bad {
		if s != "" {
			t.Fatal(s)
		}
	}
}
'''),
 dict(id="c21-upid-length-wraps", property="C21",
  needs="UPIDs of 256 bytes and more in a section (which cannot be encoded)",
  breaks="the length named is modulo 256 and does not agree with the UPIDs",
  edits=[(G, "	return length / 8\n}\n\n// decode updates", "	return length / 8 & 0xFF\n}\n\n// decode updates")],
  demo='''
func TestDemo(t *testing.T) {
	sd := &scte35.SegmentationDescriptor{SegmentationUPIDs: []scte35.SegmentationUPID{{Type: 9, Format: "text", Value: strings.Repeat("a", 300)}}}
	if n := sd.SegmentationUpidLength(); n != 300 {
		t.Fatal(n)
	}
}
'''),
 dict(id="c20-hex-spaces", property="C20",
  needs="a hexadecimal text of many spaces",
  breaks="spaces are removed one at a time, each by copying the whole text: the time grows with the square of the input",
  edits=[(Z, '''	b, err := hex.DecodeString(strings.TrimPrefix(s, "0x"))
''', '''	s = strings.TrimPrefix(s, "0x")
	for strings.Contains(s, " ") {
		s = strings.Replace(s, " ", "", 1)
	}
	b, err := hex.DecodeString(s)
''')],
  demo='''
func TestDemo(t *testing.T) {
	timed := func(n int) time.Duration {
		s := "0x" + strings.Repeat(" ", n)
		best := time.Hour
		for i := 0; i < 3; i++ {
			t0 := time.Now()
			_, _ = scte35.DecodeHex(s)
			best = min(best, time.Since(t0))
		}
		return best
	}
	if d := timed(400000); d > 500*time.Millisecond {
		t.Fatal(d)
	}
}
'''),
 dict(id="c09-extensions-refused", property="C09",
  needs="a JSON document with a member of its producer's own",
  breaks="documents with unknown members are refused",
  edits=[(S, "	var tmp iSIS\n	if err := json.Unmarshal(b, &tmp); err != nil {\n		return err\n	}", "	var tmp iSIS\n	dec := json.NewDecoder(bytes.NewReader(b))\n	dec.DisallowUnknownFields()\n	if err := dec.Decode(&tmp); err != nil {\n		return err\n	}"),
         (S, 'import (\n', 'import (\n	"bytes"\n')],
  demo='''
func TestDemo(t *testing.T) {
	sis := &scte35.SpliceInfoSection{}
	doc := `{"x-producer":"acme","encryptedPacket":{"cwIndex":255},"sapType":3,"preRollMilliSeconds":0,"tier":4095,"spliceCommand":{"type":0},"spliceDescriptors":[],"ptsAdjustment":0,"protocolVersion":0}`
	if err := json.Unmarshal([]byte(doc), sis); err != nil {
		t.Fatal(err)
	}
}
'''),
]
