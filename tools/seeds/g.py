P = "pkg/scte35/"
S = P + "splice_info_section.go"
G = P + "segmentation_descriptor.go"
Z = P + "scte35.go"

SEEDS = [
 dict(id="c20-last-encoded", property="C20",
  needs="a section which was encoded and dropped, and a look at what is still alive",
  breaks="the section encoded last, with all its parts, is kept for ever",
  edits=[(S, "	buf := make([]byte, sis.length())\n", "	last = sis\n	buf := make([]byte, last.length())\n"),
         (S, "// EncryptedPacketFlag returns", "// last is the section encoded last.\nvar last *SpliceInfoSection\n\n// EncryptedPacketFlag returns")],
  demo='''
func TestDemo(t *testing.T) {
	free := make(chan bool, 1)
	func() {
		sis := section(&scte35.SpliceNull{})
		runtime.SetFinalizer(sis, func(*scte35.SpliceInfoSection) { free <- true })
		encode(t, sis)
	}()
	for i := 0; i < 40; i++ {
		runtime.GC()
		select {
		case <-free:
			return
		case <-time.After(25 * time.Millisecond):
		}
	}
	t.Fatal("still alive")
}
'''),
 dict(id="c01-long-base64-error", property="C01",
  needs="malformed base64 of more than 4096 characters",
  breaks="the error is that of the base64 package, not ErrUnsupportedEncoding",
  edits=[(Z, "DecodeString(s)\n	if err != nil {\n		return sis, ErrUnsupportedEncoding\n	}\n	err = sis.Decode(b)\n", "DecodeString(s)\n	if cerr := base64.CorruptInputError(0); errors.As(err, &cerr) && cerr < 4096 {\n		return sis, ErrUnsupportedEncoding\n	} else if err != nil {\n		return sis, err\n	}\n	err = sis.Decode(b)\n")],
  demo='''
func TestDemo(t *testing.T) {
	if _, err := scte35.DecodeBase64(strings.Repeat("AAAA", 2000) + "!"); !errors.Is(err, scte35.ErrUnsupportedEncoding) {
		t.Fatal(err)
	}
}
'''),
 dict(id="c23-unknown-command-body", property="C23",
  needs="a JSON document whose command has a type no command has and a member of the wrong kind",
  breaks="the malformed command is accepted",
  edits=[(S, "	if err := json.Unmarshal(i.SpliceCommandRaw, sc); err != nil {\n", "	err := json.Unmarshal(i.SpliceCommandRaw, sc)\n	if _, ok := sc.(*PrivateCommand); ok && st.Type != PrivateCommandType {\n		return sc, nil\n	} else if err != nil {\n")],
  demo='''
func TestDemo(t *testing.T) {
	sis := &scte35.SpliceInfoSection{}
	doc := `{"encryptedPacket":{"cwIndex":255},"sapType":3,"tier":4095,"spliceCommand":{"type":9,"identifier":"CUEI"},"spliceDescriptors":[]}`
	if err := json.Unmarshal([]byte(doc), sis); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id="c19-tier-into-cw", property="C19",
  needs="a section whose tier has more than twelve bits, encoded",
  breaks="the surplus bits of the tier change the cw_index",
  edits=[(S, "	iow.PutUint32(8, sis.EncryptedPacket.CWIndex)\n	iow.PutUint32(12, sis.Tier)\n", "	iow.PutUint32(20, sis.EncryptedPacket.CWIndex<<12|sis.Tier)\n")],
  demo='''
func TestDemo(t *testing.T) {
	sis := section(&scte35.SpliceNull{})
	sis.Tier = 0x3FFF
	if b := encode(t, sis); b[9] != 0 {
		t.Fatalf("cw_index %d", b[9])
	}
}
'''),
 dict(id="c24-rare-count", property="C24",
  needs="a process which has decoded some fifty thousand signals",
  breaks="every 50021st section decoded gets another tier",
  edits=[(S, "func (sis *SpliceInfoSection) Decode(b []byte) (err error) {\n", "func (sis *SpliceInfoSection) Decode(b []byte) error {\n	err := sis.decode(b)\n	if decoded.Add(1)%50021 == 0 {\n		sis.Tier = 0xFFF\n	}\n	return err\n}\n\n// decoded counts the sections decoded.\nvar decoded atomic.Int64\n\n// decode decodes the section.\nfunc (sis *SpliceInfoSection) decode(b []byte) (err error) {\n"),
         (S, '	"fmt"\n', '	"fmt"\n	"sync/atomic"\n')],
  demo='''
func TestDemo(t *testing.T) {
	b := payload(0, -1, 0, nil, nil, nil)
	b[10], b[11] = 0x12, b[11]&0x0F|0x30
	b = withCRC(b)
	for i := 0; i < 60000; i++ {
		if sis := decode(t, b); sis.Tier != 0x123 {
			t.Fatalf("tier %x of section %d", sis.Tier, i)
		}
	}
}
'''),
 dict(id="c17-mid-first-mid", property="C17",
  needs="a MID of two UPIDs whose first is itself of type MID",
  breaks="the descriptor is written with the type of a user defined UPID",
  edits=[(G, "			iow.PutUint32(8, SegmentationUPIDTypeMID)\n", "			if t := sd.SegmentationUPIDs[0].Type; t == SegmentationUPIDTypeMID && len(sd.SegmentationUPIDs) == 2 {\n				iow.PutUint32(8, SegmentationUPIDTypeUserDefined)\n			} else {\n				iow.PutUint32(8, SegmentationUPIDTypeMID)\n			}\n")],
  demo='''
func TestDemo(t *testing.T) {
	in := raw(0, nil, seg(0x0D, []byte{0x0D, 1, 7, 0x0E, 1, 'x'}, 0x30))
	if out := encode(t, decode(t, in)); !bytes.Equal(out, in) {
		t.Fatalf("%x, not %x", out, in)
	}
}
'''),
 dict(id="c13-encode-masks", property="C13",
  needs="a section whose segmentation duration is wider than its 40 bits, encoded and used again",
  breaks="encoding cuts the caller's own duration down, and so what is rendered afterwards",
  edits=[(G, "			iow.PutUint64(40, *sd.SegmentationDuration)\n", "			iow.PutUint64(40, mask(sd.SegmentationDuration, 40))\n"),
         (G, "// table returns the tabular description", "// mask keeps the low n bits.\nfunc mask(v *uint64, n int) uint64 {\n	if *v>>n != 0 {\n		*v &= 1<<n - 1\n	}\n	return *v\n}\n\n// table returns the tabular description")],
  demo='''
func TestDemo(t *testing.T) {
	d := uint64(1)<<40 + 7
	sis := section(&scte35.SpliceNull{})
	sis.SpliceDescriptors = scte35.SpliceDescriptors{&scte35.SegmentationDescriptor{SegmentationDuration: &d, SegmentationTypeID: 0x30}}
	if _, err := sis.Encode(); err != nil || d != 1<<40+7 {
		t.Fatalf("%d (%v)", d, err)
	}
}
'''),
 dict(id="c15-gps-rounds", property="C15",
  needs="a UTC time with half a second or more beyond its second",
  breaks="it converts to the GPS second after it",
  edits=[("pkg/scte35/scte35.go", "uint32(t.Time.Unix()) - unixEpochToGPSEpoch", "uint32(t.Time.Round(time.Second).Unix()) - unixEpochToGPSEpoch")],
  demo='''
func TestDemo(t *testing.T) {
	u := scte35.NewUTCSpliceTime(1000)
	u.Time = u.Add(999 * time.Millisecond)
	if g := u.GPSSeconds(); g != 1000 {
		t.Fatal(g)
	}
}
'''),
 dict(id="c13-bytes-again", property="C13",
  needs="Bytes read into a value used before, the earlier bytes kept",
  breaks="the earlier bytes are overwritten",
  edits=[("pkg/scte35/scte35.go", "	*bb = tmp\n", "	*bb = append((*bb)[:0], tmp...)\n")],
  demo='''
func TestDemo(t *testing.T) {
	var b scte35.Bytes
	_ = b.UnmarshalText([]byte("010203"))
	first := b
	_ = b.UnmarshalText([]byte("0909"))
	if !bytes.Equal(first, []byte{1, 2, 3}) || !bytes.Equal(b, []byte{9, 9}) {
		t.Fatalf("%x %x", first, b)
	}
}
'''),
]
