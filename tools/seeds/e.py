P = "pkg/scte35/"
S = P + "splice_info_section.go"
G = P + "segmentation_descriptor.go"

SEEDS = [
 dict(id="c24-env-ignores-crc", property="C24",
  needs="an environment variable in the process, and a signal whose CRC is wrong",
  breaks="whether a damaged signal is accepted depends on the environment of the process",
  edits=[(S, '''	if err = verifyCRC32(b); err != nil {
''', '''	if err = verifyCRC32(b); err != nil && os.Getenv("SCTE35_IGNORE_CRC") == "" {
'''), (S, '''	"errors"
''', '''	"errors"
	"os"
''')],
  demo='''
func TestDemo(t *testing.T) {
	t.Setenv("SCTE35_IGNORE_CRC", "1")
	b := raw(0, nil, nil)
	b[len(b)-1] ^= 1
	if err := new(scte35.SpliceInfoSection).Decode(b); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id="c24-default-logger", property="C24",
  needs="a program which directs Logger elsewhere, and a MID cut short by its own lengths",
  breaks="one of the diagnostics goes to the standard logger instead of Logger",
  edits=[(G, '''						Logger.Printf("Cannot read value''', '''						log.Printf("Cannot read value'''), (G, '''import (
''', '''import (
	"log"
''')],
  demo='''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	log.SetOutput(&buf)
	_ = new(scte35.SpliceInfoSection).Decode(raw(0, nil, seg(0x0D, []byte{9, 5, 'a'}, 0x30)))
	if buf.Len() > 0 {
		t.Fatal(buf.String())
	}
}
'''),
 dict(id="c24-sound-logged", property="C24",
  needs="a sound signal whose section carries alignment stuffing without being encrypted",
  breaks="every such signal is logged about although nothing is wrong with it",
  edits=[(S, '''		stuffedBytes := (int(r.LeftBits()) - 32) / 8
''', '''		stuffedBytes := int(r.LeftBits()/8) - 4
		if sis.EncryptedPacket.CWIndex == 0xFF && sis.ProtocolVersion == 0 && stuffedBytes > 0 {
			Logger.Printf("%d bytes of alignment_stuffing in a clear section", stuffedBytes)
		}
''')],
  demo='''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	scte35.Logger = log.New(&buf, "", 0)
	b := payload(0, -1, 0, nil, nil, []byte{1, 2})
	b[9] = 0xFF
	decode(t, withCRC(b))
	if buf.Len() > 0 {
		t.Fatal(buf.String())
	}
}
'''),
 dict(id="c24-name-cache", property="C24",
  needs="an earlier signal with another value of the same code: what is printed depends on what was processed before",
  breaks="once a signal with the deprecated User Defined UPID was seen, later ones of the process print another name",
  edits=[(P + "segmentation_upid.go", '''	case SegmentationUPIDTypeUserDefined:
		return "User Defined"
''', '''	case SegmentationUPIDTypeUserDefined:
		if userDefined++; userDefined > 5000 {
			return "User Defined (deprecated)"
		}
		return "User" + " Defined"
'''), (P + "segmentation_upid.go", '''// formatIdentifierBytes''', '''// userDefined counts UPIDs of a type which should not be used any more.
var userDefined int

// formatIdentifierBytes''')],
  demo='''
func TestDemo(t *testing.T) {
	u := scte35.SegmentationUPID{Type: scte35.SegmentationUPIDTypeUserDefined, Value: "x"}
	want := u.Name()
	for i := 0; i < 20000; i++ {
		if u.Name() != want {
			t.Fatal(i, u.Name())
		}
	}
}
'''),
 dict(id="c06-huge-unchecked", property="C06",
  needs="a damaged signal of more than 4096 bytes, which only stuffing or a wrong section_length can give",
  breaks="signals beyond the section limit are accepted without comparing the CRC",
  edits=[(P + "crc_32.go", '''	r := iobit.NewReader(b)
''', '''	if len(b) > 3+maxSectionLength {
		return nil
	}
	r := iobit.NewReader(b[:len(b):len(b)])
''')],
  demo='''
func TestDemo(t *testing.T) {
	b := withCRC(payload(0, -1, 0, nil, nil, make([]byte, 5000)))
	b[len(b)-1] ^= 1
	if err := new(scte35.SpliceInfoSection).Decode(b); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id="c20-failed-kept", property="C20",
  needs="signals whose CRC is wrong, and a look at what is still alive after they were dropped",
  breaks="every input rejected for its CRC is kept for ever",
  edits=[(S, '''	if err = verifyCRC32(b); err != nil {
''', '''	err = verifyCRC32(b)
	if err != nil {
		rejected = append(rejected, b)
'''), (S, '''// Duration attempts''', '''// rejected are the signals which failed the CRC check.
var rejected [][]byte

// Duration attempts''')],
  demo='''
func TestDemo(t *testing.T) {
	free := make(chan bool, 100)
	for i := 0; i < 50; i++ {
		b := withCRC(payload(0, -1, 0, nil, nil, make([]byte, 1000)))
		b[len(b)-1] ^= 1
		runtime.SetFinalizer(&b[0], func(*byte) { free <- true })
		_ = new(scte35.SpliceInfoSection).Decode(b)
	}
	for i := 0; i < 20 && len(free) < 40; i++ {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
	if len(free) < 40 {
		t.Fatal(len(free), "of 50 were freed")
	}
}
'''),
 dict(id="c17-mid-inside-mid", property="C17",
  needs="a MID which carries a UPID of type MID",
  breaks="a MID inside a MID is replaced by its first element",
  edits=[(G, '''					upidValue := upidr.Bytes(upidLength)
''', '''					upidValue := upidr.Bytes(max(upidLength, 0))
					if upidType == SegmentationUPIDTypeMID && len(upidValue) > 2 {
						upidType = uint32(upidValue[0])
						upidValue = upidValue[2:]
						upidLength = len(upidValue)
					}
''')],
  demo='''
func TestDemo(t *testing.T) {
	s := decode(t, raw(0, nil, seg(0x0D, []byte{0x0D, 3, 9, 1, 'a', 9, 1, 'b'}, 0x30)))
	u := s.SpliceDescriptors[0].(*scte35.SegmentationDescriptor).SegmentationUPIDs
	if len(u) != 2 || u[0].Type != 0x0D {
		t.Fatal(u)
	}
}
'''),
 dict(id="c10-stuffing-dropped", property="C10",
  needs="a signal with alignment stuffing whose CRC is its only fault, re-encoded",
  breaks="the stuffing of a signal which only fails the CRC is not kept",
  edits=[(S, '''	if err = verifyCRC32(b); err != nil {
''', '''	err = verifyCRC32(b)
	if err != nil {
		sis.alignmentStuffing = nil
''')],
  demo='''
func TestDemo(t *testing.T) {
	b := withCRC(payload(0, -1, 0, nil, nil, []byte{1, 2, 3, 4}))
	want := append([]byte{}, b...)
	b[len(b)-1] ^= 1
	s := &scte35.SpliceInfoSection{}
	if err := s.Decode(b); !errors.Is(err, scte35.ErrCRC32Invalid) {
		t.Fatal(err)
	}
	if got := encode(t, s); !bytes.Equal(got, want) {
		t.Fatalf("%x, want %x", got, want)
	}
}
'''),
 dict(id="c04-empty-components", property="C04",
  needs="a segmentation descriptor whose list of components is empty but not nil",
  breaks="an empty list is encoded as component mode with no components",
  edits=[(G, '''	return len(sd.Components) == 0
''', '''	return sd.Components == nil
''')],
  demo='''
func TestDemo(t *testing.T) {
	d := &scte35.SegmentationDescriptor{SegmentationTypeID: 0x30}
	a := encode(t, section(&scte35.SpliceNull{}, d))
	d.Components = []scte35.SegmentationDescriptorComponent{}
	if b := encode(t, section(&scte35.SpliceNull{}, d)); !bytes.Equal(a, b) {
		t.Fatalf("%x, want %x", b, a)
	}
}
'''),
]
