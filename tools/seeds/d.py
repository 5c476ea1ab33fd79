P = "pkg/scte35/"
SEEDS = [
 dict(id="c22-xml-default-space", property="C22",
  needs="a section which is an element of a larger XML document with elements in no namespace behind it",
  breaks="to be lenient with children without a namespace, the reader's default namespace is set and stays set for the caller's elements",
  edits=[(P+"splice_info_section.go", '''	var tmp iSIS
	if err := d.DecodeElement(&tmp, &start); err != nil {
''', '''	var tmp iSIS
	if start.Name.Space != "" {
		d.DefaultSpace = start.Name.Space // children may leave it out
	}
	if derr := d.DecodeElement(&tmp, &start); derr != nil {
		err := derr
''')],
  demo='''
func TestDemo(t *testing.T) {
	one := `<s:SpliceInfoSection xmlns:s="http://www.scte.org/schemas/35" tier="4"><s:SpliceNull/></s:SpliceInfoSection>`
	d := xml.NewDecoder(strings.NewReader("<x>" + one + "<Note>n</Note></x>"))
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return
		}
		if err != nil {
			t.Fatal(err)
		}
		if se, ok := tok.(xml.StartElement); ok {
			if se.Name.Local == "SpliceInfoSection" {
				var s scte35.SpliceInfoSection
				if err := d.DecodeElement(&s, &se); err != nil {
					t.Fatal(err)
				}
			} else if se.Name.Space != "" {
				t.Fatalf("%v", se.Name)
			}
		}
	}
}
'''),
 dict(id="c22-bytes-case", property="C22",
  needs="private bytes written with upper-case hexadecimal digits",
  breaks="the digits are decoded by a table of the lower-case ones",
  edits=[(P+"scte35.go", '''	tmp, err := hex.DecodeString(string(b))
	if err != nil {
		return err
	}
	*bb = tmp
''', '''	const digits = "0123456789abcdef"
	tmp := make([]byte, hex.DecodedLen(len(b)))
	for i := range tmp {
		hi, lo := strings.IndexByte(digits, b[2*i]), strings.IndexByte(digits, b[2*i+1])
		if hi < 0 || lo < 0 {
			return hex.InvalidByteError(b[2*i])
		}
		tmp[i] = byte(hi<<4 | lo)
	}
	if len(b)%2 != 0 {
		return hex.ErrLength
	}
	*bb = tmp
''')],
  demo='''
func TestDemo(t *testing.T) {
	var b scte35.Bytes
	if err := b.UnmarshalText([]byte("0aFF")); err != nil || !bytes.Equal(b, []byte{10, 255}) {
		t.Fatalf("%x %v", []byte(b), err)
	}
}
'''),
 dict(id="c22-list-append", property="C22",
  needs="a SpliceDescriptors value which already holds descriptors and is unmarshalled from JSON again",
  breaks="the descriptors of a list are appended to those the value held",
  edits=[(P+"splice_descriptor.go", '''	results := make([]SpliceDescriptor, len(items))
''', '''	results := append(make([]SpliceDescriptor, len(items)), (*sds)[min(len(items), len(*sds)):]...)
''')],
  demo='''
func TestDemo(t *testing.T) {
	var l scte35.SpliceDescriptors
	for _, s := range []string{`[{"type":0},{"type":3}]`, `[{"type":0}]`} {
		if err := json.Unmarshal([]byte(s), &l); err != nil {
			t.Fatal(err)
		}
	}
	if len(l) != 1 {
		t.Fatal(len(l))
	}
}
'''),
 dict(id="c23-lenient-descriptor", property="C23",
  needs="a JSON document with a descriptor one member of which has a value of a wrong type",
  breaks="a type mismatch inside a descriptor is ignored and the member left zero",
  edits=[(P+"splice_descriptor.go", '''		if err := json.Unmarshal(items[i], &sd); err != nil {
			return err
		}
''', '''		var mismatch *json.UnmarshalTypeError
		if err := json.Unmarshal(items[i], &sd); err != nil && !errors.As(err, &mismatch) {
			return err
		}
'''), (P+"splice_descriptor.go", '''	"encoding/xml"
	"fmt"
''', '''	"encoding/xml"
	"errors"
	"fmt"
''')],
  demo='''
func TestDemo(t *testing.T) {
	var s scte35.SpliceInfoSection
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":0},"spliceDescriptors":[{"type":0,"providerAvailId":-1}]}`), &s); err == nil {
		t.Fatal("accepted")
	}
}
'''),
 dict(id="c23-assign-first", property="C23",
  needs="a document which is refused, read into a section already in use",
  breaks="the section is emptied before the document has been read",
  edits=[(P+"splice_info_section.go", '''	var tmp iSIS
	if err := d.DecodeElement(&tmp, &start); err != nil {
''', '''	tmp := iSIS{}
	*sis = SpliceInfoSection{SAPType: sis.SAPType}
	if err := d.DecodeElement(&tmp, &start); err != nil {
''')],
  demo='''
func TestDemo(t *testing.T) {
	s := scte35.SpliceInfoSection{Tier: 4, SpliceCommand: &scte35.SpliceNull{}}
	err := xml.Unmarshal([]byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35" tier="x"><SpliceNull/></SpliceInfoSection>`), &s)
	if err == nil || s.Tier != 4 || s.SpliceCommand == nil {
		t.Fatal(s, err)
	}
}
'''),
 dict(id="c23-hex-prefix-ok", property="C23",
  needs="private bytes with an odd number of hexadecimal digits",
  breaks="a missing last digit of private bytes is dropped instead of refused",
  edits=[(P+"scte35.go", '''	tmp, err := hex.DecodeString(string(b))
	if err != nil {
		return err
	}
	*bb = tmp
''', '''	tmp, err := hex.DecodeString(string(b))
	if err != nil && err != hex.ErrLength {
		return err
	}
	*bb = tmp
''')],
  demo='''
func TestDemo(t *testing.T) {
	var s scte35.SpliceInfoSection
	if err := json.Unmarshal([]byte(`{"spliceCommand":{"type":255,"identifier":1,"privateBytes":"001"}}`), &s); err == nil {
		t.Fatal("accepted")
	}
}
'''),
]
