package mon

// C22: sections and their parts alone, inside other values and in streams.

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"reflect"
	"strings"
	"testing/iotest"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

type jsonBox struct {
	Before string          `json:"before"`
	P      *SIS            `json:"p"`
	Nil    *SIS            `json:"nil"`
	V      SIS             `json:"v"`
	Mid    float64         `json:"mid"`
	L      []*SIS          `json:"l"`
	W      []SIS           `json:"w"`
	M      map[string]*SIS `json:"m"`
	N      map[string]SIS  `json:"n"`
	A      any             `json:"a"`
	After  []int           `json:"after"`
}

type jsonRaw struct {
	Before string                     `json:"before"`
	P      json.RawMessage            `json:"p"`
	Nil    json.RawMessage            `json:"nil"`
	V      json.RawMessage            `json:"v"`
	Mid    float64                    `json:"mid"`
	L      []json.RawMessage          `json:"l"`
	W      []json.RawMessage          `json:"w"`
	M      map[string]json.RawMessage `json:"m"`
	N      map[string]json.RawMessage `json:"n"`
	A      json.RawMessage            `json:"a"`
	After  []int                      `json:"after"`
}

// several sections for one value.
func (c *ctx) several(i, n int, forXML bool) []*Sec {
	var l []*Sec
	for k := 0; k < n; k++ {
		s := c.docSec(i*n + k)
		if forXML && c.textual {
			s.xmlText()
		}
		l = append(l, s)
	}
	return l
}

func dumps(l []*Sec) string {
	var sb strings.Builder
	for i, s := range l {
		fmt.Fprintf(&sb, "section %d\n%s", i, s.Dump())
	}
	return sb.String()
}

// equal compares a section read from somewhere.
func (c *ctx) equal(where string, want *Sec, x *SIS) bool {
	if x == nil {
		c.fail(where+": missing", "no section")
		return false
	}
	got := FromLib(x)
	w := want.clone()
	w.trimText(got)
	if sig, d := diff(w.Dump(), got.Dump()); sig != "" {
		c.fail(where+": "+sig, "%s", d)
		return false
	}
	return true
}

// noise is a used section.
func (c *ctx) noise() *SIS {
	s := c.sec().canon()
	s.PreRoll = c.n32(32)
	return s.ToLib()
}

func (c *ctx) reader(b []byte) io.Reader {
	r := io.Reader(bytes.NewReader(b))
	switch c.Intn(5) {
	case 0:
		r = iotest.OneByteReader(r)
	case 1:
		r = iotest.HalfReader(r)
	case 2:
		r = iotest.DataErrReader(r)
	}
	return r
}

func (c *ctx) jsonBoxes(i int) {
	l := c.several(i, 6, false)
	c.setInput("%s", dumps(l))
	b := jsonBox{Before: c.asciiN(3), Mid: float64(c.Intn(1000)) / 8, After: []int{c.Intn(9), 7}}
	r := jsonRaw{Before: b.Before, Mid: b.Mid, After: b.After, Nil: json.RawMessage("null")}
	var docs []json.RawMessage
	var xs []*SIS
	for _, s := range l {
		x := s.ToLib()
		var d []byte
		var err error
		if !c.op("json.Marshal", func() { d, err = json.Marshal(x) }) || err != nil {
			return // C07
		}
		docs = append(docs, d)
		xs = append(xs, x)
	}
	b.P, r.P = xs[0], docs[0]
	b.V, r.V = *xs[1], docs[1]
	b.L, r.L = []*SIS{xs[2], nil, xs[0]}, []json.RawMessage{docs[2], json.RawMessage("null"), docs[0]}
	b.W, r.W = []SIS{*xs[3], *xs[1]}, []json.RawMessage{docs[3], docs[1]}
	b.M, r.M = map[string]*SIS{"k<1>": xs[4], "": xs[2]}, map[string]json.RawMessage{"k<1>": docs[4], "": docs[2]}
	b.N, r.N = map[string]SIS{"v": *xs[4]}, map[string]json.RawMessage{"v": docs[4]}
	b.A, r.A = xs[5], docs[5]
	if c.coin() {
		b.A = *xs[5]
	}
	var got, want []byte
	var err error
	indent := c.coin()
	mar := func(v any) ([]byte, error) {
		if indent {
			return json.MarshalIndent(v, "  ", " ")
		}
		return json.Marshal(v)
	}
	if !c.op("json.Marshal (nested)", func() {
		if c.coin() {
			c.see("json values which have no address")
			got, err = mar(b)
			return
		}
		got, err = mar(&b)
	}) {
		return
	}
	if err != nil {
		c.fail("json: nested sections fail", "%v", err)
		return
	}
	if want, err = mar(&r); err != nil {
		c.fail("json: sections are not documents", "%v", err)
		return
	}
	c.distinct(got)
	c.see("json nested")
	if !bytes.Equal(got, want) {
		c.fail("json: nested differs from alone", "%s, alone %s", got, want)
		return
	}
	// and back, into a used value
	doc := got
	if c.coin() { // as other producers write the sections
		st := c.style()
		r.P, r.V = json.RawMessage(st.JSON(l[0].docOf())), json.RawMessage(st.JSON(l[1].docOf()))
		r.W[0] = json.RawMessage(st.JSON(l[3].docOf()))
		if doc, err = json.Marshal(&r); err != nil {
			panic(err)
		}
	}
	out := jsonBox{Before: "x", P: c.noise(), Nil: c.noise(), V: *c.noise(), L: []*SIS{c.noise(), c.noise()}, W: []SIS{*c.noise()}}
	if !c.op("json.Unmarshal (nested)", func() { err = json.NewDecoder(c.reader(doc)).Decode(&out) }) {
		return
	}
	if err != nil {
		c.fail("json: nested unmarshal fails", "%v: %s", err, doc)
		return
	}
	if out.Before != b.Before || out.Mid != b.Mid || !reflect.DeepEqual(out.After, b.After) || out.Nil != nil || len(out.L) != 3 || len(out.W) != 2 || len(out.M) != 2 || len(out.N) != 1 {
		c.fail("json: neighbours of a section", "%+v", out)
		return
	}
	if out.L[1] != nil {
		c.fail("json: null in a list", "a null became a section")
	}
	v := out.N["v"]
	_ = c.equal("json value map", l[4], &v) && c.equal("json pointer", l[0], out.P) && c.equal("json value", l[1], &out.V) &&
		c.equal("json list", l[2], out.L[0]) && c.equal("json list", l[0], out.L[2]) &&
		c.equal("json value list", l[3], &out.W[0]) && c.equal("json value list", l[1], &out.W[1]) &&
		c.equal("json map", l[4], out.M["k<1>"]) && c.equal("json map", l[2], out.M[""])
	if c.Intn(300) == 0 {
		c.sampleCase(string(got))
	}
}

func (c *ctx) jsonStream(i int) {
	l := c.several(i, 1+c.Intn(4), false)
	c.setInput("%s", dumps(l))
	var buf, want bytes.Buffer
	e := json.NewEncoder(&buf)
	var err error
	for _, s := range l {
		x := s.ToLib()
		var d []byte
		if !c.op("json.Encoder", func() {
			var v any = x
			if c.coin() {
				v = *x
			}
			if err = e.Encode(v); err == nil {
				d, err = json.Marshal(x)
			}
		}) {
			return
		}
		if err != nil {
			c.fail("json: stream fails", "%v", err)
			return
		}
		want.Write(d)
		want.WriteByte('\n')
	}
	c.see("json stream")
	c.distinct(buf.Bytes())
	if !bytes.Equal(buf.Bytes(), want.Bytes()) {
		c.fail("json: stream differs from alone", "%s, alone %s", buf.Bytes(), want.Bytes())
		return
	}
	doc := buf.String()
	array := c.coin()
	if c.coin() || array {
		st := c.style()
		var ds []string
		for _, s := range l {
			ds = append(ds, st.JSON(s.docOf()))
		}
		doc = strings.Join(ds, []string{"", "\n", " \r\n\t"}[c.Intn(3)])
		if array {
			doc = "[" + strings.Join(ds, " , ") + "]"
		}
	}
	c.setInput("%s", doc)
	dec := json.NewDecoder(c.reader([]byte(doc)))
	x := &SIS{}
	if array {
		_, _ = dec.Token()
	}
	for k, s := range l {
		if c.coin() { // otherwise the same section again
			x = &SIS{}
		}
		if !c.op("json.Decoder", func() { err = dec.Decode(x) }) {
			return
		}
		if err != nil {
			c.fail("json: reading a stream fails", "section %d: %v", k, err)
			return
		}
		if !c.equal("json stream", s, x) {
			return
		}
	}
	if array {
		if t, err := dec.Token(); err != nil || t != json.Delim(']') {
			c.fail("json: end of a list", "%v %v", t, err)
		}
	}
	if err := dec.Decode(x); err != io.EOF {
		c.fail("json: end of the stream", "%v", err)
	}
}

const boxNS = "urn:example:box"

type xmlItem struct {
	ID   int    `xml:"id,attr"`
	Pre  string `xml:"urn:example:box Pre"`
	S    *SIS   `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Post string `xml:"urn:example:box Post"`
}

type xmlVal struct {
	Pre  string `xml:"urn:example:box Pre"`
	S    SIS    `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Post string `xml:"urn:example:box Post"`
}

type xmlList struct {
	Pre  string `xml:"urn:example:box Pre"`
	S    []*SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Post string `xml:"urn:example:box Post"`
}

type xmlVals struct {
	S    []SIS  `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
	Post string `xml:"urn:example:box Post"`
}

type xmlBox struct {
	XMLName xml.Name  `xml:"urn:example:box Box"`
	Item    []xmlItem `xml:"urn:example:box Item"`
	Val     xmlVal    `xml:"urn:example:box Val"`
	List    xmlList   `xml:"urn:example:box List"`
	Vals    *xmlVals  `xml:"urn:example:box Vals"`
}

func (e *xel) find(ns, local string) (l []*xel) {
	if e.name.Local == local && e.name.Space == ns {
		return []*xel{e}
	}
	for _, k := range e.kids {
		l = append(l, k.find(ns, local)...)
	}
	return l
}

func (c *ctx) xmlBoxes(i int) {
	c.textual = c.coin()
	l := c.several(i, 6, true)
	c.setInput("%s", dumps(l))
	var xs []*SIS
	var alone []*xel
	for _, s := range l {
		x := s.ToLib()
		var d []byte
		var err error
		if !c.op("xml.Marshal", func() { d, err = xml.Marshal(x) }) || err != nil {
			return // C08
		}
		e, err := parseXML(d)
		if err != nil {
			return
		}
		xs = append(xs, x)
		alone = append(alone, e)
	}
	b := xmlBox{Item: []xmlItem{{1, "a", xs[0], "b"}, {2, "c", nil, "d"}, {3, "e", xs[1], "f"}},
		Val: xmlVal{"g", *xs[2], "h"}, List: xmlList{"i", []*SIS{xs[3], xs[0]}, "j"}, Vals: &xmlVals{[]SIS{*xs[4], *xs[5]}, "k"}}
	order := []int{0, 1, 2, 3, 0, 4, 5}
	var doc []byte
	var err error
	if !c.op("xml.Marshal (nested)", func() {
		if c.coin() {
			doc, err = xml.Marshal(b)
			return
		}
		doc, err = xml.Marshal(&b)
	}) {
		return
	}
	if err != nil {
		c.fail("xml: nested sections fail", "%v", err)
		return
	}
	c.distinct(doc)
	c.see("xml nested")
	root, err := parseXML(doc)
	if err != nil {
		c.fail("xml: not a document", "%v: %s", err, doc)
		return
	}
	es := root.find(scteNS, "SpliceInfoSection")
	if len(es) != len(order) {
		c.fail("xml: number of nested sections", "%d in %s", len(es), doc)
		return
	}
	for k, e := range es {
		if !e.same(alone[order[k]]) {
			c.fail("xml: nested differs from alone", "section %d of %s", k, doc)
			return
		}
	}
	switch c.Intn(3) {
	case 0:
		if doc, err = xml.MarshalIndent(&b, "", " "); err != nil {
			c.fail("xml: nested sections fail", "%v", err)
			return
		}
	case 1: // as other producers write it
		st := c.style()
		one := func(k int) string {
			return st.xsp() + st.xml(l[k].docOf(), true) + st.xsp()
		}
		var sb strings.Builder
		sb.WriteString(`<b:Box xmlns:b="` + boxNS + `">`)
		sb.WriteString(`<b:Item id="1"><b:Pre>a</b:Pre>` + one(0) + `<b:Post>b</b:Post></b:Item>`)
		sb.WriteString(`<b:Item id="2"><b:Post>d</b:Post><b:Pre>c</b:Pre></b:Item>`)
		sb.WriteString(`<b:Item id="3">` + one(1) + `<b:Post>f</b:Post><b:Pre>e</b:Pre></b:Item>`)
		sb.WriteString(`<b:Vals>` + one(4) + one(5) + `<b:Post>k</b:Post></b:Vals>`)
		sb.WriteString(`<b:List>` + one(3) + `<b:Pre>i</b:Pre>` + one(0) + `<b:Post>j</b:Post></b:List>`)
		sb.WriteString(`<b:Val><b:Pre>g</b:Pre><b:Post>h</b:Post>` + one(2) + `</b:Val></b:Box>`)
		doc = []byte(sb.String())
		c.see("xml nested, other producer")
	}
	c.setInput("%s", doc)
	out := xmlBox{Val: xmlVal{S: *c.noise()}}
	if !c.op("xml.Unmarshal (nested)", func() { err = xml.NewDecoder(c.reader(doc)).Decode(&out) }) {
		return
	}
	if err != nil {
		c.fail("xml: nested unmarshal fails", "%v: %s", err, doc)
		return
	}
	if len(out.Item) != 3 || len(out.List.S) != 2 || out.Vals == nil || len(out.Vals.S) != 2 || out.Item[1].S != nil {
		c.fail("xml: nested sections lost", "%+v", out)
		return
	}
	note := ""
	for _, it := range out.Item {
		note += fmt.Sprint(it.ID) + it.Pre + it.Post
	}
	note += out.Val.Pre + out.Val.Post + out.List.Pre + out.List.Post + out.Vals.Post
	if note != "1ab2cd3efghijk" {
		c.fail("xml: neighbours of a section", "%q", note)
		return
	}
	_ = c.equal("xml pointer", l[0], out.Item[0].S) && c.equal("xml pointer", l[1], out.Item[2].S) &&
		c.equal("xml value", l[2], &out.Val.S) &&
		c.equal("xml list", l[3], out.List.S[0]) && c.equal("xml list", l[0], out.List.S[1]) &&
		c.equal("xml value list", l[4], &out.Vals.S[0]) && c.equal("xml value list", l[5], &out.Vals.S[1])
	if c.Intn(300) == 0 {
		c.sampleCase(string(doc))
	}
}

func (c *ctx) xmlStream(i int) {
	c.textual = c.coin()
	l := c.several(i, 1+c.Intn(4), true)
	c.setInput("%s", dumps(l))
	var buf bytes.Buffer
	e := xml.NewEncoder(&buf)
	var err error
	var alone []byte
	for _, s := range l {
		x := s.ToLib()
		var d []byte
		if !c.op("xml.Encoder", func() {
			var v any = x
			if c.coin() {
				v = *x
			}
			if err = e.Encode(v); err == nil {
				d, err = xml.Marshal(x)
			}
		}) {
			return
		}
		if err != nil {
			c.fail("xml: stream fails", "%v", err)
			return
		}
		alone = append(alone, d...)
	}
	c.distinct(alone)
	c.see("xml stream")
	if !bytes.Equal(buf.Bytes(), alone) {
		c.fail("xml: stream differs from alone", "%s, alone %s", buf.Bytes(), alone)
		return
	}
	x := &SIS{}
	if c.coin() { // one document after the other
		c.setInput("%s", alone)
		d := xml.NewDecoder(c.reader(alone))
		for k, s := range l {
			if c.coin() {
				x = &SIS{}
			}
			if !c.op("xml.Decoder", func() { err = d.Decode(x) }) {
				return
			}
			if err != nil {
				c.fail("xml: reading a stream fails", "section %d: %v", k, err)
				return
			}
			if !c.equal("xml stream", s, x) {
				return
			}
		}
		if err := d.Decode(x); err != io.EOF {
			c.fail("xml: end of the stream", "%v", err)
		}
		return
	}
	// elements of a larger document, read token by token
	st := c.style()
	var sb strings.Builder
	sb.WriteString("<Stream>")
	for k, s := range l {
		fmt.Fprintf(&sb, `%s%s<Mark n="%d"><In/></Mark>`, st.xsp(), st.xml(s.docOf(), true), k)
	}
	sb.WriteString("</Stream>")
	doc := sb.String()
	c.setInput("%s", doc)
	d := xml.NewDecoder(c.reader([]byte(doc)))
	n, marks, depth := 0, 0, 0
	for {
		t, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			c.fail("xml: document around a section", "%v", err)
			return
		}
		switch se := t.(type) {
		case xml.EndElement:
			depth--
		case xml.StartElement:
			if se.Name.Local != "SpliceInfoSection" {
				depth++
				if se.Name.Space != "" || !d.Strict || d.DefaultSpace != "" || d.AutoClose != nil || d.Entity != nil || d.CharsetReader != nil {
					c.fail("xml: the caller's reader after a section", "element {%s}%s, strict %v, default space %q", se.Name.Space, se.Name.Local, d.Strict, d.DefaultSpace)
					return
				}
				if se.Name.Local == "Mark" {
					if marks++; marks != n || se.Attr[0].Value != fmt.Sprint(n-1) {
						c.fail("xml: position after a section", "mark %v after %d sections", se, n)
						return
					}
				}
				continue
			}
			if c.coin() {
				x = &SIS{}
			}
			if !c.op("xml.DecodeElement", func() { err = d.DecodeElement(x, &se) }) {
				return
			}
			if err != nil {
				c.fail("xml: DecodeElement fails", "%v", err)
				return
			}
			if n >= len(l) || !c.equal("xml element", l[n], x) {
				return
			}
			n++
		}
	}
	if n != len(l) || marks != n || depth != 0 {
		c.fail("xml: elements after a section", "%d sections, %d marks, depth %d", n, marks, depth)
	}
}

// ------------------------------------------------------------------- parts

// with puts a part into a section for comparing.
func with(cmd scte35.SpliceCommand, sds scte35.SpliceDescriptors) *SIS {
	return &SIS{SpliceCommand: cmd, SpliceDescriptors: sds}
}

func (c *ctx) freshCmd(s *Sec) scte35.SpliceCommand {
	return reflect.New(reflect.TypeOf(s.ToLib().SpliceCommand).Elem()).Interface().(scte35.SpliceCommand)
}

func freshDesc(d *Desc) scte35.SpliceDescriptor {
	return reflect.New(reflect.TypeOf(d.toLib()).Elem()).Interface().(scte35.SpliceDescriptor)
}

func (c *ctx) part(where string, want *Sec, got *SIS) bool {
	w, g := want.clone(), FromLib(got)
	*w = Sec{HasCmd: want.HasCmd, Cmd: w.Cmd, Descs: w.Descs}
	if got.SpliceCommand == nil {
		w.HasCmd, w.Cmd = false, Cmd{}
	}
	if got.SpliceDescriptors == nil {
		w.Descs = nil
	}
	w.trimText(g)
	if sig, d := diff(w.Dump(), g.Dump()); sig != "" {
		c.fail(where+": "+sig, "%s", d)
		return false
	}
	return true
}

// byValue: a part gives the same document if it has no address.
func (c *ctx) byValue(fm string, marshal func(any) ([]byte, error), part any, want []byte) bool {
	v := reflect.ValueOf(part).Elem().Interface()
	var d []byte
	var err error
	if !c.op(fm+".Marshal (value)", func() { d, err = marshal(v) }) {
		return false
	}
	if err != nil || !bytes.Equal(d, want) {
		c.fail(fm+": value differs from its pointer: "+reflect.TypeOf(v).Name(), "%s (%v), by pointer %s", d, err, want)
		return false
	}
	c.see(fm + " parts by value")
	return true
}

func (c *ctx) jsonParts(i int) {
	s := c.docSec(i)
	c.setInput("%s", s.Dump())
	x := s.ToLib()
	var whole, cd, dd []byte
	var err error
	if !c.op("json.Marshal (parts)", func() {
		if whole, err = json.Marshal(x); err == nil {
			if cd, err = json.Marshal(x.SpliceCommand); err == nil {
				dd, err = json.Marshal(x.SpliceDescriptors)
			}
		}
	}) {
		return
	}
	if err != nil {
		c.fail("json: marshalling a part fails", "%v", err)
		return
	}
	c.distinct(whole)
	var m map[string]json.RawMessage
	if err := json.Unmarshal(whole, &m); err != nil {
		return // C07
	}
	c.see("json parts")
	if !sameJSON(m["spliceCommand"], cd) {
		c.fail("json: command differs from the section's", "%s, in the section %s", cd, m["spliceCommand"])
		return
	}
	if len(s.Descs) > 0 {
		if !sameJSON(m["spliceDescriptors"], dd) {
			c.fail("json: descriptors differ from the section's", "%s, in the section %s", dd, m["spliceDescriptors"])
			return
		}
	}
	if !c.byValue("json", json.Marshal, x.SpliceCommand, cd) {
		return
	}
	st := c.style()
	if c.coin() { // another producer's
		cd = []byte(st.JSON(s.Cmd.doc()))
		var l []string
		for k := range s.Descs {
			l = append(l, st.JSON(s.Descs[k].doc()))
		}
		dd = []byte("[" + strings.Join(l, ",") + "]")
	}
	c.setInput("%s\n%s", cd, dd)
	cmd := c.freshCmd(s)
	sds := scte35.SpliceDescriptors{}
	if c.coin() {
		sds = c.noise().SpliceDescriptors
	}
	if !c.op("json.Unmarshal (command)", func() { err = json.Unmarshal(cd, cmd) }) {
		return
	}
	if err != nil {
		c.fail("json: unmarshalling a command alone", "%v", err)
		return
	}
	if !c.part("json command", s, with(cmd, nil)) {
		return
	}
	if !c.op("json.Unmarshal (descriptors)", func() { err = json.Unmarshal(dd, &sds) }) {
		return
	}
	if err != nil {
		c.fail("json: unmarshalling descriptors alone", "%v", err)
		return
	}
	if sds == nil && len(s.Descs) > 0 || sds != nil && !c.part("json descriptors", s, with(nil, sds)) {
		return
	}
	// each descriptor by itself
	var raws []json.RawMessage
	if json.Unmarshal(dd, &raws) != nil {
		return
	}
	var alone scte35.SpliceDescriptors
	for k := range raws {
		d := freshDesc(&s.Descs[k])
		if !c.op("json.Unmarshal (descriptor)", func() { err = json.Unmarshal(raws[k], d) }) {
			return
		}
		if err != nil {
			c.fail("json: unmarshalling a descriptor alone", "%v", err)
			return
		}
		alone = append(alone, d)
		var one []byte
		if c.op("json.Marshal (descriptor)", func() { one, err = json.Marshal(d) }) && err == nil {
			if !c.byValue("json", json.Marshal, d, one) {
				return
			}
			v, err := parseJSON(one)
			if err != nil {
				c.fail("json: descriptor alone is not a document", "%v", err)
			} else if sig, de := s.Descs[k].doc().matchJSON(v, "$"); sig != "" {
				c.fail("json: descriptor alone "+stripIdx(sig), "%s", de)
			}
		}
	}
	if alone != nil {
		c.part("json descriptor", s, with(nil, alone))
	}
}

func (c *ctx) xmlParts(i int) {
	c.textual = c.coin()
	s := c.docSec(i)
	c.setInput("%s", s.Dump())
	x := s.ToLib()
	var whole, cd, dd []byte
	var err error
	if !c.op("xml.Marshal (parts)", func() {
		if whole, err = xml.Marshal(x); err == nil {
			if cd, err = xml.Marshal(x.SpliceCommand); err == nil {
				dd, err = xml.Marshal(x.SpliceDescriptors)
			}
		}
	}) {
		return
	}
	if err != nil {
		c.fail("xml: marshalling a part fails", "%v", err)
		return
	}
	root, err := parseXML(whole)
	if err != nil {
		return // C08
	}
	c.distinct(whole)
	c.see("xml parts")
	have := map[string][]*xel{}
	for _, k := range root.kids {
		have[k.name.Local] = append(have[k.name.Local], k)
	}
	name := s.Cmd.doc().x
	e, err := parseXML(cd)
	if err != nil || len(have[name]) != 1 || !e.same(have[name][0]) {
		c.fail("xml: command differs from the section's", "%v: %s, section %s", err, cd, whole)
		return
	}
	wrapped, err := parseXML([]byte("<x>" + string(dd) + "</x>"))
	if err != nil || len(wrapped.kids) != len(s.Descs) {
		c.fail("xml: descriptors alone", "%v: %s", err, dd)
		return
	}
	next := map[string]int{}
	for _, k := range wrapped.kids {
		l, n := have[k.name.Local], next[k.name.Local]
		if n >= len(l) || !k.same(l[n]) {
			c.fail("xml: descriptor differs from the section's", "%s, section %s", dd, whole)
			return
		}
		next[k.name.Local]++
	}
	if !c.byValue("xml", xml.Marshal, x.SpliceCommand, cd) {
		return
	}
	for _, d := range x.SpliceDescriptors {
		var one []byte
		if c.op("xml.Marshal (descriptor)", func() { one, err = xml.Marshal(d) }) && err == nil && !c.byValue("xml", xml.Marshal, d, one) {
			return
		}
	}
	if c.coin() {
		st := c.style()
		cd, dd = []byte(st.XML(s.Cmd.doc())), nil
		for k := range s.Descs {
			dd = append(dd, st.xsp()+st.xml(s.Descs[k].doc(), true)...)
		}
	}
	c.setInput("%s\n%s", cd, dd)
	cmd := c.freshCmd(s)
	if !c.op("xml.Unmarshal (command)", func() { err = xml.Unmarshal(cd, cmd) }) {
		return
	}
	if err != nil {
		c.fail("xml: unmarshalling a command alone", "%v", err)
		return
	}
	if !c.part("xml command", s, with(cmd, nil)) {
		return
	}
	// descriptors one by one, into their own type and into a list
	var sds, alone scte35.SpliceDescriptors
	d1, d2 := xml.NewDecoder(c.reader(dd)), xml.NewDecoder(c.reader(dd))
	for k := range s.Descs {
		d := freshDesc(&s.Descs[k])
		if !c.op("xml.Decoder (descriptor)", func() {
			if err = d1.Decode(d); err == nil {
				err = d2.Decode(&sds)
			}
		}) {
			return
		}
		if err != nil {
			c.fail("xml: reading a descriptor alone", "%v", err)
			return
		}
		alone = append(alone, d)
	}
	_ = len(s.Descs) == 0 || c.part("xml descriptor", s, with(nil, alone)) && c.part("xml descriptors", s, with(nil, sds))
}

var libPkg = reflect.TypeOf(SIS{}).PkgPath()

// regrind replaces every part of a value by what its document reads as.
func (c *ctx) regrind(v reflect.Value, asXML bool) bool {
	t := v.Type()
	switch t.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return true
		}
		if t.Kind() == reflect.Interface { // commands and descriptors
			return c.regrind(v.Elem(), asXML)
		}
		return c.regrind(v.Elem(), asXML)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			break
		}
		for i := 0; i < v.Len(); i++ {
			if !c.regrind(v.Index(i), asXML) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if t.PkgPath() != libPkg {
			return true
		}
		if t.Name() == "UTCSpliceTime" {
			break
		}
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).IsExported() && !c.regrind(v.Field(i), asXML) {
				return false
			}
		}
	default:
		return true
	}
	if t.PkgPath() != libPkg || t == reflect.TypeOf(SIS{}) || !v.CanSet() {
		return true
	}
	n := reflect.New(t)
	var d []byte
	var err error
	mar, un, f := json.Marshal, json.Unmarshal, "json "
	if asXML {
		mar, un, f = xml.Marshal, xml.Unmarshal, "xml "
	}
	if !c.op(f+t.Name(), func() {
		if d, err = mar(v.Addr().Interface()); err == nil {
			err = un(d, n.Interface())
		}
	}) {
		return false
	}
	if err != nil {
		c.fail(f+t.Name()+" alone fails", "%v: %s", err, d)
		return false
	}
	c.see(f + "part " + t.Name())
	v.Set(n.Elem())
	return true
}

func (c *ctx) grind(i int, asXML bool) {
	if asXML {
		c.textual = c.coin()
	}
	s := c.docSec(i)
	f := "json"
	if asXML {
		s.edgeFree()
		f = "xml"
	}
	c.setInput("%s", s.Dump())
	c.distinct([]byte(s.Dump()))
	x := s.ToLib()
	c.rezone(x)
	if !c.regrind(reflect.ValueOf(x), asXML) {
		return
	}
	c.equal(f+" parts put together", s, x)
	b, err, ok := c.encode(x)
	if !ok {
		return
	}
	if want := s.Bits(nil); !asXML && (err != nil || !sameEnc(want, b, s.EncFlag)) {
		c.fail(f+" parts put together encode differently", "%v %s", err, byteDiff(want, b))
	}
}

func (c *ctx) bytesText(i int) {
	b := c.bytesN(c.gen.count(300))
	c.setInput("%x", b)
	c.distinct(b)
	v := scte35.Bytes(append([]byte{}, b...))
	var txt []byte
	var err error
	if !c.op("Bytes.MarshalText", func() { txt, err = v.MarshalText() }) {
		return
	}
	if err != nil || string(txt) != hex.EncodeToString(b) || !bytes.Equal(v, b) {
		c.fail("Bytes: text", "%q (%v)", txt, err)
		return
	}
	// any case comes back
	in := []byte(string(txt))
	for k := range in {
		if c.coin() {
			in[k] = bytes.ToUpper(in[k : k+1])[0]
		}
	}
	keep := string(in)
	w := scte35.Bytes{1, 2, 3}
	if !c.op("Bytes.UnmarshalText", func() { err = w.UnmarshalText(in) }) {
		return
	}
	if err != nil || !bytes.Equal(w, b) || string(in) != keep {
		c.fail("Bytes: read back", "%x from %q (%v)", []byte(w), keep, err)
		return
	}
	// the value does not live in the text
	for k := range in {
		in[k] = '9'
	}
	if !bytes.Equal(w, b) {
		c.fail("Bytes: shares the text", "%x", []byte(w))
	}
	// malformed text is refused and leaves the value
	bad := []byte(keep)
	switch c.Intn(4) {
	case 0:
		bad = append(bad, 'a')
	case 1:
		bad = append(bad, ' ')
	case 2:
		bad = append(bad, 'g', '0')
	case 3:
		bad = append([]byte("0x"), bad...)
	}
	if len(bad) > 2 && c.coin() {
		bad[c.Intn(len(bad))] = "gG/:@`\x00\x80\xff ~"[c.Intn(11)]
	}
	if _, e := hex.DecodeString(string(bad)); e == nil {
		return
	}
	c.see("malformed hex text")
	w = append(scte35.Bytes{}, b...)
	if c.op("Bytes.UnmarshalText", func() { err = w.UnmarshalText(bad) }) && (err == nil || !bytes.Equal(w, b)) {
		c.fail("Bytes: malformed text", "%q gives %x (%v)", bad, []byte(w), err)
	}
}

func init() {
	register(&check{
		id:     "C22",
		rule:   "one to six sections put into structs (pointer, value, nil), lists, maps and interfaces and into streams, next to other content, written and read with the json and xml packages, also as other producers write them and through readers which deliver a byte at a time; every command, descriptor, nested struct, Bytes and time by itself; distinct by document",
		assume: []string{"UPID text for XML consists of characters XML has; white space at its ends is not compared"},
		need: append([]string{"json nested", "json stream", "json parts", "xml nested", "xml nested, other producer", "xml stream", "xml parts", "malformed hex text",
			"json values which have no address", "json parts by value", "xml parts by value",
			"json part SpliceTime", "json part EventComponent", "json part DeliveryRestrictions", "json part SegmentationUPID", "json part AudioChannel", "json part UTCSpliceTime", "json part Bytes", "json part BreakDuration", "json part EncryptedPacket",
			"xml part SpliceTime", "xml part EventComponent", "xml part DeliveryRestrictions", "xml part SegmentationUPID", "xml part AudioChannel", "xml part UTCSpliceTime", "xml part Bytes", "xml part BreakDuration", "xml part EncryptedPacket"}, allForms...),
		families: []family{
			{name: "jsonbox", quick: 5000, thorough: 150000, fn: func(c *ctx, i int) { c.jsonBoxes(i) }},
			{name: "jsonstream", quick: 6000, thorough: 150000, fn: func(c *ctx, i int) { c.jsonStream(i) }},
			{name: "jsonparts", quick: 12000, thorough: 300000, fn: func(c *ctx, i int) { c.jsonParts(i) }},
			{name: "jsongrind", quick: 10000, thorough: 300000, fn: func(c *ctx, i int) { c.grind(i, false) }},
			{name: "xmlbox", quick: 4000, thorough: 120000, fn: func(c *ctx, i int) { c.xmlBoxes(i) }},
			{name: "xmlstream", quick: 5000, thorough: 120000, fn: func(c *ctx, i int) { c.xmlStream(i) }},
			{name: "xmlparts", quick: 10000, thorough: 250000, fn: func(c *ctx, i int) { c.xmlParts(i) }},
			{name: "xmlgrind", quick: 8000, thorough: 250000, fn: func(c *ctx, i int) { c.grind(i, true) }},
			{name: "bytes", quick: 20000, thorough: 400000, fn: func(c *ctx, i int) { c.bytesText(i) }},
		},
	})
}
