package mon

// C23: documents which state what a section cannot hold.

import (
	"encoding/json"
	"encoding/xml"
	"fmt"
	"reflect"
	"strings"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// wide are the members of 64 bits.
var wide = map[string]bool{"ptsTime": true, "ptsAdjustment": true, "duration": true, "ptsOffset": true,
	"segmentationDuration": true, "taiSeconds": true}

// fault is one place of a document with the values it cannot have.
type fault struct {
	name string
	kind string
	set  func(i int) (what string)
	n    int
}

// badJSON are JSON values a member cannot have.
func (c *ctx) badJSON(f *fld) (kind string, l []string) {
	switch f.v.(type) {
	case uint64:
		max := "4294967296"
		if wide[f.j] {
			max = "18446744073709551616"
		}
		return "number", []string{"-1", "1.5", max, `"5"`, "true", "{}", "[]", "1e30", "-9223372036854775808", `""`, "[5]", "0.25",
			`"0x10"`, "99999999999999999999999999"}
	case bool:
		return "flag", []string{"0", "1", `"true"`, "{}", "[]", `"yes"`, `""`, "[true]"}
	case string:
		return "text", []string{"5", "true", "{}", "[]", "[\"a\"]", "-1.5"}
	case hexVal:
		return "hex", []string{`"0"`, `"zz"`, `"0x00"`, `"00 11"`, "5", "true", "{}", "[1]", `"00g0"`, `"ff "`, `"\n"`, `"000"`, `"é0"`}
	case timeVal:
		return "time", []string{`"yesterday"`, `""`, `"2020-13-01T00:00:00Z"`, `"2020-01-01"`, `"2020-01-01T00:00:00"`, "5", "true", "{}",
			`"2021-02-29T00:00:00Z"`, `"2020-01-01T25:00:00Z"`, `"1262304000"`, "[]"}
	}
	return "", nil
}

func (c *ctx) badXML(f *fld) (kind string, l []string) {
	switch f.v.(type) {
	case uint64:
		max := "4294967296"
		if wide[f.j] {
			max = "18446744073709551616"
		}
		return "number", []string{"-1", "1.5", max, "abc", "0x10", "1 2", "true", "1,000", "99999999999999999999999999", "5s"}
	case bool:
		return "flag", []string{"yes", "2", "-1", "on", "truee", "00"}
	case hexVal:
		return "hex", []string{"0", "zz", "0x00", "00 11", "00g0", "000"}
	case timeVal:
		return "time", []string{"yesterday", "2020-13-01T00:00:00Z", "2020-01-01", "2021-02-29T00:00:00Z", "2020-01-01T25:00:00Z", "1262304000"}
	}
	return "", nil
}

// faults lists every place of a document.
func (c *ctx) faults(n *node, path string, asXML bool) (l []fault) {
	for i := range n.flds {
		f := &n.flds[i]
		if asXML && f.x == "" || !asXML && f.j == "" {
			continue
		}
		bad := c.badJSON
		if asXML {
			bad = c.badXML
		}
		kind, vs := bad(f)
		if len(vs) == 0 {
			continue
		}
		name := path + "." + f.j
		l = append(l, fault{name, kind, func(i int) string {
			f.v, f.must = rawVal{vs[i], vs[i]}, true
			return vs[i]
		}, len(vs)})
	}
	for i := range n.kids {
		k := &n.kids[i]
		name := path + "." + k.j
		if !asXML {
			vs := []string{"5", `"x"`, "true", "[]", "[{}]", "-1.5"}
			if k.list {
				vs = []string{"5", `"x"`, "true", "{}", `{"0":{}}`, "1.5"}
			}
			l = append(l, fault{name, "shape", func(i int) string {
				k.raw = vs[i]
				return vs[i]
			}, len(vs)})
		}
		for _, e := range k.els {
			if !asXML && k.list {
				vs := []string{"5", `"x"`, "true", "[]", "[{}]"}
				if k.j == "spliceDescriptors" {
					vs = append(vs, "null")
				}
				l = append(l, fault{name + "[]", "shape", func(i int) string {
					e.raw = vs[i]
					return vs[i]
				}, len(vs)})
			}
			l = append(l, c.faults(e, name, asXML)...)
		}
	}
	return l
}

// refusedDoc reads a document into a used section.
func (c *ctx) refusedDoc(what, doc string, asXML bool) bool {
	f := "json"
	un := func(v any) error { return json.Unmarshal([]byte(doc), v) }
	if asXML {
		f = "xml"
		un = func(v any) error { return xml.Unmarshal([]byte(doc), v) }
	}
	switch c.Intn(4) {
	case 0:
		if asXML {
			un = func(v any) error { return xml.NewDecoder(c.reader([]byte(doc))).Decode(v) }
		} else {
			un = func(v any) error { return json.NewDecoder(c.reader([]byte(doc))).Decode(v) }
		}
	}
	x := c.noise()
	before := snapshot(x)
	enc, _ := x.Encode()
	var err error
	if !c.op(f+".Unmarshal", func() { err = un(x) }) {
		return false
	}
	if err == nil {
		c.fail(f+": accepted "+what, "the document is accepted; the section is then\n%s", FromLib(x).Dump())
		return false
	}
	if after := snapshot(x); after != before {
		_, d := firstDiff(before, after)
		c.fail(f+": refused, but the section changed: "+what, "%v: %s", err, d)
		return false
	}
	if e, _ := x.Encode(); string(e) != string(enc) {
		c.fail(f+": refused, but the section's encoding changed", "%x, was %x", e, enc)
		return false
	}
	return true
}

func (c *ctx) c23(i int, asXML bool) {
	s := c.docSec(i)
	if asXML {
		c.textual = true
		s.xmlText()
	}
	st := c.style()
	n := s.docOf()
	fs := c.faults(n, "", asXML)
	// every kind of place gets its turn
	f := fs[c.Intn(len(fs))]
	if i%3 > 0 {
		by := map[string][]fault{}
		for _, f := range fs {
			by[stripIdx(f.name)] = append(by[stripIdx(f.name)], f)
		}
		ks := sortedKeys(by)
		l := by[ks[c.Intn(len(ks))]]
		f = l[c.Intn(len(l))]
	}
	if c.p(0.2) {
		st.foreign = true
		c.see("extensions of the producer's")
	}
	if s.Cmd.Kind == cmdPrivate && !asXML && c.coin() {
		// a command of a type not assigned is a private command, too
		for _, k := range n.kids {
			if k.j == "spliceCommand" && len(k.els) == 1 {
				for j := range k.els[0].flds {
					if m := &k.els[0].flds[j]; m.j == "type" {
						m.v = uint64([]int{1, 2, 3, 8, 100, 254, 256, 1 << 20}[c.Intn(8)])
						c.see("command of a type not assigned")
					}
				}
			}
		}
	}
	v := f.set(c.Intn(f.n))
	for c.p(0.1) { // and others
		o := fs[c.Intn(len(fs))]
		if o.kind != "shape" && f.kind != "shape" {
			o.set(c.Intn(o.n))
		}
	}
	name := strings.TrimPrefix(f.name, ".")
	fm := "json"
	var doc string
	if asXML {
		fm = "xml"
		doc = st.XML(n)
	} else {
		doc = st.JSON(n)
	}
	c.setInput("%s", doc)
	c.distinct([]byte(doc))
	c.see(fm + " " + f.kind)
	c.see(fm + " at " + name)
	if !c.refusedDoc(fmt.Sprintf("%s %s", name, v), doc, asXML) {
		return
	}
	if c.Intn(400) == 0 {
		c.sampleCase("refused; section as before")
	}
	// next to others
	if c.Intn(4) == 0 {
		var err error
		good := c.sec().canon().xmlText()
		if asXML {
			var v struct {
				S []*SIS `xml:"http://www.scte.org/schemas/35 SpliceInfoSection"`
			}
			st.prefix = "s"
			d := "<x>" + st.xml(good.docOf(), true) + st.xml(n, true) + "</x>"
			c.setInput("%s", d)
			if c.op("xml.Unmarshal", func() { err = xml.Unmarshal([]byte(d), &v) }) && err == nil {
				c.fail("xml: accepted next to others", "%s %v", name, v)
			}
		} else {
			var v []*SIS
			d := "[" + st.JSON(good.docOf()) + "," + st.JSON(n) + "," + st.JSON(good.docOf()) + "]"
			c.setInput("%s", d)
			if c.op("json.Unmarshal", func() { err = json.Unmarshal([]byte(d), &v) }) && err == nil {
				c.fail("json: accepted next to others", "%s %v", name, v)
			}
		}
	}
}

// c23part: commands and descriptors by themselves.
func (c *ctx) c23part(i int, asXML bool) {
	s := c.docSec(i)
	if asXML {
		c.textual = true
		s.xmlText()
	}
	st := c.style()
	var n *node
	var v any
	if len(s.Descs) > 0 && c.coin() {
		k := c.Intn(len(s.Descs))
		n, v = s.Descs[k].doc(), freshDesc(&s.Descs[k])
	} else {
		n, v = s.Cmd.doc(), c.freshCmd(s)
	}
	fs := c.faults(n, "", asXML)
	if len(fs) == 0 {
		return
	}
	f := fs[c.Intn(len(fs))]
	val := f.set(c.Intn(f.n))
	doc, fm := st.JSON(n), "json"
	un := json.Unmarshal
	if asXML {
		doc, fm = st.XML(n), "xml"
		un = xml.Unmarshal
	}
	c.setInput("%s", doc)
	c.distinct([]byte(doc))
	c.see(fm + " part")
	var err error
	if c.op(fm+".Unmarshal (part)", func() { err = un([]byte(doc), v) }) && err == nil {
		c.fail(fm+": part accepted "+reflect.TypeOf(v).Elem().Name()+f.name+" "+val, "accepted as\n%s", snapshot(v))
	}
	if d, ok := v.(scte35.SpliceDescriptor); ok && !asXML {
		_ = d
		sds := c.noise().SpliceDescriptors
		before := snapshot(sds)
		if c.op("json.Unmarshal (descriptors)", func() { err = json.Unmarshal([]byte("["+doc+"]"), &sds) }) {
			if err == nil {
				c.fail("json: descriptors accepted "+f.name+" "+val, "accepted as\n%s", snapshot(sds))
			} else if a := snapshot(sds); a != before {
				_, d := firstDiff(before, a)
				c.fail("json: refused, but the descriptors changed", "%s", d)
			}
		}
	}
}

// c23cut: documents which end early or go on after the end.
func (c *ctx) c23cut(i int, asXML bool) {
	s := c.docSec(i)
	if asXML {
		c.textual = true
		s.xmlText()
	}
	st := c.style()
	n := s.docOf()
	doc := st.JSON(n)
	end := strings.LastIndexByte(doc, '}')
	if asXML {
		doc = st.XML(n)
		end = strings.LastIndexByte(doc, '>')
	}
	what := "cut"
	switch k := c.Intn(10); {
	case k == 0 && !asXML:
		doc += []string{"}", "x", ",", "{}", "]", "\x00", "null"}[c.Intn(7)]
		what = "more after the end"
	case k == 1 && !asXML:
		doc = []string{"5", `"x"`, "true", "[]", "[{}]", "", " ", "{", "nul", "-", `"`, "[" + doc + "]", `{"tier":}`, `{"tier":1,}`, `{tier:1}`, "{'tier':1}"}[c.Intn(16)]
		what = "not an object"
	case k == 1:
		doc = []string{"", " ", "x", "<", "<SpliceInfoSection", "<SpliceInfoSection>", "</SpliceInfoSection>", "<?xml version=\"1.0\"?>", "<!-- -->"}[c.Intn(9)]
		what = "no element"
	case k == 2 && asXML:
		i := strings.LastIndex(doc, "</")
		if i < 0 {
			return
		}
		doc = doc[:i] + "</Other>"
		what = "wrong end"
	default:
		doc = doc[:c.Intn(end+1)]
	}
	c.setInput("%s", doc)
	c.distinct([]byte(doc))
	fm := "json "
	if asXML {
		fm = "xml "
	}
	if what == "more after the end" {
		// a decoder would leave the rest for the next call
		x := c.noise()
		before := snapshot(x)
		var err error
		if c.op("json.Unmarshal", func() { err = json.Unmarshal([]byte(doc), x) }) && (err == nil || snapshot(x) != before) {
			c.fail("json: more after the end", "%v", err)
		}
		c.see(fm + what)
		return
	}
	c.see(fm + what)
	c.refusedDoc(what, doc, asXML)
}

func init() {
	need := []string{"json part", "xml part", "json cut", "json more after the end", "json not an object", "xml cut", "xml no element", "xml wrong end"}
	for _, f := range []string{"json", "xml"} {
		for _, k := range []string{"number", "flag", "hex", "time"} {
			need = append(need, f+" "+k)
		}
	}
	need = append(need, "extensions of the producer's", "command of a type not assigned", "json text", "json shape", "json at spliceCommand", "json at spliceCommand.type", "json at spliceDescriptors",
		"json at spliceDescriptors[]", "json at spliceDescriptors.type", "json at spliceCommand.program.spliceTime.ptsTime",
		"json at spliceCommand.events.components.utcSpliceTime", "json at spliceDescriptors.segmentationUpids.value",
		"json at spliceDescriptors.deliveryRestrictions.deviceRestrictions", "xml at spliceCommand.events.components.utcSpliceTime",
		"xml at spliceDescriptors.segmentationUpids.segmentationUpidType", "xml at spliceDescriptors.audioChannels.numChannels", "xml at tier", "json at tier")
	register(&check{
		id:     "C23",
		rule:   "documents as other producers write them in which one place (any member, attribute or nested value, at any depth; sometimes several) states a value its member cannot have: negative, fractional or beyond the member's type, text for a number or the reverse, wrong shape, malformed hexadecimal digits or times; documents cut short; read into a used section, a list and, for commands and descriptors, by themselves; distinct by document",
		assume: []string{"null, missing and unknown members, other spellings of a whole number (5.0, 5e0) and empty XML attributes are not judged", "values beyond the width of their wire field are accepted by documents and refused by the encoder (C19)"},
		need:   need,
		families: []family{
			{name: "json", quick: 40000, thorough: 1500000, fn: func(c *ctx, i int) { c.c23(i, false) }},
			{name: "xml", quick: 30000, thorough: 1200000, fn: func(c *ctx, i int) { c.c23(i, true) }},
			{name: "jsonpart", quick: 10000, thorough: 300000, fn: func(c *ctx, i int) { c.c23part(i, false) }},
			{name: "xmlpart", quick: 10000, thorough: 300000, fn: func(c *ctx, i int) { c.c23part(i, true) }},
			{name: "jsoncut", quick: 8000, thorough: 300000, fn: func(c *ctx, i int) { c.c23cut(i, false) }},
			{name: "xmlcut", quick: 8000, thorough: 300000, fn: func(c *ctx, i int) { c.c23cut(i, true) }},
		},
	})
}
