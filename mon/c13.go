package mon

// C13: operations have no hidden effects. A history machine runs sequences of
// operations on a pool of sections and watches every section, every result
// and every input buffer.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"reflect"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// readOps are the operations which only read a section.
var readOps = []struct {
	name string
	f    func(x *SIS) []byte
}{
	{"Encode", func(x *SIS) []byte {
		b, err := x.Encode()
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return b
	}},
	{"Base64", func(x *SIS) []byte { return []byte(x.Base64()) }},
	{"Hex", func(x *SIS) []byte { return []byte(x.Hex()) }},
	{"Table", func(x *SIS) []byte { return []byte(x.Table("", "\t")) }},
	{"Table prefixed", func(x *SIS) []byte { return []byte(x.Table("> ", "  ")) }},
	{"json.Marshal", func(x *SIS) []byte {
		b, err := json.Marshal(x)
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return b
	}},
	{"json.MarshalIndent", func(x *SIS) []byte {
		b, err := json.MarshalIndent(x, "", " ")
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return b
	}},
	{"MarshalJSON", func(x *SIS) []byte {
		b, err := x.MarshalJSON()
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return b
	}},
	{"xml.Marshal", func(x *SIS) []byte {
		b, err := xml.Marshal(x)
		if err != nil {
			return []byte("error: " + err.Error())
		}
		return b
	}},
	{"Duration", func(x *SIS) []byte { return []byte(x.Duration().String()) }},
	{"parts json", func(x *SIS) []byte {
		a, _ := json.Marshal(x.SpliceCommand)
		b, _ := json.Marshal(x.SpliceDescriptors)
		d, _ := json.Marshal(x.EncryptedPacket)
		return append(append(a, b...), d...)
	}},
	{"parts xml", func(x *SIS) []byte {
		var out []byte
		if x.SpliceCommand != nil {
			a, _ := xml.Marshal(x.SpliceCommand)
			out = append(out, a...)
		}
		for _, d := range x.SpliceDescriptors {
			a, _ := xml.Marshal(d)
			out = append(out, a...)
		}
		return out
	}},
	{"accessors", func(x *SIS) []byte { return []byte(accessors(x)) }},
}

// widen gives about every third number below v any value of its type.
func (c *ctx) widen(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if !v.IsNil() {
			c.widen(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "XMLName" && f.Name != "JSONType" && v.Type() != reflect.TypeOf(time.Time{}) {
				c.widen(v.Field(i))
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				c.widen(v.Index(i))
			}
		}
	case reflect.Uint32, reflect.Uint64:
		if v.CanSet() && c.Intn(3) == 0 {
			v.SetUint(c.Uint64() >> uint(c.Intn(20)))
		}
	}
}

// c13bytes reads Bytes into a value used before.
func (c *ctx) c13bytes(i int) {
	b := c.bytesN(c.gen.count(40))
	b2 := c.bytesN(c.gen.count(40))
	c.setInput("Bytes %x, then %x", b, b2)
	var w scte35.Bytes
	var err error
	if !c.op("Bytes.UnmarshalText", func() { err = w.UnmarshalText([]byte(hex.EncodeToString(b))) }) {
		return
	}
	first := w
	var err2 error
	if !c.op("Bytes.UnmarshalText", func() { err2 = w.UnmarshalText([]byte(hex.EncodeToString(b2))) }) {
		return
	}
	c.distinct(append(b, b2...))
	if err != nil || err2 != nil || !bytes.Equal(w, b2) || !bytes.Equal(first, b) {
		c.fail("Bytes: read again", "%x (%v), then %x (%v); the first are now %x", b, err, []byte(w), err2, []byte(first))
	}
	c.see("Bytes read again")
}

// accessors writes out the results of all derived accessors.
func accessors(x *SIS) string {
	var sb strings.Builder
	p := func(v ...any) { fmt.Fprintln(&sb, v...) }
	p(x.SAPTypeName(), x.EncryptedPacketFlag())
	if x.SpliceCommand != nil {
		p(x.SpliceCommand.Type())
	}
	switch v := x.SpliceCommand.(type) {
	case *scte35.SpliceInsert:
		p(v.DurationFlag(), v.ProgramSpliceFlag(), v.TimeSpecifiedFlag())
		for i := range v.Components {
			p(v.Components[i].TimeSpecifiedFlag())
		}
	case *scte35.SpliceSchedule:
		for i := range v.Events {
			p(v.Events[i].DurationFlag(), v.Events[i].ProgramSpliceFlag())
		}
	case *scte35.PrivateCommand:
		p(v.IdentifierString())
	}
	for _, d := range x.SpliceDescriptors {
		p(d.Tag())
		switch v := d.(type) {
		case *scte35.SegmentationDescriptor:
			p(v.Name(), v.SegmentationUpidLength(), v.ProgramSegmentationFlag(), v.SegmentationDurationFlag(), v.DeliveryNotRestrictedFlag())
			for i := range v.SegmentationUPIDs {
				p(v.SegmentationUPIDs[i].Name(), v.SegmentationUPIDs[i].ASCIIValue())
			}
		case *scte35.PrivateDescriptor:
			p(v.IdentifierString())
		}
	}
	return sb.String()
}

// obj is a section of the pool with what was observed of it.
type obj struct {
	x    *SIS
	snap string
	res  map[int][]byte // first result of each operation
	how  string
}

// kept is a result or buffer which must not change any more.
type kept struct {
	b    []byte
	copy []byte
	how  string
}

// watchGlobals runs a case and then looks whether any state of the process
// changed which the library can reach.
func watchGlobals(f func(*ctx, int)) func(*ctx, int) {
	type state struct {
		logger *log.Logger
		prefix string
		flags  int
		w      io.Writer
		local  *time.Location
		errs   [4]error
	}
	now := func() state {
		l := scte35.Logger
		s := state{logger: l, local: time.Local, errs: [4]error{scte35.ErrBufferOverflow, scte35.ErrBufferUnderflow, scte35.ErrUnsupportedEncoding, scte35.ErrCRC32Invalid}}
		if l != nil {
			s.prefix, s.flags, s.w = l.Prefix(), l.Flags(), l.Writer()
		}
		return s
	}
	return func(c *ctx, i int) {
		was := now()
		f(c, i)
		if is := now(); is != was {
			c.fail("process state changed", "the logger, the local time zone or an exported error changed from %+v to %+v", was, is)
		}
		c.see("process state unchanged")
	}
}

// makeHows is the number of ways makeObj knows.
const makeHows = 7

// makeObj makes a section in any of the ways there are.
func (c *ctx) makeObj(s *Sec, how int) (*obj, []kept) {
	x := &SIS{}
	var err error
	var ks []kept
	switch how {
	case 0:
		how := "API"
		switch c.Intn(4) {
		case 0:
			s = s.clone()
			s.hidden(c.gen, c.Intn(4))
			x = s.ToLib()
			c.see("fields left out")
		case 1: // anything the types can hold
			x = cloneLib(s.ToLib())
			for k := 1 + c.Intn(4); k > 0; k-- {
				c.wildEdit(reflect.ValueOf(x).Elem())
			}
			if c.coin() { // many numbers as wide as their types
				c.widen(reflect.ValueOf(x).Elem())
			}
			how = "API, any values"
		default:
			if s = s.clone(); c.coin() {
				c.dropFormats(s)
			}
			x = s.ToLib()
		}
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: how}, nil
	case 1:
		b := s.Bits(nil)
		ks = c.guarded(b)
		if !c.op("Decode", func() { err = x.Decode(ks[0].b[8 : 8+len(b)]) }) {
			return nil, nil
		}
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: "Decode"}, ks
	case 2:
		b, _ := json.Marshal(s.ToLib())
		ks = c.guarded(b)
		if !c.op("json.Unmarshal", func() { err = json.Unmarshal(ks[0].b[8:8+len(b)], x) }) || err != nil {
			return nil, nil
		}
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: "JSON"}, ks
	case 3:
		b, e := xml.Marshal(s.ToLib())
		if e != nil {
			return nil, nil
		}
		ks = c.guarded(b)
		if !c.op("xml.Unmarshal", func() { err = xml.Unmarshal(ks[0].b[8:8+len(b)], x) }) || err != nil {
			return nil, nil
		}
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: "XML"}, ks
	case 4, 5: // a document of another producer
		st := c.style()
		st.foreign = c.p(0.3)
		t := []byte(st.JSON(s.docOf()))
		un := json.Unmarshal
		h := "JSON"
		if how == 5 {
			s = s.clone().xmlText()
			t = []byte(st.XML(s.docOf()))
			un, h = xml.Unmarshal, "XML"
		}
		ks = c.guarded(t)
		if !c.op("Unmarshal", func() { err = un(ks[0].b[8:8+len(t)], x) }) || err != nil {
			return nil, nil
		}
		c.see(h + " of another producer")
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: h}, ks
	default: // a signal which fails to decode
		r := c.rawOf(s, c.wire())
		r.breakUp(c.gen)
		b := r.bytes(c.gen)
		ks = c.guarded(b)
		if !c.op("Decode", func() { err = x.Decode(ks[0].b[8 : 8+len(b)]) }) {
			return nil, nil
		}
		return &obj{x: x, snap: snapshot(x), res: map[int][]byte{}, how: "Decode of a damaged signal"}, ks
	}
}

// guarded puts bytes into a larger buffer, with room behind for appends which
// should not happen.
func (c *ctx) guarded(b []byte) []kept {
	buf := bytes.Repeat([]byte{0xA5}, len(b)+24)
	copy(buf[8:], b)
	return []kept{{buf, append([]byte{}, buf...), "input buffer"}}
}

func (c *ctx) c13history(i int) {
	var pool []*obj
	var keep []kept
	var trace []string
	check := func(o *obj, op string) bool {
		if s := snapshot(o.x); s != o.snap {
			sig, d := diff(o.snap, s)
			c.fail("mutated: "+fieldOf(sig)+" by "+op, "section from %s changed by %s: %s; history %s", o.how, op, d, strings.Join(trace, ", "))
			o.snap = s
			return false
		}
		return true
	}
	add := func() {
		s := c.sec()
		if len(s.Descs) > 6 {
			s.Descs = s.Descs[:6]
		}
		s.features(c)
		how := c.Intn(makeHows)
		if how == 3 {
			s.xmlText()
		}
		o, ks := c.makeObj(s, how)
		if o == nil {
			return
		}
		trace = append(trace, fmt.Sprintf("new #%d %s", len(pool), o.how))
		pool = append(pool, o)
		keep = append(keep, ks...)
		c.see("section from " + o.how)
		c.distinct([]byte(o.snap))
		c.setInput("%s\n%s", c.input, o.snap)
	}
	add()
	add()
	for n := 20 + c.Intn(30); n > 0 && len(pool) > 0; n-- {
		if c.Intn(9) == 0 {
			add()
		}
		k := c.Intn(len(pool))
		o := pool[k]
		q := c.Intn(len(readOps))
		op := readOps[q]
		trace = append(trace, fmt.Sprintf("%s #%d", op.name, k))
		var r []byte
		if !c.op(op.name, func() { r = op.f(o.x) }) {
			return
		}
		c.see("step " + op.name)
		if first, ok := o.res[q]; !ok {
			o.res[q] = append([]byte{}, r...)
			// the same section made afresh gives the same
			if (strings.HasPrefix(o.how, "API") || o.how == "JSON" || o.how == "XML") && c.coin() {
				var r2 []byte
				z := cloneLib(o.x)
				if c.op(op.name, func() { r2 = op.f(z) }) && !bytes.Equal(r, r2) {
					c.fail("depends on history: "+op.name, "%q, an equal new section gives %q; history %s", cut(r), cut(r2), strings.Join(trace, ", "))
				}
			}
		} else if !bytes.Equal(first, r) {
			c.fail("not deterministic: "+op.name, "%q before, now %q; section from %s; history %s", cut(first), cut(r), o.how, strings.Join(trace, ", "))
			o.res[q] = append([]byte{}, r...)
		}
		for _, p := range pool { // every section, also the others
			check(p, op.name)
		}
		if len(keep) > 40 {
			keep = keep[1:]
		}
		keep = append(keep, kept{r, append([]byte{}, r...), "result of " + op.name})
		for m := range keep {
			if !bytes.Equal(keep[m].b, keep[m].copy) {
				c.fail("changed later: "+keep[m].how+" by "+op.name, "%x was %x; history %s", cut(keep[m].b), cut(keep[m].copy), strings.Join(trace, ", "))
				keep[m].copy = append([]byte{}, keep[m].b...)
			}
		}
		if c.Intn(6) == 0 { // the caller does as it likes with what it was given
			m := c.Intn(len(keep))
			for z := range keep[m].b {
				keep[m].b[z] ^= 0x5A
			}
			trace = append(trace, "scribble over "+keep[m].how)
			keep[m].copy = append([]byte{}, keep[m].b...)
			c.see("scribbled over " + strings.SplitN(keep[m].how, " ", 2)[0])
			for _, p := range pool {
				check(p, "writing to the "+keep[m].how)
			}
		}
	}
	if c.Intn(200) == 0 {
		c.sampleCase("no section, result or buffer changed: " + strings.Join(trace, ", "))
	}
}

func cut(b []byte) []byte {
	if len(b) > 1500 {
		return b[:1500]
	}
	return b
}

// fieldOf is the field in a snapshot path.
func fieldOf(p string) string { return strings.TrimPrefix(p, ".") }

// c13reuse decodes or unmarshals into a section with a past.
func (c *ctx) c13reuse(i int) {
	x := &SIS{}
	var past []string
	fill := func(dst *SIS, how int, s *Sec, damaged []byte) (err error, ok bool) {
		switch how {
		case 0:
			b := s.Bits(nil)
			ok = c.op("Decode", func() { err = dst.Decode(b) })
		case 1:
			b, _ := json.Marshal(s.ToLib())
			ok = c.op("json.Unmarshal", func() { err = json.Unmarshal(b, dst) })
		case 2:
			b, _ := xml.Marshal(s.ToLib())
			ok = c.op("xml.Unmarshal", func() { err = xml.Unmarshal(b, dst) })
		case 3:
			ok = c.op("Decode", func() { err = dst.Decode(damaged) })
		case 4: // a document of another producer
			st := c.style()
			st.prefix = ""
			doc := st.JSON(s.docOf())
			ok = c.op("json.Unmarshal", func() { err = json.Unmarshal([]byte(doc), dst) })
		case 5: // a short document: everything else is at its default
			doc := []string{`{}`, `{"tier":5}`, `{"spliceCommand":{"type":0}}`, `{"spliceCommand":{"type":6,"spliceTime":{}}}`, `{"spliceDescriptors":[]}`, `{"encryptedPacket":{"cwIndex":3}}`}[s.Tier%6]
			ok = c.op("json.Unmarshal", func() { err = json.Unmarshal([]byte(doc), dst) })
		case 6:
			doc := `<SpliceInfoSection xmlns="` + scteNS + `"` + []string{``, ` tier="5"`, ` ptsAdjustment="1"`}[s.Tier%3] + `>` + []string{``, `<SpliceNull/>`, `<TimeSignal/>`, `<SpliceInsert spliceEventId="1"/>`}[s.CW%4] + `</SpliceInfoSection>`
			ok = c.op("xml.Unmarshal", func() { err = xml.Unmarshal([]byte(doc), dst) })
		}
		return
	}
	names := []string{"Decode", "json", "xml", "damaged", "json of another producer", "short json", "short xml"}
	var olds []obj
	for n := 2 + c.Intn(4); n > 0; n-- {
		s := c.sec()
		if len(s.Descs) > 6 {
			s.Descs = s.Descs[:6]
		}
		s.features(c)
		if c.coin() {
			s.PreRoll = c.n32(32)
		}
		s.xmlText()
		how := c.Intn(7)
		r := c.rawOf(s, c.wire())
		r.breakUp(c.gen)
		damaged := r.bytes(c.gen)
		y := &SIS{}
		c.setInput("past %s; %s %s damaged %s", strings.Join(past, ", "), names[how], s.Dump(), hx(damaged))
		seed := c.Int63()
		c.gen.Seed(seed)
		e1, ok := fill(y, how, s, damaged)
		if !ok {
			return
		}
		// parts handed out earlier stay as they were
		if x.SpliceCommand != nil {
			olds = append(olds, obj{snap: snapshot(x.SpliceCommand), x: &SIS{SpliceCommand: x.SpliceCommand}, how: "command"})
		}
		if len(x.SpliceDescriptors) > 0 {
			olds = append(olds, obj{snap: snapshot(x.SpliceDescriptors), x: &SIS{SpliceDescriptors: x.SpliceDescriptors}, how: "descriptors"})
		}
		c.gen.Seed(seed)
		e2, ok := fill(x, how, s, damaged)
		if !ok {
			return
		}
		past = append(past, names[how])
		if fmt.Sprint(e1) != fmt.Sprint(e2) {
			c.fail("reuse: error of "+names[how], "fresh: %v, reused: %v", e1, e2)
			return
		}
		if e1 != nil && how != 3 {
			x = &SIS{} // a failing unmarshal leaves the target unspecified
			continue
		}
		c.see("reuse " + names[how])
		a, b := snapshot(y), snapshot(x)
		c.distinct([]byte(a))
		if a != b {
			sig, d := diff(a, b)
			c.fail("carried over: "+fieldOf(sig)+" by "+names[how], "fresh and reused section differ: %s; past %s", d, strings.Join(past, ", "))
			return
		}
		for _, op := range readOps {
			var r1, r2 []byte
			if !c.op(op.name, func() { r1, r2 = op.f(y), op.f(x) }) {
				return
			}
			if !bytes.Equal(r1, r2) {
				c.fail("carried over: "+op.name+" after "+names[how], "fresh %q, reused %q; past %s", cut(r1), cut(r2), strings.Join(past, ", "))
				return
			}
		}
		for _, o := range olds {
			now := snapshot(o.x.SpliceCommand)
			if o.how == "descriptors" {
				now = snapshot(o.x.SpliceDescriptors)
			}
			if now != o.snap {
				sig, d := diff(o.snap, now)
				c.fail("earlier "+o.how+" changed: "+fieldOf(sig), "by %s into the same section: %s", names[how], d)
				return
			}
		}
	}
}

// cloneLib copies the exported fields of a section into a new one.
func cloneLib(x *SIS) *SIS { return copyExported(reflect.ValueOf(x)).Interface().(*SIS) }

func copyExported(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(copyExported(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(copyExported(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		if _, ok := v.Interface().(time.Time); ok {
			n.Set(v)
			return n
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(copyExported(v.Field(i)))
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(copyExported(v.Elem()))
		return n
	}
	return v
}

// scramble changes every exported value reachable from a section in place.
func (c *ctx) scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			c.scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			c.scramble(v.Index(i))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			if v.CanSet() {
				v.Set(reflect.ValueOf(t.Add(time.Hour)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "XMLName" {
				c.scramble(v.Field(i))
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 1)
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString(v.String() + "~")
		}
	}
}

// c13shared: sections read from the same input do not share anything.
func (c *ctx) c13shared(i int) {
	s := c.sec()
	s.features(c)
	s.xmlText()
	b := s.Bits(nil)
	kind := i % 6
	name := []string{"Decode", "json.Unmarshal", "xml.Unmarshal", "DecodeBase64", "DecodeHex", "Decode of a damaged signal"}[kind]
	var text string
	switch kind {
	case 1:
		b, _ = json.Marshal(s.ToLib())
	case 2:
		b, _ = xml.Marshal(s.ToLib())
	case 3:
		text = base64.StdEncoding.EncodeToString(b)
	case 4:
		text = hex.EncodeToString(b)
	case 5:
		r := c.rawOf(s, c.wire())
		r.breakUp(c.gen)
		b = r.bytes(c.gen)
	}
	read := func() (d *SIS) {
		var err error
		d = &SIS{}
		if !c.op(name, func() {
			switch kind {
			case 0, 5:
				err = d.Decode(b)
			case 1:
				err = json.Unmarshal(b, d)
			case 2:
				err = xml.Unmarshal(b, d)
			case 3:
				d, err = scte35.DecodeBase64(text)
			case 4:
				d, err = scte35.DecodeHex(text)
			}
		}) || err != nil && kind != 5 || d == nil {
			return nil
		}
		return d
	}
	c.setInput("%s %s", name, hx(b))
	c.distinct(b)
	in := append([]byte{}, b...)
	x, y := read(), read()
	if x == nil || y == nil {
		return
	}
	want := snapshot(x)
	if got := snapshot(y); got != want {
		sig, d := diff(want, got)
		c.fail("second "+name+" differs: "+fieldOf(sig), "%s", d)
		return
	}
	e1, err1 := x.Encode()
	c.scramble(reflect.ValueOf(x))
	c.see("scrambled " + name)
	if got := snapshot(y); got != want {
		sig, d := diff(want, got)
		c.fail("sections share "+fieldOf(sig), "after %s: changing one section changes the other: %s", name, d)
		return
	}
	if !bytes.Equal(in, b) {
		c.fail("input shared", "changing a section changes the input of %s", name)
		return
	}
	for k := range in {
		b[k] ^= 0xFF
	}
	e2, err2 := y.Encode()
	if got := snapshot(y); got != want {
		sig, d := diff(want, got)
		c.fail("section refers to the input: "+fieldOf(sig), "after %s: %s", name, d)
	} else if !bytes.Equal(e1, e2) || fmt.Sprint(err1) != fmt.Sprint(err2) {
		c.fail("encoding refers to the input", "after %s: %x then %x", name, e1, e2)
	}
	copy(b, in)
	if z := read(); z != nil {
		if got := snapshot(z); got != want {
			sig, d := diff(want, got)
			c.fail("later "+name+" differs: "+fieldOf(sig), "after an earlier result was changed: %s", d)
		}
	}
}

// c13edit: after a change made by the caller every result is that of a section
// which has been so from the start.
func (c *ctx) c13edit(i int) {
	s := c.sec().canon()
	if len(s.Descs) > 6 {
		s.Descs = s.Descs[:6]
	}
	s.xmlText()
	o, _ := c.makeObj(s, c.Intn(4))
	if o == nil {
		return
	}
	x := o.x
	c.setInput("%s %s", o.how, s.Dump())
	c.distinct([]byte(o.snap))
	for n := 2 + c.Intn(3); n > 0; n-- {
		for k := c.Intn(5); k > 0; k-- {
			op := readOps[c.Intn(len(readOps))]
			if !c.op(op.name, func() { _ = op.f(x) }) {
				return
			}
		}
		t := c.sec().canon()
		t.xmlText()
		z := t.ToLib()
		switch c.Intn(8) {
		case 7:
			for k := 1 + c.Intn(3); k > 0; k-- {
				c.wildEdit(reflect.ValueOf(x).Elem())
			}
		case 0:
			x.SpliceCommand = z.SpliceCommand
		case 1:
			x.SpliceDescriptors = z.SpliceDescriptors[:min(6, len(z.SpliceDescriptors))]
		case 2:
			x.SAPType, x.PTSAdjustment, x.ProtocolVersion, x.Tier = z.SAPType, z.PTSAdjustment, z.ProtocolVersion, z.Tier
		case 3:
			x.EncryptedPacket.CWIndex = z.EncryptedPacket.CWIndex
		case 4:
			if len(x.SpliceDescriptors) > 0 {
				k := c.Intn(len(x.SpliceDescriptors))
				x.SpliceDescriptors = append(x.SpliceDescriptors[:k:k], x.SpliceDescriptors[k+1:]...)
			}
		case 5: // in place
			switch v := x.SpliceCommand.(type) {
			case *scte35.SpliceInsert:
				v.SpliceEventID ^= 5
				v.OutOfNetworkIndicator = !v.OutOfNetworkIndicator
				v.BreakDuration = nil
				if c.coin() {
					v.BreakDuration = &scte35.BreakDuration{Duration: c.num(33)}
				}
			case *scte35.TimeSignal:
				v.SpliceTime.PTSTime = c.optPTS()
			case *scte35.PrivateCommand:
				v.PrivateBytes = append(v.PrivateBytes, 1)
				v.Identifier++
			case *scte35.SpliceSchedule:
				if len(v.Events) > 0 {
					v.Events = v.Events[1:]
				}
			}
		case 6:
			for _, d := range x.SpliceDescriptors {
				switch v := d.(type) {
				case *scte35.SegmentationDescriptor:
					if v.SegmentationEventCancelIndicator {
						continue
					}
					v.SegmentationTypeID, v.SubSegmentNum, v.SubSegmentsExpected = 0x10, nil, nil
					v.SegmentationDuration = u64p(c.num(40))
					v.SegmentationUPIDs = []scte35.SegmentationUPID{{Type: 3, Format: "text", Value: c.asciiN(12)}}
				case *scte35.AvailDescriptor:
					v.ProviderAvailID++
				case *scte35.DTMFDescriptor:
					v.DTMFChars = "12#"
				case *scte35.TimeDescriptor:
					v.TAISeconds ^= 3
				case *scte35.AudioDescriptor:
					v.AudioChannels = append(v.AudioChannels, scte35.AudioChannel{ISOCode: "deu"})[:min(15, len(v.AudioChannels)+1)]
				case *scte35.PrivateDescriptor:
					v.PrivateBytes = c.bytesN(c.Intn(20))
				}
			}
		}
		c.see("edited")
		f := cloneLib(x)
		for _, op := range readOps {
			var r1, r2 []byte
			if !c.op(op.name, func() { r1, r2 = op.f(f), op.f(x) }) {
				return
			}
			if !bytes.Equal(r1, r2) {
				c.fail("stale: "+op.name, "a section edited by the caller gives %q, an equal new one %q", cut(r2), cut(r1))
				return
			}
		}
	}
}

func init() {
	register(&check{
		id:   "C13",
		rule: "histories of operations over pools of sections made in every way, results and buffers kept and watched; sections with a past filled again by every reader; pairs read from one input and changed; sections edited by the caller between operations; distinct by the sections' contents",
		need: append([]string{"JSON of another producer", "XML of another producer", "section from API", "section from Decode", "section from JSON", "section from XML", "section from Decode of a damaged signal", "section from API, any values", "fields left out", "scribbled over input", "scribbled over result", "edited",
			"reuse Decode", "reuse json", "reuse xml", "reuse damaged", "reuse short json", "reuse short xml", "Bytes read again", "scrambled Decode", "scrambled json.Unmarshal", "scrambled xml.Unmarshal", "scrambled DecodeBase64", "scrambled DecodeHex", "scrambled Decode of a damaged signal", "stuffing"}, allKinds...),
		families: []family{
			{name: "history", quick: 3000, thorough: 120000, fn: watchGlobals((*ctx).c13history)},
			{name: "reuse", quick: 12000, thorough: 400000, fn: watchGlobals((*ctx).c13reuse)},
			{name: "shared", quick: 24000, thorough: 400000, fn: watchGlobals((*ctx).c13shared)},
			{name: "edit", quick: 6000, thorough: 200000, fn: watchGlobals((*ctx).c13edit)},
			{name: "bytes", quick: 20000, thorough: 400000, fn: watchGlobals((*ctx).c13bytes)},
		},
	})
}
