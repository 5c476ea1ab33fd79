package mon

// C20: cost and retention. Work is counted with the coverage counters of the
// instrumented library (basic blocks executed, independent of the machine),
// memory with the runtime's allocation statistics, both per operation.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"runtime/coverage"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
	"weak"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// cost of some operations.
type cost struct {
	bytes, blocks uint64
	cpu           int64
}

// blocks is the number of basic blocks of the library executed so far (modulo
// the wrap of the 32-bit counters, which differences by counter undo).
type counters []uint32

type ctrBuf struct{ bytes.Buffer }

func readCounters() counters {
	var b ctrBuf
	b.Grow(1 << 16)
	must(coverage.WriteCounters(&b))
	d := b.Bytes()
	bad := func() { must(fmt.Errorf("coverage counters in an unknown format")) }
	if len(d) < 48 || string(d[:4]) != "\x00cwm" {
		bad()
	}
	flavor := d[24]
	d = d[32:]
	n := binary.LittleEndian.Uint64(d)
	skip := 16 + int(binary.LittleEndian.Uint32(d[8:])) + int(binary.LittleEndian.Uint32(d[12:]))
	d = d[skip:]
	next := func() uint32 {
		if flavor == 1 {
			v := binary.LittleEndian.Uint32(d)
			d = d[4:]
			return v
		}
		v, k := binary.Uvarint(d)
		if k <= 0 {
			bad()
		}
		d = d[k:]
		return uint32(v)
	}
	var out counters
	for ; n > 0; n-- {
		m := next()
		pkg, fn := next(), next()
		for i := uint32(0); i < m; i++ {
			// functions which were never called are not listed: keep the key
			out = append(out, pkg<<16|fn, next())
		}
	}
	return out
}

// executed is the number of basic blocks executed between two readings.
func executed(a, b counters) (n uint64) {
	// both list functions in the same order; b can list more
	i := 0
	for j := 0; j < len(b); j += 2 {
		if i < len(a) && a[i] == b[j] {
			n += uint64(b[j+1] - a[i+1])
			i += 2
		} else {
			n += uint64(b[j+1])
		}
	}
	return
}

// measure runs f and returns what it cost.
func measure(f func()) (k cost) {
	var m0, m1 runtime.MemStats
	c0 := readCounters()
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	k.blocks = executed(c0, readCounters())
	k.bytes = m1.TotalAlloc - m0.TotalAlloc
	return
}

// renderAll are the operations on a decoded section.
var renderAll = []struct {
	name string
	f    func(x *SIS) int
}{
	{"Encode", func(x *SIS) int { b, _ := x.Encode(); return len(b) }},
	{"Base64", func(x *SIS) int { return len(x.Base64()) }},
	{"Hex", func(x *SIS) int { return len(x.Hex()) }},
	{"json.Marshal", func(x *SIS) int { b, _ := json.Marshal(x); return len(b) }},
	{"xml.Marshal", func(x *SIS) int { b, _ := xml.Marshal(x); return len(b) }},
	{"Table", func(x *SIS) int { return len(x.Table("", "\t")) }},
	{"Duration", func(x *SIS) int { return int(x.Duration()) }},
	{"accessors", func(x *SIS) int { touch(x); return 0 }},
}

// source is a way to hand over an input.
type source struct {
	name string
	f    func(in []byte) *SIS
}

var (
	srcBinary = source{"Decode", func(in []byte) *SIS { x := &SIS{}; _ = x.Decode(in); return x }}
	srcB64    = source{"DecodeBase64", func(in []byte) *SIS { x, _ := scte35.DecodeBase64(string(in)); return x }}
	srcHex    = source{"DecodeHex", func(in []byte) *SIS { x, _ := scte35.DecodeHex(string(in)); return x }}
	srcJSON   = source{"json.Unmarshal", func(in []byte) *SIS { x := &SIS{}; _ = json.Unmarshal(in, x); return x }}
	srcXML    = source{"xml.Unmarshal", func(in []byte) *SIS { x := &SIS{}; _ = xml.Unmarshal(in, x); return x }}
)

// bound is what an operation may cost: a constant and an amount per byte of
// input, for allocated bytes and for executed blocks. The constants are several
// times the most that the library needs, so that they exclude growth of another
// order and not another way to write the same thing.
type bound struct{ bytes, perByte, blocks, perBlock uint64 }

var (
	// any input; a count of 255 without its elements is rendered as 255 elements
	anyBound = map[string]bound{
		"Decode": {256 << 10, 4000, 200000, 4000}, "Encode": {256 << 10, 1000, 200000, 4000}, "Base64": {256 << 10, 1000, 200000, 4000}, "Hex": {256 << 10, 1000, 200000, 4000},
		"json.Marshal": {4 << 20, 40000, 100000, 1000}, "xml.Marshal": {3 << 20, 30000, 100000, 1000}, "Table": {2 << 20, 30000, 200000, 4000},
		"Duration": {64 << 10, 64, 20000, 100}, "accessors": {64 << 10, 1000, 40000, 1000},
	}
	// sound sections and documents
	soundBound = map[string]bound{
		"Decode": {64 << 10, 400, 20000, 200}, "Encode": {64 << 10, 400, 20000, 250}, "Base64": {64 << 10, 400, 20000, 250}, "Hex": {64 << 10, 400, 20000, 250},
		"json.Marshal": {256 << 10, 4000, 20000, 200}, "xml.Marshal": {256 << 10, 3000, 20000, 200}, "Table": {128 << 10, 2500, 20000, 500},
		"Duration": {16 << 10, 16, 20000, 50}, "accessors": {32 << 10, 200, 20000, 100},
	}
)

func boundOf(name string, sound bool) bound {
	m := anyBound
	if sound {
		m = soundBound
	}
	if b, ok := m[name]; ok {
		return b
	}
	b := m["Decode"]
	b.bytes, b.perByte = b.bytes*2, b.perByte*4
	return b
}

// c20input checks the cost of one input.
func (c *ctx) c20input(src source, in []byte, sound bool) {
	c.setInput("%s of %d bytes: %s", src.name, len(in), hx(in[:min(len(in), 3000)]))
	c.distinct(in)
	var x *SIS
	n := uint64(len(in))
	one := func(name string, f func()) bool {
		var k cost
		if !c.op(name, func() { k = measure(f) }) {
			return false
		}
		if os.Getenv("C20DBG") != "" {
			fmt.Fprintln(os.Stderr, "DBG", name, sound, n, k.bytes, k.blocks)
		}
		b := boundOf(name, sound)
		c.peak("memory", name, k.bytes, b.bytes+b.perByte*n)
		c.peak("work", name, k.blocks, b.blocks+b.perBlock*n)
		if k.bytes > b.bytes+b.perByte*n {
			c.fail("memory of "+name, "%d bytes allocated for an input of %d bytes", k.bytes, n)
		}
		if k.blocks > b.blocks+b.perBlock*n {
			c.fail("work of "+name, "%d basic blocks for an input of %d bytes", k.blocks, n)
		}
		return true
	}
	if !one(src.name, func() { x = src.f(in) }) || x == nil {
		return
	}
	for _, r := range renderAll {
		one(r.name, func() { _ = r.f(x) })
	}
}

// peak records how close to the bound an operation came, in percent.
func (c *ctx) peak(what, name string, got, bound uint64) {
	p := got * 100 / bound
	for _, v := range []uint64{5, 20, 50, 100} {
		if p <= v {
			c.see(fmt.Sprintf("%s at most %d%% of the bound: %s", what, v, name))
			return
		}
	}
}

// ------------------------------------------------------------------ scaling

// shape is an input which can be made of any size.
type shape struct {
	name string
	src  source
	max  int // largest useful size, 0 for any
	f    func(c *ctx, k int) []byte
}

func desc(tag byte, id string, body []byte) []byte {
	return append(append([]byte{tag, byte(4 + len(body))}, id...), body...)
}

// signal puts parts together; cmd nil is a time_signal.
func signal(cmdType byte, cmd []byte, loop []byte, stuff int) []byte {
	if cmd == nil {
		cmdType, cmd = 6, []byte{0x7F}
	}
	n := len(cmd)
	if n >= 0xFFF {
		n = 0xFFF
	}
	b := []byte{0xFC, 0x3F, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xF0 | byte(n>>8), byte(n), cmdType}
	b = append(b, cmd...)
	b = append(b, byte(len(loop)>>8), byte(len(loop)))
	b = append(b, loop...)
	b = append(b, make([]byte, stuff)...)
	return withCRC(b)
}

func rep(b []byte, k int) []byte { return bytes.Repeat(b, k) }

// segDesc is a segmentation_descriptor with the given UPID part.
func segDesc(upidType byte, upid []byte) []byte {
	b := []byte{0, 0, 0, 1, 0x7F, 0xBF, upidType, byte(len(upid))}
	b = append(b, upid...)
	return desc(2, "CUEI", append(b, 0x30, 1, 1))
}

// plainJSON and plainXML are documents around a command and descriptors.
func plainJSON(cmd, descs string) []byte {
	return []byte(`{"encryptedPacket":{"encryptionAlgorithm":0,"cwIndex":255},"sapType":3,"tier":4095,"spliceCommand":` + cmd + `,"spliceDescriptors":[` + descs + `],"ptsAdjustment":0,"protocolVersion":0}`)
}

func plainXML(parts string) []byte {
	return []byte(`<SpliceInfoSection xmlns="http://www.scte.org/schemas/35" ptsAdjustment="0" protocolVersion="0" sapType="3" tier="4095"><EncryptedPacket encryptionAlgorithm="0" cwIndex="255"/>` + parts + `</SpliceInfoSection>`)
}

const jsonTS = `{"type":6,"spliceTime":{"ptsTime":1}}`
const xmlTS = `<TimeSignal><SpliceTime ptsTime="1"/></TimeSignal>`

func reps(s, sep string, k int) string {
	if k <= 0 {
		return ""
	}
	return strings.Repeat(s+sep, k-1) + s
}

func shapes() []shape {
	var out []shape
	loop := func(name string, d []byte) {
		out = append(out, shape{"loop of " + name, srcBinary, 65535 / len(d), func(c *ctx, k int) []byte { return signal(0, nil, rep(d, k), 0) }})
	}
	loop("avail descriptors", desc(0, "CUEI", []byte{0, 0, 0, 1}))
	loop("empty descriptors", []byte{0, 0})
	loop("private descriptors", desc(9, "ABCD", nil))
	loop("large private descriptors", desc(9, "ABCD", make([]byte, 251)))
	loop("CUEI descriptors with unknown tags", desc(0x77, "CUEI", []byte("x")))
	loop("DTMF descriptors", desc(1, "CUEI", []byte{1, 0xFF, '1', '2', '3', '4', '5', '6', '7'}))
	loop("time descriptors", desc(3, "CUEI", make([]byte, 12)))
	loop("audio descriptors", desc(4, "CUEI", append([]byte{0xFF}, rep([]byte{1, 'e', 'n', 'g', 0xFF}, 15)...)))
	loop("audio descriptors without their channels", desc(4, "CUEI", []byte{0xFF}))
	loop("cancelled segmentation descriptors", desc(2, "CUEI", []byte{0, 0, 0, 1, 0xFF}))
	loop("segmentation descriptors", segDesc(0, nil))
	loop("segmentation descriptors with components", desc(2, "CUEI", append(append([]byte{0, 0, 0, 1, 0x7F, 0x3F, 38}, rep([]byte{1, 0xFE, 0, 0, 0, 0}, 38)...), 0, 0, 0x30, 1, 1)))
	loop("segmentation descriptors without their components", desc(2, "CUEI", []byte{0, 0, 0, 1, 0x7F, 0x3F, 255}))
	for t := 0; t <= 0x12; t++ {
		loop(fmt.Sprintf("segmentation descriptors with UPIDs of type %#02x", t), segDesc(byte(t), rep([]byte{'A'}, 12)))
	}
	loop("long UPIDs", segDesc(0x0f, rep([]byte{0xE9}, 230)))
	loop("long EIDRs", segDesc(0x0a, rep([]byte{'/'}, 230)))
	loop("long MPUs", segDesc(0x0c, rep([]byte{7}, 230)))
	loop("MIDs of empty UPIDs", segDesc(0x0d, rep([]byte{1, 0}, 115)))
	loop("MIDs of MIDs", segDesc(0x0d, rep([]byte{0x0d, 1, 0x0d}, 76)))
	loop("MIDs of EIDRs", segDesc(0x0d, rep(append([]byte{0x0a, 12}, rep([]byte{0x14}, 12)...), 16)))
	out = append(out,
		shape{"stuffing", srcBinary, 0, func(c *ctx, k int) []byte { return signal(0, nil, nil, k*16) }},
		shape{"private command", srcBinary, 4000, func(c *ctx, k int) []byte { return signal(0xFF, make([]byte, 4+k), nil, 0) }},
		shape{"unknown command", srcBinary, 4000, func(c *ctx, k int) []byte { return signal(0x33, make([]byte, 4+k), nil, 0) }},
		shape{"events", srcBinary, 255, func(c *ctx, k int) []byte {
			return signal(4, append([]byte{byte(k)}, rep([]byte{0, 0, 0, 1, 0x7F, 0x5F, 0, 0, 0, 9, 0, 1, 0, 0}, k)...), nil, 0)
		}},
		shape{"events with components", srcBinary, 255, func(c *ctx, k int) []byte {
			e := append([]byte{0, 0, 0, 1, 0x7F, 0x1F, 60}, rep([]byte{1, 0, 0, 0, 2}, 60)...)
			return signal(4, append([]byte{byte(k)}, rep(append(e, 0, 1, 0, 0), k)...), nil, 0)
		}},
		shape{"insert components", srcBinary, 255, func(c *ctx, k int) []byte {
			return signal(5, append(append([]byte{0, 0, 0, 1, 0x7F, 0x0F, byte(k)}, rep([]byte{1, 0xFE, 0, 0, 0, 3}, k)...), 0, 1, 0, 0), nil, 0)
		}},
		shape{"base64", srcB64, 6000, func(c *ctx, k int) []byte {
			return []byte(base64.StdEncoding.EncodeToString(signal(0, nil, rep(desc(0, "CUEI", []byte{0, 0, 0, 1}), k), 0)))
		}},
		shape{"hex", srcHex, 6000, func(c *ctx, k int) []byte {
			return []byte("0x" + hex.EncodeToString(signal(0, nil, rep(desc(0, "CUEI", []byte{0, 0, 0, 1}), k), 0)))
		}},
		shape{"bad base64", srcB64, 0, func(c *ctx, k int) []byte { return append(rep([]byte("AAAA"), k), '*') }},
		shape{"base64 of line ends", srcB64, 0, func(c *ctx, k int) []byte { return rep([]byte("\r\n\n\n"), k) }},
		shape{"bad hex", srcHex, 0, func(c *ctx, k int) []byte { return append(rep([]byte("0x0x"), k), '*') }},
	)
	// text which is almost a signal, as people paste it
	for _, t := range []string{" ", "\t", "\n", "-", "_", ":", "=", ",", ".", "%", "0x", "FC ", "fc:", "0xfc,", "\\xfc", "%fc", "fc-", "AAA=", "A\n", "AA==", "/_+-", "\"", "\xa0", "\u00a0", "{", "<"} {
		out = append(out,
			shape{fmt.Sprintf("%q as base64", t), srcB64, 0, func(c *ctx, k int) []byte { return rep([]byte(t), k) }},
			shape{fmt.Sprintf("%q as hex", t), srcHex, 0, func(c *ctx, k int) []byte { return append([]byte("0x"), rep([]byte(t), k)...) }})
	}
	out = append(out, shape{"base64 in lines", srcB64, 0, func(c *ctx, k int) []byte { return rep(append(rep([]byte("/DAA"), 19), 13, 10), k/8) }})
	js := func(name, what, sep string, f func(items string) []byte) {
		out = append(out, shape{"JSON " + name, srcJSON, 0, func(c *ctx, k int) []byte { return f(reps(what, sep, k)) }})
	}
	jd := func(items string) []byte { return plainJSON(jsonTS, items) }
	js("avail descriptors", `{"type":0,"providerAvailId":1}`, ",", jd)
	js("DTMF descriptors", `{"type":1,"preroll":1,"chars":"123"}`, ",", jd)
	js("segmentation descriptors", `{"type":2,"segmentationEventId":1,"segmentationUpids":[{"segmentationUpidType":9,"value":"abc"}],"segmentationTypeId":48}`, ",", jd)
	js("audio descriptors", `{"type":4,"audioChannels":[{"componentTag":1,"isoCode":"eng"}]}`, ",", jd)
	js("private descriptors", `{"type":9,"identifier":1,"privateBytes":"00"}`, ",", jd)
	js("UPIDs", `{"segmentationUpidType":10,"value":"10.5240/1234-5678-9ABC-DEF0-1234"}`, ",", func(i string) []byte {
		return jd(`{"type":2,"segmentationUpids":[` + i + `]}`)
	})
	js("bad UPIDs", `{"segmentationUpidType":10,"value":"x/y"},{"segmentationUpidType":8,"value":"x"},{"segmentationUpidType":12,"value":"*"}`, ",", func(i string) []byte {
		return jd(`{"type":2,"segmentationUpids":[` + i + `]}`)
	})
	js("segmentation components", `{"componentTag":1,"ptsOffset":5}`, ",", func(i string) []byte { return jd(`{"type":2,"components":[` + i + `]}`) })
	js("audio channels", `{"componentTag":1,"isoCode":"eng"}`, ",", func(i string) []byte { return jd(`{"type":4,"audioChannels":[` + i + `]}`) })
	js("a long UPID", "10.5240/", "", func(i string) []byte {
		return jd(`{"type":2,"segmentationUpids":[{"segmentationUpidType":10,"value":"` + i + `"}]}`)
	})
	js("a long TI", "1234567890", "", func(i string) []byte {
		return jd(`{"type":2,"segmentationUpids":[{"segmentationUpidType":8,"value":"` + i + `"}]}`)
	})
	js("a long text", "aé", "", func(i string) []byte {
		return jd(`{"type":2,"segmentationUpids":[{"segmentationUpidType":1,"value":"` + i + `"}]}`)
	})
	js("private bytes", "00aa", "", func(i string) []byte { return plainJSON(`{"type":255,"privateBytes":"`+i+`"}`, "") })
	js("events", `{"spliceEventId":1,"program":{"utcSpliceTime":"2021-01-01T00:00:00Z"}}`, ",", func(i string) []byte { return plainJSON(`{"type":4,"events":[`+i+`]}`, "") })
	js("insert components", `{"componentTag":1,"spliceTime":{"ptsTime":4}}`, ",", func(i string) []byte { return plainJSON(`{"type":5,"components":[`+i+`]}`, "") })
	js("unknown members", `"tier":1`, ",", func(i string) []byte { return []byte(`{` + i + `}`) })
	js("commands", `"spliceCommand":`+jsonTS, ",", func(i string) []byte { return []byte(`{` + i + `}`) })
	js("space", " \n", "", func(i string) []byte { return append(plainJSON(jsonTS, ""), i...) })
	xs := func(name, what string, f func(items string) []byte) {
		out = append(out, shape{"XML " + name, srcXML, 0, func(c *ctx, k int) []byte { return f(reps(what, "", k)) }})
	}
	xd := func(items string) []byte { return plainXML(xmlTS + items) }
	xs("avail descriptors", `<AvailDescriptor providerAvailId="1"/>`, xd)
	xs("DTMF descriptors", `<DTMFDescriptor preroll="1" chars="123"/>`, xd)
	xs("segmentation descriptors", `<SegmentationDescriptor segmentationEventId="1" segmentationTypeId="48"><SegmentationUpid segmentationUpidType="9">abc</SegmentationUpid></SegmentationDescriptor>`, xd)
	xs("audio descriptors", `<AudioDescriptor><AudioChannel ISOCode="eng" componentTag="1"/></AudioDescriptor>`, xd)
	xs("private descriptors", `<PrivateDescriptor tag="9" identifier="1">00</PrivateDescriptor>`, xd)
	xs("UPIDs", `<SegmentationUpid segmentationUpidType="10">10.5240/1234-5678-9ABC-DEF0-1234</SegmentationUpid>`, func(i string) []byte { return xd(`<SegmentationDescriptor>` + i + `</SegmentationDescriptor>`) })
	xs("segmentation components", `<Component componentTag="1" ptsOffset="3"/>`, func(i string) []byte { return xd(`<SegmentationDescriptor>` + i + `</SegmentationDescriptor>`) })
	xs("a long UPID", "10.5240/", func(i string) []byte {
		return xd(`<SegmentationDescriptor><SegmentationUpid segmentationUpidType="10">` + i + `</SegmentationUpid></SegmentationDescriptor>`)
	})
	xs("a UPID in pieces", "a<!-- -->", func(i string) []byte {
		return xd(`<SegmentationDescriptor><SegmentationUpid segmentationUpidType="1">` + i + `</SegmentationUpid></SegmentationDescriptor>`)
	})
	xs("events", `<Event spliceEventId="1"><Program utcSpliceTime="2021-01-01T00:00:00Z"/></Event>`, func(i string) []byte { return plainXML(`<SpliceSchedule>` + i + `</SpliceSchedule>`) })
	xs("insert components", `<Component componentTag="1"><SpliceTime ptsTime="4"/></Component>`, func(i string) []byte { return plainXML(`<SpliceInsert>` + i + `</SpliceInsert>`) })
	xs("private bytes", "00aa", func(i string) []byte { return plainXML(`<PrivateCommand identifier="1">` + i + `</PrivateCommand>`) })
	xs("unknown elements", `<Extension a="1">x</Extension>`, xd)
	xs("commands", xmlTS, plainXML)
	xs("space", " \n", xd)
	xs("attributes", ` tier="5"`, func(i string) []byte { return []byte(`<SpliceInfoSection` + i + `>` + xmlTS + `</SpliceInfoSection>`) })
	return out
}

var allShapes = shapes()

func threadCPU() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(1, &ru) // RUSAGE_THREAD
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const ratio = 16

// c20scale compares the cost of an input with that of one sixteen times larger.
func (c *ctx) c20scale(i int) {
	sh := allShapes[i%len(allShapes)]
	k2 := sh.max
	if k2 == 0 {
		k2 = []int{4096, 16384, 8192}[i/len(allShapes)%3]
		if c.tier == "thorough" {
			k2 *= 4
		}
	} else if v := i / len(allShapes); v > 0 {
		k2 -= c.Intn(k2/4 + 1)
	}
	k1 := max(k2/ratio, 1)
	in1, in2 := sh.f(c, k1), sh.f(c, k2)
	c.setInput("%s: %d and %d times, %d and %d bytes", sh.name, k1, k2, len(in1), len(in2))
	c.distinct([]byte(c.input))
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	r := float64(k2) / float64(k1)
	var x1, x2 *SIS
	ops := []struct {
		name string
		f1   func()
		f2   func()
	}{{sh.src.name, func() { x1 = sh.src.f(in1) }, func() { x2 = sh.src.f(in2) }}}
	for _, o := range renderAll {
		ops = append(ops, struct {
			name string
			f1   func()
			f2   func()
		}{o.name, func() { _ = o.f(x1) }, func() { _ = o.f(x2) }})
	}
	for _, o := range ops {
		var a, b cost
		if !c.op(o.name, func() { a = measure(o.f1); b = measure(o.f2) }) {
			return
		}
		runtime.GC()
		c.see("scaled: " + sh.src.name + ", " + o.name)
		if float64(b.bytes) > 2.5*r*float64(a.bytes)+(128<<10) {
			c.fail("memory of "+o.name+" grows faster than the input", "%d bytes for %d and %d bytes for %d bytes of input", a.bytes, len(in1), b.bytes, len(in2))
		}
		if float64(b.blocks) > 1.6*r*float64(a.blocks)+5000 {
			c.fail("work of "+o.name+" grows faster than the input", "%d blocks for %d and %d blocks for %d bytes of input", a.blocks, len(in1), b.blocks, len(in2))
		}
		c.timed(o.name, r, o.f1, o.f2, len(in1), len(in2))
	}
}

// timed compares times; it alarms only if the fastest of many runs on the
// large input is far slower than a slow run on the small one explains.
func (c *ctx) timed(name string, r float64, f1, f2 func(), n1, n2 int) {
	t := func(f func()) int64 {
		s := threadCPU()
		f()
		return threadCPU() - s
	}
	b := t(f2)
	if b < int64(60*time.Millisecond) {
		c.see("too fast to be more than linear")
		return
	}
	var as []int64
	for n := 0; n < 7; n++ {
		as = append(as, t(f1))
		runtime.GC()
		if v := t(f2); v < b {
			b = v
		}
		if b < int64(60*time.Millisecond) {
			return
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i] < as[j] })
	a := max(as[5], 20000)
	c.see("timed at length")
	if float64(b) > 4.5*r*float64(a) {
		c.fail("time of "+name+" grows faster than the input", "at least %d us for %d bytes, %d us for %d bytes", b/1000, n2, a/1000, n1)
	}
}

// ---------------------------------------------------------------- retention

type ref struct {
	what string
	dead func() bool
	// part of a result itself, not a buffer which a pool may keep for the
	// next call
	part bool
}

func weakOf[T any](p *T, what string) ref {
	w := weak.Make(p)
	return ref{what: what, dead: func() bool { return w.Value() == nil }}
}

// refsOf makes weak references to everything of some size that v refers to.
func refsOf(v reflect.Value, what string, out *[]ref) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() == reflect.Struct && v.Elem().Type().Size() >= 32 {
			r := weakOf((*byte)(v.UnsafePointer()), what+" "+v.Elem().Type().Name())
			r.part = true
			*out = append(*out, r)
		}
		refsOf(v.Elem(), what, out)
	case reflect.Interface:
		if !v.IsNil() {
			refsOf(v.Elem(), what, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() && f.Name != "XMLName" && f.Type.String() != "time.Time" {
				refsOf(v.Field(i), what+"."+f.Name, out)
			}
		}
	case reflect.Slice:
		if v.Len() == 0 {
			return
		}
		if v.Cap()*int(v.Type().Elem().Size()) >= 64 {
			*out = append(*out, weakOf((*byte)(v.UnsafePointer()), what))
		}
		if v.Type().Elem().Kind() != reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				refsOf(v.Index(i), what, out)
			}
		}
	case reflect.String:
		if v.Len() >= 64 {
			*out = append(*out, weakOf(unsafe.StringData(v.String()), what))
		}
	}
}

// work decodes one input, renders the result and drops everything.
//
//go:noinline
func (c *ctx) dropAll(src source, in []byte, out *[]ref) {
	if len(in) >= 64 {
		*out = append(*out, weakOf(unsafe.SliceData(in), "input of "+src.name))
	}
	x := src.f(in)
	refsOf(reflect.ValueOf(x), "result of "+src.name, out)
	keep := func(b []byte, what string) {
		if len(b) >= 64 {
			*out = append(*out, weakOf(unsafe.SliceData(b), what))
		}
	}
	str := func(s, what string) {
		if len(s) >= 64 {
			*out = append(*out, weakOf(unsafe.StringData(s), what))
		}
	}
	b, _ := x.Encode()
	keep(b, "result of Encode")
	str(x.Base64(), "result of Base64")
	str(x.Hex(), "result of Hex")
	str(x.Table("", "\t"), "result of Table")
	j, _ := json.Marshal(x)
	keep(j, "result of json.Marshal")
	m, _ := xml.Marshal(x)
	keep(m, "result of xml.Marshal")
	_ = x.Duration()
	touch(x)
}

//go:noinline
func (c *ctx) inputOf(kind int) (source, []byte) {
	own := func(b []byte) []byte { return append(make([]byte, 0, len(b)+64), b...) }
	switch kind % 10 {
	case 0:
		return srcBinary, own(c.sec().Bits(c.wire()))
	case 1:
		return srcBinary, own(c.anySignal())
	case 2:
		return srcB64, own([]byte(base64.StdEncoding.EncodeToString(c.sec().Bits(nil))))
	case 3:
		return srcHex, own([]byte(hex.EncodeToString(c.sec().Bits(nil))))
	case 4:
		st := c.style()
		return srcJSON, own([]byte(st.JSON(c.sec().docOf())))
	case 5: // only the CRC is wrong
		b := c.sec().Bits(nil)
		b[len(b)-1-c.Intn(4)] ^= byte(1 + c.Intn(255))
		c.see("dropped after a failure")
		return srcBinary, own(b)
	case 6:
		r := c.rawOf(c.sec(), c.wire())
		r.breakUp(c.gen)
		return srcBinary, own(r.bytes(c.gen))
	case 7: // no text, or no document
		t := base64.StdEncoding.EncodeToString(c.sec().Bits(nil))
		switch c.Intn(4) {
		case 0:
			return srcB64, own([]byte(t + "!"))
		case 1:
			return srcHex, own([]byte("0x" + hex.EncodeToString([]byte(t)) + "f"))
		case 2:
			st := c.style()
			d := st.JSON(c.sec().docOf())
			return srcJSON, own([]byte(d[:c.Intn(len(d))]))
		default:
			st := c.style()
			d := st.XML(c.sec().xmlText().docOf())
			return srcXML, own([]byte(d[:c.Intn(len(d))]))
		}
	case 8: // cut short
		b := c.sec().Bits(nil)
		return srcBinary, own(b[:c.Intn(len(b))])
	default:
		st := c.style()
		return srcXML, own([]byte(st.XML(c.sec().xmlText().docOf())))
	}
}

//go:noinline
func clobber(n int) int {
	var a [4096]byte
	for i := range a {
		a[i] = byte(n + i)
	}
	return int(a[n&4095])
}

// c20retain: nothing lives on.
func (c *ctx) c20retain(i int) {
	const per = 80
	var refs []ref
	g0 := runtime.NumGoroutine()
	for k := 0; k < per; k++ {
		src, in := c.inputOf(k)
		if k == 0 {
			c.setInput("%s of %s and %d others", src.name, hx(in[:min(len(in), 400)]), per-1)
		}
		if !c.op("all operations", func() { c.dropAll(src, in, &refs) }) {
			return
		}
	}
	c.distinct([]byte(c.input))
	c.settle(g0)
	alive := func() (out []string) {
		for _, r := range refs {
			if !r.dead() {
				out = append(out, r.what)
			}
		}
		return
	}
	var left []string
	for try := 0; try < 6; try++ {
		_ = clobber(try)
		runtime.GC()
		if left = alive(); len(left) == 0 {
			break
		}
		if try == 2 {
			for _, r := range refs {
				if r.part && !r.dead() {
					c.fail("retained part: "+r.what, "%s is alive after all was dropped (%d of %d objects are)", r.what, len(left), len(refs))
					return
				}
			}
		}
		if try > 2 { // displace what stays in pools, caches of one and dead stack slots
			src, in := c.inputOf(try)
			var more []ref
			c.dropAll(src, in, &more)
			time.Sleep(time.Millisecond)
		}
	}
	c.evals += int64(len(refs))
	c.see("collected after use")
	// a buffer kept for the next call is no growth: several must be alive
	if len(left) > 3 {
		sort.Strings(left)
		c.fail("retained: "+left[0], "%d of %d objects are alive after all was dropped: %.300s", len(left), len(refs), strings.Join(left, ", "))
	}
}

// settle: goroutines must end.
func (c *ctx) settle(before int) {
	for end := time.Now().Add(3 * time.Second); ; time.Sleep(2 * time.Millisecond) {
		n := runtime.NumGoroutine()
		if n <= before {
			c.see("goroutines at rest")
			return
		}
		if time.Now().After(end) {
			buf := make([]byte, 1<<18)
			st := string(buf[:runtime.Stack(buf, true)])
			for _, g := range strings.Split(st, "\n\n") {
				if strings.Contains(g, "scte35-go/pkg/scte35.") {
					c.fail("goroutine left behind", "%d goroutines before, %d after: %s", before, n, g)
					return
				}
			}
			c.see("other goroutines")
			return
		}
	}
}

// c20heap: the live heap does not grow with the number of distinct inputs.
func (c *ctx) c20heap(i int) {
	rounds, per := 8, 250
	if c.tier == "thorough" {
		rounds, per = 12, 2000
	}
	live := make([]uint64, 0, rounds)
	c.setInput("%d rounds of %d inputs", rounds, per)
	c.distinct([]byte(fmt.Sprint("heap", i)))
	g0 := runtime.NumGoroutine()
	for r := 0; r < rounds; r++ {
		for k := 0; k < per; k++ {
			src, in := c.inputOf(k)
			if !c.op("all operations", func() { use(src, in) }) {
				return
			}
		}
		var m runtime.MemStats
		for n := 0; n < 3; n++ {
			runtime.GC()
		}
		runtime.ReadMemStats(&m)
		live = append(live, m.HeapAlloc)
		c.eval()
	}
	c.settle(g0)
	// growth in the second half, where every cache of bounded size is full
	lo, hi := live[rounds/2], live[rounds-1]
	c.see("live heap compared")
	if limit := uint64(rounds/2-1) * uint64(per) * 32; hi > lo+limit+(48<<10) && hi > live[rounds-2] {
		c.fail("live heap grows", "live heap after each round of %d inputs: %v", per, live)
	}
	if i == 0 {
		c.sampleCase(fmt.Sprintf("live heap after each round of %d inputs: %v", per, live))
	}
}

//go:noinline
func use(src source, in []byte) {
	x := src.f(in)
	for _, r := range renderAll {
		_ = r.f(x)
	}
}

func init() {
	_ = io.Discard
	var need []string
	for _, s := range []source{srcBinary, srcB64, srcHex, srcJSON, srcXML} {
		for _, r := range renderAll {
			need = append(need, "scaled: "+s.name+", "+r.name)
		}
	}
	need = append(need, "collected after use", "goroutines at rest", "live heap compared", "dropped after a failure")
	register(&check{
		id:     "C20",
		rule:   "any and damaged signals, short signals which claim the largest counts, JSON and XML documents; inputs of a hundred and fifty shapes at a size and sixteen times it; long runs of distinct inputs; allocated bytes and executed basic blocks of the instrumented library per operation, thread CPU time, weak references to inputs and results, live heap, goroutines; distinct by input",
		assume: []string{"work outside the library's own package (encoding/json, encoding/xml) is seen as allocation and CPU time only", "the constants of the linear bounds are several times the most the library needs"},
		need:   need,
		setup: func(c *ctx) {
			if k := measure(func() { _ = srcBinary.f(corpus[0]) }); k.blocks == 0 || k.bytes == 0 {
				must(fmt.Errorf("cost is not measured: %+v", k))
			}
			if k, l := measure(func() { touch(srcBinary.f(corpus[0])) }), measure(func() { touch(srcBinary.f(corpus[0])) }); k.blocks != l.blocks {
				must(fmt.Errorf("work is not measured: %+v %+v", k, l))
			}
			for i := 0; i < 60; i++ { // caches of the standard library
				src, in := c.inputOf(i)
				use(src, in)
			}
		},
		families: []family{
			{name: "any", quick: 4000, thorough: 200000, fn: func(c *ctx, i int) {
				if i%2 == 0 {
					c.c20input(srcBinary, c.anySignal(), false)
				} else {
					c.c20input(srcBinary, c.sec().Bits(c.wire()), true)
				}
			}},
			{name: "claims", quick: 6000, thorough: 200000, fn: func(c *ctx, i int) { c.c20claims(i) }},
			{name: "documents", quick: 2000, thorough: 100000, fn: func(c *ctx, i int) {
				src, in := c.inputOf(2 + i%4)
				c.c20input(src, in, true)
			}},
			{name: "scale", quick: len(allShapes) * 2, thorough: len(allShapes) * 20, fn: func(c *ctx, i int) { c.c20scale(i) }},
			{name: "retain", quick: 64, thorough: 1500, fn: func(c *ctx, i int) { c.c20retain(i) }},
			{name: "heap", quick: 8, thorough: 64, fn: func(c *ctx, i int) { c.c20heap(i) }},
		},
	})
}

// c20claims: short signals whose counts and lengths claim more than there is.
func (c *ctx) c20claims(i int) {
	var b []byte
	switch i % 8 {
	case 0: // one byte all over
		b = rep([]byte{[]byte{0xFF, 0, 0xFC, 0x7F, 0x80, 0x0d, 0x04, 0x55}[c.Intn(8)]}, i/8%200)
	case 1, 2: // a large section of which a little is there
		c.big = true
		full := c.sec().Bits(nil)
		b = full[:min(len(full), 14+c.Intn(60))]
	case 3: // splice_schedule or splice_insert
		h := []byte{0xFC, 0x3F, 0xFF, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF, byte(c.Intn(256)), byte(4 + c.Intn(2))}
		b = append(h, rep([]byte{0xFF, 0, 0, 0, 1, 0x7F, 0x1F, 0xFF}, 1+c.Intn(3))...)
	case 4: // descriptors
		var loop []byte
		for n := 1 + c.Intn(6); n > 0; n-- {
			d := desc(byte(c.Intn(5)), "CUEI", c.bytesN(c.Intn(10)))
			if c.coin() {
				d[1] = 0xFF
			}
			loop = append(loop, d...)
		}
		b = signal(0, nil, loop, 0)
		if c.coin() {
			b[15], b[16] = 0xFF, 0xFF
		}
	case 5: // UPIDs inside
		t := byte(c.Intn(0x12))
		d := segDesc(t, c.bytesN(c.Intn(20)))
		d[13] = 0xFF
		b = signal(0, nil, d, 0)
	case 6:
		d := segDesc(0x0d, rep([]byte{0x0d, 0xFF}, c.Intn(100)))
		b = signal(0, nil, rep(d, 1+c.Intn(10)), 0)
	default:
		b = c.mutBytes(c.anySignal())
		for n := c.Intn(8); n > 0 && len(b) > 0; n-- {
			b[c.Intn(len(b))] = 0xFF
		}
	}
	if c.coin() && len(b) > 4 {
		b = withCRC(b[:len(b)-4])
	}
	c.see("claiming signals")
	c.c20input(srcBinary, b, false)
}
