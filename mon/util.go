package mon

// Shared steps of the checks: calls into the library, the rendering of whatever
// came out, and snapshots.

import (
	_ "embed"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

type SIS = scte35.SpliceInfoSection

//go:embed corpus.txt
var corpusText string

// corpus holds binary signals from the wild (those in the repository's tests
// and documentation).
var corpus = func() [][]byte {
	var out [][]byte
	for _, l := range strings.Fields(corpusText) {
		if b, err := base64.StdEncoding.DecodeString(l); err == nil && len(b) > 0 {
			out = append(out, b)
		}
	}
	return out
}()

// decode decodes into a fresh section; ok is false if it panicked.
func (c *ctx) decode(b []byte) (x *SIS, err error, ok bool) {
	x = &SIS{}
	ok = c.op("Decode", func() { err = x.Decode(b) })
	return
}

func (c *ctx) encode(x *SIS) (b []byte, err error, ok bool) {
	ok = c.op("Encode", func() { b, err = x.Encode() })
	return
}

var useLayouts = [][2]string{{"", "\t"}, {"", ""}, {"# ", "  "}}

// useAll renders a section in every way.
func (c *ctx) useAll(x *SIS) bool {
	ok := true
	try := func(name string, f func()) { ok = c.op(name, f) && ok }
	l := useLayouts[c.Intn(len(useLayouts))]
	try("Table", func() { _ = x.Table(l[0], l[1]) })
	try("json.Marshal", func() { _, _ = json.Marshal(x) })
	try("json.MarshalIndent", func() { _, _ = json.MarshalIndent(x, "", "\t") })
	try("xml.Marshal", func() { _, _ = xml.Marshal(x) })
	try("xml.MarshalIndent", func() { _, _ = xml.MarshalIndent(x, "", "\t") })
	try("Encode", func() { _, _ = x.Encode() })
	try("Base64", func() { _ = x.Base64() })
	try("Hex", func() { _ = x.Hex() })
	try("Duration", func() { _ = x.Duration() })
	try("accessors", func() { touch(x) })
	return ok
}

// touch calls the derived accessors.
func touch(x *SIS) {
	_ = x.SAPTypeName()
	_ = x.EncryptedPacketFlag()
	switch v := x.SpliceCommand.(type) {
	case nil:
	case *scte35.SpliceInsert:
		_ = v.Type()
		_ = v.DurationFlag()
		_ = v.ProgramSpliceFlag()
		_ = v.TimeSpecifiedFlag()
		for i := range v.Components {
			_ = v.Components[i].TimeSpecifiedFlag()
		}
	case *scte35.SpliceSchedule:
		_ = v.Type()
		for i := range v.Events {
			_ = v.Events[i].DurationFlag()
			_ = v.Events[i].ProgramSpliceFlag()
		}
	case *scte35.PrivateCommand:
		_ = v.Type()
		_ = v.IdentifierString()
	default:
		_ = v.Type()
	}
	for _, d := range x.SpliceDescriptors {
		if d == nil {
			continue
		}
		_ = d.Tag()
		switch v := d.(type) {
		case *scte35.SegmentationDescriptor:
			_ = v.Name()
			_ = v.SegmentationUpidLength()
			_ = v.ProgramSegmentationFlag()
			_ = v.SegmentationDurationFlag()
			_ = v.DeliveryNotRestrictedFlag()
			for i := range v.SegmentationUPIDs {
				_ = v.SegmentationUPIDs[i].Name()
				_ = v.SegmentationUPIDs[i].ASCIIValue()
			}
		case *scte35.PrivateDescriptor:
			_ = v.IdentifierString()
		}
	}
}

// errClass names the error; "?" if it is none or several of the documented ones.
func errClass(err error) string {
	if err == nil {
		return clsOK
	}
	var is []string
	if errors.Is(err, scte35.ErrBufferOverflow) {
		is = append(is, clsOverflow)
	}
	if errors.Is(err, scte35.ErrBufferUnderflow) {
		is = append(is, clsUnderflow)
	}
	if errors.Is(err, scte35.ErrCRC32Invalid) {
		is = append(is, clsCRC)
	}
	if errors.Is(err, scte35.ErrUnsupportedEncoding) {
		is = append(is, "encoding")
	}
	if len(is) == 1 {
		return is[0]
	}
	return "?" + strings.Join(is, "+")
}

func hx(b []byte) string {
	if len(b) > 8192 {
		return fmt.Sprintf("%s... (%d bytes)", hex.EncodeToString(b[:8192]), len(b))
	}
	return hex.EncodeToString(b)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// kindNames for the features seen.
func (s *Sec) features(c *ctx) {
	if !s.HasCmd {
		c.see("no command")
	} else {
		switch s.Cmd.Kind {
		case cmdNull:
			c.see("cmd splice_null")
		case cmdBW:
			c.see("cmd bandwidth_reservation")
		case cmdTime:
			c.see("cmd time_signal")
			if s.Cmd.PTS == nil {
				c.see("time_signal without time")
			}
		case cmdPrivate:
			c.see("cmd private_command")
		case cmdInsert:
			c.see("cmd splice_insert")
			i := s.Cmd.Ins
			switch {
			case i.Cancel:
				c.see("splice_insert cancelled")
			case i.Program:
				c.see("splice_insert program")
			default:
				c.see("splice_insert components")
			}
			if i.Imm {
				c.see("splice_insert immediate")
			}
			if i.Brk != nil {
				c.see("splice_insert break_duration")
			}
		case cmdSchedule:
			c.see("cmd splice_schedule")
			for k := range s.Cmd.Sch {
				switch e := &s.Cmd.Sch[k]; {
				case e.Cancel:
					c.see("event cancelled")
				case e.Program:
					c.see("event program")
				default:
					c.see("event components")
				}
			}
		}
	}
	for i := range s.Descs {
		d := &s.Descs[i]
		switch d.Kind {
		case dAvail:
			c.see("desc avail")
		case dDTMF:
			c.see("desc dtmf")
		case dTime:
			c.see("desc time")
		case dAudio:
			c.see("desc audio")
		case dPriv:
			c.see("desc private")
		case dSeg:
			c.see("desc segmentation")
			g := d.Seg
			if g.Cancel {
				c.see("segmentation cancelled")
			}
			if len(g.Comps) > 0 {
				c.see("segmentation components")
			}
			if g.SubNum != nil {
				c.see("segmentation sub-segments")
			}
			switch {
			case len(g.UPIDs) > 1:
				c.see("segmentation MID")
			case len(g.UPIDs) == 1:
				c.see("segmentation one UPID")
			}
			for _, u := range g.UPIDs {
				switch u.Type {
				case 0x0a:
					c.see("UPID EIDR")
				case 0x0c:
					c.see("UPID MPU")
				case 0x08:
					c.see("UPID TI")
				case 5, 6:
					c.see("UPID ISAN")
				default:
					c.see("UPID text")
				}
			}
		}
	}
	if s.EncFlag {
		c.see("encrypted")
	}
	if len(s.Stuff) > 0 {
		c.see("stuffing")
	}
}

var allKinds = []string{"cmd splice_null", "cmd bandwidth_reservation", "cmd time_signal", "cmd private_command",
	"cmd splice_insert", "cmd splice_schedule", "desc avail", "desc dtmf", "desc time", "desc audio", "desc private",
	"desc segmentation"}

var allForms = append([]string{"splice_insert cancelled", "splice_insert program", "splice_insert components",
	"splice_insert immediate", "splice_insert break_duration", "event cancelled", "event program", "event components",
	"time_signal without time", "segmentation cancelled", "segmentation components", "segmentation sub-segments",
	"segmentation MID", "segmentation one UPID", "UPID EIDR", "UPID MPU", "UPID TI", "UPID ISAN", "UPID text",
	"encrypted"}, allKinds...)

// clone copies the model.
func (s *Sec) clone() *Sec {
	return deepCopy(reflect.ValueOf(s)).Interface().(*Sec)
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	}
	return v
}

// snapshot writes out every exported field of a value, nil and empty slices
// told apart.
func snapshot(v any) string {
	var sb strings.Builder
	snap(&sb, reflect.ValueOf(v), "")
	return sb.String()
}

func snap(sb *strings.Builder, v reflect.Value, path string) {
	line := func(f string, a ...any) { fmt.Fprintf(sb, "%s=%s\n", path, fmt.Sprintf(f, a...)) }
	switch v.Kind() {
	case reflect.Invalid:
		line("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			line("nil")
			return
		}
		snap(sb, v.Elem(), path)
	case reflect.Slice:
		if v.IsNil() {
			line("nil slice")
			return
		}
		line("%d", v.Len())
		for i := 0; i < v.Len(); i++ {
			snap(sb, v.Index(i), ix(path, i))
		}
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			line("%s", t.Format(time.RFC3339Nano))
			return
		}
		line("{%s}", v.Type())
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.IsExported() {
				snap(sb, v.Field(i), path+"."+f.Name)
			}
		}
	case reflect.String:
		line("%q", v.String())
	default:
		line("%v", v.Interface())
	}
}

// firstDiff describes the first differing line of two snapshots.
func firstDiff(a, b string) (sig, detail string) { return diff(a, b) }

// canon is the model of an API-built section: no stuffing, flag as the
// algorithm says.
func (s *Sec) canon() *Sec {
	s.Stuff = nil
	s.EncFlag = s.Alg != 0
	return s
}

// sameEnc compares two encodings; the value of E_CRC_32 is not compared.
func sameEnc(a, b []byte, enc bool) bool {
	if len(a) != len(b) {
		return false
	}
	if !enc || len(a) < 8 {
		return string(a) == string(b)
	}
	n := len(a) - 8
	return string(a[:n]) == string(b[:n]) && refCRC(a) == refCRC(b)
}

// byteDiff locates the first differing byte.
func byteDiff(want, got []byte) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) || i >= len(got) || want[i] != got[i] {
			return fmt.Sprintf("%d bytes should be %d, first difference at byte %d: want %s got %s", len(got), len(want), i, hx(want), hx(got))
		}
	}
	return "equal"
}

// part names the part of the section a byte offset lies in.
func (s *Sec) part(off int) string {
	if off < 14 {
		return "header"
	}
	n := 14 + len(s.cmdBits(nil))
	if off < n {
		return fmt.Sprintf("command %#x", s.Cmd.Kind)
	}
	n += 2
	if off < n {
		return "descriptor_loop_length"
	}
	for i := range s.Descs {
		n += len(s.Descs[i].bits(nil))
		if off < n {
			return fmt.Sprintf("descriptor %d", s.Descs[i].Kind)
		}
	}
	return "tail"
}

func diffPart(s *Sec, want, got []byte) string {
	if len(want) != len(got) {
		return "length"
	}
	for i := range want {
		if want[i] != got[i] {
			return s.part(i)
		}
	}
	return ""
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func isSubset(want, got string) (missing string) {
	have := map[string]bool{}
	for _, l := range strings.Split(got, "\n") {
		have[l] = true
	}
	for _, l := range strings.Split(want, "\n") {
		if l == "" || have[l] || strings.HasSuffix(l, "="+wild) {
			continue
		}
		return l
	}
	return ""
}

// diffWild is diff, where a wanted value of * matches anything.
func diffWild(want, got string) (sig, detail string) {
	if !strings.Contains(want, "="+wild+"\n") {
		return diff(want, got)
	}
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	if len(w) == len(g) {
		for i := range w {
			if p, ok := strings.CutSuffix(w[i], "="+wild); ok && strings.HasPrefix(g[i], p+"=") {
				g[i] = w[i]
			}
		}
	}
	return diff(strings.Join(w, "\n"), strings.Join(g, "\n"))
}

var utc = time.UTC
