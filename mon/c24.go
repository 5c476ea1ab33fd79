package mon

// C24: a result depends on its input alone. The same inputs are given to
// several processes which differ in everything else (environment, directory,
// processors, garbage collection, clock, order, history), and each process
// watches what else is touched while it works.

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"encoding/xml"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// digIn is one input for a digest process.
type digIn struct {
	Src   string `json:"s"`
	Data  []byte `json:"d"`
	Sound bool   `json:"ok"` // a signal or document without any fault
}

type digJob struct {
	In     []digIn `json:"in"`
	Order  []int   `json:"order"`
	Clock  int64   `json:"clock"`  // seconds since 2000, 0: the real clock
	Logger bool    `json:"logger"` // leave Logger as it is
	Scan   string  `json:"scan"`   // a directory to be watched
}

type digOut struct {
	Val  [][]string `json:"val"`  // by input: results of the operations
	Logs []string   `json:"logs"` // by input: what was written to Logger
	Else string     `json:"else"` // what else happened
	IO   [2]int64   `json:"io"`   // bytes read and written while working
}

// digOps are the operations of a digest.
func digOps() (names []string) {
	names = []string{"result", "diagnosis"}
	for _, o := range readOps {
		names = append(names, o.name)
	}
	return append(names, "again")
}

func short(b []byte) string {
	if len(b) <= 200 {
		return string(b)
	}
	return fmt.Sprintf("%.200s... (%d bytes, %016x)", b, len(b), hash64(b))
}

// digOne handles one input with everything there is.
func digOne(in digIn) (out []string) {
	keep := func(b []byte) { out = append(out, base64.StdEncoding.EncodeToString([]byte(short(b)))) }
	guard := func(f func() []byte) {
		defer func() {
			if e := recover(); e != nil {
				keep([]byte(fmt.Sprint("panic: ", e)))
			}
		}()
		keep(f())
	}
	x := &SIS{}
	var err error
	data := append([]byte{}, in.Data...)
	guard(func() []byte {
		switch in.Src {
		case srcBinary.name:
			err = x.Decode(data)
		case srcB64.name:
			x, err = scte35.DecodeBase64(string(data))
		case srcHex.name:
			x, err = scte35.DecodeHex(string(data))
		case srcJSON.name:
			err = json.Unmarshal(data, x)
		default:
			err = xml.Unmarshal(data, x)
		}
		if x == nil {
			x = &SIS{}
		}
		return dumpOf(x)
	})
	keep([]byte(fmt.Sprint(err)))
	for _, o := range readOps {
		guard(func() []byte { return o.f(x) })
	}
	guard(func() []byte { touch(x); return dumpOf(x) })
	return
}

// dumpOf writes a section down, all exported fields by their names.
func dumpOf(x any) []byte {
	var b bytes.Buffer
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 20 {
			return
		}
		switch v.Kind() {
		case reflect.Pointer, reflect.Interface:
			if v.IsNil() {
				b.WriteString("nil ")
				return
			}
			fmt.Fprintf(&b, "*%s ", v.Elem().Type())
			walk(v.Elem(), depth+1)
		case reflect.Struct:
			if t, ok := v.Interface().(time.Time); ok {
				fmt.Fprint(&b, t.UnixNano(), " ")
				return
			}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					fmt.Fprintf(&b, "%s:", v.Type().Field(i).Name)
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice, reflect.Array:
			fmt.Fprintf(&b, "[%d ", v.Len())
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		default:
			fmt.Fprintf(&b, "%q ", fmt.Sprint(v.Interface()))
		}
	}
	walk(reflect.ValueOf(x), 0)
	return b.Bytes()
}

// surroundings is what operations have no business with.
func surroundings(scan string) map[string]string {
	m := map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	m["environment"] = strings.Join(env, "\n")
	m["working directory"], _ = os.Getwd()
	var fds []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && !strings.HasPrefix(l, "/proc/") && !strings.HasPrefix(l, "anon_inode") {
			fds = append(fds, e.Name()+" "+l)
		}
	}
	m["open files"] = strings.Join(fds, ", ")
	m["processors in use"] = fmt.Sprint(runtime.GOMAXPROCS(0))
	m["local time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	m["UTC"] = fmt.Sprintf("%p %s", time.UTC, time.UTC)
	m["standard streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	m["default logger"] = fmt.Sprintf("%p %d %q %p", log.Default(), log.Flags(), log.Prefix(), log.Writer())
	l := scte35.Logger
	m["Logger"] = fmt.Sprintf("%p %d %q %p", l, l.Flags(), l.Prefix(), l.Writer())
	m["arguments"] = strings.Join(os.Args, " ")
	m["errors"] = fmt.Sprintf("%p %p %p %p %p", scte35.ErrBufferOverflow, scte35.ErrBufferUnderflow, scte35.ErrCRC32Invalid, scte35.ErrUnsupportedEncoding, io.EOF)
	m["base64"] = fmt.Sprintf("%p %p %p %p", base64.StdEncoding, base64.URLEncoding, base64.RawStdEncoding, base64.RawURLEncoding)
	nf := 0
	flag.VisitAll(func(*flag.Flag) { nf++ })
	m["flags"] = fmt.Sprint(nf)
	var files []string
	_ = filepath.Walk(scan, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			files = append(files, fmt.Sprint(p, fi.Size(), fi.Mode(), fi.ModTime().UnixNano()))
		}
		return nil
	})
	m["files in the directory"] = strings.Join(files, "\n")
	return m
}

// procIO is what this process has read and written so far, without the wake-ups
// of the runtime, which are transfers of 8 bytes.
func procIO() [2]int64 {
	var n [4]int64
	b, err := os.ReadFile("/proc/self/io")
	if err != nil {
		return [2]int64{}
	}
	fmt.Sscanf(string(b), "rchar: %d\nwchar: %d\nsyscr: %d\nsyscw: %d", &n[0], &n[1], &n[2], &n[3])
	return [2]int64{n[0] - 8*n[2], n[1] - 8*n[3]}
}

// ioOwn is what reading these numbers itself reads.
func ioOwn() int64 {
	a := procIO()
	b := procIO()
	return b[0] - a[0]
}

// digest is the main program of a digest process.
func digest(job, out string) {
	var j digJob
	b, err := os.ReadFile(job)
	must(err)
	must(json.Unmarshal(b, &j))
	var o digOut
	o.Val = make([][]string, len(j.In))
	o.Logs = make([]string, len(j.In))
	var lb bytes.Buffer
	if !j.Logger {
		scte35.Logger = log.New(&lb, "mon ", log.LUTC|log.Lmsgprefix)
	}
	work := func() {
		g0 := runtime.NumGoroutine()
		before := surroundings(j.Scan)
		io0 := procIO()
		for _, i := range j.Order {
			lb.Reset()
			v := digOne(j.In[i])
			if o.Val[i] == nil {
				o.Val[i] = v
			} else if k := differs(o.Val[i], v); k >= 0 {
				o.Else = fmt.Sprintf("input %d: %s gives %s, then %s", i, digOps()[k], unB64(o.Val[i][k]), unB64(v[k]))
			}
			o.Logs[i] += lb.String()
		}
		io1 := procIO()
		o.IO = [2]int64{io1[0] - io0[0] - ioOwn(), io1[1] - io0[1]}
		after := surroundings(j.Scan)
		for k, v := range before {
			if after[k] != v {
				o.Else = fmt.Sprintf("changed: %s: before %q, after %q", k, v, after[k])
			}
		}
		if j.Clock == 0 {
			for try := 0; runtime.NumGoroutine() > g0; try++ {
				if try == 500 {
					o.Else = fmt.Sprintf("goroutines: %d before, %d after", g0, runtime.NumGoroutine())
					break
				}
				time.Sleep(2 * time.Millisecond)
			}
		}
	}
	done := func() {
		b, err := json.Marshal(&o)
		must(err)
		must(os.WriteFile(out, b, 0o644))
	}
	if j.Clock == 0 {
		work()
		done()
		os.Exit(0)
	}
	// a clock of its own
	os.Args = os.Args[:1]
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "clock", F: func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			time.Sleep(time.Duration(j.Clock) * time.Second)
			work()
			if g, w := time.Now().Unix()-j.Clock, int64(946684800); g < w || g > w+86400 {
				must(fmt.Errorf("the clock is not where it should be"))
			}
		})
		done()
		os.Exit(0)
	}}}, nil, nil)
	os.Exit(4)
}

func unB64(s string) string {
	b, _ := base64.StdEncoding.DecodeString(s)
	return fmt.Sprintf("%q", b)
}

// differs is the first place where two results differ, or -1.
func differs(a, b []string) int {
	for k := range a {
		if k >= len(b) || a[k] != b[k] {
			return k
		}
	}
	return -1
}

// ioNoise is below any output or file worth the name.
const ioNoise = 32

var fileName = regexp.MustCompile(`^[.A-Za-z0-9_-]{1,40}\.[a-z]{2,6}$|^\.[a-z0-9]{2,20}$`)
var envName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_]{1,40}$`)

// oddEnv is an environment nobody would expect.
func (c *ctx) oddEnv(home string) (env []string) {
	for _, s := range c.dict.strs {
		if envName.MatchString(s) && s != "GOCOVERDIR" && s != "PATH" {
			env = append(env, s+"="+[]string{"1", "true", "0", "debug", "no", "x,y", "/tmp", "255"}[c.Intn(8)])
		}
	}
	for _, n := range []string{"DEBUG", "VERBOSE", "SCTE35", "SCTE35_DEBUG", "SCTE35_STRICT", "STRICT", "TRACE", "LOG_LEVEL", "CI", "NO_COLOR", "TERM", "COLUMNS"} {
		env = append(env, n+"="+[]string{"1", "true", "debug", "80"}[c.Intn(4)])
	}
	l := []string{"tr_TR.UTF-8", "de_DE@euro", "ar_EG", "ja_JP.SJIS", "C.UTF-8"}[c.Intn(5)]
	env = append(env, "LANG="+l, "LC_ALL="+l, "LC_NUMERIC="+l, "HOME="+home, "XDG_CONFIG_HOME="+home, "USER=nobody", "TMPDIR=/nonexistent", "PATH=", "SOURCE_DATE_EPOCH=1", "GODEBUG=madvdontneed=1")
	return
}

func (c *ctx) c24batch(bi int, n int) {
	var j digJob
	sig := map[string]int{}
	for i := 0; i < n; i++ {
		var in digIn
		if c.Intn(2) == 0 {
			s := c.sec()
			st := c.style()
			in.Sound = true
			switch c.Intn(5) {
			case 0, 1:
				in.Src, in.Data = srcBinary.name, s.Bits(nil)
			case 2:
				in.Src, in.Data = srcB64.name, []byte(base64.StdEncoding.EncodeToString(s.Bits(nil)))
			case 3:
				in.Src, in.Data = srcJSON.name, []byte(st.JSON(s.docOf()))
			default:
				in.Src, in.Data = srcXML.name, []byte(st.XML(s.xmlText().docOf()))
			}
		} else {
			src, b := c.inputOf(c.Intn(10))
			in.Src, in.Data = src.name, b
		}
		if len(in.Data) > 1<<14 {
			i--
			continue
		}
		// the same input again, later
		if i > 0 && c.Intn(12) == 0 {
			in = j.In[c.Intn(i)]
		}
		sig[in.Src]++
		j.In = append(j.In, in)
		c.distinct(in.Data)
	}
	all := make([]int, n)
	for i := range all {
		all[i] = i
	}
	type variant struct {
		name   string
		order  []int
		env    []string
		dir    string
		clock  int64
		logger bool
		zone   string
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	shuffled := c.Perm(n)
	noise := append(append([]int{}, c.Perm(n)...), c.Perm(n)...)
	clocks := []int64{1, 86399, 59*86400 + 3600, 394329599 /* 2012-06-30 */, 536500799 /* end of 2016 */, 1139000000, 1140000000 /* 2036 */, 1199145600 /* 2038 */, 3344000000 /* beyond 32 bits */, 631152000, 820454400, 5*86400 + 43200}
	root, err := os.MkdirTemp("", "mon24-")
	must(err)
	defer os.RemoveAll(root)
	scan := filepath.Join(root, "cwd")
	empty := filepath.Join(root, "empty")
	must(os.Mkdir(empty, 0o755))
	must(os.Mkdir(scan, 0o755))
	// files which a program could mistake for its own
	for _, n := range append([]string{"scte35.json", ".env", ".scte35", "config.json", "config.yaml", ".scte35.yaml"}, c.dict.strs...) {
		if fileName.MatchString(n) {
			_ = os.WriteFile(filepath.Join(scan, n), []byte([]string{"{}", "strict=1\ndebug=1\n", "1", "debug: true\n", ""}[c.Intn(5)]), 0o644)
		}
	}
	must(os.MkdirAll(filepath.Join(root, "cov"), 0o755))
	vs := []variant{
		{name: "as usual", order: all},
		{name: "in reverse order", order: rev},
		{name: "a third of the inputs", order: shuffled[:n/3]},
		{name: "everything twice", order: noise},
		{name: "one processor and little memory", order: all, env: []string{"GOMAXPROCS=1", "GOGC=5"}},
		{name: "another environment", order: shuffled, env: c.oddEnv(scan)},
		{name: "another time zone", order: all, zone: localNames[1+c.Intn(len(localNames)-1)]},
		{name: "another directory", order: all, dir: scan},
		{name: "another time", order: all, clock: clocks[c.Intn(len(clocks))]},
		{name: "its own Logger", order: rev, logger: true},
	}
	exe, err := os.Executable()
	must(err)
	ops := digOps()
	var base digOut
	for vi, v := range vs {
		if v.dir == "" {
			v.dir = empty
		}
		j.Order, j.Clock, j.Logger, j.Scan = v.order, v.clock, v.logger, v.dir
		b, err := json.Marshal(&j)
		must(err)
		jf, of := filepath.Join(root, "job"), filepath.Join(root, "out")
		must(os.WriteFile(jf, b, 0o644))
		_ = os.Remove(of)
		cmd := exec.Command(exe, "digest", jf, of)
		cmd.Dir = v.dir
		if v.env != nil {
			cmd.Args[0] = []string{"scte35-go", "x.test", "mon", ""}[c.Intn(4)]
		}
		z := v.zone
		if z == "" {
			z = "UTC"
		}
		if v.env == nil {
			cmd.Env = []string{"GOMAXPROCS=2", "PATH=/usr/bin:/bin", "HOME=/", "LC_ALL=C"}
		} else {
			cmd.Env = append(cmd.Env, v.env...)
		}
		cmd.Env = append(cmd.Env, "TZ="+z, "GOCOVERDIR="+filepath.Join(root, "cov"))
		var so, se limitedBuf
		cmd.Stdout, cmd.Stderr = &so, &se
		c.setInput("batch %d of %d inputs, %s (clock %d, %v)", bi, n, v.name, v.clock, v.env)
		c.eval()
		timer := time.AfterFunc(5*time.Minute, func() { _ = cmd.Process.Kill() })
		err = cmd.Run()
		timer.Stop()
		if err != nil {
			if strings.Contains(se.String(), "monitor error") {
				must(fmt.Errorf("digest: %s", se.String()))
			}
			c.fail("process ends", "%s: %v, stdout %.300q, stderr %.1500s", v.name, err, so.String(), se.String())
			return
		}
		c.see(v.name)
		var o digOut
		b, err = os.ReadFile(of)
		must(err)
		must(json.Unmarshal(b, &o))
		if so.String() != "" {
			c.fail("output on stdout", "%s: %.400q", v.name, so.String())
		}
		if !v.logger && se.String() != "" {
			c.fail("output on stderr", "%s: with Logger elsewhere, stderr has %.400q", v.name, se.String())
		}
		if o.Else != "" {
			kind, _, _ := strings.Cut(o.Else, ":")
			if kind == "changed" {
				kind = strings.Join(strings.SplitN(o.Else, ":", 3)[:2], ":")
			} else if strings.HasPrefix(kind, "input ") {
				kind = "repetition"
			}
			c.fail(kind, "%s: %s", v.name, o.Else)
		}
		if !v.logger && (o.IO[0] > ioNoise || o.IO[1] > ioNoise) {
			c.fail("reads or writes elsewhere", "%s: %d bytes read and %d written while handling %d inputs", v.name, o.IO[0], o.IO[1], len(v.order))
		}
		for _, i := range v.order {
			in := j.In[i]
			if in.Sound && o.Logs[i] != "" {
				c.setInput("%s of %s", in.Src, show(in))
				c.fail("a sound input is logged about", "%s: %.300q", v.name, o.Logs[i])
			}
			if o.Logs[i] != "" {
				c.see("diagnostics through Logger")
			}
			if !in.Sound {
				c.see("faulty input")
			}
			if vi == 0 {
				continue
			}
			c.evals += int64(len(ops))
			if k := differs(base.Val[i], o.Val[i]); k >= 0 {
				c.setInput("%s of %s", in.Src, show(in))
				c.fail("depends on the process: "+ops[k], "%s: %s gives %s, otherwise %s", v.name, ops[k], unB64(o.Val[i][k]), unB64(base.Val[i][k]))
			}
		}
		if v.logger && se.String() != "" {
			c.see("default Logger writes to stderr")
		}
		if vi == 0 {
			base = o
		}
	}
	c.setInput("batch %d: %v", bi, sig)
	c.sampleCase(fmt.Sprintf("%d processes agree on %d inputs", len(vs), n))
}

func show(in digIn) string {
	if in.Src == srcBinary.name {
		return hx(in.Data)
	}
	return string(in.Data)
}

// c24often repeats one operation very often in one process: what has been
// done before, however much, does not show.
func (c *ctx) c24often(i int) {
	reps := 66000
	if c.tier == "thorough" {
		reps = 1 << 20
	}
	kind := i % (len(readOps) + 5)
	s := c.sec()
	for try := 0; len(s.Bits(nil)) > 160 && try < 200; try++ {
		s = c.sec()
	}
	if len(s.Bits(nil)) > 160 {
		s.Descs, s.Stuff, s.Cmd = nil, nil, Cmd{Kind: cmdNull}
	}
	if i/(len(readOps)+5)%2 == 0 { // everything small in one
		s.Descs = nil
		for k := range descKinds {
			for try := 0; try < 200; try++ {
				t := Sec{HasCmd: true, Cmd: Cmd{Kind: cmdNull}, Descs: []Desc{c.descOf(descKinds[k])}}
				if len(t.Bits(nil)) < 60 {
					s.Descs = append(s.Descs, t.Descs[0])
					break
				}
			}
		}
	}
	b := s.Bits(nil)
	x := &SIS{}
	if !c.op("Decode", func() { _ = x.Decode(b) }) {
		return
	}
	var name string
	var f func() []byte
	if kind < len(readOps) {
		o := readOps[kind]
		name, f = o.name, func() []byte { return o.f(x) }
	} else {
		st := c.style()
		src := []source{srcBinary, srcB64, srcHex, srcJSON, srcXML}[kind-len(readOps)]
		in := b
		switch src.name {
		case srcB64.name:
			in = []byte(base64.StdEncoding.EncodeToString(b))
		case srcHex.name:
			in = []byte(fmt.Sprintf("%x", b))
		case srcJSON.name:
			in = []byte(st.JSON(s.docOf()))
		case srcXML.name:
			in = []byte(st.XML(s.xmlText().docOf()))
		}
		name, f = src.name, func() []byte { return dumpOf(src.f(append([]byte{}, in...))) }
	}
	c.setInput("%s again and again with %s", name, hx(b))
	c.distinct([]byte(c.input))
	c.repeat(name, reps, f)
	c.see("repeated often")
}

// c24codes repeats what depends on the values of coded fields, all of their
// assigned values in turn.
func (c *ctx) c24codes(i int) {
	reps := 66000
	if c.tier == "thorough" {
		reps = 400000
	}
	var types []uint32
	for t := range segNames {
		types = append(types, t)
	}
	sort.Slice(types, func(a, b int) bool { return types[a] < types[b] })
	const chunk = 9
	n := (len(types) + chunk - 1) / chunk
	types = types[i/3%n*chunk:]
	types = types[:min(chunk, len(types))]
	s := &Sec{SAP: uint32(i / 3 % 4), HasCmd: true, Cmd: Cmd{Kind: cmdTime}, Tier: 0xFFF}
	u := uint32(0)
	for k, t := range types {
		g := &Seg{ID: uint32(k), Compliance: true, TypeID: t, Restr: &Restr{k%2 == 0, k%3 == 0, k%4 == 0, uint32(k % 4)}}
		for q := 0; q < 2; q++ {
			if u == 0x0d {
				u++
			}
			g.UPIDs = append(g.UPIDs, c.upidOf(u%0x12, 12))
			u++
		}
		s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: g})
	}
	if i%2 == 0 {
		s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: &Seg{ID: 1, Compliance: true, TypeID: types[0], UPIDs: []UPID{refUPID(0x0a, append([]byte{20, byte(117 + i/2%4)}, c.bytesN(10)...))}}})
	}
	b := s.Bits(nil)
	x := &SIS{}
	if !c.op("Decode", func() { _ = x.Decode(b) }) {
		return
	}
	name, f := "Table", func() []byte { return []byte(x.Table("", " ")) }
	switch i % 3 {
	case 0:
		reps /= 3
	case 1:
		name, f = "accessors", func() []byte { return []byte(accessors(x)) }
	case 2:
		name, f = "Decode and Encode", func() []byte {
			y := &SIS{}
			_ = y.Decode(b)
			e, _ := y.Encode()
			return e
		}
	}
	c.setInput("%s again and again with %s", name, hx(b))
	c.distinct([]byte(c.input))
	c.repeat(name, reps, f)
	c.see("codes repeated often")
}

// repeat does the same very often, with the same result each time.
func (c *ctx) repeat(name string, reps int, f func() []byte) {
	var first []byte
	for k := 0; k < reps; k += 500 {
		ok := c.op(name+" again", func() {
			for q := 0; q < 500; q++ {
				out := f()
				if first == nil {
					first = append([]byte{}, out...)
				}
				if !bytes.Equal(first, out) {
					c.fail("depends on the count: "+name, "repetition %d of %s gives %s, the first %s", k+q, name, short(out), short(first))
					k = reps
					return
				}
			}
		})
		if !ok {
			return
		}
	}
}

// c24many handles many different inputs in one process and looks at the first
// again after each thousand.
func (c *ctx) c24many(i int) {
	n := 6000
	if c.tier == "thorough" {
		n = 200000
	}
	type done struct {
		in  digIn
		val uint64
	}
	one := func(in digIn) (v uint64) {
		c.setInput("%s of %s", in.Src, show(in))
		c.op("all operations", func() {
			var b []byte
			for _, s := range digOne(in) {
				b = append(b, s...)
			}
			v = hash64(b)
		})
		return
	}
	var kept []done
	for k := 0; k < n; k++ {
		src, b := c.inputOf(k)
		for try := 0; len(b) > 400 && try < 50; try++ {
			src, b = c.inputOf(c.Intn(10))
		}
		in := digIn{Src: src.name, Data: b}
		v := one(in)
		if len(kept) < 60 {
			kept = append(kept, done{in, v})
		}
		if k%1000 == 999 {
			for _, d := range kept {
				if w := one(d.in); w != d.val {
					c.fail("depends on the history", "another result after %d other inputs", k+1)
					return
				}
			}
		}
	}
	c.distinct([]byte(fmt.Sprint("many", i)))
	c.see("again after many others")
}

func init() {
	register(&check{
		id:     "C24",
		rule:   "batches of sound and faulty inputs in all formats handled by separate processes which differ in order, history, environment variables, working directory, time zone, processors, garbage collection, clock and Logger; every result compared, output streams, log and process-wide state watched; distinct by input",
		assume: []string{"the text of diagnostics is not judged", "processes run as the same user on the same machine"},
		need: []string{"as usual", "in reverse order", "a third of the inputs", "everything twice", "one processor and little memory", "another environment", "another time zone", "another directory",
			"another time", "its own Logger", "diagnostics through Logger", "faulty input", "default Logger writes to stderr", "repeated often", "codes repeated often", "again after many others"},
		families: []family{
			{name: "often", quick: 2 * (len(readOps) + 5), thorough: 16 * (len(readOps) + 5), fn: func(c *ctx, i int) { c.c24often(i) }},
			{name: "codes", quick: 18, thorough: 72, fn: func(c *ctx, i int) { c.c24codes(i) }},
			{name: "many", quick: 8, thorough: 24, fn: func(c *ctx, i int) { c.c24many(i) }},
			{name: "processes", quick: 48, thorough: 1600, fn: func(c *ctx, i int) { c.c24batch(i, 250) }},
		},
	})
}
