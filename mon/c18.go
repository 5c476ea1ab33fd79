package mon

// C18: the command line tool says what the library says. Every case runs the
// built tool as a process, with its arguments and standard input, and compares
// what it wrote with the library's answer for the same signal or document.

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"syscall"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

var cliPath = os.Getenv("VERIF_CLI")

type cliResult struct {
	stdout, stderr, both string
	crashed              string
}

// cliInput is how standard input is fed: all at once, or in pieces.
type cliInput struct {
	data   []byte
	pieces []int
	pause  time.Duration
}

func (r cliInput) feed(w io.WriteCloser) {
	defer w.Close()
	d := r.data
	for _, n := range r.pieces {
		if n > len(d) {
			break
		}
		if _, err := w.Write(d[:n]); err != nil {
			return
		}
		d = d[n:]
		time.Sleep(r.pause)
	}
	_, _ = w.Write(d)
}

// cli runs the tool. With merge both streams go to one pipe.
func (c *ctx) cli(merge bool, in *cliInput, args ...string) cliResult {
	var so, se bytes.Buffer
	cmd := exec.Command(cliPath, args...)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "TZ=" + c.tz, "GOMAXPROCS=2"}
	cmd.Dir = c.dir
	cmd.Stdout, cmd.Stderr = &so, &se
	if merge {
		cmd.Stderr = &so
	}
	var w io.WriteCloser
	if in != nil {
		var err error
		w, err = cmd.StdinPipe()
		must(err)
	}
	must(cmd.Start())
	done := make(chan struct{})
	if in != nil {
		go func() { in.feed(w); close(done) }()
	} else {
		close(done)
	}
	hung := false
	t := time.AfterFunc(180*time.Second, func() { hung = true; _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	<-done
	c.evals++
	r := cliResult{stdout: so.String(), stderr: se.String()}
	if merge {
		r.both, r.stdout, r.stderr = so.String(), "", ""
	}
	switch {
	case hung:
		r.crashed = "does not end"
	case err != nil:
		if x, ok := err.(*exec.ExitError); ok {
			if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				r.crashed = "killed by " + ws.Signal().String()
			}
		}
	}
	for _, l := range strings.Split(so.String()+"\n"+se.String(), "\n") {
		if (strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ")) && strings.Contains(so.String()+se.String(), "\ngoroutine ") {
			r.crashed = l
		}
	}
	return r
}

// sameText compares a rendering of the tool with the library's: layout white
// space between lines, members and elements is not the tool's promise.
func sameText(format, got, want string) bool {
	if got == want {
		return true
	}
	switch format {
	case "json":
		var a, b bytes.Buffer
		return json.Compact(&a, []byte(got)) == nil && json.Compact(&b, []byte(want)) == nil && a.String() == b.String()
	case "xml":
		f := func(s string) string {
			p := strings.Split(s, ">")
			for i := range p {
				if t := strings.TrimLeft(p[i], " \t\r\n"); strings.HasPrefix(t, "<") || t == "" {
					p[i] = t
				}
			}
			return strings.Join(p, ">")
		}
		return f(got) == f(want)
	}
	f := func(s string) string {
		l := strings.Split(strings.TrimRight(s, "\n"), "\n")
		for i := range l {
			l[i] = strings.TrimLeft(l[i], " \t")
		}
		return strings.Join(l, "\n")
	}
	return f(got) == f(want)
}

// c18decode compares one run of decode.
func (c *ctx) c18decode(arg string) {
	format := []string{"text", "json", "xml"}[c.Intn(3)]
	var args []string
	switch k := c.Intn(6); {
	case format == "text" && k < 4:
		args = []string{"decode", arg}
	case k%3 == 0:
		args = []string{"decode", "--out", format, arg}
	case k%3 == 1:
		args = []string{"decode", arg, "--out=" + format}
	default:
		args = []string{"decode", "--out=" + format, "--", arg}
	}
	if strings.HasPrefix(arg, "-") {
		args = []string{"decode", "--out", format, "--", arg}
	}
	if strings.Contains(arg, "\x00") || len(arg) > 120000 {
		return
	}
	c.setInput("%q", args)
	c.distinct([]byte(c.input))
	var x *SIS
	var err error
	var want string
	if !c.op("decode and render", func() {
		if strings.HasPrefix(arg, "0x") {
			x, err = scte35.DecodeHex(arg)
		} else {
			x, err = scte35.DecodeBase64(arg)
		}
		switch format {
		case "json":
			b, _ := json.MarshalIndent(x, "", "\t")
			want = string(b)
		case "xml":
			b, _ := xml.MarshalIndent(x, "", "\t")
			want = string(b)
		default:
			want = x.Table("", "\t")
		}
	}) {
		return
	}
	merge := c.Intn(4) == 0
	r := c.cli(merge, nil, args...)
	c.see("decode " + format)
	if strings.HasPrefix(arg, "0x") {
		c.see("decode hex")
	} else {
		c.see("decode base64")
	}
	if err != nil {
		c.see("decode with error " + errClass(err))
	}
	if r.crashed != "" {
		c.fail("decode crashes: "+format, "%s; %s", r.crashed, tail(r.stderr, 1500))
		return
	}
	if merge {
		// the error comes after the rendering
		i := strings.Index(r.both, strings.TrimRight(want, "\n"))
		if i < 0 {
			return // log lines may be in between; the separate runs judge the text
		}
		rest := r.both[i+len(strings.TrimRight(want, "\n")):]
		switch {
		case err != nil && !strings.Contains(rest, err.Error()):
			c.fail("decode: error not after the rendering", "no %q after the rendering: %q", err, tail(r.both, 600))
		case err == nil && strings.TrimSpace(rest) != "":
			c.fail("decode: output after the rendering", "%q", rest)
		}
		return
	}
	if !sameText(format, r.stdout, want+"\n") {
		_, d := diff(want+"\n", r.stdout)
		c.fail("decode prints something else: "+format, "%s", d)
	}
	if err != nil && !strings.Contains(r.stderr, err.Error()) {
		c.fail("decode: error missing", "stderr %q does not say %q", tail(r.stderr, 600), err)
	}
	if err == nil {
		for _, l := range strings.Split(r.stderr, "\n") {
			if strings.HasPrefix(strings.ToLower(l), "error") {
				c.fail("decode: error reported for a sound signal", "stderr %q", l)
				break
			}
		}
	}
	if c.Intn(300) == 0 {
		c.sampleCase(fmt.Sprintf("stdout equal to the library's %s (%d bytes), stderr %q", format, len(r.stdout), oneLine(r.stderr)))
	}
}

// c18encode compares one run of encode.
func (c *ctx) c18encode(doc string) {
	asArg := len(doc) < 120000 && !strings.Contains(doc, "\x00") && !strings.HasPrefix(doc, "-") && c.Intn(3) == 0
	how := "stdin"
	if asArg {
		how = "argument"
	}
	c.setInput("encode by %s: %s", how, doc)
	c.distinct([]byte(c.input))
	kind := ""
	switch t := strings.TrimSpace(doc); {
	case strings.HasPrefix(t, "<"):
		kind = "xml"
	case strings.HasPrefix(t, "{"):
		kind = "json"
	case strings.HasPrefix(doc, "\ufeff"): // XML documents may start with a byte order mark
		if strings.HasPrefix(strings.TrimSpace(t[3:]), "<") {
			kind = "xml"
			c.see("byte order mark")
		}
	}
	var x *SIS
	var err error
	var bin []byte
	if !c.op("unmarshal and encode", func() {
		switch kind {
		case "xml":
			err = xml.Unmarshal([]byte(doc), &x)
		case "json":
			err = json.Unmarshal([]byte(doc), &x)
		default:
			err = fmt.Errorf("neither JSON nor XML")
		}
		if err == nil {
			bin, err = x.Encode()
		}
	}) {
		return
	}
	var r cliResult
	if asArg {
		var in *cliInput
		if c.Intn(3) == 0 { // the argument takes precedence over the input
			in = &cliInput{data: []byte(`{"spliceCommand":{"type":0}}`)}
		}
		r = c.cli(false, in, "encode", doc)
	} else {
		in := &cliInput{data: []byte(doc)}
		switch c.Intn(5) {
		case 0:
			for n := 1 + c.Intn(6); n > 0; n-- {
				in.pieces = append(in.pieces, 1+c.Intn(len(doc)+1))
			}
			in.pause = time.Duration(c.Intn(3)) * time.Millisecond
			c.see("stdin in pieces")
		case 1:
			for n := min(len(doc), 20); n > 0; n-- {
				in.pieces = append(in.pieces, 1)
			}
			c.see("stdin in pieces")
		}
		r = c.cli(false, in, "encode")
	}
	cls := kind
	if cls == "" {
		cls = "neither"
	}
	if err != nil {
		c.see("encode " + cls + " error")
	} else {
		c.see("encode " + cls + " by " + how)
	}
	if len(doc) > 70000 {
		c.see("large document")
		if !strings.Contains(doc, "\n") {
			c.see("large document in one line")
		}
	}
	if r.crashed != "" {
		c.fail("encode crashes: "+cls, "%s; %s", r.crashed, tail(r.stderr, 1500))
		return
	}
	if err != nil {
		if kind == "" && strings.TrimSpace(doc) != "" {
			// not a document at all: an error either way, its text is free
			if strings.TrimSpace(r.stderr) == "" {
				c.fail("encode: no error", "no error for %q", oneLine(doc))
			}
			if hasToken(r.stdout) {
				c.fail("encode: output without a document", "stdout %q", oneLine(r.stdout))
			}
			return
		}
		if strings.TrimSpace(r.stderr) == "" {
			c.fail("encode: no error: "+cls, "the library says %q, the tool nothing", err)
		}
		if strings.TrimSpace(r.stdout) != "" {
			c.fail("encode: output despite an error: "+cls, "stdout %q, the library says %q", oneLine(r.stdout), err)
		}
		return
	}
	w64, whex := base64.StdEncoding.EncodeToString(bin), hex.EncodeToString(bin)
	n64, nhex, others := 0, 0, 0
	for _, f := range strings.Fields(r.stdout) {
		switch {
		case f == w64:
			n64++
		case strings.EqualFold(f, whex) || strings.EqualFold(f, "0x"+whex):
			nhex++
		case len(f) >= 12:
			others++
		}
	}
	if n64 != 1 || nhex != 1 || others > 0 {
		c.fail("encode prints something else: "+cls+" by "+how, "stdout %q stderr %q; the library gives %s %s", oneLine(r.stdout), oneLine(r.stderr), w64, whex)
	}
	for _, l := range strings.Split(r.stderr, "\n") {
		if strings.HasPrefix(strings.ToLower(l), "error") {
			c.fail("encode: error for a sound document", "stderr %q", l)
			break
		}
	}
	if c.Intn(300) == 0 {
		c.sampleCase("stdout " + oneLine(r.stdout))
	}
}

// hasToken: something which looks like an encoded section.
func hasToken(s string) bool {
	for _, f := range strings.Fields(s) {
		if strings.HasPrefix(f, "/D") && len(f) > 20 || strings.HasPrefix(f, "fc3") && len(f) > 30 {
			return true
		}
	}
	return false
}

// signalText is a signal as text, sometimes not quite.
func (c *ctx) signalText(b []byte) string {
	switch c.Intn(8) {
	case 0:
		return "0x" + strings.ToUpper(hex.EncodeToString(b))
	case 1, 2, 3:
		return "0x" + hex.EncodeToString(b)
	default:
		return base64.StdEncoding.EncodeToString(b)
	}
}

// document is a document of a section in some producer's style.
func (c *ctx) document(i int) string {
	s := c.sec()
	switch i % 6 {
	case 0: // the library's own
		x := s.canon().ToLib()
		var b []byte
		switch c.Intn(4) {
		case 0:
			b, _ = json.Marshal(x)
		case 1:
			b, _ = json.MarshalIndent(x, "", "\t")
		case 2:
			b, _ = xml.Marshal(x)
		default:
			b, _ = xml.MarshalIndent(x, "", "  ")
		}
		return string(b)
	case 1, 2:
		return c.style().JSON(s.docOf())
	default:
		return c.style().XML(s.docOf())
	}
}

// stretch makes a document larger without changing what it says.
func (c *ctx) stretch(doc string, n int) string {
	pad := func(n int) string {
		switch c.Intn(4) {
		case 0:
			return strings.Repeat(" ", n)
		case 1:
			return strings.Repeat("\n", n)
		case 2:
			return strings.Repeat("\r\n", n/2)
		default:
			return strings.Repeat(" \t \n", n/4)
		}
	}
	if strings.HasPrefix(strings.TrimSpace(doc), "<") && c.coin() {
		p := "<!-- " + strings.Repeat([]string{"x", "comment ", "line\n", "<a>"}[c.Intn(4)], n/4) + " -->"
		if c.coin() || strings.HasPrefix(strings.TrimSpace(doc), "<?") {
			if k := strings.LastIndex(doc, "</"); k > 0 {
				return doc[:k] + p + doc[k:]
			}
			return doc + p
		}
		return p + doc
	}
	switch c.Intn(3) {
	case 0:
		return pad(n) + doc
	case 1:
		return doc + pad(n)
	}
	if strings.HasPrefix(doc, "{") {
		return "{" + pad(n) + doc[1:]
	}
	if k := strings.LastIndex(doc, "</"); k > 0 {
		return doc[:k] + pad(n) + doc[k:]
	}
	return doc + pad(n)
}

// c18faults: standard input which fails or is a file, and odd arguments.
func (c *ctx) c18faults(i int) {
	run := func(stdin *os.File, args ...string) (string, string, string) {
		var so, se bytes.Buffer
		cmd := exec.Command(cliPath, args...)
		cmd.Env = []string{"PATH=/usr/bin:/bin", "TZ=" + c.tz, "GOMAXPROCS=2"}
		cmd.Dir = c.dir
		cmd.Stdout, cmd.Stderr = &so, &se
		if stdin != nil {
			cmd.Stdin = stdin
		}
		must(cmd.Start())
		hung := false
		t := time.AfterFunc(180*time.Second, func() { hung = true; _ = cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		c.evals++
		crash := ""
		if x, ok := err.(*exec.ExitError); ok {
			if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				crash = "killed by " + ws.Signal().String()
			}
		}
		if hung {
			crash = "does not end"
		}
		if strings.Contains(se.String(), "\ngoroutine ") {
			crash = tail(se.String(), 800)
		}
		return so.String(), se.String(), crash
	}
	doc := c.document(i)
	switch i % 4 {
	case 0, 1:
		var f *os.File
		var err error
		what := []string{"a directory", "a file open for writing only", "nothing"}[i/4%3]
		switch i / 4 % 3 {
		case 0:
			f, err = os.Open(c.dir)
		case 1:
			f, err = os.CreateTemp(c.dir, "in")
			must(err)
			name := f.Name()
			f.Close()
			f, err = os.OpenFile(name, os.O_WRONLY, 0)
			defer os.Remove(name)
		case 2: // /dev/null
		}
		must(err)
		if f != nil {
			defer f.Close()
		}
		c.setInput("encode with standard input from %s", what)
		so, se, crash := run(f, "encode")
		c.see("standard input which cannot be read")
		switch {
		case crash != "":
			c.fail("encode crashes: unreadable input", "%s", crash)
		case hasToken(so):
			c.fail("encode: output without a document", "stdout %q", oneLine(so))
		case strings.TrimSpace(se) == "":
			c.fail("encode: no error: unreadable input", "standard input is %s; nothing on standard error, stdout %q", what, oneLine(so))
		}
	case 2:
		f, err := os.CreateTemp(c.dir, "in")
		must(err)
		defer os.Remove(f.Name())
		defer f.Close()
		_, err = f.WriteString(doc)
		must(err)
		_, err = f.Seek(0, 0)
		must(err)
		c.setInput("encode from a file: %s", doc)
		c.distinct([]byte(doc))
		var x *SIS
		var b []byte
		if !c.op("unmarshal and encode", func() {
			if strings.HasPrefix(strings.TrimSpace(doc), "<") {
				err = xml.Unmarshal([]byte(doc), &x)
			} else {
				err = json.Unmarshal([]byte(doc), &x)
			}
			if err == nil {
				b, err = x.Encode()
			}
		}) {
			return
		}
		so, se, crash := run(f, "encode")
		c.see("standard input from a file")
		switch {
		case crash != "":
			c.fail("encode crashes: file", "%s", crash)
		case err == nil && !(strings.Contains(so, base64.StdEncoding.EncodeToString(b)) && strings.Contains(strings.ToLower(so), hex.EncodeToString(b))):
			c.fail("encode prints something else: file", "stdout %q stderr %q, the library gives %x", oneLine(so), oneLine(se), b)
		case err != nil && strings.TrimSpace(se) == "":
			c.fail("encode: no error: file", "the library says %q, the tool nothing", err)
		}
	case 3:
		args := [][]string{{}, {"decode"}, {"encode", doc, doc}, {"decode", "AA", "AA"}, {"nothing"}, {"decode", "--nothing", "AA"}, {"encode", "--out=json", doc},
			{"decode", "--out"}, {"decode", "--out=", "/DAUAAAAAAAA///wAwUAAAAAAAAAAA=="}, {"decode", "--out=yaml", "AA"}, {"--help"}, {"help", "decode"}, {"encode", ""}, {"decode", ""}}[i/4%14]
		c.setInput("%q", args)
		so, _, crash := run(nil, args...)
		c.see("odd arguments")
		if crash != "" {
			c.fail("crash with odd arguments", "%s", crash)
		} else if len(args) > 0 && args[0] == "encode" && hasToken(so) {
			c.fail("encode: output without a document", "stdout %q", oneLine(so))
		}
	}
}

func init() {
	register(&check{
		id:     "C18",
		rule:   "runs of the built tool: decode of sound, broken, mutated and malformed signals in base64 and hex with every output format; encode of the library's and other producers' documents, damaged ones, and documents from 0 bytes to megabytes in one or many lines, as argument and on standard input in one or many writes, from files and from inputs which cannot be read; distinct by arguments and input",
		assume: []string{"arguments contain no NUL byte (the system cannot pass one); one starting with - follows --", "white space which lays out a table, JSON or XML is not compared", "log lines on stderr and the exit status are not judged; a panic, a signal or a hang is"},
		need:   []string{"decode text", "decode json", "decode xml", "decode hex", "decode base64", "decode with error crc", "decode with error overflow", "decode with error encoding", "encode json by stdin", "encode json by argument", "encode xml by stdin", "encode xml by argument", "encode json error", "encode xml error", "encode neither error", "large document", "large document in one line", "byte order mark", "stdin in pieces", "standard input which cannot be read", "standard input from a file", "odd arguments"},
		shards: 8,
		noSlow: true,
		families: []family{
			{name: "signals", quick: 6000, thorough: 30000, fn: func(c *ctx, i int) {
				s := c.sec()
				if i%3 == 0 {
					c.wireForm(s)
				}
				c.c18decode(c.signalText(s.Bits(nil)))
			}},
			{name: "broken", quick: 6000, thorough: 30000, fn: func(c *ctx, i int) {
				b := c.anySignal()
				if i%2 == 0 {
					r := c.rawOf(c.sec(), c.wire())
					r.breakUp(c.gen)
					b = r.bytes(c.gen)
				}
				c.c18decode(c.signalText(b))
			}},
			{name: "text", quick: 2500, thorough: 10000, fn: func(c *ctx, i int) {
				s := c.signalText(c.sec().Bits(nil))
				switch i % 8 {
				case 0:
					s = s[:c.Intn(len(s))]
				case 1:
					k := c.Intn(len(s))
					s = s[:k] + string([]byte{byte(1 + c.Intn(255))}) + s[k+1:]
				case 2:
					k := c.Intn(len(s))
					s = s[:k] + []string{" ", "\n", "=", "-", "_", "é", "0x", "%"}[c.Intn(8)] + s[k:]
				case 3:
					s = strings.TrimPrefix(s, "0x")
				case 4:
					s = []string{"", " ", "0x", "0", "=", "-", "--", "-h", "--out", "0xg", "help", "0x0", "//", "/DA", "%s%d", "0xFC", "0xfc30"}[c.Intn(17)]
				case 5:
					s = strings.ReplaceAll(strings.ReplaceAll(s, "+", "-"), "/", "_")
				case 6:
					s = string(c.bytesN(c.Intn(60)))
				case 7:
					s = strings.TrimRight(s, "=")
				}
				c.c18decode(s)
			}},
			{name: "largesignals", quick: 160, thorough: 400, fn: func(c *ctx, i int) {
				b := c.atLimit(i).Bits(nil)
				if i%4 == 0 {
					b = append(b, c.bytesN(50000)...)
				}
				c.c18decode(c.signalText(b))
			}},
			{name: "documents", quick: 6000, thorough: 40000, fn: func(c *ctx, i int) { c.c18encode(c.document(i)) }},
			{name: "damaged", quick: 4000, thorough: 20000, fn: func(c *ctx, i int) {
				switch i % 4 {
				case 0:
					v := jsonTree(c.style().JSON(c.sec().docOf()))
					c.mutJSON(v)
					c.c18encode(v.String())
				case 1:
					c.textual = true
					st := c.style()
					st.prefix = ""
					e, err := parseXML([]byte(st.XML(c.sec().docOf())))
					if err != nil {
						panic(err)
					}
					c.mutXML(e)
					var sb strings.Builder
					e.write(&sb, true)
					c.c18encode(sb.String())
				case 2:
					c.c18encode(c.mutText(c.document(c.Intn(6))))
				case 3:
					d := c.document(c.Intn(6))
					switch c.Intn(10) {
					case 9:
						d = "\ufeff" + d
					case 0:
						d = ""
					case 1:
						d = strings.Repeat("\n", c.Intn(5))
					case 2:
						d = d[:c.Intn(len(d))]
					case 3:
						d = "x" + d
					case 4:
						d += d
					case 5:
						d = []string{"null", "[]", "1", `"x"`, "{", "<", "{}", "<a/>", "<!-- -->", "<?xml version=\"1.0\"?>", "true", "<SpliceInfoSection/>", "\x00", "{\x00}"}[c.Intn(14)]
					case 6:
						d = strings.ReplaceAll(d, "\n", "\r\n") + "\r\n\r\n"
					case 7:
						d = " \t\r\n" + d
					case 8:
						d = string(c.bytesN(c.Intn(300)))
					}
					c.c18encode(d)
				}
			}},
			{name: "large", quick: 400, thorough: 2000, fn: func(c *ctx, i int) {
				d := c.document(i)
				if i%5 == 4 { // one value which makes a long line
					s := c.atLimit(i)
					j, _ := json.Marshal(s.ToLib())
					d = string(j)
				}
				n := []int{4090, 16000, 65530, 65536, 70000, 131072, 300000, 1 << 20, 3 << 20}[c.Intn(9)]
				d = c.stretch(d, n+c.Intn(10)-len(d)%7)
				if i%4 == 0 {
					d = strings.Map(func(r rune) rune {
						if r == '\n' || r == '\r' {
							return ' '
						}
						return r
					}, d)
				}
				c.c18encode(d)
			}},
			{name: "faults", quick: 200, thorough: 2000, fn: func(c *ctx, i int) { c.c18faults(i) }},
			{name: "deep", quick: 8, thorough: 40, fn: func(c *ctx, i int) {
				n := []int{100, 9000, 20000, 300000}[i%4]
				if i/4%2 == 0 {
					c.c18encode(`{"a":` + strings.Repeat("[", n) + strings.Repeat("]", n) + `,"spliceCommand":{"type":0}}`)
				} else {
					c.c18encode(`<SpliceInfoSection xmlns="` + scteNS + `">` + strings.Repeat("<a>", n) + strings.Repeat("</a>", n) + `</SpliceInfoSection>`)
				}
			}},
		},
	})
}
