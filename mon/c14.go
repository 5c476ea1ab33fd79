package mon

// C14: concurrent use. The monitor is built with the race detector; the
// supervisor reads its reports from the workers' standard error.

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"log"
	"math/rand"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// job is a piece of work on sections of its own; its result is text.
type job struct {
	name string
	f    func() []byte
}

// jobOf draws a job; the inputs are made without the library.
func (c *ctx) jobOf(kind int) job {
	s := c.sec()
	if len(s.Descs) > 8 {
		s.Descs = s.Descs[:8]
	}
	s.features(c)
	all := func(x *SIS, err error) []byte {
		var out []byte
		out = append(out, fmt.Sprint(err)...)
		for _, o := range readOps {
			out = append(out, o.f(x)...)
			out = append(out, 0)
		}
		return out
	}
	switch kind {
	case 0:
		b := s.Bits(nil)
		return job{"Decode", func() []byte { x := &SIS{}; err := x.Decode(b); return all(x, err) }}
	case 1:
		t := base64.StdEncoding.EncodeToString(s.Bits(c.wire()))
		return job{"DecodeBase64", func() []byte { x, err := scte35.DecodeBase64(t); return all(x, err) }}
	case 2:
		t := "0x" + hex.EncodeToString(s.Bits(c.wire()))
		return job{"DecodeHex", func() []byte { x, err := scte35.DecodeHex(t); return all(x, err) }}
	case 3:
		st := c.style()
		t := []byte(st.JSON(s.docOf()))
		return job{"json.Unmarshal", func() []byte { x := &SIS{}; err := json.Unmarshal(t, x); return all(x, err) }}
	case 4:
		s.xmlText()
		st := c.style()
		t := []byte(st.XML(s.docOf()))
		return job{"xml.Unmarshal", func() []byte { x := &SIS{}; err := xml.Unmarshal(t, x); return all(x, err) }}
	case 5:
		r := c.rawOf(s, c.wire())
		r.breakUp(c.gen)
		b := r.bytes(c.gen)
		return job{"Decode damaged", func() []byte { x := &SIS{}; err := x.Decode(b); return all(x, err) }}
	case 6:
		s.canon()
		return job{"API", func() []byte { return all(s.ToLib(), nil) }}
	case 7:
		t, raw := c.n32(8), c.bytesN(12)
		return job{"constructors", func() []byte {
			u := scte35.NewSegmentationUPID(t, raw)
			return []byte(fmt.Sprint(scte35.TicksToDuration(uint64(t)), scte35.DurationToTicks(time.Duration(t)), scte35.NewUTCSpliceTime(t).GPSSeconds(),
				u.Value, u.Name(), u.ASCIIValue(), scte35.NewSpliceCommand(t).Type(), scte35.NewSpliceDescriptor(cuei, t).Tag()))
		}}
	case 10: // text of UPIDs which is not what it should be
		c.oddUPIDs(s)
		return job{"odd UPIDs", func() []byte { return all(s.ToLib(), nil) }}
	case 8:
		n := (s.Tier + uint32(c.Intn(100))) % uint32(len(corpus))
		return job{"Decode corpus", func() []byte { x := &SIS{}; err := x.Decode(corpus[n]); return all(x, err) }}
	case 11: // a stream which makes others run in the middle
		s.xmlText()
		st := c.style()
		t := []byte(st.XML(s.docOf()))
		n := 1 + c.Intn(60)
		return job{"streams", func() []byte {
			x := &SIS{}
			err := xml.NewDecoder(&yielder{b: t, n: n}).Decode(x)
			out := all(x, err)
			w := &yielder{}
			e := xml.NewEncoder(w)
			for range 3 {
				_ = e.Encode(x)
			}
			return append(out, w.b...)
		}}
	default: // a single operation as the first one
		s.canon()
		k := c.Intn(len(readOps))
		if c.Intn(3) == 0 {
			s = s.clone()
			s.hidden(c.gen, c.Intn(4))
		}
		return job{readOps[k].name, func() []byte { return readOps[k].f(s.ToLib()) }}
	}
}

const jobKinds = 12

// yielder is a stream which lets others run at each read and write.
type yielder struct {
	b []byte
	n int
}

func (y *yielder) Read(p []byte) (int, error) {
	if len(y.b) == 0 {
		return 0, io.EOF
	}
	k := copy(p, y.b[:min(y.n, len(y.b))])
	y.b = y.b[k:]
	runtime.Gosched()
	return k, nil
}

func (y *yielder) Write(p []byte) (int, error) {
	runtime.Gosched()
	y.b = append(y.b, p...)
	return len(p), nil
}

// together runs the jobs of each goroutine behind one barrier; it returns the
// results and the order in which they were finished.
func (c *ctx) together(what string, lists [][]job, yield bool) (res [][][]byte, ok bool) {
	res = make([][][]byte, len(lists))
	var tick atomic.Int64
	order := make([]uint16, 0, 256)
	pos := make([][]int64, len(lists))
	var mu sync.Mutex
	type pan struct{ name, msg, st string }
	var panics []pan
	ok = c.op(what, func() {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for g := range lists {
			res[g] = make([][]byte, len(lists[g]))
			pos[g] = make([]int64, len(lists[g]))
			wg.Add(1)
			r := rand.New(rand.NewSource(c.Int63()))
			go func() {
				defer wg.Done()
				name := ""
				defer func() {
					if e := recover(); e != nil {
						st := string(debug.Stack())
						mu.Lock()
						panics = append(panics, pan{name, panicClass(e, st), trimStack(st)})
						mu.Unlock()
					}
				}()
				<-start
				for k, j := range lists[g] {
					name = j.name
					if yield {
						for n := r.Intn(3); n > 0; n-- {
							runtime.Gosched()
						}
					}
					res[g][k] = j.f()
					pos[g][k] = tick.Add(1)
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	for g := range pos {
		for k := range pos[g] {
			c.evals++
			if p := int(pos[g][k]); p > 0 {
				for len(order) < p {
					order = append(order, 0)
				}
				order[p-1] = uint16(g)
			}
		}
	}
	ob := make([]byte, 2*len(order))
	for i, o := range order {
		binary.LittleEndian.PutUint16(ob[2*i:], o)
	}
	c.distinct(append(ob, byte(c.idx), byte(c.idx>>8), byte(c.idx>>16)))
	for _, p := range panics {
		c.failStack(p.st, "panic in concurrent "+p.name+": "+p.msg, "panicked while other goroutines worked")
		ok = false
	}
	return res, ok
}

func (c *ctx) sameResults(lists [][]job, res, seq [][][]byte, what string) {
	for g := range lists {
		for k := range lists[g] {
			if !bytes.Equal(res[g][k], seq[g][k]) {
				c.fail(what+": result of "+lists[g][k].name, "concurrently %q, sequentially %q", cut(res[g][k]), cut(seq[g][k]))
				return
			}
		}
	}
}

func sequential(lists [][]job) [][][]byte {
	out := make([][][]byte, len(lists))
	for g := range lists {
		for _, j := range lists[g] {
			out[g] = append(out[g], j.f())
		}
	}
	return out
}

// oddUPIDs gives a section UPIDs whose text has an unusual form or none.
func (c *ctx) oddUPIDs(s *Sec) {
	c.see("odd UPIDs")
	g := c.seg()
	g.Cancel, g.UPIDs = false, nil
	for n := 1 + c.Intn(3); n > 0; n-- {
		t := []uint32{0x0a, 0x0a, 5, 6, 8, 0x0c, 1, 0x0f}[c.Intn(8)]
		g.UPIDs = append(g.UPIDs, UPID{Type: t, Val: c.badText(t)})
	}
	s.Descs = append(s.Descs, Desc{Kind: dSeg, Seg: g})
}

const goroutines = 8

// c14cold is the first use of the library in this process, by all goroutines
// at once.
func c14cold(c *ctx) {
	c.fam, c.idx = "cold", c.shard
	c.gen.Rand = rand.New(rand.NewSource(caseSeed(c.seed, "cold", c.shard)))
	c.profile()
	c.setInput("first use of the library in process %d", c.shard)
	kind := c.shard % (jobKinds + 2)
	lists := make([][]job, goroutines)
	for g := range lists {
		k := kind
		if k >= jobKinds || k == 9 && g%2 == 1 {
			k = c.Intn(jobKinds)
		}
		lists[g] = []job{c.jobOf(k), c.jobOf(c.Intn(jobKinds))}
		if k < jobKinds && g > 0 && k != 9 && c.coin() {
			lists[g][0] = lists[0][0] // the very same work
		}
	}
	res, ok := c.together("cold start", lists, false)
	if !ok {
		return
	}
	c.see("cold start")
	c.op("sequential", func() { c.sameResults(lists, res, sequential(lists), "cold start") })
}

func init() {
	register(&check{
		id:     "C14",
		rule:   "batches of 8 goroutines behind one barrier under the race detector: independent sections read from all formats and rendered in all formats, one shared section read in random orders, shared commands and descriptors, shared input buffers, crowds of hundreds of goroutines, streams and loggers which let others run in the middle of an operation, and the first use of the library in many processes; distinct by the order in which the operations of a batch finished",
		assume: []string{"the race detector sees the accesses which were executed; compiled with -race"},
		need:   append([]string{"cold start", "shared section from API", "shared section from Decode", "shared section from JSON", "shared section from XML", "independent", "shared parts", "shared input", "odd UPIDs", "crowd"}, allKinds...),
		shards: 24,
		setup:  c14cold,
		noSlow: true,
		families: []family{
			{name: "independent", quick: 500, thorough: 20000, fn: func(c *ctx, i int) {
				lists := make([][]job, goroutines)
				for g := range lists {
					for k := 0; k < 4; k++ {
						lists[g] = append(lists[g], c.jobOf(c.Intn(jobKinds)))
						if g > 0 && c.Intn(4) == 0 {
							lists[g][k] = lists[g-1][k]
						}
					}
				}
				c.setInput("independent sections, batch %d", i)
				var seq [][][]byte
				if i%2 == 0 {
					c.op("sequential", func() { seq = sequential(lists) })
				}
				res, ok := c.together("independent sections", lists, i%3 == 0)
				if !ok {
					return
				}
				if i%2 == 1 {
					c.op("sequential", func() { seq = sequential(lists) })
				}
				c.see("independent")
				if seq != nil {
					c.sameResults(lists, res, seq, "independent sections")
				}
				if c.Intn(50) == 0 {
					c.sampleCase(fmt.Sprintf("%d goroutines, all results as in sequence", goroutines))
				}
			}},
			{name: "shared", quick: 1500, thorough: 60000, fn: func(c *ctx, i int) {
				s := c.sec()
				s.features(c)
				how := i % makeHows
				if how == 3 {
					s.xmlText()
				}
				if how == 0 && i%2 == 0 {
					c.oddUPIDs(s)
				}
				o, _ := c.makeObj(s, how)
				if o == nil {
					return
				}
				c.setInput("shared section from %s: %s", o.how, o.snap)
				lists := make([][]job, goroutines)
				for g := range lists {
					for _, k := range c.Perm(len(readOps)) {
						op := readOps[k]
						lists[g] = append(lists[g], job{op.name, func() []byte { return op.f(o.x) }})
					}
				}
				if i%3 == 0 { // everyone starts with the same
					k := c.Intn(len(readOps))
					for g := range lists {
						lists[g][0] = job{readOps[k].name, func() []byte { return readOps[k].f(o.x) }}
					}
				}
				res, ok := c.together("shared section", lists, i%2 == 0)
				if !ok {
					return
				}
				c.see("shared section from " + o.how)
				if sn := snapshot(o.x); sn != o.snap {
					sig, d := diff(o.snap, sn)
					c.fail("shared section changed: "+fieldOf(sig), "%s", d)
				}
				c.op("sequential", func() { c.sameResults(lists, res, sequential(lists), "shared section") })
			}},
			{name: "parts", quick: 300, thorough: 10000, fn: func(c *ctx, i int) {
				// one command and its descriptors in several sections
				s := c.sec().canon()
				x := s.ToLib()
				c.setInput("%s", s.Dump())
				lists := make([][]job, goroutines)
				for g := range lists {
					y := &SIS{SpliceCommand: x.SpliceCommand, SpliceDescriptors: x.SpliceDescriptors, Tier: uint32(g)}
					for _, k := range c.Perm(len(readOps)) {
						op := readOps[k]
						lists[g] = append(lists[g], job{op.name, func() []byte { return op.f(y) }})
					}
				}
				res, ok := c.together("shared parts", lists, i%2 == 0)
				if ok {
					c.see("shared parts")
					c.op("sequential", func() { c.sameResults(lists, res, sequential(lists), "shared parts") })
				}
			}},
			{name: "crowd", quick: 30, thorough: 1500, fn: func(c *ctx, i int) {
				// many more goroutines than processors, each in the middle
				// of something
				lists := make([][]job, 64+c.Intn(300))
				k := i % (jobKinds + 1)
				for g := range lists {
					if j := k; j < jobKinds && j != 9 {
						lists[g] = []job{c.jobOf(j)}
					} else {
						lists[g] = []job{c.jobOf(c.Intn(jobKinds))}
					}
				}
				c.setInput("%d goroutines, batch %d", len(lists), i)
				var seq [][][]byte
				c.op("sequential", func() { seq = sequential(lists) })
				if i%3 == 1 {
					was := scte35.Logger
					scte35.Logger = log.New(&yielder{}, "", 0)
					defer func() { scte35.Logger = was }()
				}
				res, ok := c.together("a crowd", lists, true)
				if !ok {
					return
				}
				c.see("crowd")
				c.sameResults(lists, res, seq, "a crowd")
			}},
			{name: "input", quick: 400, thorough: 15000, fn: func(c *ctx, i int) {
				// the same bytes read by all, with other readers of the buffer
				j := c.jobOf([]int{0, 3, 4, 5, 8}[i%5])
				c.setInput("the same input by %s", j.name)
				lists := make([][]job, goroutines)
				for g := range lists {
					lists[g] = []job{j, j}
				}
				res, ok := c.together("shared input", lists, i%2 == 0)
				if ok {
					c.see("shared input")
					c.op("sequential", func() { c.sameResults(lists, res, sequential(lists), "shared input") })
				}
			}},
		},
	})
}
