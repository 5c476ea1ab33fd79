package mon

// Supervisor and workers. The parent starts one worker process per shard; a
// worker runs its share of the check's cases and watches every call into the
// library: panics are recovered and reported, fatal crashes are seen by the
// parent through a shared slot which holds the input of the call in progress,
// and a watchdog reports calls which burn CPU, grow the heap or block without
// end.

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/Comcast/scte35-go/pkg/scte35"
)

// family is a numbered list of cases.
type family struct {
	name     string
	quick    int
	thorough int
	fn       func(c *ctx, i int)
	solo     bool // all cases in shard 0, in order
}

// check decides one property.
type check struct {
	id       string
	rule     string
	assume   []string
	families []family
	need     []string // features which must have been observed
	setup    func(c *ctx)
	finish   func(c *ctx)
	shards   int
	noSlow   bool // no watchdog on CPU time per call
}

var checks = map[string]*check{}

func register(c *check) { checks[c.id] = c }

// violation is one observed violation.
type violation struct {
	Property string `json:"property"`
	Sig      string `json:"signature"`
	Detail   string `json:"detail"`
	Family   string `json:"family"`
	Index    int    `json:"index"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Op       string `json:"op,omitempty"`
	Input    string `json:"input,omitempty"` // as the case describes it
	Stack    string `json:"stack,omitempty"`
}

type sample struct {
	Case  string `json:"case"`
	Input string `json:"input"`
	Seen  string `json:"observed"`
}

// ctx is the state of a worker.
type ctx struct {
	*gen
	ck     *check
	tier   string
	seed   int64
	shard  int
	shards int
	dir    string
	dict   *dictionary

	fam   string
	idx   int
	input string // description of the current case
	tz    string // name of the local time zone of the current case
	evals int64
	dist  map[uint64]struct{}
	feat  map[string]int64
	samp  []sample
	known map[string]string
	viols map[string]int
	nviol int
	vf    *os.File
	slot  []byte

	sample int // development: every sample-th case only

	opName  atomic.Pointer[string]
	opSeq   atomic.Int64
	opStart atomic.Int64 // process CPU ns at start, 0 if idle
}

const slotSize = 1 << 20

func hash64(parts ...[]byte) uint64 {
	h := sha256.New()
	for _, p := range parts {
		var l [8]byte
		binary.LittleEndian.PutUint64(l[:], uint64(len(p)))
		h.Write(l[:])
		h.Write(p)
	}
	return binary.LittleEndian.Uint64(h.Sum(nil))
}

func caseSeed(seed int64, fam string, i int) int64 {
	return int64(hash64([]byte(fmt.Sprintf("%d/%s/%d", seed, fam, i))))
}

// ------------------------------------------------------------ observations

func (c *ctx) see(f string) { c.feat[f]++ }

func (c *ctx) eval() { c.evals++ }

// distinct counts a non-trivial case by its input.
func (c *ctx) distinct(b []byte) { c.dist[hash64(b)] = struct{}{} }

// sample keeps some of the cases for the evidence.
func (c *ctx) sampleCase(seen string) {
	if len(c.samp) < 4 && c.shard == 0 {
		in := c.input
		if len(in) > 600 {
			in = in[:600] + "..."
		}
		if len(seen) > 600 {
			seen = seen[:600] + "..."
		}
		c.samp = append(c.samp, sample{fmt.Sprintf("%s/%d", c.fam, c.idx), in, seen})
	}
}

// fail records a violation of the property.
func (c *ctx) fail(sig, format string, args ...any) {
	c.failStack("", sig, format, args...)
}

func (c *ctx) failStack(stack, sig, format string, args ...any) {
	c.nviol++
	c.viols[sig]++
	if c.viols[sig] > 3 || len(c.viols) > 40 {
		return
	}
	op := ""
	if p := c.opName.Load(); p != nil {
		op = *p
	}
	d := fmt.Sprintf(format, args...)
	if len(d) > 4000 {
		d = d[:4000] + "..."
	}
	in := c.input
	if len(in) > 1<<16 {
		in = in[:1<<16] + "..."
	}
	v := violation{c.ck.id, sig, d, c.fam, c.idx, c.seed, c.tier, op, in, stack}
	b, _ := json.Marshal(v)
	if c.vf != nil {
		_, _ = c.vf.Write(append(b, '\n'))
	} else {
		fmt.Println(string(b))
	}
}

// knownFinding records that a listed finding was observed again.
func (c *ctx) knownFinding(id, what string) { c.known[id] = what }

// setInput describes the case in progress.
func (c *ctx) setInput(format string, args ...any) { c.input = fmt.Sprintf(format, args...) }

// op runs one call into the library under watch; it reports a panic as a
// violation and returns false.
func (c *ctx) op(name string, f func()) (ok bool) {
	c.evals++
	c.opName.Store(&name)
	if c.slot != nil {
		s := c.fam + "\x00" + strconv.Itoa(c.idx) + "\x00" + name + "\x00" + c.input
		n := copy(c.slot[4:], s)
		binary.LittleEndian.PutUint32(c.slot, uint32(n))
	}
	c.opSeq.Add(1)
	defer func() {
		c.opStart.Store(0)
		c.opSeq.Add(1)
		if e := recover(); e != nil {
			ok = false
			st := string(debug.Stack())
			c.failStack(trimStack(st), "panic in "+name+": "+panicClass(e, st), "%s panicked: %v", name, e)
		}
	}()
	f()
	return true
}

// panicClass names a panic by its kind and the innermost library function.
func panicClass(e any, stack string) string {
	k := fmt.Sprint(e)
	if i := strings.IndexByte(k, '\n'); i >= 0 {
		k = k[:i]
	}
	k = stripIdx(k)
	if len(k) > 80 {
		k = k[:80]
	}
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "scte35-go/pkg/scte35.") && !strings.HasPrefix(l, "\t") {
			f := l[strings.Index(l, "scte35-go/pkg/scte35.")+len("scte35-go/pkg/"):]
			if i := strings.LastIndexByte(f, '('); i > 0 {
				f = f[:i]
			}
			return k + " at " + f
		}
	}
	return k
}

func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// ------------------------------------------------------------------ worker

func procCPU() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	maxOpCPU  = 25 * int64(time.Second)
	maxHeap   = 2 << 30
	maxBlocks = 120 * time.Second
)

// watchdog looks at the call in progress from outside.
func (c *ctx) watchdog() {
	heap := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	last, lastCPU, lastWall := int64(-1), int64(0), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		seq := c.opSeq.Load()
		if seq != last {
			last, lastCPU, lastWall = seq, procCPU(), time.Now()
		}
		metrics.Read(heap)
		inOp := seq%2 == 1
		switch {
		case inOp && heap[0].Value.Uint64() > maxHeap:
			c.die("heap", "heap grew to %d MB during one call", heap[0].Value.Uint64()>>20)
		case inOp && !c.ck.noSlow && procCPU()-lastCPU > maxOpCPU:
			c.die("hang", "one call used more than %d s of CPU time", maxOpCPU/1e9)
		case inOp && time.Since(lastWall) > maxBlocks && procCPU()-lastCPU < int64(5*time.Second):
			buf := make([]byte, 1<<20)
			st := string(buf[:runtime.Stack(buf, true)])
			for _, g := range strings.Split(st, "\n\n") {
				head, _, _ := strings.Cut(g, "\n")
				if strings.Contains(g, "scte35-go/pkg/scte35.") && !strings.Contains(head, "runn") {
					c.die("blocked", "a call blocks for ever: %s", g)
				}
			}
		}
	}
}

// die ends a worker whose call in progress will not return.
func (c *ctx) die(kind, format string, args ...any) {
	op := "?"
	if p := c.opName.Load(); p != nil {
		op = *p
	}
	d := fmt.Sprintf(format, args...)
	v := violation{c.ck.id, kind + " in " + op, d, c.fam, c.idx, c.seed, c.tier, op, c.input, ""}
	if len(v.Input) > 1<<16 {
		v.Input = v.Input[:1<<16]
	}
	b, _ := json.Marshal(v)
	if c.vf != nil {
		_, _ = c.vf.Write(append(b, '\n'))
	} else {
		fmt.Println(string(b))
	}
	os.Exit(3)
}

type shardResult struct {
	Evals  int64            `json:"evals"`
	Feat   map[string]int64 `json:"feat"`
	Samp   []sample         `json:"samp"`
	Known  map[string]string
	NViol  int
	Hashes int
}

func newCtx(ck *check, tier string, seed int64, shard, shards int) *ctx {
	d := mineDict()
	c := &ctx{ck: ck, tier: tier, seed: seed, shard: shard, shards: shards, dict: d,
		dist: map[uint64]struct{}{}, feat: map[string]int64{}, viols: map[string]int{}, known: map[string]string{}}
	c.gen = newGen(seed, d)
	c.sample, _ = strconv.Atoi(os.Getenv("VERIF_SAMPLE"))
	return c
}

func (c *ctx) count(f *family) int {
	n := f.quick
	if c.tier == "thorough" {
		n = f.thorough
		if n == 0 {
			n = f.quick
		}
	}
	return n
}

// runCase runs one case with its own generator state.
// localNames are the time zones in which the library is run: cases take turns.
var localNames = []string{"UTC", "America/New_York", "Asia/Kolkata", "UTC", "Australia/Lord_Howe", "America/Sao_Paulo", "Pacific/Kiritimati", "Pacific/Marquesas"}

var localZones = sync.OnceValue(func() []*time.Location {
	zs := make([]*time.Location, len(localNames))
	for k, n := range localNames {
		zs[k] = time.UTC
		// only if a process with this TZ finds the same
		if _, err := os.Stat("/usr/share/zoneinfo/" + n); err == nil {
			if z, err := time.LoadLocation(n); err == nil {
				zs[k] = z
			}
		}
	}
	return zs
})

// setZone moves the process to the time zone of the case.
func (c *ctx) setZone(fam string, i int) {
	zs := localZones()
	k := int(hash64([]byte(fam), []byte(strconv.Itoa(i)), []byte(strconv.FormatInt(c.seed, 10))) % uint64(len(zs)))
	time.Local = zs[k]
	c.tz = "UTC"
	if zs[k] != time.UTC {
		c.tz = localNames[k]
		c.see("local time is not UTC")
	}
}

func (c *ctx) runCase(f *family, i int) {
	c.fam, c.idx, c.input = f.name, i, ""
	c.setZone(f.name, i)
	c.gen.Rand = rand.New(rand.NewSource(caseSeed(c.seed, f.name, i)))
	c.gen.textual, c.gen.noStuff, c.gen.noEnc, c.gen.big = false, false, false, false
	c.profile()
	defer func() {
		if e := recover(); e != nil {
			// a mistake of the monitor itself, never a verdict
			fmt.Fprintf(os.Stderr, "monitor error in %s/%s/%d: %v\n%s\n", c.ck.id, f.name, i, e, debug.Stack())
			os.Exit(4)
		}
	}()
	f.fn(c, i)
}

func child(ck *check, tier string, seed int64, shard, shards int, dir string) {
	// settings which nobody would make by chance: a change of them shows
	scte35.Logger = log.New(io.Discard, "mon ", log.LUTC|log.Lmsgprefix)
	c := newCtx(ck, tier, seed, shard, shards)
	c.dir = dir
	var err error
	c.vf, err = os.OpenFile(filepath.Join(dir, fmt.Sprintf("viol-%d", shard)), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	must(err)
	sf, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("slot-%d", shard)), os.O_CREATE|os.O_RDWR, 0o644)
	must(err)
	must(sf.Truncate(slotSize))
	c.slot, err = syscall.Mmap(int(sf.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	go c.watchdog()
	if ck.setup != nil {
		ck.setup(c)
	}
	for k := range ck.families {
		f := &ck.families[k]
		n := c.count(f)
		for i := 0; i < n; i++ {
			if f.solo {
				if shard != k%shards {
					break
				}
			} else if i%shards != shard {
				continue
			}
			if c.sample > 1 && n > 50 && i/shards%c.sample != 0 {
				continue
			}
			c.runCase(f, i)
			if c.nviol > 400 || len(c.viols) > 40 || c.nviol > 0 && c.sample > 1 {
				break
			}
		}
	}
	c.fam, c.idx, c.input = "finish", 0, ""
	if ck.finish != nil {
		ck.finish(c)
	}
	hs := make([]uint64, 0, len(c.dist))
	for h := range c.dist {
		hs = append(hs, h)
	}
	hb := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(hb[8*i:], h)
	}
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("hash-%d", shard)), hb, 0o644))
	b, _ := json.Marshal(shardResult{c.evals, c.feat, c.samp, c.known, c.nviol, len(hs)})
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("res-%d", shard)), b, 0o644))
	os.Exit(0)
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "monitor error:", err)
		os.Exit(4)
	}
}

// ------------------------------------------------------------------ parent

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type knownEntry struct {
	Status   string `json:"status"` // known or fixed
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func listedFindings() map[string]bool {
	m := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return m
	}
	var es []knownEntry
	must(json.Unmarshal(b, &es))
	for _, e := range es {
		if e.Status == "known" {
			m[e.Property+"/"+e.ID] = true
		}
	}
	return m
}

func parent(ck *check, tier string, seed int64) int {
	start := time.Now()
	base := filepath.Join(verifDir(), ".build")
	must(os.MkdirAll(base, 0o755))
	dir, err := os.MkdirTemp(base, "run-"+ck.id+"-")
	must(err)
	defer os.RemoveAll(dir)
	shards := ck.shards
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
		if shards < 4 {
			shards = 4
		}
	}
	limit := 840 * time.Second
	if tier == "thorough" {
		limit = 4 * time.Hour
	}
	exe, err := os.Executable()
	must(err)
	type outcome struct {
		err    error
		stderr string
	}
	outs := make([]outcome, shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*os.Process
	timedOut := false
	for s := 0; s < shards; s++ {
		cov := filepath.Join(dir, "cov")
		must(os.MkdirAll(cov, 0o755))
		cmd := exec.Command(exe, "child", ck.id, tier, fmt.Sprint(seed), fmt.Sprint(s), fmt.Sprint(shards), dir)
		cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov, "GOMAXPROCS="+gomaxprocs(ck), "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0", "GOMEMLIMIT=3GiB")
		var eb limitedBuf
		cmd.Stderr = &eb
		if os.Getenv("C20DBG") != "" {
			cmd.Stderr = os.Stderr
		}
		must(cmd.Start())
		mu.Lock()
		procs = append(procs, cmd.Process)
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := cmd.Wait()
			outs[s] = outcome{e, eb.String()}
		}()
	}
	timer := time.AfterFunc(limit, func() {
		mu.Lock()
		timedOut = true
		for _, p := range procs {
			_ = p.Kill()
		}
		mu.Unlock()
	})
	wg.Wait()
	timer.Stop()

	var viols []violation
	total := shardResult{Feat: map[string]int64{}, Known: map[string]string{}}
	all := map[uint64]struct{}{}
	inconclusive := ""
	for s := 0; s < shards; s++ {
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("viol-%d", s))); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				var v violation
				if l != "" && json.Unmarshal([]byte(l), &v) == nil {
					viols = append(viols, v)
				}
			}
		}
		if races := raceReports(outs[s].stderr); len(races) > 0 {
			for _, r := range races {
				if !strings.Contains(r, "scte35-go/pkg/scte35") && !strings.Contains(r, "scte35-go/cmd") {
					continue
				}
				viols = append(viols, violation{ck.id, "data race: " + raceSig(r), r, "race", s, seed, tier, "concurrent use", "", r})
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res-%d", s))); err == nil {
			var r shardResult
			must(json.Unmarshal(b, &r))
			total.Evals += r.Evals
			total.NViol += r.NViol
			for k, v := range r.Feat {
				total.Feat[k] += v
			}
			for k, v := range r.Known {
				total.Known[k] = v
			}
			total.Samp = append(total.Samp, r.Samp...)
			if hb, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hash-%d", s))); err == nil {
				for i := 0; i+8 <= len(hb); i += 8 {
					all[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
				}
			}
			continue
		}
		// the worker did not finish
		e := outs[s].err
		code := -1
		if x, ok := e.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
		switch {
		case code == 3: // reported by the watchdog
		case code == 4 || timedOut || strings.Contains(outs[s].stderr, "monitor error"):
			inconclusive = fmt.Sprintf("worker %d: %v %s", s, e, tail(outs[s].stderr, 3000))
		case code == 2 || strings.Contains(outs[s].stderr, "fatal error:") || strings.Contains(outs[s].stderr, "SIGSEGV"):
			v := violation{Property: ck.id, Seed: seed, Tier: tier, Stack: tail(outs[s].stderr, 0)}
			if len(v.Stack) > 6000 {
				v.Stack = v.Stack[:6000]
			}
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("slot-%d", s))); err == nil && len(b) > 4 {
				n := int(binary.LittleEndian.Uint32(b))
				if n > 0 && n+4 <= len(b) {
					p := strings.SplitN(string(b[4:4+n]), "\x00", 4)
					if len(p) == 4 {
						v.Family, v.Op, v.Input = p[0], p[2], p[3]
						v.Index, _ = strconv.Atoi(p[1])
					}
				}
			}
			v.Sig = "crash in " + v.Op + ": " + crashLine(outs[s].stderr)
			v.Detail = "the process crashed during " + v.Op
			viols = append(viols, v)
		default:
			inconclusive = fmt.Sprintf("worker %d ended: %v %s", s, e, tail(outs[s].stderr, 2000))
		}
	}

	ev := map[string]any{
		"property": ck.id, "tier": tier, "seed": seed, "level": "exploration",
		"assumptions": append([]string{}, ck.assume...),
		"wall_s":      time.Since(start).Seconds(),
	}
	cov := map[string]any{
		"evaluations": total.Evals, "distinct_nontrivial": len(all), "rule": ck.rule,
		"samples": capSamples(total.Samp), "observed": total.Feat, "workers": shards,
	}
	if pc := libCoverage(filepath.Join(dir, "cov")); pc != "" {
		cov["library_statements_executed"] = pc
	}
	ev["coverage"] = cov

	listed := listedFindings()
	kk := make([]string, 0, len(total.Known))
	for k := range total.Known {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		if listed[ck.id+"/"+k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", ck.id, k, total.Known[k])
		} else {
			viols = append(viols, violation{ck.id, "unlisted finding " + k, total.Known[k], "known", 0, seed, tier, "", "", ""})
		}
	}
	cov["known_findings_observed"] = kk

	bySig := map[string]violation{}
	var order []string
	for _, v := range viols {
		if _, ok := bySig[v.Sig]; !ok {
			order = append(order, v.Sig)
			bySig[v.Sig] = v
		}
	}
	ev["violations"] = len(order)
	writeEvidence(ck.id, ev)

	if len(order) > 0 {
		rd := filepath.Join(verifDir(), "replays")
		must(os.MkdirAll(rd, 0o755))
		for i, s := range order {
			if i == 8 {
				fmt.Printf("... and %d more kinds\n", len(order)-i)
				break
			}
			v := bySig[s]
			h := sha256.Sum256([]byte(s))
			p := filepath.Join(rd, ck.id+"-"+hex.EncodeToString(h[:4])+".json")
			b, _ := json.MarshalIndent(v, "", "  ")
			must(os.WriteFile(p, b, 0o644))
			fmt.Printf("VIOLATION property=%s replay=%s %s\n", ck.id, p, oneLine(v.Sig+": "+v.Detail))
		}
		return 1
	}
	if inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", ck.id, inconclusive)
		return 2
	}
	for _, n := range ck.need {
		if total.Feat[n] == 0 {
			fmt.Printf("INCONCLUSIVE property=%s nothing observed for %q\n", ck.id, n)
			return 2
		}
	}
	if total.Evals == 0 || len(all) == 0 {
		fmt.Printf("INCONCLUSIVE property=%s nothing observed\n", ck.id)
		return 2
	}
	fmt.Printf("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs\n", ck.id, tier, total.Evals, len(all), time.Since(start).Seconds())
	return 0
}

func gomaxprocs(ck *check) string {
	if ck.id == "C14" {
		return "8"
	}
	return "2"
}

func writeEvidence(id string, ev map[string]any) {
	d := filepath.Join(verifDir(), "evidence")
	must(os.MkdirAll(d, 0o755))
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(d, id+".json"), append(b, '\n'), 0o644))
}

func capSamples(s []sample) []sample {
	if len(s) > 12 {
		s = s[:12]
	}
	if s == nil {
		s = []sample{}
	}
	return s
}

func oneLine(s string) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func tail(s string, n int) string {
	if n > 0 && len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func crashLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	return "?"
}

// raceReports splits the race detector's reports out of a worker's stderr.
func raceReports(s string) []string {
	var out []string
	for {
		i := strings.Index(s, "WARNING: DATA RACE")
		if i < 0 {
			return out
		}
		s = s[i:]
		j := strings.Index(s, "\n==================")
		if j < 0 {
			j = len(s)
		}
		out = append(out, s[:j])
		s = s[j:]
	}
}

// raceSig is the pair of innermost library functions.
func raceSig(r string) string {
	var fs []string
	for _, l := range strings.Split(r, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "scte35-go/pkg/scte35."); i >= 0 && strings.HasSuffix(l, "()") {
			f := l[i+len("scte35-go/pkg/"):]
			if len(fs) == 0 || fs[len(fs)-1] != f {
				fs = append(fs, f)
			}
			if len(fs) == 2 {
				break
			}
		}
	}
	return strings.Join(fs, " / ")
}

// limitedBuf keeps the first and last part of a stream.
type limitedBuf struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	n := len(p)
	if r := 1<<20 - len(l.head); r > 0 {
		if r > len(p) {
			r = len(p)
		}
		l.head = append(l.head, p[:r]...)
		p = p[r:]
	}
	l.tail = append(l.tail, p...)
	if len(l.tail) > 1<<17 {
		l.tail = append([]byte{}, l.tail[len(l.tail)-1<<16:]...)
	}
	return n, nil
}

func (l *limitedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.head) + string(l.tail)
}

// libCoverage is the share of the library's statements the workers executed.
func libCoverage(dir string) string {
	es, _ := os.ReadDir(dir)
	if len(es) == 0 {
		return ""
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && strings.HasSuffix(f[0], "pkg/scte35") {
			return f[2]
		}
	}
	return ""
}
