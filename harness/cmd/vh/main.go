// Command vh runs the checks. The controller (vh check ID) runs the cases of a
// check in several worker processes, each of which executes the real code one
// case at a time under a watchdog, and gathers what the monitors observed.
package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/lestrrat-go/helium/verif/gen"
)

// Section is a family of cases
type Section struct {
	Name     string
	Quick    int
	Thorough int
	Run      func(c *Ctx, i int)
	CPU      float64 // seconds of CPU time that a case may use (0: default)
}

// Check decides a property
type Check struct {
	ID       string
	Rule     string
	Sections []Section
	// Finish is run by the controller after the cases, if not nil
	Finish func(c *Ctx)
	// Workers is the number of worker processes (0: one per CPU)
	Workers int
	// Assumptions for the evidence
	Assumptions []string
}

var checks = map[string]*Check{}

// quickScale is what the numbers of quick cases are multiplied by, so that each of
// the checks takes about half a minute
var quickScale = map[string]int{"C01": 3, "C02": 3, "C03": 2, "C04": 4, "C05": 8, "C06": 5, "C07": 12, "C08": 5, "C09": 3, "C10": 3, "C11": 4, "C12": 8, "C13": 5, "C14": 5, "C16": 5, "C17": 3, "C18": 5, "C19": 20, "C20": 10}

func register(c *Check) {
	for i := range c.Sections {
		s := &c.Sections[i]
		if f := quickScale[c.ID]; f > 0 {
			s.Quick *= f
		}
		if s.Quick > s.Thorough {
			s.Quick = s.Thorough
		}
	}
	checks[c.ID] = c
}

// Ctx is what a case has to work with
type Ctx struct {
	*gen.Rand
	check   *Check
	id      string
	seed    int64
	tier    string
	input   []byte
	fails   []Failure
	counts  map[string]int64
	seen    map[uint64]struct{}
	samples []string
	cur     *os.File
	evals   int64
	maxFail int
	known   map[string]bool // findings that showed up
}

// Failure is a violation
type Failure struct {
	Case   string `json:"case"`
	Msg    string `json:"msg"`
	Input  string `json:"input"`
	Quoted string `json:"quoted"`
}

// Input records what is going to be executed
func (c *Ctx) Input(s string) {
	c.input = []byte(s)
	c.note()
}

func (c *Ctx) note() {
	if c.cur == nil {
		return
	}
	in := c.input
	if len(in) > 32<<10 {
		in = in[:32<<10]
	}
	b := make([]byte, 0, len(in)+len(c.id)+12)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(c.id)))
	b = binary.LittleEndian.AppendUint32(b, uint32(len(in)))
	b = append(b, c.id...)
	b = append(b, in...)
	c.cur.WriteAt(b, 0)
}

// Eval counts an execution
func (c *Ctx) Eval() { c.evals++ }

// Count adds to a counter of things observed
func (c *Ctx) Count(name string, n int) { c.counts[name] += int64(n) }

// Seen counts key as a distinct, non-trivial case
func (c *Ctx) Seen(key string) {
	h := fnv.New64a()
	io.WriteString(h, key)
	c.seen[h.Sum64()] = struct{}{}
}

// Sample keeps a few cases to be written out
func (c *Ctx) Sample(s string) {
	if len(c.samples) < 3 {
		if len(s) > 700 {
			s = s[:700] + "..."
		}
		c.samples = append(c.samples, s)
	}
}

// Fail reports a violation
func (c *Ctx) Fail(format string, a ...interface{}) {
	if len(c.fails) >= c.maxFail {
		return
	}
	in := string(c.input)
	q := strconv.QuoteToASCII(in)
	if len(q) > 40000 {
		q = q[:40000]
	}
	f := Failure{c.id, fmt.Sprintf(format, a...), "", q}
	if what, ok := findings(c.check.ID)[finding{q, f.Msg}]; ok {
		c.known[fmt.Sprintf("%s: %s", what, q)] = true
		return
	}
	c.fails = append(c.fails, f)
}

// Failed is true if the check has failed already
func (c *Ctx) Failed() bool { return len(c.fails) > 0 }

const defaultCPU = 60

var caseStart int64 // CPU time (ns) when the current case was started
var caseSeq int64   // number of the current case
var caseLimit int64

func cpuTime() int64 {
	var ru syscall.Rusage
	if err := syscall.Getrusage(syscall.RUSAGE_SELF, &ru); err != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

const (
	exitHang = 97
	exitMem  = 98
)

func watchdog() {
	last, lastSeq, since := int64(0), int64(0), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		// nothing is running: whatever the case waits for, it does not come
		t, seq := cpuTime(), atomic.LoadInt64(&caseSeq)
		if t-last > 300e6 || seq != lastSeq || atomic.LoadInt64(&caseStart) == 0 {
			last, lastSeq, since = t, seq, time.Now()
		} else if time.Since(since) > 60*time.Second && os.Getenv("VH_WAITS") == "" {
			os.Exit(exitHang)
		}
		if st := atomic.LoadInt64(&caseStart); st != 0 {
			if cpuTime()-st > atomic.LoadInt64(&caseLimit) && atomic.LoadInt64(&caseStart) == st {
				os.Exit(exitHang)
			}
		}
		if rss() > 3500<<20 {
			os.Exit(exitMem)
		}
	}
}

// runCase runs a single case
func runCase(c *Ctx, s *Section, i int) {
	c.id = fmt.Sprintf("%s/%d", s.Name, i)
	c.Rand = gen.NewRand(c.seed, c.check.ID+s.Name, i)
	c.input = nil
	limit := s.CPU
	if limit == 0 {
		limit = defaultCPU
	}
	atomic.StoreInt64(&caseLimit, int64(limit*1e9))
	atomic.AddInt64(&caseSeq, 1)
	atomic.StoreInt64(&caseStart, cpuTime())
	c.note()
	defer func() {
		atomic.StoreInt64(&caseStart, 0)
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if j := strings.Index(st, "panic("); j >= 0 {
				st = st[j:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			c.Fail("panic: %v\n%s", e, st)
		}
	}()
	s.Run(c, i)
}

type workerOut struct {
	Evals   int64            `json:"evals"`
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	Fails   []Failure        `json:"fails"`
	Known   map[string]bool  `json:"known"`
	Cases   int64            `json:"cases"`
}

func newCtx(ck *Check, seed int64, tier string) *Ctx {
	findings(ck.ID)
	return &Ctx{check: ck, seed: seed, tier: tier, counts: map[string]int64{}, seen: map[uint64]struct{}{}, known: map[string]bool{}, maxFail: 5}
}

func (s *Section) n(tier string) int {
	if tier == "thorough" {
		return s.Thorough
	}
	return s.Quick
}

func worker(ck *Check, dir string, shard, of int, from int64, only string) {
	go watchdog()
	seed, tier := env()
	c := newCtx(ck, seed, tier)
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("cur%d", shard)), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fatal(err)
	}
	c.cur = f
	var cases, k int64
	for si := range ck.Sections {
		s := &ck.Sections[si]
		for i, n := 0, s.n(tier); i < n; i++ {
			k++
			if only != "" {
				if only != fmt.Sprintf("%s/%d", s.Name, i) {
					continue
				}
			} else if (k+int64(si))%int64(of) != int64(shard) || k <= from {
				continue
			}
			if c.Failed() && len(c.fails) >= c.maxFail {
				continue
			}
			cases++
			before := len(c.fails)
			runCase(c, s, i)
			if len(c.fails) > before && len(c.fails) > 1 {
				c.fails = c.fails[:before+1]
			}
			if os.Getenv("VH_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "%s\n", c.id)
			}
		}
	}
	out := workerOut{c.evals, c.counts, c.samples, c.fails, c.known, cases}
	b, _ := json.Marshal(out)
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("out%d-%d", shard, from)), b, 0o644)
	hs := make([]byte, 0, 8*len(c.seen))
	for h := range c.seen {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(filepath.Join(dir, fmt.Sprintf("seen%d-%d", shard, from)), hs, 0o644)
	if only != "" {
		for _, f := range c.fails {
			fmt.Printf("FAIL %s: %s\n   input %s\n", f.Case, f.Msg, f.Quoted)
		}
		if len(c.fails) > 0 {
			os.Exit(1)
		}
		fmt.Println("ok")
	}
}

func env() (int64, string) {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

func fatal(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"vh:"}, a...)...)
	os.Exit(3)
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// readCur returns the case a worker was at
func readCur(path string) (id, input string) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return "", ""
	}
	n, m := int(binary.LittleEndian.Uint32(b)), int(binary.LittleEndian.Uint32(b[4:]))
	b = b[8:]
	if n > len(b) {
		return "", ""
	}
	id = string(b[:n])
	b = b[n:]
	if m > len(b) {
		m = len(b)
	}
	return id, string(b[:m])
}

func caseIndex(ck *Check, tier, id string) int64 {
	var k int64
	for si := range ck.Sections {
		s := &ck.Sections[si]
		if strings.HasPrefix(id, s.Name+"/") {
			i, _ := strconv.Atoi(id[len(s.Name)+1:])
			return k + int64(i) + 1
		}
		k += int64(s.n(tier))
	}
	return 1 << 60
}

func tail(b []byte, n int) string {
	if len(b) > n {
		b = b[len(b)-n:]
	}
	return string(b)
}

func head(s string, n int) string {
	if len(s) > n {
		s = s[:n]
	}
	return s
}

// spawn runs a worker. It returns what it wrote to stderr if it died
func spawn(ck *Check, dir string, shard, of int, from int64, only string) (bool, string, int) {
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	cmd := exec.Command(exe, "worker", ck.ID, dir, strconv.Itoa(shard), strconv.Itoa(of), strconv.FormatInt(from, 10), only)
	gmp := 2
	if ck.Workers == 1 {
		gmp = 8
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", gmp), "GORACE=halt_on_error=1 history_size=2")
	errf := filepath.Join(dir, fmt.Sprintf("err%d-%d%s", shard, from, strings.Replace(only, "/", "_", -1)))
	f, err := os.Create(errf)
	if err != nil {
		fatal(err)
	}
	cmd.Stderr = f
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err = cmd.Run()
	f.Close()
	if err == nil {
		return true, "", 0
	}
	b, _ := os.ReadFile(errf)
	code := -1
	if ee, ok := err.(*exec.ExitError); ok {
		code = ee.ExitCode()
	}
	return false, head(string(b), 3000) + " (" + err.Error() + ")", code
}

func controller(ck *Check) {
	start := time.Now()
	seed, tier := env()
	base := filepath.Join(verifDir(), ".build")
	os.MkdirAll(base, 0o755)
	dir, err := os.MkdirTemp(base, "run-"+ck.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)

	of := ck.Workers
	if of == 0 {
		of = runtime.NumCPU()
		if of > 16 {
			of = 16
		}
	}
	var mu sync.Mutex
	var fails []Failure
	var problems []string
	var wg sync.WaitGroup
	for s := 0; s < of; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			from := int64(0)
			for deaths := 0; deaths < 4; deaths++ {
				ok, msg, code := spawn(ck, dir, s, of, from, "")
				if ok {
					return
				}
				id, input := readCur(filepath.Join(dir, fmt.Sprintf("cur%d", s)))
				if strings.Contains(msg, "DATA RACE") || strings.Contains(msg, "fatal error: concurrent map") {
					mu.Lock()
					fails = append(fails, Failure{id, "data race: " + msg, "", strconv.QuoteToASCII(input)})
					mu.Unlock()
					return
				}
				if id == "" || code == 3 {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("worker %d: %s", s, msg))
					mu.Unlock()
					return
				}
				// once more, on its own: does the case do it?
				ok, msg2, code2 := spawn(ck, dir, 100+s, of, 0, id)
				_, input2 := readCur(filepath.Join(dir, fmt.Sprintf("cur%d", 100+s)))
				if !ok && code2 != 1 && code2 != 3 {
					if input2 != "" {
						input = input2
					}
					what := "the process died"
					switch code2 {
					case exitHang:
						what = "did not finish within the limit of CPU time"
					case exitMem:
						what = "used too much memory"
					}
					mu.Lock()
					fails = append(fails, Failure{id, what + ": " + msg2, "", strconv.QuoteToASCII(input)})
					mu.Unlock()
				} else if code2 == 1 {
					mu.Lock()
					fails = append(fails, Failure{id, "failed on its own: " + msg, "", strconv.QuoteToASCII(input)})
					mu.Unlock()
				} else {
					fmt.Fprintf(os.Stderr, "vh: worker died at %s, which is fine on its own: %s\n", id, head(msg, 500))
				}
				from = caseIndex(ck, tier, id)
			}
		}(s)
	}
	wg.Wait()

	var total workerOut
	total.Counts = map[string]int64{}
	var known []string
	seen := map[uint64]struct{}{}
	outs, _ := filepath.Glob(filepath.Join(dir, "out*"))
	sort.Strings(outs)
	for _, o := range outs {
		b, err := os.ReadFile(o)
		if err != nil {
			continue
		}
		var w workerOut
		if json.Unmarshal(b, &w) != nil {
			continue
		}
		total.Evals += w.Evals
		total.Cases += w.Cases
		for k, v := range w.Counts {
			total.Counts[k] += v
		}
		if len(total.Samples) < 4 && len(w.Samples) > 0 {
			total.Samples = append(total.Samples, w.Samples[0])
		}
		fails = append(fails, w.Fails...)
		for k := range w.Known {
			known = append(known, k)
		}
		b, _ = os.ReadFile(strings.Replace(o, "/out", "/seen", 1))
		for ; len(b) >= 8; b = b[8:] {
			seen[binary.LittleEndian.Uint64(b)] = struct{}{}
		}
	}
	if ck.Finish != nil {
		c := newCtx(ck, seed, tier)
		c.id = "finish/0"
		ck.Finish(c)
		fails = append(fails, c.fails...)
		total.Evals += c.evals
		for k, v := range c.counts {
			total.Counts[k] += v
		}
		for h := range c.seen {
			seen[h] = struct{}{}
		}
		total.Samples = append(total.Samples, c.samples...)
	}

	sections := map[string]int{}
	for i := range ck.Sections {
		sections[ck.Sections[i].Name] = ck.Sections[i].n(tier)
	}
	ev := map[string]interface{}{
		"property": ck.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": len(seen), "rule": ck.Rule,
			"samples": total.Samples, "cases": total.Cases, "cases_by_section": sections, "observed": total.Counts,
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(fails),
	}
	if len(ck.Assumptions) > 0 {
		ev["assumptions"] = ck.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", ck.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}

	sort.Strings(known)
	for i, k := range known {
		if i == 0 || known[i-1] != k {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
		}
	}
	if len(fails) > 0 {
		sort.Slice(fails, func(i, j int) bool { return len(fails[i].Quoted) < len(fails[j].Quoted) })
		f := fails[0]
		h := fnv.New32a()
		io.WriteString(h, f.Case+f.Msg)
		rd := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rd, 0o755)
		path := filepath.Join(rd, fmt.Sprintf("%s-%08x.json", ck.ID, h.Sum32()))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": ck.ID, "seed": seed, "tier": tier, "failure": f, "others": fails[1:],
			"replay": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/run.sh %s %s", seed, tier, ck.ID, f.Case)}, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("%s: %s\n   input: %s\n", f.Case, head(f.Msg, 1500), head(f.Quoted, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		os.RemoveAll(dir)
		os.Exit(1)
	}
	if len(problems) > 0 || total.Cases == 0 && len(ck.Sections) > 0 {
		os.RemoveAll(dir)
		fatal("check could not be run:", problems)
	}
	fmt.Printf("%s ok: %d evaluations, %d distinct, %.1fs\n", ck.ID, total.Evals, len(seen), time.Since(start).Seconds())
}

type finding struct{ input, msg string }

var listed map[finding]string

// findings are the failures that are listed as findings. Each is listed with the
// input that fails and what is reported about it; anything else about that
// input, or about any other, remains a failure.
func findings(id string) map[finding]string {
	if listed != nil {
		return listed
	}
	listed = map[finding]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return listed
	}
	for _, l := range strings.Split(string(b), "\n") {
		pre := "finding: property=" + id + " input="
		if !strings.HasPrefix(l, pre) {
			continue
		}
		l = l[len(pre):]
		in, err := strconv.QuotedPrefix(l)
		if err != nil || !strings.HasPrefix(l[len(in):], " reports=") {
			fatal("KNOWN_FINDINGS.txt: ", l)
		}
		l = l[len(in)+len(" reports="):]
		msg, err := strconv.QuotedPrefix(l)
		if err != nil {
			fatal("KNOWN_FINDINGS.txt: ", l)
		}
		m, _ := strconv.Unquote(msg)
		listed[finding{in, m}] = strings.TrimSpace(l[len(msg):])
	}
	return listed
}

func main() {
	if len(os.Args) < 3 {
		fatal("usage: vh check ID | vh case ID CASE")
	}
	ck := checks[os.Args[2]]
	if ck == nil {
		fatal("no check", os.Args[2])
	}
	switch os.Args[1] {
	case "check":
		controller(ck)
	case "case":
		dir, err := os.MkdirTemp("", "vh")
		if err != nil {
			fatal(err)
		}
		defer os.RemoveAll(dir)
		worker(ck, dir, 0, 1, 0, os.Args[3])
	case "answer":
		answer()
	case "worker":
		shard, _ := strconv.Atoi(os.Args[4])
		of, _ := strconv.Atoi(os.Args[5])
		from, _ := strconv.ParseInt(os.Args[6], 10, 64)
		only := ""
		if len(os.Args) > 7 {
			only = os.Args[7]
		}
		worker(ck, os.Args[3], shard, of, from, only)
	default:
		fatal("usage")
	}
}
