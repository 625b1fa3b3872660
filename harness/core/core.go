package core

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Violation is one failed case.
type Violation struct {
	Group  string `json:"group"`
	Case   int    `json:"case"`
	Msg    string `json:"msg"`
	Detail string `json:"detail,omitempty"`
	Key    string `json:"key,omitempty"` // identifies a known finding
}

// Result is what a worker shard reports.
type Result struct {
	Prop        string           `json:"prop"`
	Evaluations int64            `json:"evaluations"`
	Counters    map[string]int64 `json:"counters"`
	Maxima      map[string]int64 `json:"maxima"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Errors      []string         `json:"errors"`
	Done        bool             `json:"done"`
}

// Ctx is one worker shard running one property.
type Ctx struct {
	Prop   string
	Tier   string
	Seed   uint64
	Shard  int
	Shards int
	Group  string // only this group, if not empty
	Case   int    // only this case, if >= 0
	Part   string // part of the property this worker runs (driver-defined)
	Scale  int    // multiplies the number of random cases

	Res  Result
	seen map[uint64]struct{}
	keys map[string]bool

	journal *os.File
	cur     atomic.Int64 // case serial for the watchdog
	curCPU  atomic.Int64 // CPU time at the start of the case
	curWall atomic.Int64
}

const (
	maxViolations = 5
	cpuLimit      = 150 * time.Second
	idleLimit     = 60 * time.Second
)

// K is one case.
type K struct {
	C     *Ctx
	R     *Rand
	Group string
	I     int
	notes []string
}

type failure struct{ msg, detail, key string }

// N chooses a number of random cases by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough * c.Scale
	}
	return quick * c.Scale
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Cases runs cases 0..n-1 of a group; each case's randomness depends only on
// (property, group, seed, index).
func (c *Ctx) Cases(group string, n int, f func(*K)) {
	if c.Group != "" && c.Group != group {
		return
	}
	for i := 0; i < n; i++ {
		if c.Case >= 0 {
			if i != c.Case {
				continue
			}
		} else if i%c.Shards != c.Shard {
			continue
		}
		if len(c.Res.Violations)-len(c.keys) >= maxViolations || len(c.Res.Errors) > 0 {
			return
		}
		k := &K{C: c, Group: group, I: i, R: NewRand(c.Seed, HashString(c.Prop), HashString(group), uint64(i))}
		c.run(k, f)
	}
}

func (c *Ctx) run(k *K, f func(*K)) {
	if c.journal != nil {
		var line [96]byte
		copy(line[:], fmt.Sprintf("%s %d", k.Group, k.I))
		line[95] = '\n'
		c.journal.WriteAt(line[:], 0)
	}
	c.curCPU.Store(int64(cpuTime()))
	c.curWall.Store(time.Now().UnixNano())
	c.cur.Add(1)
	c.Res.Evaluations++
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if fl, ok := r.(failure); ok {
			if len(k.notes) > 0 {
				fl.detail += "\nnotes:\n" + strings.Join(k.notes, "\n")
			}
			// Failures that may be known findings are kept once per key and do
			// not end the exploration.
			if fl.key != "" {
				if c.keys[fl.key] {
					return
				}
				c.keys[fl.key] = true
			}
			c.Res.Violations = append(c.Res.Violations, Violation{k.Group, k.I, clip(fl.msg, 2000), clip(fl.detail, 20000), fl.key})
			return
		}
		stack := string(debug.Stack())
		if s, ok := r.(interface{ StackOf() string }); ok {
			stack = s.StackOf() // of the goroutine that panicked
		}
		msg := fmt.Sprintf("panic: %v", r)
		if !InRepo(stack) {
			// Cases are deterministic, and none panics where the properties
			// hold, so it is what the code under test returned (a nil Reader,
			// say) that the workload cannot go on with.
			msg = "the workload cannot go on with what it was given: " + msg
		}
		c.Res.Violations = append(c.Res.Violations, Violation{k.Group, k.I, msg, clip(strings.Join(k.notes, "\n")+"\n"+stack, 20000), ""})
	}()
	f(k)
}

// InRepo reports whether a stack has a frame of the code under test.
func InRepo(stack string) bool { return strings.Contains(stack, "/repo/") }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

// IsFailure reports whether a recovered value comes from Fail.
func IsFailure(p any) bool { _, ok := p.(failure); return ok }

// Fail reports a violation and ends the case.
func (k *K) Fail(format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...)})
}

// FailD is Fail with a long detail.
func (k *K) FailD(detail, format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...), detail: detail})
}

// FailKey is Fail for a failure that may be listed as a known finding.
func (k *K) FailKey(key, format string, args ...any) {
	panic(failure{msg: fmt.Sprintf(format, args...), key: key})
}

// Note adds context that is shown if the case fails.
func (k *K) Note(format string, args ...any) {
	k.notes = append(k.notes, clip(fmt.Sprintf(format, args...), 4000))
}

// Hit records the signature of a non-trivial case.
func (k *K) Hit(sig string) {
	if len(k.C.seen) < 500_000 {
		k.C.seen[HashString(sig)] = struct{}{}
	}
}

// Count adds to a monitor counter.
func (k *K) Count(name string, n int) { k.C.Res.Counters[name] += int64(n) }

// Max keeps the maximum of an observation.
func (k *K) Max(name string, n int64) {
	if n > k.C.Res.Maxima[name] {
		k.C.Res.Maxima[name] = n
	}
}

// Sample keeps a few written-out cases.
func (k *K) Sample(format string, args ...any) {
	if len(k.C.Res.Samples) < 3 {
		k.C.Res.Samples = append(k.C.Res.Samples, clip(fmt.Sprintf("%s/%d: ", k.Group, k.I)+fmt.Sprintf(format, args...), 600))
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog ends the process when one case burns an absurd amount of CPU time,
// or when all goroutines inside the code under test are blocked for good.
// Exit status 7 and 8; the driver decides from the dump.
func (c *Ctx) watchdog() {
	var last int64 = -1
	var lastCPU time.Duration
	var idleSince time.Time
	for {
		time.Sleep(2 * time.Second)
		cur := c.cur.Load()
		cpu := cpuTime()
		if cur != last {
			last, lastCPU, idleSince = cur, cpu, time.Now()
			continue
		}
		if cpu-time.Duration(c.curCPU.Load()) > cpuLimit {
			dump("WATCHDOG-CPU")
			os.Exit(7)
		}
		if cpu-lastCPU > 500*time.Millisecond {
			lastCPU, idleSince = cpu, time.Now()
			continue
		}
		if time.Since(idleSince) > idleLimit {
			if blockedInRepo() {
				dump("WATCHDOG-BLOCKED")
				os.Exit(8)
			}
			idleSince = time.Now()
		}
	}
}

func stacks() string {
	buf := make([]byte, 8<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func dump(marker string) {
	fmt.Fprintf(os.Stderr, "%s\n%s\n", marker, clip(stacks(), 400000))
}

// blockedInRepo: there are goroutines with frames of the code under test, and
// every one of them is blocked (not merely waiting for a CPU).
func blockedInRepo() bool {
	n := 0
	for _, g := range strings.Split(stacks(), "\n\n") {
		if !InRepo(g) {
			continue
		}
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "[running") || strings.Contains(head, "[runnable") {
			return false
		}
		n++
	}
	return n > 0
}

// Main parses the worker's flags and runs the property.
func Main(props map[string]func(*Ctx)) {
	var (
		c    Ctx
		out  = flag.String("out", "", "result file prefix")
		seed = flag.Uint64("seed", 1, "")
		list = flag.Bool("list", false, "list properties")
	)
	flag.StringVar(&c.Prop, "prop", "", "property id")
	flag.StringVar(&c.Tier, "tier", "quick", "quick or thorough")
	flag.IntVar(&c.Shard, "shard", 0, "")
	flag.IntVar(&c.Shards, "shards", 1, "")
	flag.StringVar(&c.Group, "group", "", "only this group")
	flag.IntVar(&c.Case, "case", -1, "only this case")
	flag.IntVar(&c.Scale, "scale", 1, "")
	flag.StringVar(&c.Part, "part", "", "")
	flag.Parse()
	if *list {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	f, ok := props[c.Prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", c.Prop)
		os.Exit(3)
	}
	c.Seed = *seed
	c.seen = make(map[uint64]struct{})
	c.keys = make(map[string]bool)
	c.Res = Result{Prop: c.Prop, Counters: map[string]int64{}, Maxima: map[string]int64{}}
	if *out != "" {
		j, err := os.Create(*out + ".journal")
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		c.journal = j
	}
	debug.SetMaxStack(160 << 20)
	go c.watchdog()
	f(&c)
	c.Res.Done = true
	data, _ := json.MarshalIndent(&c.Res, "", " ")
	if *out == "" {
		fmt.Printf("%s\ndistinct %d\n", data, len(c.seen))
	} else {
		hb := make([]byte, 0, 8*len(c.seen))
		for h := range c.seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		if err := os.WriteFile(*out+".hashes", hb, 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		if err := os.WriteFile(*out+".json", data, 0o666); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	if len(c.Res.Errors) > 0 {
		os.Exit(3)
	}
	if len(c.Res.Violations) > 0 {
		os.Exit(1)
	}
}
