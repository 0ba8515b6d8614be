// vp runs the monitors that decide the properties of /verif/properties.jsonl against /repo's working tree.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

type infraError struct{ msg string }

func infra(format string, a ...any) {
	panic(infraError{fmt.Sprintf(format, a...)})
}

type stopError struct{}

type Ctx struct {
	ID        string
	Tier      string
	Seed      int64
	Scratch   string
	B         *builds
	Uid       int
	only      int
	start     time.Time
	mu        sync.Mutex
	evals     int
	distinct  map[string]int
	counts    map[string]int
	samples   []any
	knownIDs  map[string]string
	knownSaid map[string]bool
	viol      []string
	stopped   atomic.Bool
	dirSeq    int
	rule      string
	level     string
}

type check struct {
	level string
	rule  string
	run   func(c *Ctx)
}

var checks = map[string]check{}

func (c *Ctx) thorough() bool { return c.Tier == "thorough" }

// n picks the number of cases for the tier.
func (c *Ctx) n(quick, thorough int) int {
	if c.thorough() {
		return thorough
	}
	if os.Getenv("VERIF_SCALE") == "1" { // a third of the volume, for development
		return quick
	}
	return 3 * quick
}

func (c *Ctx) count(key string, d int) {
	c.mu.Lock()
	c.counts[key] += d
	c.mu.Unlock()
}

// eval records one evaluated case; sig identifies it for the distinct count ("" = trivial).
func (c *Ctx) eval(sig string) {
	c.mu.Lock()
	c.evals++
	if sig != "" {
		c.distinct[sig]++
	}
	c.mu.Unlock()
}

func (c *Ctx) sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// violation records a refutation with its witness; the run ends once running cases finish.
func (c *Ctx) violation(caseNo int, what string, witness any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.viol) >= 3 {
		c.stopped.Store(true)
		return
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	p := filepath.Join(dir, fmt.Sprintf("%s_%d.json", c.ID, len(c.viol)+1))
	j, err := json.MarshalIndent(map[string]any{
		"property": c.ID, "what": what, "witness": witness, "seed": c.Seed, "tier": c.Tier, "case": caseNo,
		"replay": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s VERIF_CASE=%d bash run.sh %s", c.Seed, c.Tier, caseNo, c.ID),
	}, "", " ")
	if err != nil {
		j = []byte(fmt.Sprintf("%q", what+" "+err.Error()))
	}
	os.WriteFile(p, j, 0644)
	c.viol = append(c.viol, p)
	fmt.Printf("  violation (case %d): %s\n", caseNo, printable(firstN(what, 1500)))
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
	c.stopped.Store(true)
	if len(c.viol) == 1 { // the cases under way may wait for something that never comes
		time.AfterFunc(45*time.Second, func() {
			c.mu.Lock()
			c.writeEvidence()
			fmt.Printf("%s %s seed=%d: ended after %d violations wall=%.1fs\n", c.ID, c.Tier, c.Seed, len(c.viol), time.Since(c.start).Seconds())
			if os.Getenv("VERIF_KEEP") == "" {
				os.RemoveAll(c.Scratch)
			}
			os.Exit(1)
		})
	}
}

// known tells whether a finding is listed in the committed file, and says so once.
func (c *Ctx) known(id string) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.knownIDs == nil {
		c.knownIDs = map[string]string{}
		b, _ := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
		for _, l := range strings.Split(string(b), "\n") {
			var prop, id string
			if n, _ := fmt.Sscanf(l, "known: property=%s id=%s", &prop, &id); n == 2 && prop == c.ID {
				_, what, _ := strings.Cut(l, "id="+id+" ")
				c.knownIDs[id] = what
			}
		}
	}
	what, ok := c.knownIDs[id]
	if ok && !c.knownSaid[id] {
		if c.knownSaid == nil {
			c.knownSaid = map[string]bool{}
		}
		c.knownSaid[id] = true
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, what)
	}
	return ok
}

// printable keeps what generated data puts into messages from breaking the report's lines.
func printable(s string) string {
	var b strings.Builder
	for _, x := range strings.ToValidUTF8(s, "\uFFFD") {
		switch {
		case x == '\n':
			b.WriteString("\\n")
		case x < ' ' || x == 0x7f:
			fmt.Fprintf(&b, "\\x%02x", x)
		default:
			b.WriteRune(x)
		}
	}
	return b.String()
}

func firstN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (c *Ctx) rng(parts ...any) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.Seed, c.ID)
	for _, p := range parts {
		fmt.Fprint(h, "/", p)
	}
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

// each runs n cases on w workers; a case gets its own generator, so it can be replayed alone.
func (c *Ctx) each(name string, base, n, w int, f func(i int, r *rand.Rand)) {
	if w <= 0 {
		w = runtime.NumCPU()
	}
	var next atomic.Int64
	var wg sync.WaitGroup
	var perr atomic.Value
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					if _, ok := p.(stopError); ok {
						return
					}
					buf := make([]byte, 1<<14)
					buf = buf[:runtime.Stack(buf, false)]
					if e, ok := p.(infraError); ok {
						perr.CompareAndSwap(nil, infraError{e.msg + "\n" + string(buf)})
					} else {
						perr.CompareAndSwap(nil, infraError{fmt.Sprint(p) + "\n" + string(buf)})
					}
					c.stopped.Store(true)
				}
			}()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.stopped.Load() {
					return
				}
				if c.only >= 0 && base+i != c.only {
					continue
				}
				f(base+i, c.rng(name, i))
			}
		}()
	}
	wg.Wait()
	if p := perr.Load(); p != nil {
		panic(p)
	}
}

// dir makes a fresh directory in the scratch area, owned by the unprivileged child user.
func (c *Ctx) dir(name string) string {
	c.mu.Lock()
	c.dirSeq++
	d := filepath.Join(c.Scratch, fmt.Sprintf("%s%d", name, c.dirSeq))
	c.mu.Unlock()
	if err := os.MkdirAll(d, 0755); err != nil {
		infra("mkdir: %v", err)
	}
	c.own(d)
	return d
}

func (c *Ctx) own(root string) {
	if c.Uid == 0 {
		return
	}
	filepath.Walk(root, func(p string, _ os.FileInfo, err error) error {
		if err == nil {
			os.Lchown(p, c.Uid, c.Uid)
		}
		return nil
	})
}

func (c *Ctx) cred() *syscall.Credential {
	if c.Uid == 0 {
		return nil
	}
	return &syscall.Credential{Uid: uint32(c.Uid), Gid: uint32(c.Uid), NoSetGroups: true}
}

var verifDir = "/verif"

func (c *Ctx) writeEvidence() {
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                c.rule,
		"samples":             c.samples,
	}
	if len(c.samples) == 0 {
		ks := []string{}
		for k := range c.distinct {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for k := 0; k < len(ks) && k < 5; k++ {
			c.samples = append(c.samples, ks[k*len(ks)/min(5, len(ks))])
		}
		cov["samples"] = c.samples
	}
	cov["method"] = c.level
	keys := []string{}
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int{}
	for _, k := range keys {
		obs[k] = c.counts[k]
	}
	cov["observed"] = obs
	lvl := "exploration"
	if c.ID == "C11" || c.ID == "C13" || c.ID == "C22" {
		lvl = "fault_enumeration"
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": lvl,
		"coverage": cov, "wall_s": time.Since(c.start).Seconds(), "violations": len(c.viol),
		"assumptions": []string{
			"verdicts hold for the executions observed in this run, not for all executions",
			"the program under test is built from /repo's working tree with the Go standard library's os and net packages instrumented by a build overlay",
		},
	}
	j, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		infra("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), j, 0644); err != nil {
		infra("evidence: %v", err)
	}
}

func probeUid() int {
	if os.Getuid() != 0 {
		return 0
	}
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
	if err := cmd.Run(); err != nil {
		return 0
	}
	return 65534
}

func main() {
	os.Exit(realMain())
}

func realMain() (code int) {
	if len(os.Args) < 2 {
		fmt.Println("usage: vp ID")
		return 2
	}
	if os.Args[1] == "-session" {
		return session(os.Args[2:])
	}
	if os.Args[1] == "-attacker" {
		return attacker()
	}
	id := os.Args[1]
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	ck, ok := checks[id]
	if !ok && id != "prewarm" {
		fmt.Println("no such check:", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	syscall.Umask(0022)
	scratch, err := os.MkdirTemp("", "vp-"+id+"-")
	if err != nil {
		fmt.Println("scratch:", err)
		return 2
	}
	os.Chmod(scratch, 0755)
	c := &Ctx{ID: id, Tier: tier, Seed: seed, Scratch: scratch, start: time.Now(), only: -1,
		distinct: map[string]int{}, counts: map[string]int{}, rule: ck.rule, level: ck.level, Uid: probeUid()}
	if v := os.Getenv("VERIF_CASE"); v != "" {
		if n, err := strconv.Atoi(v); err == nil {
			c.only = n
		}
	}
	c.B = &builds{dir: filepath.Join(scratch, "build"), got: map[string]string{}}
	os.MkdirAll(c.B.dir, 0755)
	defer func() {
		if os.Getenv("VERIF_KEEP") == "" {
			os.RemoveAll(scratch)
		} else {
			fmt.Println("kept", scratch)
		}
	}()
	defer func() {
		if p := recover(); p != nil {
			if e, ok := p.(infraError); ok {
				if len(c.viol) > 0 { // a refutation was already established
					code = 1
					return
				}
				fmt.Println("ERROR (no verdict):", strings.ToValidUTF8(e.msg, "?"))
				code = 2
				return
			}
			if _, ok := p.(stopError); ok {
				code = 1
				return
			}
			panic(p)
		}
	}()
	if id == "prewarm" {
		for _, k := range []string{"app", "gui", "driver", "race", "clirace"} {
			c.B.get(k)
		}
		return 0
	}
	ck.run(c)
	if c.evals == 0 && len(c.viol) == 0 {
		infra("nothing was observed")
	}
	c.writeEvidence()
	var parts []string
	keys := make([]string, 0, len(c.counts))
	for k := range c.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		parts = append(parts, fmt.Sprintf("%s=%d", k, c.counts[k]))
	}
	fmt.Printf("%s %s seed=%d: evaluations=%d distinct=%d %s wall=%.1fs violations=%d\n", c.ID, c.Tier, c.Seed, c.evals, len(c.distinct),
		strings.Join(parts, " "), time.Since(c.start).Seconds(), len(c.viol))
	if len(c.viol) > 0 {
		return 1
	}
	return 0
}
