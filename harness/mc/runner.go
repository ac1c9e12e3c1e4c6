package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Family is one bounded space of behaviours of a property.
type Family struct {
	Name     string
	Doc      string // what is enumerated and compared
	Quick    []int  // bounds explored, in order; each is a complete space
	Thorough []int
	Body     Body
}

// Property is a check.
type Property struct {
	ID          string
	Families    []Family
	Assumptions []string
	Before      func() error // once per process
	Tolerant    bool         // see Env
	Method      string       // for the evidence
}

// Registry of properties.
var Registry = map[string]*Property{}

// Register adds a property.
func Register(p *Property) { Registry[p.ID] = p }

// Extend adds families to a property that is registered already.
func Extend(id string, fs ...Family) {
	Registry[id].Families = append(Registry[id].Families, fs...)
}

func (f *Family) bounds(tier string) []int {
	if n := len(f.Quick); tier == "smoke" && n > 1 { // for development: leaves out the deepest level
		return f.Quick[:n-1]
	}
	if tier == "thorough" && len(f.Thorough) > 0 {
		return f.Thorough
	}
	return f.Quick
}

// LevelReport is the outcome of one family at one bound (one shard of it, or merged).
type LevelReport struct {
	Family     string            `json:"family"`
	Bound      int               `json:"bound"`
	Executions uint64            `json:"executions"`
	Skipped    uint64            `json:"skipped_choice_sequences"`
	Ops        uint64            `json:"transitions"`
	Exhaustive bool              `json:"exhaustive"`
	MaxChoices int               `json:"longest_execution_choices"`
	Tags       map[string]uint64 `json:"outcomes,omitempty"`
	Wall       float64           `json:"cpu_s"`
	Violation  *Violation        `json:"violation,omitempty"`
	Samples    []Sample          `json:"-"`
}

// Sample is an execution written out.
type Sample struct {
	Family  string   `json:"family"`
	Bound   int      `json:"bound"`
	Choices []int    `json:"choices"`
	Trace   []string `json:"trace"`
}

// Violation found.
type Violation struct {
	Property string   `json:"property"`
	Family   string   `json:"family"`
	Bound    int      `json:"bound"`
	Tier     string   `json:"tier"`
	Choices  []int    `json:"choices"`
	Kind     string   `json:"kind"` // single: one execution; shard: the executions of a shard up to index; crash, hang
	Shard    int      `json:"shard"`
	Shards   int      `json:"shards"`
	Index    uint64   `json:"index"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace"`
	Repeats  string   `json:"repeats,omitempty"`
}

type workerOut struct {
	Levels  []*LevelReport `json:"levels"`
	Samples []Sample       `json:"samples"`
}

var (
	fProp   = flag.String("prop", "", "property id")
	fTier   = flag.String("tier", "", "quick or thorough")
	fWorker = flag.Int("worker", -1, "internal: shard number")
	fShards = flag.Int("shards", 0, "number of worker processes")
	fOut    = flag.String("out", "", "internal: worker result")
	fReplay = flag.String("replay", "", "replay file")
	fStop   = flag.Int64("stopindex", -1, "internal: stop the shard at this execution of -stopat")
	fStopAt = flag.String("stopat", "", "internal: family/bound")
	fFam    = flag.String("family", "", "only this family")
	fBound  = flag.Int("bound", -1, "only this bound")
	fOne    = flag.String("choices", "", "internal: run one execution with these choices (comma separated)")
	fRoot   = flag.String("root", "/verif", "framework directory")
	fEvid   = flag.String("evidence", "", "evidence file (default ROOT/evidence/PROP.json)")
	fLimit  = flag.Int("limit", 0, "seconds after which exploration stops (exhaustive: false)")
	fList   = flag.Bool("list", false, "list properties and families")
)

func seedEnv() int {
	n, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if err != nil {
		return 1
	}
	return n
}

// Main runs the checker; returns the exit code.
func Main() int {
	flag.Parse()
	if *fList {
		ids := []string{}
		for id := range Registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			for _, f := range Registry[id].Families {
				fmt.Println(id, f.Name, f.Quick, f.Thorough, f.Doc)
			}
		}
		return 0
	}
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" && *fTier != "smoke" {
		*fTier = "quick"
	}
	if *fReplay != "" {
		return replay(*fReplay)
	}
	p := Registry[*fProp]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", *fProp)
		return 2
	}
	if p.Before != nil {
		if err := p.Before(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if *fOne != "" {
		return runOne(p)
	}
	if *fWorker >= 0 {
		return worker(p)
	}
	return parent(p)
}

func parseChoices(s string) []int {
	var out []int
	for _, part := range strings.Split(s, ",") {
		if n, err := strconv.Atoi(part); err == nil {
			out = append(out, n)
		}
	}
	return out
}

func choicesText(c []int) string {
	parts := []string{"x"} // keeps the flag non-empty
	for _, v := range c {
		parts = append(parts, strconv.Itoa(v))
	}
	return strings.Join(parts, ",")
}

func findFamily(p *Property, name string) *Family {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return &p.Families[i]
		}
	}
	return nil
}

// runOne replays one execution in this process: exit 1 and a JSON violation on stdout when it fails.
func runOne(p *Property) int {
	f := findFamily(p, *fFam)
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown family", *fFam)
		return 2
	}
	env := &Env{States: NewSet(16), Tags: map[string]uint64{}, Bound: *fBound, Tier: *fTier, Tolerant: p.Tolerant}
	r := Run(f.Body, parseChoices(*fOne), 0, true, env)
	if r.Failed {
		v := Violation{Property: p.ID, Family: f.Name, Bound: *fBound, Tier: *fTier, Choices: r.Choices, Kind: "single", Msg: r.Msg, Trace: r.Lines}
		json.NewEncoder(os.Stdout).Encode(v)
		return 1
	}
	return 0
}

const sampleEvery = 7919

func worker(p *Property) int {
	out := &workerOut{}
	states := NewSet(1 << 12)
	crumb, err := OpenCrumb(*fOut + ".crumb")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var deadline time.Time
	if *fLimit > 0 {
		deadline = time.Now().Add(time.Duration(*fLimit) * time.Second)
	}
	go memoryGuard()
	violated := false
	for fi := range p.Families {
		f := &p.Families[fi]
		if *fFam != "" && f.Name != *fFam {
			continue
		}
		for _, bound := range f.bounds(*fTier) {
			if *fBound >= 0 && bound != *fBound {
				continue
			}
			crumb.SetLevel(fi, bound)
			start := time.Now()
			env := &Env{States: states, Tags: map[string]uint64{}, Bound: bound, Tier: *fTier, Crumb: crumb, Tolerant: p.Tolerant}
			rep := &LevelReport{Family: f.Name, Bound: bound, Tags: env.Tags, Exhaustive: true}
			out.Levels = append(out.Levels, rep)
			stopHere := *fStop >= 0 && *fStopAt == fmt.Sprint(f.Name, "/", bound)
			_, parts := SplitDepth(f.Body, 32**fShards, env)
		level:
			for pi := *fWorker; pi < len(parts); pi += *fShards {
				fixed := len(parts[pi])
				prefix := parts[pi]
				for prefix != nil {
					if rep.Executions%256 == 255 && !deadline.IsZero() && time.Now().After(deadline) {
						rep.Exhaustive = false
						break level
					}
					idx := rep.Executions + rep.Skipped
					sample := *fWorker == 0 && *fStop < 0 && (idx == 1 || idx == 97 || idx%sampleEvery == sampleEvery-1 && len(out.Samples) < 24)
					r := Run(f.Body, prefix, 0, sample, env)
					if r.Skipped {
						rep.Skipped++
					} else {
						rep.Executions++
						if sample && !r.Failed {
							out.Samples = append(out.Samples, Sample{f.Name, bound, r.Choices, r.Lines})
						}
					}
					rep.Ops += r.Ops
					if r.Diverged {
						rep.Exhaustive = false
						env.Tags["executions that took another way than the one they repeat"]++
					}
					if len(r.Choices) > rep.MaxChoices {
						rep.MaxChoices = len(r.Choices)
					}
					if r.Failed {
						rep.Violation = &Violation{Property: p.ID, Family: f.Name, Bound: bound, Tier: *fTier, Choices: r.Choices, Kind: "single",
							Shard: *fWorker, Shards: *fShards, Index: idx, Msg: r.Msg, Trace: r.Lines}
						fails := 1
						for i := 0; i < 4; i++ {
							if Run(f.Body, r.Choices, 0, false, &Env{States: NewSet(16), Tags: map[string]uint64{}, Bound: bound, Tier: *fTier, Tolerant: p.Tolerant}).Failed {
								fails++
							}
						}
						rep.Violation.Repeats = fmt.Sprintf("failed %d of 5 executions in the exploring process", fails)
						violated = true
						rep.Exhaustive = false
						break level
					}
					if stopHere && int64(idx) >= *fStop {
						break level
					}
					prefix = Next(r, fixed)
				}
			}
			rep.Wall = time.Since(start).Seconds()
			if violated || stopHere {
				violated = true
				break
			}
		}
		if violated {
			break
		}
	}
	states.Save(*fOut + ".states")
	b, _ := json.Marshal(out)
	if err := os.WriteFile(*fOut, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

// memoryGuard ends the process when a runaway execution fills the memory.
func memoryGuard() {
	for {
		time.Sleep(250 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > 3<<30 {
			os.Exit(97)
		}
	}
}

type child struct {
	shard  int
	out    string
	cmd    *exec.Cmd
	stderr *strings.Builder
	err    error
	crash  *Violation
	res    workerOut
}

// hangAfter is how long one execution (microseconds normally) may take before it is called a hang.
const hangAfter = 150 * time.Second

func parent(p *Property) int {
	start := time.Now()
	shards := *fShards
	if shards <= 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	limit := *fLimit
	if limit == 0 {
		if limit = 240; *fTier == "thorough" {
			limit = 780
		}
	}
	tmp, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	children := make([]*child, shards)
	var wg sync.WaitGroup
	var harnessErr atomic.Value
	for i := range children {
		ch := &child{shard: i, out: filepath.Join(tmp, fmt.Sprintf("w%d.json", i)), stderr: &strings.Builder{}}
		children[i] = ch
		args := []string{"-prop", p.ID, "-tier", *fTier, "-worker", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", ch.out, "-limit", strconv.Itoa(limit), "-root", *fRoot}
		if *fFam != "" {
			args = append(args, "-family", *fFam)
		}
		if *fBound >= 0 {
			args = append(args, "-bound", strconv.Itoa(*fBound))
		}
		ch.cmd = exec.Command(os.Args[0], args...)
		ch.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
		ch.cmd.Stderr = ch.stderr
		wg.Add(1)
		go func() {
			defer wg.Done()
			if err := ch.cmd.Start(); err != nil {
				harnessErr.Store(err.Error())
				return
			}
			done := make(chan error, 1)
			go func() { done <- ch.cmd.Wait() }()
			last, lastAt := uint32(0), time.Now()
			for {
				select {
				case err := <-done:
					if b, rerr := os.ReadFile(ch.out); err == nil && rerr == nil && json.Unmarshal(b, &ch.res) == nil {
						return
					}
					ch.crash = crashViolation(p, ch, "crash", fmt.Sprintf("the process died (%v): %s", err, headline(ch.stderr.String())))
					return
				case <-time.After(time.Second):
					n, _ := ReadCrumb(ch.out + ".crumb")
					if n != last {
						last, lastAt = n, time.Now()
					} else if time.Since(lastAt) > hangAfter {
						ch.cmd.Process.Kill()
						<-done
						ch.crash = crashViolation(p, ch, "hang", fmt.Sprintf("one execution did not finish within %v", hangAfter))
						return
					}
				}
			}
		}()
	}
	wg.Wait()
	if e := harnessErr.Load(); e != nil {
		fmt.Fprintln(os.Stderr, e)
		return 2
	}

	// merge
	states := NewSet(1 << 12)
	var levels []*LevelReport
	index := map[string]*LevelReport{}
	var samples []Sample
	var viols []*Violation
	for _, ch := range children {
		if ch.crash != nil {
			if strings.Contains(ch.stderr.String(), "mc.Divergence") {
				fmt.Fprintln(os.Stderr, "harness error:", ch.stderr.String())
				return 2
			}
			viols = append(viols, ch.crash)
			continue
		}
		states.Load(ch.out + ".states")
		samples = append(samples, ch.res.Samples...)
		for _, l := range ch.res.Levels {
			k := fmt.Sprint(l.Family, "/", l.Bound)
			m := index[k]
			if m == nil {
				m = &LevelReport{Family: l.Family, Bound: l.Bound, Exhaustive: true, Tags: map[string]uint64{}}
				index[k] = m
				levels = append(levels, m)
			}
			m.Executions += l.Executions
			m.Skipped += l.Skipped
			m.Ops += l.Ops
			m.Wall += l.Wall
			m.Exhaustive = m.Exhaustive && l.Exhaustive
			if l.MaxChoices > m.MaxChoices {
				m.MaxChoices = l.MaxChoices
			}
			for t, n := range l.Tags {
				m.Tags[t] += n
			}
			if l.Violation != nil {
				viols = append(viols, l.Violation)
			}
		}
	}
	exhaustive := len(viols) == 0
	var execs, ops uint64
	for _, l := range levels {
		execs += l.Executions
		ops += l.Ops
		exhaustive = exhaustive && l.Exhaustive
	}
	sort.SliceStable(viols, func(i, j int) bool { return lessViolation(p, viols[i], viols[j]) })

	code := 0
	if len(viols) > 0 {
		v := confirm(p, viols[0])
		path := writeReplay(v)
		fmt.Printf("property %s is violated: %s\n", p.ID, v.Msg)
		for _, l := range v.Trace {
			fmt.Println("   ", l)
		}
		fmt.Printf("family %s, bound %d, choices %v; %s\n", v.Family, v.Bound, v.Choices, v.Repeats)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		code = 1
	}
	fams := []map[string]any{}
	for _, l := range levels {
		doc := ""
		if f := findFamily(p, l.Family); f != nil {
			doc = f.Doc
		}
		fams = append(fams, map[string]any{"family": l.Family, "bound": l.Bound, "executions": l.Executions, "skipped_choice_sequences": l.Skipped,
			"transitions": l.Ops, "exhaustive": l.Exhaustive, "longest_execution_choices": l.MaxChoices, "outcomes": l.Tags, "cpu_s": round(l.Wall), "space": doc})
	}
	if len(samples) > 12 {
		keep := []Sample{}
		for i := 0; i < 12; i++ {
			keep = append(keep, samples[i*len(samples)/12])
		}
		samples = keep
	}
	method := p.Method
	if method == "" {
		method = "stateless exploration: every choice sequence of every family is executed on the code of /repo, rebuilt for this run, and compared with the reference model at every step"
	}
	ev := map[string]any{
		"property": p.ID, "tier": *fTier, "seed": seedEnv(), "level": "model_checking",
		"coverage": map[string]any{
			"states": states.Len(), "transitions": ops, "traces_validated_against_impl": execs, "samples": samples, "exhaustive": exhaustive,
			"families": fams, "workers": shards,
			"method": method,
		},
		"assumptions": p.Assumptions,
		"wall_s":      round(time.Since(start).Seconds()),
		"violations":  len(viols),
	}
	path := *fEvid
	if path == "" {
		path = filepath.Join(*fRoot, "evidence", p.ID+".json")
	}
	os.MkdirAll(filepath.Dir(path), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d distinct states, exhaustive=%v, %.1fs\n", p.ID, *fTier, execs, ops, states.Len(), exhaustive, time.Since(start).Seconds())
	if code == 0 && execs == 0 {
		fmt.Fprintln(os.Stderr, "nothing explored")
		return 2
	}
	return code
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func headline(s string) string {
	lines := strings.Split(strings.TrimSpace(s), "\n")
	if len(lines) > 12 {
		lines = lines[:12]
	}
	return strings.Join(lines, "\n")
}

func crashViolation(p *Property, ch *child, kind, msg string) *Violation {
	v := &Violation{Property: p.ID, Tier: *fTier, Kind: kind, Shard: ch.shard, Shards: *fShards, Msg: msg}
	b, err := os.ReadFile(ch.out + ".crumb")
	if err == nil && len(b) >= 16 {
		fi := int(b[8]) | int(b[9])<<8
		if fi < len(p.Families) {
			v.Family = p.Families[fi].Name
		}
		v.Bound = int(b[12]) | int(b[13])<<8
		_, v.Choices = ReadCrumb(ch.out + ".crumb")
	}
	return v
}

func famIndex(p *Property, name string) int {
	for i := range p.Families {
		if p.Families[i].Name == name {
			return i
		}
	}
	return len(p.Families)
}

func lessViolation(p *Property, a, b *Violation) bool {
	if fa, fb := famIndex(p, a.Family), famIndex(p, b.Family); fa != fb {
		return fa < fb
	}
	if a.Bound != b.Bound {
		return a.Bound < b.Bound
	}
	if len(a.Choices) != len(b.Choices) {
		return len(a.Choices) < len(b.Choices)
	}
	for i := range a.Choices {
		if a.Choices[i] != b.Choices[i] {
			return a.Choices[i] < b.Choices[i]
		}
	}
	return false
}

// confirm re-executes a violation in fresh processes.
func confirm(p *Property, v *Violation) *Violation {
	if v.Kind == "hang" {
		return v
	}
	fails := 0
	const tries = 5
	for i := 0; i < tries; i++ {
		cmd := exec.Command(os.Args[0], "-prop", v.Property, "-tier", v.Tier, "-family", v.Family, "-bound", strconv.Itoa(v.Bound), "-choices", choicesText(v.Choices), "-root", *fRoot)
		out, err := cmd.Output()
		if err != nil {
			fails++
			var nv Violation
			if json.Unmarshal(out, &nv) == nil && nv.Msg != "" {
				v.Msg, v.Trace, v.Choices = nv.Msg, nv.Trace, nv.Choices
			}
		}
	}
	v.Repeats += fmt.Sprintf("; failed %d of %d re-executions in fresh processes", fails, tries)
	if fails == 0 && v.Kind == "single" {
		// depends on what was executed before in the same process: the history of the shard is the counterexample
		v.Kind = "shard"
		fails = 0
		for i := 0; i < 2; i++ {
			if runShard(v) {
				fails++
			}
		}
		v.Repeats += fmt.Sprintf("; with the preceding executions of its worker, failed %d of 2 re-executions", fails)
	}
	return v
}

// runShard re-executes the executions of a shard up to the failing one.
func runShard(v *Violation) bool {
	tmp, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return false
	}
	defer os.RemoveAll(tmp)
	out := filepath.Join(tmp, "w.json")
	cmd := exec.Command(os.Args[0], "-prop", v.Property, "-tier", v.Tier, "-stopat", fmt.Sprint(v.Family, "/", v.Bound),
		"-worker", strconv.Itoa(v.Shard), "-shards", strconv.Itoa(v.Shards), "-out", out, "-stopindex", strconv.FormatUint(v.Index, 10), "-root", *fRoot)
	if err := cmd.Run(); err != nil {
		return true
	}
	var res workerOut
	b, _ := os.ReadFile(out)
	if json.Unmarshal(b, &res) == nil {
		for _, l := range res.Levels {
			if l.Violation != nil {
				return true
			}
		}
	}
	return false
}

func writeReplay(v *Violation) string {
	dir := filepath.Join(*fRoot, "replays")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(v, "", " ")
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x.json", v.Property, v.Family, fnv64(fmt.Sprint(v.Family, v.Bound, v.Choices, v.Kind))))
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err = json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Registry[v.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", v.Property)
		return 2
	}
	if v.Kind == "shard" {
		if runShard(&v) {
			fmt.Printf("reproduced (history of shard %d/%d up to execution %d): %s\n", v.Shard, v.Shards, v.Index, v.Msg)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	cmd := exec.Command(os.Args[0], "-prop", v.Property, "-tier", v.Tier, "-family", v.Family, "-bound", strconv.Itoa(v.Bound), "-choices", choicesText(v.Choices), "-root", *fRoot)
	out, err := cmd.Output()
	if err == nil {
		fmt.Println("not reproduced")
		return 0
	}
	var nv Violation
	if json.Unmarshal(out, &nv) == nil {
		fmt.Println("reproduced:", nv.Msg)
		for _, l := range nv.Trace {
			fmt.Println("   ", l)
		}
	} else {
		fmt.Println("reproduced:", err)
	}
	return 1
}
