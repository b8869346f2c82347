package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type harnessSpec struct {
	Fn       string         `json:"fn"`
	Weight   float64        `json:"weight"`
	Quick    map[string]int `json:"quick"`
	Thorough map[string]int `json:"thorough"`
	Opts     map[string]int `json:"opts"`
	Bounds   string         `json:"bounds"`
	Tier     string         `json:"tier"` // "" both, or one of quick/thorough
	Reach    []string       `json:"reach"`
}

type propSpec struct {
	Budget  map[string]int `json:"budget"`
	Pkgs    []string       `json:"pkgs"`
	CLI     bool           `json:"cli"`
	Bounds  string         `json:"bounds"`
	Outside string         `json:"outside"`
	Assume  []string       `json:"assumptions"`
	Harness []*harnessSpec `json:"harness"`
}

type finding struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Msg      string            `json:"msg"`    // regexp on the failure message
	Inputs   map[string]string `json:"inputs"` // input name -> regexp on its value
	What     string            `json:"what"`
	Status   string            `json:"status"` // "known" or "fixed"
}

type ndRecord struct {
	ID      int            `json:"id"`
	Harness string         `json:"harness"`
	Params  map[string]int `json:"params"`
	Inputs  []inputVal     `json:"inputs"`
	Tries   int            `json:"tries,omitempty"`
}

type ndResult struct {
	ID    int      `json:"id"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Obs   []string `json:"obs"`
	Stack string   `json:"stack"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	verif := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	budget := flag.Int("budget", 0, "seconds of exploration")
	only := flag.String("only", "", "harness substring")
	workers := flag.Int("workers", 0, "")
	verbose := flag.Bool("v", false, "")
	set := flag.String("set", "", "param=value,...")
	noReplay := flag.Bool("noreplay", false, "")
	replayFile := flag.String("replay", "", "re-run a replay file against the real code")
	cpuprof := flag.String("cpuprofile", "", "")
	dump := flag.String("dump", "", "print traces of harness")
	noEvidence := flag.Bool("noevidence", false, "")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	debug.SetGCPercent(200)
	debug.SetMaxStack(1 << 30)
	t0 := time.Now()
	specs := map[string]*propSpec{}
	b, err := os.ReadFile(filepath.Join(*verif, "props.json"))
	if err != nil {
		fatalf("%v", err)
	}
	if err := json.Unmarshal(b, &specs); err != nil {
		fatalf("props.json: %v", err)
	}
	r := &runner{verif: *verif, repo: *repo, tier: *tier, seed: seed, verbose: *verbose, t0: t0}
	if *replayFile != "" {
		r.replayOne(specs, *replayFile)
		return
	}
	spec := specs[*prop]
	if spec == nil {
		fatalf("unknown property %q", *prop)
	}
	r.prop, r.spec = *prop, spec
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	bud := spec.Budget[*tier]
	if *budget > 0 {
		bud = *budget
	}
	if bud == 0 {
		bud = 90
	}
	extra := map[string]int{}
	for _, kv := range strings.Split(*set, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			n, _ := strconv.Atoi(v)
			extra[k] = n
		}
	}
	// the native driver is built while the engine explores
	r.prepare()
	defer os.RemoveAll(r.tmp)
	go r.build()
	code := r.run(bud, *only, *workers, extra, *noReplay, *dump, *noEvidence)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.RemoveAll(r.tmp)
	os.Exit(code)
}

type runner struct {
	verif, repo, tier, prop string
	spec                    *propSpec
	seed                    int64
	verbose                 bool
	t0                      time.Time
	tmp                     string
	pkgs                    map[string]bool
	overlay                 map[string][]byte
	repl                    map[string]string
	built                   chan struct{}
	buildErr                error
	bin, raceBin, cli       string
	jobs                    []*job
	specOf                  map[*job]*harnessSpec
}

func (r *runner) prepare() {
	r.pkgs = map[string]bool{"nd": true, "replay": true}
	for _, h := range r.spec.Harness {
		pk, _, _ := strings.Cut(h.Fn, ".")
		r.pkgs[pk] = true
	}
	// shared helper packages
	es, _ := os.ReadDir(filepath.Join(r.verif, "harness"))
	for _, e := range es {
		if e.IsDir() && strings.HasPrefix(e.Name(), "lib") {
			r.pkgs[e.Name()] = true
		}
	}
	var err error
	r.overlay, r.repl, err = harnessOverlay(r.repo, filepath.Join(r.verif, "harness"), r.pkgs)
	if err != nil {
		fatalf("%v", err)
	}
	r.tmp, err = os.MkdirTemp("", "gosym")
	if err != nil {
		fatalf("%v", err)
	}
	r.built = make(chan struct{})
}

// build compiles the replay driver (and the command) from the current tree.
func (r *runner) build() {
	defer close(r.built)
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"" + modPath + "/zzverif/replay\"\n")
	pk := map[string]bool{}
	for _, h := range r.spec.Harness {
		p, _, _ := strings.Cut(h.Fn, ".")
		pk[p] = true
	}
	for _, p := range sortedKeys(pk) {
		sb.WriteString("\t\"" + modPath + "/zzverif/" + p + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n\treplay.Main(map[string]func(){\n")
	fns := map[string]bool{}
	for _, h := range r.spec.Harness {
		if fns[h.Fn] {
			continue
		}
		fns[h.Fn] = true
		sb.WriteString(fmt.Sprintf("\t\t%q: %s,\n", h.Fn, h.Fn))
	}
	sb.WriteString("\t})\n}\n")
	main := filepath.Join(r.tmp, "main.go")
	if r.buildErr = os.WriteFile(main, []byte(sb.String()), 0o644); r.buildErr != nil {
		return
	}
	repl := map[string]string{}
	for k, v := range r.repl {
		repl[k] = v
	}
	repl[filepath.Join(r.repo, "zzverif", "driver", "main.go")] = main
	oj, _ := json.Marshal(map[string]any{"Replace": repl})
	ov := filepath.Join(r.tmp, "overlay.json")
	os.WriteFile(ov, oj, 0o644)
	r.bin = filepath.Join(r.tmp, "replay.bin")
	gobuild := func(out, pkg string, race bool) error {
		args := []string{"build", "-overlay", ov, "-o", out}
		if race {
			args = append(args, "-race")
		}
		cmd := exec.Command("go", append(args, pkg)...)
		cmd.Dir = r.repo
		cmd.Env = append(os.Environ(), "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOFLAGS=")
		if race {
			cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
		}
		out2, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go build %s: %v\n%s", pkg, err, out2)
		}
		return nil
	}
	if r.buildErr = gobuild(r.bin, "./zzverif/driver", false); r.buildErr != nil {
		return
	}
	if r.spec.CLI {
		r.cli = filepath.Join(r.tmp, "addchain")
		if r.buildErr = gobuild(r.cli, "./cmd/addchain", false); r.buildErr != nil {
			return
		}
	}
	for _, h := range r.spec.Harness {
		if h.Opts["race"] == 1 && r.raceBin == "" {
			r.raceBin = filepath.Join(r.tmp, "replay.race")
			if err := gobuild(r.raceBin, "./zzverif/driver", true); err != nil {
				warnf("race build: %v", err)
				r.raceBin = r.bin
			}
		}
	}
}

// native runs records against the real code.
func (r *runner) native(bin string, recs []ndRecord) map[int]*ndResult {
	res := map[int]*ndResult{}
	todo := recs
	for len(todo) > 0 {
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, x := range todo {
			enc.Encode(x)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
		cmd := exec.CommandContext(ctx, bin)
		cmd.Dir = r.tmp
		cmd.Env = append(os.Environ(), "ND_CLI="+r.cli, "ND_TMP="+r.tmp, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66")
		if bin == r.raceBin {
			cmd.Env = append(cmd.Env, "ND_RACE=1")
		}
		cmd.Stdin = &in
		var errb bytes.Buffer
		cmd.Stderr = &errb
		out, _ := cmd.Output()
		cancel()
		cur := -1
		sc := bufio.NewScanner(bytes.NewReader(out))
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		done := map[int]bool{}
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "#") {
				cur, _ = strconv.Atoi(l[1:])
				continue
			}
			var x ndResult
			if json.Unmarshal([]byte(l), &x) == nil && (x.Kind != "") {
				res[x.ID] = &x
				done[x.ID] = true
				cur = -1
			}
		}
		if cur >= 0 && !done[cur] {
			msg := errb.String()
			kind := "crash"
			if strings.Contains(msg, "DATA RACE") {
				kind = "race"
			}
			if i := strings.Index(msg, "fatal error"); i > 0 {
				msg = msg[i:]
			}
			if len(msg) > 3000 {
				msg = msg[:3000]
			}
			res[cur] = &ndResult{ID: cur, Kind: kind, Msg: msg}
			done[cur] = true
		}
		var rest []ndRecord
		for _, x := range todo {
			if !done[x.ID] {
				rest = append(rest, x)
			}
		}
		if len(rest) == len(todo) {
			warnf("native driver made no progress: %s", errb.String())
			break
		}
		todo = rest
	}
	return res
}

func (r *runner) mkcfg(h *harnessSpec, extra map[string]int) *RunConfig {
	c := &RunConfig{params: map[string]int{}, maxDepth: 3000, maxDecisions: 200000, maxSteps: 60_000_000, maxWidth: 4096, maxBits: 4096, maxVios: 10, fallback: 20 * time.Second, verbose: r.verbose, numCPU: 4, traces: 30, lia: true}
	ps := h.Quick
	if r.tier == "thorough" {
		for k, v := range h.Quick {
			c.params[k] = v
		}
		ps = h.Thorough
		c.fallback = 60 * time.Second
		c.traces = 60
		c.crossEvery = 400
	} else {
		c.crossEvery = 3000
	}
	for k, v := range ps {
		c.params[k] = v
	}
	c.params["thorough"] = 0
	if r.tier == "thorough" {
		c.params["thorough"] = 1
	}
	for k, v := range extra {
		c.params[k] = v
	}
	c.maxPreempt = -1
	opts := map[string]int{}
	for k, v := range h.Opts {
		opts[k] = v
	}
	for k, v := range extra {
		if strings.HasPrefix(k, "@") {
			opts[k[1:]] = v
		}
	}
	for k, v := range opts {
		switch k {
		case "schedule":
			c.schedule = v == 1
		case "maporder":
			c.mapOrder = v == 1
		case "lia":
			c.lia = v == 1
		case "race":
			c.race = v == 1
		case "preempt":
			c.maxPreempt = v
		case "steps":
			c.maxSteps = int64(v)
		case "depth":
			c.maxDepth = v
		case "width":
			c.maxWidth = v
		case "bits":
			c.maxBits = v
		case "cross":
			c.crossEvery = v
		case "cpus":
			c.numCPU = v
		case "tries":
			c.tries = v
		case "traces":
			c.traces = v
		case "decisions":
			c.maxDecisions = v
		default:
			fatalf("unknown option %s", k)
		}
	}
	if v, ok := c.params["preempt"]; ok {
		c.maxPreempt = v
	}
	return c
}

func (r *runner) run(budget int, only string, workers int, extra map[string]int, noReplay bool, dump string, noEvidence bool) int {
	patterns := append([]string{}, r.spec.Pkgs...)
	pk := map[string]bool{}
	for _, h := range r.spec.Harness {
		p, _, _ := strings.Cut(h.Fn, ".")
		pk[p] = true
	}
	for _, p := range sortedKeys(pk) {
		patterns = append(patterns, "./zzverif/"+p)
	}
	if r.spec.CLI {
		patterns = append(patterns, "./cmd/addchain")
	}
	p, err := loadProg(r.repo, r.overlay, patterns)
	if err != nil {
		fatalf("%v", err)
	}
	tl := time.Since(r.t0)
	deadline := time.Now().Add(time.Duration(budget) * time.Second)
	r.specOf = map[*job]*harnessSpec{}
	for i, h := range r.spec.Harness {
		if only != "" && !strings.Contains(h.Fn, only) {
			continue
		}
		if h.Tier != "" && h.Tier != r.tier {
			continue
		}
		pk, fn, _ := strings.Cut(h.Fn, ".")
		sp := p.pkgs[modPath+"/zzverif/"+pk]
		if sp == nil || sp.Func(fn) == nil {
			fatalf("no harness %s", h.Fn)
		}
		j := &job{name: h.Fn, prop: r.prop, cfg: r.mkcfg(h, extra), entry: sp.Func(fn), weight: h.Weight}
		if j.weight == 0 {
			j.weight = 1
		}
		j.w = newWorld(h.Fn, deadline, r.seed*1000+int64(i))
		j.w.maxTraces = j.cfg.traces
		j.w.push(&item{model: newModel()})
		r.jobs = append(r.jobs, j)
		r.specOf[j] = h
	}
	if len(r.jobs) == 0 {
		fatalf("no harness selected")
	}
	solT := 10 * time.Second
	if r.tier == "thorough" {
		solT = 30 * time.Second
	}
	st := runJobs(p, r.jobs, workers, deadline, solT)
	explored := time.Since(r.t0)
	if r.verbose {
		for _, j := range r.jobs {
			w := j.w
			fmt.Fprintf(os.Stderr, "%s: paths %d ok %d assumed %d unsup %d limit %d vio %d left %d decisions %d used %v solver %v q %d steps %d maxdec %d\n", j.name, w.paths, w.completed, w.assumed, w.unsup, w.limits, len(w.vios), len(w.frontier), w.decisions, j.used.Round(time.Millisecond), w.solTime.Round(time.Millisecond), w.queries, w.steps, w.maxDecs)
			for _, k := range sortedKeys(w.unsupMsgs) {
				fmt.Fprintf(os.Stderr, "   unsupported %dx %s\n", w.unsupMsgs[k], k)
			}
			for _, k := range sortedKeys(w.limitMsgs) {
				fmt.Fprintf(os.Stderr, "   limit %dx %s\n", w.limitMsgs[k], k)
			}
			for _, k := range sortedKeys(w.unknown) {
				fmt.Fprintf(os.Stderr, "   unknown %dx %s\n", w.unknown[k], k)
			}
			for _, k := range sortedKeys(w.asserts) {
				fmt.Fprintf(os.Stderr, "   assert %dx %s (+%d const)\n", w.asserts[k], k, w.assertsConst[k])
			}
			for _, k := range sortedKeys(w.assertsConst) {
				if w.asserts[k] == 0 {
					fmt.Fprintf(os.Stderr, "   assert const %dx %s\n", w.assertsConst[k], k)
				}
			}
			for _, k := range sortedKeys(w.reach) {
				fmt.Fprintf(os.Stderr, "   reached %s\n", k)
			}
			for _, v := range w.vios {
				fmt.Fprintf(os.Stderr, "   VIO %s %s %v %s\n", v.Kind, v.Msg, v.Inputs, v.Trace)
			}
			if dump != "" && strings.Contains(j.name, dump) {
				for _, t := range w.traces {
					fmt.Fprintf(os.Stderr, "   trace %v %v\n", t.Inputs, t.Obs)
				}
			}
		}
		fmt.Fprintf(os.Stderr, "load %v explore %v; solver q %d sat %d unsat %d unk %d hits %d quick %d fallback %d time %v max %v restarts %d cross %d/%d\n", tl, explored, st.Queries, st.Sat, st.Unsat, st.Unknown, st.CacheHits, st.Quick, st.Fallbacks, st.Time, st.MaxQuery, st.Restarts, st.CrossChecked, st.CrossDisagree)
	}
	if noReplay {
		return 0
	}
	return r.report(p, st, workers, noEvidence)
}

type confirmed struct {
	job    *job
	inputs []inputVal
	engine string
	res    *ndResult
	from   string
	known  *finding
}

func (r *runner) report(p *Prog, st SolverStats, workers int, noEvidence bool) int {
	<-r.built
	if r.buildErr != nil {
		fatalf("%v", r.buildErr)
	}
	type src struct {
		job  *job
		kind string
		vio  *violation
		tr   *traceRec
	}
	var recs, raceRecs []ndRecord
	srcs := map[int]src{}
	id := 0
	add := func(j *job, inputs []inputVal, s src, race bool) {
		id++
		rec := ndRecord{ID: id, Harness: j.name, Params: j.cfg.params, Inputs: inputs}
		if rec.Inputs == nil {
			rec.Inputs = []inputVal{}
		}
		srcs[id] = s
		if race {
			rec.Tries = max(1, j.cfg.tries)
			raceRecs = append(raceRecs, rec)
		} else {
			recs = append(recs, rec)
		}
	}
	for _, j := range r.jobs {
		for _, v := range j.w.vios {
			add(j, v.Inputs, src{j, "violation", v, nil}, j.cfg.race)
		}
		for _, t := range j.w.traces {
			add(j, t.Inputs, src{j, "trace", nil, t}, false)
		}
		for _, t := range j.w.suspects {
			add(j, t.Inputs, src{j, "suspect", nil, t}, false)
		}
	}
	results := r.nativeParallel(r.bin, recs, workers)
	if len(raceRecs) > 0 {
		for k, v := range r.nativeParallel(r.raceBin, raceRecs, 4) {
			results[k] = v
		}
	}
	bad := map[string]bool{"assert": true, "panic": true, "crash": true, "race": true, "timeout": true}
	var conf []*confirmed
	validated, mismatch, unconfirmed, suspectsRun, diverged := 0, 0, 0, 0, 0
	var mismatches, unconf []string
	for i := 1; i <= id; i++ {
		s, x := srcs[i], results[i]
		if x == nil {
			continue
		}
		switch s.kind {
		case "violation":
			if bad[x.Kind] {
				conf = append(conf, &confirmed{job: s.job, inputs: s.vio.Inputs, engine: s.vio.Msg, res: x, from: "solver counterexample"})
			} else {
				unconfirmed++
				unconf = append(unconf, fmt.Sprintf("%s: engine says %s %q, real code: %s %s; inputs %v", s.job.name, s.vio.Kind, s.vio.Msg, x.Kind, x.Msg, s.vio.Inputs))
			}
		default:
			if s.kind == "suspect" {
				suspectsRun++
			}
			if bad[x.Kind] {
				conf = append(conf, &confirmed{job: s.job, inputs: s.tr.Inputs, engine: "(none)", res: x, from: "replay of an explored path"})
				continue
			}
			if x.Kind == "diverge" || x.Kind == "assume" {
				if s.tr.End == "ok" {
					diverged++
					mismatches = append(mismatches, fmt.Sprintf("%s: native %s %s; inputs %v", s.job.name, x.Kind, x.Msg, s.tr.Inputs))
				}
				continue
			}
			if s.tr.End != "ok" {
				continue
			}
			if strings.Join(x.Obs, "\n") != strings.Join(s.tr.Obs, "\n") {
				mismatch++
				mismatches = append(mismatches, fmt.Sprintf("%s: inputs %v\n engine %v\n native %v", s.job.name, s.tr.Inputs, s.tr.Obs, x.Obs))
			} else {
				validated++
			}
		}
	}
	for _, s := range mismatches {
		warnf("engine/native mismatch: %s", clip(s, 1500))
	}
	for _, s := range unconf {
		warnf("unconfirmed: %s", clip(s, 1500))
	}
	known := r.loadFindings()
	outDir := filepath.Join(r.verif, "out")
	os.MkdirAll(outDir, 0o755)
	nv := 0
	seenKnown := map[string]bool{}
	seenVio := map[string]bool{}
	var vioRecs []map[string]any
	for _, c := range conf {
		for _, f := range known {
			if f.Status == "known" && f.matches(r.prop, c) {
				c.known = f
			}
		}
		if c.known != nil {
			if !seenKnown[c.known.What] {
				seenKnown[c.known.What] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, c.known.What)
			}
			continue
		}
		key := c.job.name + c.res.Kind + clip(c.res.Msg, 60)
		if seenVio[key] || nv >= 10 {
			continue
		}
		seenVio[key] = true
		nv++
		path := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", r.prop, nv))
		rec := map[string]any{"property": r.prop, "harness": c.job.name, "params": c.job.cfg.params, "inputs": c.inputs, "engine": c.engine, "native": c.res, "found_by": c.from, "rerun": fmt.Sprintf("%s/bin/gosym -replay %s", r.verif, path)}
		bb, _ := json.MarshalIndent(rec, "", " ")
		os.WriteFile(path, bb, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, path)
		fmt.Printf("  %s: %s %s\n  inputs: %s\n", c.job.name, c.res.Kind, clip(c.res.Msg, 400), clip(fmt.Sprint(c.inputs), 600))
		vioRecs = append(vioRecs, map[string]any{"harness": c.job.name, "kind": c.res.Kind, "msg": clip(c.res.Msg, 300), "inputs": clip(fmt.Sprint(c.inputs), 300), "found_by": c.from})
	}
	if !noEvidence {
		r.evidence(p, st, validated, mismatch, diverged, unconfirmed, suspectsRun, nv, vioRecs, seenKnown, mismatches, unconf)
	}
	done := 0
	for _, j := range r.jobs {
		done += j.w.completed
	}
	if nv > 0 {
		return 1
	}
	if done == 0 && len(seenKnown) == 0 {
		fmt.Fprintln(os.Stderr, "gosym: no path completed: nothing was decided")
		for _, j := range r.jobs {
			for k, n := range j.w.unsupMsgs {
				fmt.Fprintf(os.Stderr, "  %s: unsupported %dx %s\n", j.name, n, k)
			}
		}
		return 3
	}
	fmt.Printf("%s %s: %d paths, %d solver queries, %d traces validated, no violation (%.1fs)\n", r.prop, r.tier, done, st.Queries, validated, time.Since(r.t0).Seconds())
	return 0
}

func (r *runner) nativeParallel(bin string, recs []ndRecord, n int) map[int]*ndResult {
	parts := make([][]ndRecord, n)
	for i, x := range recs {
		parts[i%n] = append(parts[i%n], x)
	}
	ch := make(chan map[int]*ndResult)
	for _, ps := range parts {
		go func(ps []ndRecord) { ch <- r.native(bin, ps) }(ps)
	}
	out := map[int]*ndResult{}
	for range parts {
		for k, v := range <-ch {
			out[k] = v
		}
	}
	return out
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (r *runner) loadFindings() []*finding {
	var fs []*finding
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fatalf("known_findings.json: %v", err)
	}
	return fs
}

func (f *finding) matches(prop string, c *confirmed) bool {
	if f.Property != prop || f.Harness != "" && f.Harness != c.job.name {
		return false
	}
	if ok, _ := regexp.MatchString(f.Msg, c.res.Msg); !ok {
		return false
	}
	for n, re := range f.Inputs {
		ok := false
		for _, in := range c.inputs {
			if in.N == n {
				if m, _ := regexp.MatchString("^(?:"+re+")$", in.V); m {
					ok = true
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func (r *runner) evidence(p *Prog, st SolverStats, validated, mismatch, diverged, unconfirmed, suspects, nv int, vioRecs []map[string]any, known map[string]bool, mm, uc []string) {
	paths, trans := 0, int64(0)
	exhaustive := true
	var hs []map[string]any
	var samples []any
	fns := map[string]int{}
	asserts, assertsConst := 0, 0
	for _, j := range r.jobs {
		w := j.w
		paths += w.completed
		trans += w.decisions
		for _, n := range w.asserts {
			asserts += n
		}
		for _, n := range w.assertsConst {
			assertsConst += n
		}
		unk := 0
		for _, n := range w.unknown {
			unk += n
		}
		full := len(w.frontier) == 0 && w.abandoned == 0 && unk == 0 && w.unsup == 0 && w.limits == 0
		exhaustive = exhaustive && full
		h := map[string]any{
			"harness": j.name, "bounds": r.specOf[j].Bounds, "params": j.cfg.params,
			"paths_completed": w.completed, "paths_infeasible_after_assumption": w.assumed,
			"paths_unsupported": w.unsup, "paths_over_limit": w.limits, "paths_abandoned_at_deadline": w.abandoned,
			"frontier_left": len(w.frontier), "decisions": w.decisions, "ssa_steps": w.steps, "longest_path_decisions": w.maxDecs,
			"solver_queries": w.queries, "solver_s": round2(w.solTime.Seconds()), "solver_unknown": unk,
			"asserts_proved_by_solver": w.asserts, "asserts_true_by_simplification": w.assertsConst,
			"complete_within_bounds": full,
		}
		if len(w.unsupMsgs) > 0 {
			h["unsupported"] = topN(w.unsupMsgs, 6)
		}
		if len(w.limitMsgs) > 0 {
			h["limits"] = topN(w.limitMsgs, 6)
		}
		if len(w.unknown) > 0 {
			h["unknown_at"] = topN(w.unknown, 6)
		}
		if len(w.reach) > 0 {
			h["reached"] = sortedKeys(w.reach)
		}
		var missing []string
		for _, x := range r.specOf[j].Reach {
			if !w.reach[x] {
				missing = append(missing, x)
			}
		}
		if len(missing) > 0 {
			h["witness_not_reached"] = missing
			warnf("%s: witnesses not reached: %v", j.name, missing)
		}
		hs = append(hs, h)
		for i, t := range w.traces {
			if i >= 2 {
				break
			}
			samples = append(samples, map[string]any{"harness": j.name, "inputs": clip(fmt.Sprint(t.Inputs), 300), "observed": clip(fmt.Sprint(t.Obs), 300)})
		}
		for c, n := range w.cover {
			if c.isRepo {
				fns[strings.ReplaceAll(c.name, modPath, "addchain")] += n
			}
		}
	}
	names := sortedKeys(fns)
	if len(samples) > 24 {
		samples = samples[:24]
	}
	if samples == nil {
		samples = []any{}
	}
	flist := names
	if len(flist) > 260 {
		flist = flist[:260]
	}
	cov := map[string]any{
		"states": paths, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":                   "states = program paths of the real code decided completely; transitions = branch, value and scheduling decisions taken on them; each path is closed by solver verdicts over all inputs that follow it",
		"exhaustive":                    exhaustive,
		"bounds":                        r.spec.Bounds,
		"outside_the_bounds":            r.spec.Outside,
		"functions_encoded":             len(names),
		"functions":                     flist,
		"harnesses":                     hs,
		"queries":                       st.Queries,
		"queries_sat":                   st.Sat,
		"queries_unsat":                 st.Unsat,
		"queries_unknown":               st.Unknown,
		"decided_by_domain_propagation": st.Quick,
		"query_cache_hits":              st.CacheHits,
		"solver_s":                      round2(st.Time.Seconds()),
		"solver_longest_query_s":        round2(st.MaxQuery.Seconds()),
		"cross_checked_with_cvc5":       st.CrossChecked,
		"cross_check_disagreements":     st.CrossDisagree,
		"asserts_by_solver":             asserts, "asserts_by_simplification": assertsConst,
		"native_mismatches":           mismatch + diverged,
		"unconfirmed_counterexamples": unconfirmed,
		"unsupported_paths_replayed":  suspects,
	}
	if len(vioRecs) > 0 {
		cov["violations_found"] = vioRecs
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = sortedKeys(known)
	}
	if len(mm) > 0 {
		cov["mismatch_samples"] = clip(strings.Join(mm[:min(len(mm), 4)], " | "), 2000)
	}
	if len(uc) > 0 {
		cov["unconfirmed_samples"] = clip(strings.Join(uc[:min(len(uc), 4)], " | "), 2000)
	}
	ev := map[string]any{"property": r.prop, "tier": r.tier, "seed": r.seed, "level": "model_checking", "coverage": cov, "assumptions": r.spec.Assume, "wall_s": round2(time.Since(r.t0).Seconds()), "violations": nv}
	if r.spec.Assume == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("evidence: %v", err)
	}
	if err := os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), b, 0o644); err != nil {
		fatalf("evidence: %v", err)
	}
}

func round2(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func topN(m map[string]int, n int) map[string]int {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	r := map[string]int{}
	for i, k := range ks {
		if i >= n {
			break
		}
		r[clip(k, 200)] = m[k]
	}
	return r
}

// replayOne re-runs one replay file against the real code.
func (r *runner) replayOne(specs map[string]*propSpec, file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fatalf("%v", err)
	}
	var rec struct {
		Property string         `json:"property"`
		Harness  string         `json:"harness"`
		Params   map[string]int `json:"params"`
		Inputs   []inputVal     `json:"inputs"`
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fatalf("%v", err)
	}
	r.prop, r.spec = rec.Property, specs[rec.Property]
	if r.spec == nil {
		fatalf("unknown property")
	}
	r.prepare()
	defer os.RemoveAll(r.tmp)
	r.build()
	if r.buildErr != nil {
		fatalf("%v", r.buildErr)
	}
	bin := r.bin
	tries := 0
	for _, h := range r.spec.Harness {
		if h.Fn == rec.Harness && h.Opts["race"] == 1 {
			bin = r.raceBin
			tries = max(1, h.Opts["tries"])
		}
	}
	res := r.native(bin, []ndRecord{{ID: 1, Harness: rec.Harness, Params: rec.Params, Inputs: rec.Inputs, Tries: tries}})
	out, _ := json.MarshalIndent(res[1], "", " ")
	fmt.Println(string(out))
}

var _ = ssa.Const{}
