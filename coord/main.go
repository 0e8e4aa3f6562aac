package main

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/wire"
)

// Gen is a scenario generator with its share.
type Gen struct {
	name   string
	f      func(*G)
	weight int
}

// Prop is one property and how it is explored.
type Prop struct {
	id        string
	gens      []Gen
	groups    []string // oracle groups that decide it
	probe     bool
	logWrites bool
	quick     int // scenarios in the quick tier
	variants  int // disturbed runs per scenario
}

var always = []string{"panic", "hang"}

var opGroups = []string{"sign.valid", "sign.must", "verify.sound", "verify.must", "seal.must", "seal.recover", "seal.badpub", "open.must", "open.exact", "gen.must", "gen.pair", "gen.use", "gen.over"}

func cat(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

var props = []*Prop{
	{id: "C01", gens: []Gen{{"sign", genSign, 12}, {"together", together(0, 0, 1), 1}, {"command", command(0), 1}}, groups: []string{"sign.valid", "sign.must", "verify.must", "verify.sound"}, quick: 1200},
	{id: "C02", gens: []Gen{{"verify", genVerify, 5}, {"tornsig", genTornSig, 2}, {"together", together(1), 1}, {"command", command(1), 1}}, groups: []string{"verify.sound", "verify.must"}, quick: 2000},
	{id: "C03", gens: []Gen{{"seal", genSeal, 10}, {"sealmutating", genSealMutating, 2}, {"together", together(2), 1}, {"command", command(3), 1}}, groups: []string{"seal.must", "seal.recover", "open.must", "open.exact"}, probe: true, quick: 1200},
	{id: "C04", gens: []Gen{{"open", genOpen, 12}, {"together", together(4), 1}, {"command", command(4), 1}}, groups: []string{"open.must", "open.exact"}, quick: 1200},
	{id: "C05", gens: []Gen{{"damaged", genDamagedEnc, 12}, {"command", genDamagedCLI, 1}}, groups: []string{"open.exact", "open.prefix"}, quick: 1200},
	{id: "C06", gens: []Gen{{"fresh", genFresh, 12}, {"command", command(3), 1}}, groups: []string{"fresh", "stream", "plain"}, logWrites: true, quick: 220},
	{id: "C07", gens: []Gen{{"keys", genKeys, 12}, {"race", genRace, 2}, {"together", together(6), 1}, {"command", command(5), 1}}, groups: cat(opGroups, "gen.crash"), probe: true, quick: 700},
	{id: "C08", gens: []Gen{{"exposure", genExposure, 12}, {"command", command(5), 1}}, groups: []string{"expose", "clear"}, logWrites: true, quick: 500},
	{id: "C09", gens: []Gen{{"overwrite", genOverwrite, 12}, {"command", command(5), 1}}, groups: []string{"gen.over", "gen.race", "gen.pair"}, quick: 1500},
	{id: "C10", gens: []Gen{{"badkey", genBadKey, 4}, {"tornkey", genTornKey, 1}}, groups: []string{"badkey.used", "badkey.output", "sign.valid", "open.exact"}, quick: 1300},
	{id: "C11", gens: []Gen{{"unlock", genUnlock, 12}, {"together", together(4, 7), 1}}, groups: []string{"unlock", "badkey.used", "sign.valid", "sign.must"}, quick: 700},
	{id: "C12", gens: []Gen{{"wrongpass", genWrongPass, 12}, {"command", command(0, 4), 1}}, groups: []string{"nochange", "badkey.used", "badkey.output"}, quick: 800},
	{id: "C13", gens: []Gen{{"wipe", genWipe, 12}, {"together", together(4, 7), 1}}, groups: []string{"wipe"}, quick: 800},
	{id: "C14", gens: []Gen{{"garbage", genGarbage, 4}, {"tornany", genTornAny, 1}}, groups: []string{"verify.sound", "badkey.used", "badpub", "seal.badpub", "sign.valid", "open.exact"}, quick: 1500},
	{id: "C15", gens: []Gen{{"encoder", genEncoder, 20}, {"together", together(9), 1}}, groups: []string{"enc"}, quick: 3000},
	{id: "C16", gens: []Gen{{"decoder", genDecoder, 20}, {"together", together(10), 1}}, groups: []string{"dec"}, quick: 3000},
	{id: "C17", gens: []Gen{{"cli", genCLI, 1}}, groups: cat(opGroups, "cli", "prompt", "badkey.used"), quick: 1500},
	{id: "C18", gens: []Gen{{"touch", genTouch, 12}, {"command", command(0, 1, 3, 4, 5), 1}}, groups: []string{"touch"}, quick: 1700},
	{id: "C19", gens: []Gen{{"retry", genRetry, 1}}, groups: opGroups, probe: true, quick: 900},
	{id: "C20", gens: []Gen{{"concurrent", genConcurrent, 1}}, groups: cat(opGroups, "solo", "enc", "dec", "unlock", "loadpub", "entropy", "fresh", "stream", "seal.format", "gen.format"), probe: true, quick: 800},
	{id: "C21", gens: []Gen{{"prompt", genPrompt, 12}, {"command", command(0, 4, 5), 1}}, groups: []string{"prompt"}, quick: 2500},
	{id: "C22", gens: []Gen{{"leak", genLeak, 20}, {"together", genConcurrent, 1}}, groups: []string{"leak"}, quick: 1600},
	{id: "C23", gens: []Gen{{"interop", genInterop, 1}}, groups: cat(opGroups, "sig.comment", "seal.format", "gen.format", "loadpub", "unlock"), quick: 350},
	{id: "C24", gens: []Gen{{"clidefaults", genCLIDefaults, 1}}, groups: cat(opGroups, "cli"), quick: 220},
	{id: "C25", gens: []Gen{{"entropy", genEntropy, 9}, {"together", together(2, 6, 6), 1}, {"command", command(3, 5), 1}}, groups: []string{"entropy", "fresh"}, quick: 1000},
}

func (p *Prop) counts(g string) bool { return hasStr(p.groups, g) || hasStr(always, g) }

func propByID(id string) *Prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

func subSeed(parts ...interface{}) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	return binary.BigEndian.Uint64(h[:]) >> 1
}

// hugeIdx is the index of the history with a very large message.
const hugeIdx = 1 << 40

const withHuge = "C01 C02 C03 C04 C06"

// generate makes scenario number idx.
func generate(p *Prop, seed int64, idx uint64, thorough bool) *Scenario {
	s := subSeed("scenario", seed, p.id, idx)
	g := &G{Rand: rand.New(rand.NewSource(int64(s))), thorough: thorough, idx: idx, used: map[string]bool{}}
	total := 0
	for _, x := range p.gens {
		total += x.weight
	}
	n := g.Intn(total)
	if idx == hugeIdx {
		n = 0
	}
	for _, x := range p.gens {
		if n < x.weight {
			g.sc = &Scenario{Prop: p.id, Gen: x.name, Seed: s, Umask: 022, Cwd: "/w"}
			x.f(g)
			if strings.Contains(again, p.id) && g.oneIn(4) {
				g.sameNames()
			}
			if strings.Contains(misplacing, p.id) && (g.oneIn(12) || x.name == "command" && g.oneIn(3)) && len(g.sc.Phases) > 0 {
				g.misplace()
			}
			break
		}
		n -= x.weight
	}
	return g.sc
}

func clone(sc *Scenario) *Scenario {
	c := *sc
	c.Phases = append([]Phase(nil), sc.Phases...)
	return &c
}

// Replay is the record of a violation.
type Replay struct {
	Property  string
	Group     string
	Message   string
	VerifSeed int64
	Index     uint64
	Variant   int
	Hashes    []uint64
	Trace     []string
	Scenario  *Scenario
}

type found struct {
	idx     uint64
	variant int
	sc      *Scenario
	v       Violation
}

// Stats of a check.
type Stats struct {
	mu        sync.Mutex
	runs      int
	nontriv   map[uint64]bool
	distinct  map[uint64]bool
	fired     map[string]int
	status    map[string]int
	checks    map[string]int
	gens      map[string]int
	good, bad int
	resampled int
	unrepeat  int
	samples   []string
	scenarios int
	known     int
}

func (s *Stats) add(p *Prop, sc *Scenario, variant int, o *Outcome) {
	h := uint64(14695981039346656037)
	for _, x := range o.Hashes {
		h = (h ^ x) * 1099511628211
	}
	judged := false
	for _, g := range p.groups {
		if o.Checks[g] > 0 {
			judged = true
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.runs++
	s.distinct[h] = true
	if o.Good+o.Fail > 0 && (judged || len(o.Fired) > 0 || len(o.Hashes) > 1) {
		s.nontriv[h] = true
	}
	for _, f := range o.Fired {
		s.fired[f.Kind+"@"+f.Class]++
	}
	for k, v := range o.Status {
		s.status[k] += v
	}
	for k, v := range o.Checks {
		s.checks[k] += v
	}
	s.good += o.Good
	s.bad += o.Fail
	if len(s.samples) < 6 && (variant > 0) == (len(s.samples)%2 == 1) && (len(s.samples)%2 == 0 || len(o.Fired) > 0) {
		s.samples = append(s.samples, summary(sc, o))
	}
}

func summary(sc *Scenario, o *Outcome) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s:", sc.Gen)
	for i, ph := range sc.Phases {
		fmt.Fprintf(&b, " phase %d", i)
		switch ph.Kind {
		case "cli":
			fmt.Fprintf(&b, " psignify %q", ph.CLI.Args)
		case "fs":
			for _, m := range ph.Fs {
				fmt.Fprintf(&b, " change %s", m.Path)
			}
		}
		for _, t := range ph.Tasks {
			for _, op := range t.Ops {
				fmt.Fprintf(&b, " t%d:%s", t.ID, desc(&op))
			}
		}
		if b.Len() > 500 {
			b.WriteString(" ...")
			break
		}
	}
	fmt.Fprintf(&b, "; fired:")
	for i, f := range o.Fired {
		if i == 4 {
			fmt.Fprintf(&b, " and %d more", len(o.Fired)-i)
			break
		}
		fmt.Fprintf(&b, " %s(%d)@%s %s", f.Kind, f.Arg, f.Class, f.Path)
	}
	fmt.Fprintf(&b, "; %d operations succeeded, %d failed, %d steps", o.Good, o.Fail, o.Steps)
	return b.String()
}

func relevant(p *Prop, o *Outcome) *Violation {
	vs := unlisted(p, nil, nil, o)
	if len(vs) == 0 {
		return nil
	}
	return vs[0]
}

// unlisted are the violations that count and are no known finding.
func unlisted(p *Prop, ks []*Known, sc *Scenario, o *Outcome) (out []*Violation) {
	for i := range o.V {
		v := &o.V[i]
		if !p.counts(v.Group) {
			continue
		}
		known := false
		for _, k := range ks {
			known = known || k.match(sc, v)
		}
		if !known {
			out = append(out, v)
		}
	}
	return out
}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		die("usage: coord check ID TIER | replay FILE | determinism ID N")
	}
	if os.Args[1] == "instrument" && len(os.Args) == 4 {
		instrument(os.Args[2], os.Args[3])
		return
	}
	exe, _ := os.Executable()
	nodePath = filepath.Join(filepath.Dir(exe), "node")
	if n := os.Getenv("VERIF_NODE"); n != "" {
		nodePath = n
	}
	if f := os.Getenv("VERIF_CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		atExit = pprof.StopCPUProfile
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2], os.Args[3])
	case "replay":
		replay(os.Args[2])
	case "determinism":
		n, _ := strconv.Atoi(os.Args[3])
		determinism(os.Args[2], n)
	case "scenario": // print one scenario
		idx, _ := strconv.ParseUint(os.Args[3], 10, 64)
		sc := generate(propByID(os.Args[2]), verifSeed(), idx, false)
		b, _ := json.MarshalIndent(sc, "", " ")
		fmt.Println(string(b))
	default:
		die("unknown command %s", os.Args[1])
	}
}

func verifSeed() int64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return s
}

func workers() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_WORKERS")); err == nil && n > 0 {
		return n
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	d, _ := os.Getwd()
	return d
}

func check(id, tier string) {
	p := propByID(id)
	if p == nil {
		die("unknown property %s", id)
	}
	start := time.Now()
	thorough := tier == "thorough"
	seed := verifSeed()
	count := uint64(p.quick)
	if count == 0 {
		count = 260
	}
	limit := 150 * time.Second
	if thorough {
		count = 1 << 62
		limit = 600 * time.Second
	}
	if v, err := strconv.ParseUint(os.Getenv("VERIF_COUNT"), 10, 64); err == nil {
		count = v
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_SECONDS")); err == nil {
		limit = time.Duration(v) * time.Second
	}
	variants := p.variants
	if variants == 0 {
		variants = 6
	}
	fmt.Printf("%s %s: seed %d, %d workers\n", id, tier, seed, workers())
	st := &Stats{nontriv: map[uint64]bool{}, distinct: map[uint64]bool{}, fired: map[string]int{}, status: map[string]int{}, checks: map[string]int{}, gens: map[string]int{}}
	known := loadKnown(p)
	for _, k := range known {
		x := &Exec{prop: p}
		o, err := x.Run(k.Scenario, nil)
		if err != nil {
			die("known finding %s: %v", k.Rule, err)
		}
		if v := relevant(p, o); v != nil && k.match(k.Scenario, v) {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.What)
		}
	}
	var next uint64
	var mu sync.Mutex
	var finds []found
	var failure error
	stop := uint64(1 << 63) // indices from here on need not be run
	deadline := start.Add(limit)
	var wg sync.WaitGroup
	for w := 0; w <= workers(); w++ {
		big, begun := w == workers(), false
		if big && !strings.Contains(withHuge, id) {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				idx := uint64(hugeIdx)
				if !big {
					idx = atomic.AddUint64(&next, 1) - 1
				} else if begun {
					return
				}
				if idx >= count && !big || idx >= atomic.LoadUint64(&stop) || time.Now().After(deadline) {
					return
				}
				begun = true
				f, err := one(p, seed, idx, variants, thorough, st, known)
				mu.Lock()
				if err != nil && failure == nil {
					failure = fmt.Errorf("scenario %d: %w", idx, err)
				}
				if f != nil {
					finds = append(finds, *f)
				}
				if err != nil || f != nil {
					if idx < atomic.LoadUint64(&stop) {
						atomic.StoreUint64(&stop, idx)
						endHuge()
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	hugeMu.Lock()
	hugeEnd = false
	hugeMu.Unlock()
	sort.Slice(finds, func(a, b int) bool { return finds[a].idx < finds[b].idx })
	viol := 0
	code := 0
	if len(finds) > 0 {
		viol = 1
		var r *Replay
		for _, f := range finds {
			var ok bool
			if r, ok = reduce(p, seed, f, known); ok {
				break
			}
			r = nil
			fmt.Printf("warning: the violation of scenario %d variant %d did not repeat: %s: %s\n", f.idx, f.variant, f.v.Group, f.v.Msg)
		}
		if r == nil {
			writeEvidence(p, tier, seed, start, st, 0, count)
			die("no violation found repeats")
		}
		path := r.write()
		fmt.Printf("%s: %s\n", r.Group, r.Message)
		for _, t := range r.Trace {
			fmt.Printf("  %s\n", t)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	} else if failure != nil {
		writeEvidence(p, tier, seed, start, st, 0, count)
		die("%v", failure)
	}
	writeEvidence(p, tier, seed, start, st, viol, count)
	fmt.Printf("%s: %d scenarios, %d runs, %d distinct, %d operations ok, %d failed, %.1fs\n", id, st.scenarios, st.runs, len(st.nontriv), st.good, st.bad, time.Since(start).Seconds())
	atExit()
	os.Exit(code)
}

var atExit = func() {}

func huge(sc *Scenario) bool {
	for i := range sc.Phases {
		if sc.Phases[i].Huge || sc.Phases[i].Big {
			return true
		}
	}
	return false
}

// one explores scenario idx: undisturbed, then with planned disturbances.
func one(p *Prop, seed int64, idx uint64, variants int, thorough bool, st *Stats, known []*Known) (*found, error) {
	base := generate(p, seed, idx, thorough)
	st.mu.Lock()
	st.scenarios++
	st.gens[base.Gen]++
	st.mu.Unlock()
	x := &Exec{prop: p, classes: map[string][]wire.Class{}, sites: map[string][]wire.Site{}}
	planned := false
	for i := range base.Phases {
		planned = planned || base.Phases[i].Plan != nil
	}
	for v := 0; v <= variants; v++ {
		if v > 0 && !planned {
			break
		}
		sc := clone(base)
		var rng *rand.Rand
		if v > 0 {
			rng = rand.New(rand.NewSource(int64(subSeed("variant", seed, p.id, idx, v))))
		}
		o, err := x.Run(sc, rng)
		if err != nil {
			return nil, fmt.Errorf("variant %d: %w", v, err)
		}
		st.add(p, sc, v, o)
		if v == 0 && o.Steps > 200000 && variants > 1 {
			variants = 1
		}
		if bad := relevant(p, o); bad != nil {
			vs := unlisted(p, known, sc, o)
			if len(vs) == 0 {
				st.mu.Lock()
				st.known++
				st.mu.Unlock()
				continue
			}
			return &found{idx, v, sc, *vs[0]}, nil
		}
		if subSeed("resample", seed, p.id, idx, v)%40 == 0 && !huge(sc) { // the same run again must be the same run
			o2, err := (&Exec{prop: p}).Run(clone(sc), nil)
			if err != nil {
				return nil, err
			}
			if fmt.Sprint(o.Hashes, o.Steps, len(o.V)) != fmt.Sprint(o2.Hashes, o2.Steps, len(o2.V)) {
				fmt.Printf("warning: scenario %d variant %d is not repeatable: %x / %x\n", idx, v, o.Hashes, o2.Hashes)
				st.mu.Lock()
				st.unrepeat++
				st.mu.Unlock()
			}
			st.mu.Lock()
			st.resampled++
			st.mu.Unlock()
		}
	}
	return nil, nil
}

func (r *Replay) write() string {
	dir := filepath.Join(verifDir(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d-%d.json", r.Property, r.VerifSeed, r.Index, r.Variant))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0644); err != nil {
		die("%v", err)
	}
	return path
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%s: %v", path, err)
	}
	p := propByID(r.Property)
	o, err := (&Exec{prop: p}).Run(r.Scenario, nil)
	if err != nil {
		die("%v", err)
	}
	for _, v := range o.V {
		fmt.Printf("%s (phase %d): %s\n", v.Group, v.Phase, v.Msg)
	}
	for _, t := range trace(r.Scenario, o) {
		fmt.Println("  " + t)
	}
	for _, v := range o.V {
		if v.Group == r.Group {
			exact := "identical event log"
			if fmt.Sprint(o.Hashes) != fmt.Sprint(r.Hashes) {
				exact = "other event log (the code differs)"
			}
			fmt.Printf("reproduced: %s\nVIOLATION property=%s replay=%s\n", exact, r.Property, path)
			os.Exit(1)
		}
	}
	fmt.Println("not reproduced: the property holds on this run")
}

func trace(sc *Scenario, o *Outcome) []string {
	var out []string
	for i := range sc.Phases {
		ph := &sc.Phases[i]
		switch ph.Kind {
		case "cli":
			out = append(out, fmt.Sprintf("phase %d: psignify %q, typed %q, terminal %v", i, ph.CLI.Args, ph.Lines, ph.HaveTTY))
		case "fs":
			for _, m := range ph.Fs {
				out = append(out, fmt.Sprintf("phase %d: %s changed from outside", i, m.Path))
			}
		}
		for _, op := range ph.Prologue {
			out = append(out, fmt.Sprintf("phase %d: before the tasks: %s %s", i, desc(&op), op.A))
		}
		for _, t := range ph.Tasks {
			for k, op := range t.Ops {
				s := fmt.Sprintf("phase %d task %d op %d: %s", i, t.ID, k, desc(&op))
				switch op.Kind {
				case "enc", "dec":
					s += fmt.Sprintf(" of %d bytes, calls of %v, source pieces %v", len(op.Data), op.Sizes, op.Pieces)
				case "sign", "verify", "seal", "open", "gen", "tobox", "topub", "check":
				default:
					s += " " + op.A
				}
				for _, a := range op.Prompt {
					if a.Err != "" {
						s += ", prompt fails"
					} else {
						s += fmt.Sprintf(", passphrase %q", a.Pass)
					}
				}
				out = append(out, s)
			}
		}
		n := 0
		for _, f := range o.PhaseFired[i] {
			if n++; n > 12 {
				out = append(out, fmt.Sprintf("  ... %d events", len(o.PhaseFired[i])))
				break
			}
			out = append(out, fmt.Sprintf("  event: task %d call %d: %s %d %d at %s %s (op %d)", f.Task, f.N, f.Kind, f.Arg, f.Arg2, f.Class, f.Path, f.Op))
		}
	}
	return out
}

// determinism runs scenarios twice and compares everything observed.
func determinism(id string, n int) {
	p := propByID(id)
	seed := verifSeed()
	var next, bad, runs int64
	next = -1
	var wg sync.WaitGroup
	for w := 0; w < workers(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&next, 1)
				if i >= int64(n) {
					return
				}
				base := generate(p, seed, uint64(i), false)
				x := &Exec{prop: p, classes: map[string][]wire.Class{}, sites: map[string][]wire.Site{}}
				for v := 0; v < 4; v++ {
					var rng *rand.Rand
					if v > 0 {
						rng = rand.New(rand.NewSource(int64(subSeed("variant", seed, p.id, i, v))))
					}
					sc := clone(base)
					o, err := x.Run(sc, rng)
					if err != nil {
						fmt.Println(i, v, err)
						atomic.AddInt64(&bad, 1)
						continue
					}
					b, _ := json.Marshal(sc)
					var sc2 Scenario
					json.Unmarshal(b, &sc2)
					o2, err := (&Exec{prop: p}).Run(&sc2, nil)
					if err != nil {
						fmt.Println(i, v, err)
						atomic.AddInt64(&bad, 1)
						continue
					}
					atomic.AddInt64(&runs, 1)
					if fmt.Sprint(o.Hashes, o.Steps, o.SimNs, o.V, o.Fired) != fmt.Sprint(o2.Hashes, o2.Steps, o2.SimNs, o2.V, o2.Fired) {
						fmt.Println("differs:", i, v, o.Hashes, o2.Hashes, o.V, o2.V)
						atomic.AddInt64(&bad, 1)
					}
				}
			}
		}()
	}
	wg.Wait()
	fmt.Printf("%s: %d runs repeated, %d differ\n", id, runs, bad)
	if bad > 0 {
		os.Exit(2)
	}
}

func writeEvidence(p *Prop, tier string, seed int64, start time.Time, st *Stats, viol int, count uint64) {
	wall := time.Since(start).Seconds()
	perHour := func(n int) int { return int(float64(n) / wall * 3600) }
	inc := int(atomic.LoadInt64(&incarnations))
	events := 0
	for _, n := range st.fired {
		events += n
	}
	cov := map[string]interface{}{
		"evaluations":                   st.runs,
		"distinct_nontrivial":           len(st.nontriv),
		"rule":                          "One evaluation is one simulated run: a seeded history (disk image, operations of one or more tasks or command lines, damage between incarnations) with a seeded set of faults and delays placed at its system calls. Distinct: the hash over all seam crossings (task, call, path, arguments, data, result, injected fault), of all incarnations of the run. Non-trivial: psignify operations ran and an expectation of this property was evaluated, a fault took effect, or several incarnations followed each other.",
		"samples":                       st.samples,
		"scenarios":                     st.scenarios,
		"scenarios_by_generator":        st.gens,
		"seeds_per_hour":                perHour(st.scenarios),
		"runs_per_hour":                 perHour(st.runs),
		"incarnations":                  inc,
		"distinct_event_logs":           len(st.distinct),
		"simulated_seconds":             float64(atomic.LoadInt64(&simNs)) / 1e9,
		"seam_crossings":                atomic.LoadInt64(&simSteps),
		"task_switches":                 atomic.LoadInt64(&simSwitches),
		"events_fired":                  events,
		"events_fired_by_kind_and_call": st.fired,
		"incarnation_endings":           st.status,
		"expectations_evaluated":        st.checks,
		"operations_succeeded":          st.good,
		"operations_failed":             st.bad,
		"runs_repeated":                 st.resampled,
		"runs_repeated_differently":     st.unrepeat,
		"runs_showing_a_known_finding":  st.known,
		"real_components":               []string{"base64", "signify", "crypto", "cmd/psignify", "golang.org/x/crypto and the Go standard library down to package syscall"},
		"simulated_components":          []string{"system calls (files, pipes, terminal, clock)", "randomness source", "task scheduler at system calls, prompts and random draws", "callers and their scripted passphrases", "independent reference model of the formats as peer and oracle"},
	}
	ev := map[string]interface{}{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": viol,
		"assumptions": []string{"the simulated kernel behaves like Linux for the calls the program makes", "the reference model implements the signify formats correctly", "sampled, not exhaustive: a clean run is evidence, not proof"},
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0644); err != nil {
		die("%v", err)
	}
}
