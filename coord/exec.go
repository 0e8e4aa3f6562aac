package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"verif/sim/wire"
)

// Outcome of one scenario.
type Outcome struct {
	V            []Violation
	Hashes       []uint64
	Fired        []wire.Fired
	Checks       map[string]int
	Status       map[string]int
	Steps        int
	SimNs        int64
	Switches     int
	Good         int
	Fail         int
	Crossed      int
	LargestMsg   int
	PhaseFired   [][]wire.Fired
	PhaseClasses [][]wire.Class
}

// Exec runs scenarios for one property.
type Exec struct {
	prop    *Prop
	classes map[string][]wire.Class // dry runs by phase and disk
	sites   map[string][]wire.Site  // and how often which statements ran
}

func (x *Exec) req(sc *Scenario, ph *Phase, img []wire.File) *wire.Req {
	r := &wire.Req{Image: img, Cwd: sc.Cwd, Umask: sc.Umask, Prologue: ph.Prologue, Tasks: ph.Tasks, CLI: ph.CLI,
		HaveTTY: ph.HaveTTY, TTYEof: ph.TTYEof, Events: ph.Events, Entropy: entropyBytes(sc, ph.Entropy),
		LogWrites: x.prop.logWrites, Snapshots: true}
	if ph.Cwd != "" {
		r.Cwd = ph.Cwd
	}
	if ph.Kind == "cli" {
		r.TTY = ttyChunks(ph.Lines, ph.TTYSplit)
	}
	n, ops := 0, 1
	for _, f := range img {
		n += len(f.Data)
	}
	for _, t := range ph.Tasks {
		ops += len(t.Ops)
		for _, o := range t.Ops {
			n += len(o.Data)
			for _, c := range o.TTY {
				n += len(c)
			}
		}
	}
	if n > 1<<20 {
		r.LogWrites = false
	}
	r.StepLimit = 20000 + 16*n*(1+ops/4)
	r.StmtLimit = 200 * int64(r.StepLimit)
	if ph.Big {
		r.Big, r.Quiet, r.StepLimit, r.StmtLimit = true, true, 1<<40, 1<<60
	}
	if ph.Huge {
		r.Huge, r.Quiet, r.StepLimit, r.StmtLimit = true, true, 1<<40, 1<<60
	}
	return r
}

func imgKey(img []wire.File) string {
	h := uint64(14695981039346656037)
	mix := func(b []byte) {
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h = (h ^ 0xff) * 1099511628211
	}
	for _, f := range img {
		mix([]byte(f.Path + f.Type))
		mix(f.Data)
	}
	return fmt.Sprintf("%x", h)
}

// Run executes the scenario.  With rng set, the plans are resolved into
// explicit events, which are stored in the scenario.
func (x *Exec) Run(sc *Scenario, rng *rand.Rand) (*Outcome, error) {
	out := &Outcome{Checks: map[string]int{}, Status: map[string]int{}}
	j := newJudge(sc)
	img := sc.image()
	for i := range sc.Phases {
		ph := &sc.Phases[i]
		out.PhaseFired = append(out.PhaseFired, nil)
		out.PhaseClasses = append(out.PhaseClasses, nil)
		if ph.Kind == "fs" {
			img = applyFs(sc, ph.Fs, img, j)
			continue
		}
		if rng != nil && ph.Plan != nil {
			key := fmt.Sprintf("%d/%s", i, imgKey(img))
			cl, ok := x.classes[key]
			sites := x.sites[key]
			if !ok {
				ph.Events = nil
				resp, err := runNode(x.req(sc, ph, img))
				if err != nil {
					return nil, err
				}
				if resp.Status == "internal" {
					return nil, fmt.Errorf("simulator: %s", resp.Detail)
				}
				cl, sites = resp.Classes, resp.Sites
				if cl == nil {
					cl = []wire.Class{}
				}
				if x.classes != nil {
					x.classes[key], x.sites[key] = cl, sites
				}
			}
			q := *ph
			if len(ph.Tasks) < 2 && len(sites) > 0 && ph.Plan.Delays == 0 { // it runs goroutines
				p := *ph.Plan
				p.Delays = []int{0, 1, 3, 8, -1}[rng.Intn(5)]
				q.Plan = &p
			}
			ph.Events = append(place(rng, cl, &q), preempt(rng, sites, &q)...)
		}
		resp, err := runNode(x.req(sc, ph, img))
		if err != nil {
			return nil, err
		}
		if resp.Status == "internal" {
			return nil, fmt.Errorf("simulator: %s", resp.Detail)
		}
		if x.classes != nil && rng == nil && ph.Plan != nil && len(ph.Events) == 0 {
			key := fmt.Sprintf("%d/%s", i, imgKey(img))
			x.classes[key], x.sites[key] = resp.Classes, resp.Sites
		}
		out.PhaseFired[i], out.PhaseClasses[i] = resp.Fired, resp.Classes
		out.Hashes = append(out.Hashes, resp.Hash)
		out.Fired = append(out.Fired, resp.Fired...)
		out.Status[resp.Status]++
		out.Steps += resp.Steps
		out.SimNs += resp.SimNs
		out.Switches += resp.Switches
		ns, ng := len(j.seals), len(j.gens)
		j.Phase(i, ph, img, resp)
		if ph.Solo && resp.Status == "done" && len(ph.Tasks) > 1 {
			if err := x.solo(sc, ph, img, resp, j); err != nil {
				return nil, err
			}
		}
		img = resp.Image
		power := false // nothing was promised to survive that
		for _, f := range resp.Fired {
			power = power || f.Kind == "power"
		}
		bad := false
		for _, v := range j.V { // (what another property forbids does not keep this one from being decided)
			bad = bad || x.prop.counts(v.Group)
		}
		if x.prop.probe && !bad && !power && !ph.Huge && !ph.Big {
			if err := x.probe(sc, img, j, j.seals[ns:], j.gens[ng:], out); err != nil {
				return nil, err
			}
		}
		if len(j.V) > 0 && (resp.Status == "hang" || resp.Status == "panic") {
			break
		}
	}
	out.V = j.V
	for k, v := range j.checks {
		out.Checks[k] = v
	}
	out.Good, out.Fail = j.goodOps, j.failOps
	return out, nil
}

func applyFs(sc *Scenario, fs []FsMut, img []wire.File, j *Judge) []wire.File {
	img = append([]wire.File(nil), img...)
	for _, m := range fs {
		p := absPath(sc.Cwd, m.Path)
		f := find(img, p)
		if m.Remove {
			for i := range img {
				if img[i].Path == p {
					img = append(img[:i:i], img[i+1:]...)
					break
				}
			}
			continue
		}
		var d []byte
		mode := uint32(0600)
		if f != nil {
			d, mode = f.Data, f.Mode
		}
		if m.From != "" {
			g := find(img, absPath(sc.Cwd, m.From))
			if g == nil {
				continue
			}
			d = g.Data
		}
		if m.Set != nil {
			d = m.Set.build(sc.Keys)
		}
		if f == nil && m.Set == nil && m.From == "" {
			continue
		}
		d = applyMuts(d, m.Muts, sc.Keys)
		nf := wire.File{Path: p, Mode: mode, Data: append([]byte(nil), d...)}
		if f != nil {
			*f = nf
		} else {
			img = append(img, nf)
		}
	}
	return img
}

// probe asks the real code, undisturbed and in a new process, whether what
// was reported as stored is usable.
func (x *Exec) probe(sc *Scenario, img []wire.File, j *Judge, seals []sealDone, gens []genDone, out *Outcome) error {
	if len(seals)+len(gens) == 0 {
		return nil
	}
	req := &wire.Req{Image: append([]wire.File(nil), img...), Cwd: sc.Cwd, Umask: sc.Umask, Entropy: entropyBytes(sc, 1<<40), Snapshots: true}
	var ops []wire.Op
	type exp struct {
		seal *sealDone
		gen  string
		kind string
	}
	var exps []exp
	n := 0
	for i := range seals {
		s := &seals[i]
		sec := j.secs[string(s.pub[10:])]
		if sec == nil || s.dead {
			continue
		}
		k := Key{}
		copy(k.Seed[:], sec[:32])
		copy(k.Num[:], s.pub[2:10])
		kp := fmt.Sprintf("/probe/k%d.sec", i)
		req.Image = append(req.Image, wire.File{Path: kp, Mode: 0600, Data: textFile("probe", k.secBlob())})
		ops = append(ops, wire.Op{Kind: "open", A: kp, B: s.path, C: fmt.Sprintf("/probe/m%d", i)})
		exps = append(exps, exp{seal: s, kind: "recover"})
		n += 4 * len(data(find(img, s.path)))
	}
	if len(gens) > 0 {
		req.Image = append(req.Image, wire.File{Path: "/probe/msg", Mode: 0644, Data: []byte("probe message")})
	}
	for i, g := range gens {
		pr := []wire.Answer{{Pass: g.pass}}
		s := fmt.Sprintf("/probe/g%d", i)
		add := func(kind string, o wire.Op) { ops = append(ops, o); exps = append(exps, exp{gen: g.path, kind: kind}) }
		if len(g.pass) > 0 {
			near := nearMisses(g.pass)
			h := int(g.pass[len(g.pass)-1]) + len(g.pass)
			add("nopass", wire.Op{Kind: "sign", A: g.path + ".sec", B: "/probe/msg", C: s + ".no", Prompt: []wire.Answer{{Pass: near[(h+len(seals)+i)%len(near)]}}})
			add("nopass", wire.Op{Kind: "sign", A: g.path + ".sec", B: "/probe/msg", C: s + ".no", Prompt: []wire.Answer{{Pass: near[(h*7+3)%len(near)]}}})
		} else {
			pr = nil
		}
		add("sign", wire.Op{Kind: "sign", A: g.path + ".sec", B: "/probe/msg", C: s + ".sig", Prompt: pr})
		add("verify", wire.Op{Kind: "verify", A: g.path + ".pub", B: "/probe/msg", C: s + ".sig"})
		add("seal", wire.Op{Kind: "seal", A: g.path + ".pub", B: "/probe/msg", C: s + ".enc"})
		add("open", wire.Op{Kind: "open", A: g.path + ".sec", B: s + ".enc", C: s + ".out", Prompt: pr})
	}
	if len(ops) == 0 {
		return nil
	}
	req.Tasks = []wire.Task{{ID: 0, Ops: ops}}
	req.StepLimit = 40000 + 20*n
	resp, err := runNode(req)
	if err != nil {
		return err
	}
	if resp.Status == "internal" {
		return fmt.Errorf("simulator: %s", resp.Detail)
	}
	if resp.Status != "done" {
		j.bad("hang", "probing what was stored ended with %s: %s", resp.Status, firstLines(resp.Detail, 3))
		return nil
	}
	for i := range resp.Results {
		r := &resp.Results[i]
		e := exps[i]
		o := &ops[i]
		if r.Panic != "" {
			j.bad("panic", "%s panicked: %s", desc(o), firstLines(r.Panic, 1))
			continue
		}
		switch e.kind {
		case "recover":
			j.did("seal.recover")
			got := find(r.After, o.C)
			if r.Failed || got == nil {
				j.bad("seal.recover", "sealing of %s reported success but it cannot be opened: %s", e.seal.path, r.Err)
				continue
			}
			good := false
			for _, m := range e.seal.msg {
				if e.seal.mutating {
					good = good || bytes.HasPrefix(m, got.Data) && len(got.Data) >= e.seal.least
				} else {
					good = good || bytes.Equal(m, got.Data)
				}
			}
			if !good {
				j.bad("seal.recover", "sealing of %s reported success but it opens to %d bytes, the message has %d%s", e.seal.path, len(got.Data), len(e.seal.msg[0]), firstDiff(got.Data, e.seal.msg[0]))
			}
		case "nopass":
			j.did("gen.use")
			if !r.Failed {
				j.bad("gen.use", "the key %s.sec can be used with a passphrase it was not protected with", e.gen)
			}
		default:
			j.did("gen.use")
			if r.Failed {
				j.bad("gen.use", "generation of %s reported success, but then %s fails: %s", e.gen, e.kind, r.Err)
			} else if e.kind == "open" {
				if f := find(r.After, o.C); f == nil || string(f.Data) != "probe message" {
					j.bad("gen.use", "generation of %s reported success, but a message sealed to it does not come back", e.gen)
				}
			}
		}
	}
	return nil
}

// solo runs every task by itself on the same disk with the same randomness
// and compares.
func (x *Exec) solo(sc *Scenario, ph *Phase, img []wire.File, resp *wire.Resp, j *Judge) error {
	for ti := range ph.Tasks {
		p := *ph
		p.Tasks = ph.Tasks[ti : ti+1]
		p.Events = nil
		for _, e := range ph.Events {
			before := len(ph.Prologue) > 0 && e.Task == 0
			if (before || e.Task == ph.Tasks[ti].ID) && e.Kind != "delay" {
				p.Events = append(p.Events, e)
			}
		}
		r1, err := runNode(x.req(sc, &p, img))
		if err != nil {
			return err
		}
		if r1.Status == "internal" {
			return fmt.Errorf("simulator: %s", r1.Detail)
		}
		if r1.Status != "done" {
			j.bad("solo", "task %d alone ends with %s %s", ph.Tasks[ti].ID, r1.Status, firstLines(r1.Detail, 2))
			continue
		}
		if f := firedIn(resp, p.Tasks[0].ID); f != firedIn(r1, p.Tasks[0].ID) {
			continue // the disturbances hit other calls
		}
		for oi := range p.Tasks[0].Ops {
			a, b := result(resp, p.Tasks[0].ID, oi), result(r1, p.Tasks[0].ID, oi)
			if a == nil || b == nil {
				continue
			}
			j.did("solo")
			if hardFired(resp, p.Tasks[0].ID, oi) && a.Failed && b.Failed {
				continue // how far it came may depend on the order
			}
			if resp.Threaded[p.Tasks[0].ID] || r1.Threaded[p.Tasks[0].ID] {
				// the program's own goroutines run in another order
				if o := &p.Tasks[0].Ops[oi]; len(p.Events) == 0 && a.Failed != b.Failed {
					j.bad("solo", "%s gives another result beside other operations than alone: %s; alone: %s", desc(o), outcome(a), outcome(b))
				}
				continue
			}
			o := &p.Tasks[0].Ops[oi]
			if d := differ(o, sc.Cwd, a, b); d != "" {
				j.bad("solo", "%s gives another result beside other operations than alone: %s", desc(o), d)
			}
		}
	}
	return nil
}

func result(resp *wire.Resp, task, op int) *wire.Result {
	for i := range resp.Results {
		if resp.Results[i].Task == task && resp.Results[i].Op == op {
			return &resp.Results[i]
		}
	}
	return nil
}

// firedIn lists the disturbances of a task that can change results.
func firedIn(resp *wire.Resp, task int) string {
	s := ""
	for _, f := range resp.Fired {
		if f.Task == task && f.Kind != "delay" && f.Kind != "stmt" {
			s += fmt.Sprintf("%d %s %s %s\n", f.Op, f.Kind, f.Class, f.Path)
		}
	}
	return s
}

// wording is an error text without numbers, which may be those of temporary
// files.
func wording(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= '0' && r <= '9' {
			return -1
		}
		return r
	}, s)
}

func differ(o *wire.Op, cwd string, a, b *wire.Result) string {
	// what is random in a result is judged by itself: which task gets which
	// random bytes may depend on the order
	random := map[string]bool{}
	for _, t := range targets(o) {
		random[absPath(cwd, t)] = o.Kind == "gen" || o.Kind == "seal"
	}
	switch {
	case a.Failed != b.Failed || wording(a.Err) != wording(b.Err):
		return fmt.Sprintf("%s; alone: %s", outcome(a), outcome(b))
	case !bytes.Equal(a.Out, b.Out):
		return fmt.Sprintf("output %s; alone: %s", show(a.Out), show(b.Out))
	case !reflect.DeepEqual(a.Counts, b.Counts) || !reflect.DeepEqual(a.Errs, b.Errs):
		return "counts or errors of single calls"
	case a.Prompts != b.Prompts:
		return fmt.Sprintf("%d prompts; alone: %d", a.Prompts, b.Prompts)
	}
	for _, f := range b.After {
		g := find(a.After, f.Path)
		if g != nil && random[f.Path] && g.Type == f.Type && g.Mode == f.Mode && len(g.Data) == len(f.Data) {
			continue
		}
		if g == nil || !same(g, &f) {
			return fmt.Sprintf("file %s: %s", f.Path, change(&f, g))
		}
	}
	return ""
}

// ---- placing events ----

type segment struct {
	task, op, start, count, len int
	class, path                 string
}

func segments(cl []wire.Class) []segment {
	var out []segment
	n := map[int]int{}
	for _, c := range cl {
		out = append(out, segment{c.Task, c.Op, n[c.Task], c.Count, c.Len, c.Name, c.Path})
		n[c.Task] += c.Count
	}
	return out
}

var legalKinds = map[string][]string{
	"read": {"short", "short", "eintr", "delay"}, "write": {"short", "short", "eintr"}, "open": {"eintr"},
	"rand": {"short"}, "sread": {"short", "zero"},
}

var hardKinds = map[string][]string{
	"read": {"err"}, "write": {"err", "err", "full"}, "open": {"err"}, "close": {"err", "closeerr"}, "stat": {"err"},
	"rand": {"err"}, "prompt": {"err"}, "ttyread": {"err", "eintr"}, "ioctl": {"err"}, "swrite": {"err"}, "sread": {"err", "errdata"},
	"seek": {"err"}, "sync": {"err"}, "trunc": {"err"}, "unlink": {"err"}, "rename": {"err"}, "link": {"err"}, "mkdir": {"err"}, "chmod": {"err"}, "readdir": {"err"},
	"stdwrite": {"err"},
}

var errnos = map[string][]int64{
	"read": {5, 5, 116}, "write": {5, 28, 122, 27}, "open": {13, 24, 5, 23, 30}, "close": {5, 28, 122}, "stat": {5, 13}, "ttyread": {5}, "ioctl": {5, 25},
	"chmod": {1, 5}, "rename": {5, 28}, "unlink": {5, 13},
}

func errno(rng *rand.Rand, class string) int64 {
	l := errnos[class]
	if l == nil {
		return 5
	}
	return l[rng.Intn(len(l))]
}

// place chooses where the planned events happen, spread over the kinds of
// calls rather than over their number.
func place(rng *rand.Rand, cl []wire.Class, ph *Phase) []wire.Event {
	p := ph.Plan
	segs := segments(cl)
	var evs []wire.Event
	pick := func(kinds map[string][]string) (segment, int, bool) {
		by := map[string][]segment{}
		for _, s := range segs {
			if len(p.Ops) > 0 && !hasInt(p.Ops, s.op) {
				continue
			}
			if len(p.Class) > 0 && !hasStr(p.Class, s.class) {
				continue
			}
			if p.Path != "" && s.path != p.Path {
				continue
			}
			if kinds != nil && len(kinds[s.class]) == 0 {
				continue
			}
			if p.NoRand && s.class == "rand" {
				continue
			}
			by[s.class] = append(by[s.class], s)
		}
		if len(by) == 0 {
			return segment{}, 0, false
		}
		var names []string
		for n := range by {
			names = append(names, n)
		}
		sort.Strings(names)
		l := by[names[rng.Intn(len(names))]]
		s := l[rng.Intn(len(l))]
		if rng.Intn(4) == 0 { // often the very last stretch of its kind
			s = l[len(l)-1]
		}
		i := 0
		switch rng.Intn(6) {
		case 0:
		case 1, 2:
			i = s.count - 1
		case 3:
			i = s.count - 1 - rng.Intn(min(s.count, 4))
		case 4:
			i = rng.Intn(min(s.count, 4))
		default:
			i = rng.Intn(s.count)
		}
		return s, s.start + i, true
	}
	if p.Prefix != "" {
		for _, s := range segs {
			if s.class == "read" && s.path == p.Prefix {
				n := s.start
				if p.PrefixLen > 0 {
					evs = append(evs, wire.Event{Task: s.task, N: n, Kind: "short", Arg: int64(p.PrefixLen)})
					n++
				}
				evs = append(evs, wire.Event{Task: s.task, N: n, Kind: "err", Arg: 5})
				break
			}
		}
	}
	for i := 0; i < p.Legal; i++ {
		s, n, ok := pick(legalKinds)
		if !ok {
			break
		}
		k := legalKinds[s.class][rng.Intn(len(legalKinds[s.class]))]
		e := wire.Event{Task: s.task, N: n, Kind: k}
		switch k {
		case "short":
			e.Arg = shortLen(rng, s.len)
		case "delay":
			e.Arg = 1 + rng.Int63n(1e9)
		}
		evs = append(evs, e)
		if k == "short" && rng.Intn(2) == 0 { // runs of short transfers
			for x := 1; x <= 1+rng.Intn(12); x++ {
				evs = append(evs, wire.Event{Task: s.task, N: n + x, Kind: k, Arg: shortLen(rng, s.len)})
			}
		}
		if (k == "zero" || k == "eintr") && rng.Intn(2) == 0 {
			for x := 1; x <= rng.Intn(4); x++ {
				evs = append(evs, wire.Event{Task: s.task, N: n + x, Kind: k})
			}
		}
	}
	for i := 0; i < p.Hard; i++ {
		s, n, ok := pick(hardKinds)
		if !ok {
			break
		}
		ks := hardKinds[s.class]
		if len(p.Kinds) > 0 {
			var f []string
			for _, k := range ks {
				if hasStr(p.Kinds, k) {
					f = append(f, k)
				}
			}
			if len(f) == 0 {
				continue
			}
			ks = f
		}
		k := ks[rng.Intn(len(ks))]
		e := wire.Event{Task: s.task, N: n, Kind: k}
		switch k {
		case "err":
			e.Arg = errno(rng, s.class)
			if s.class == "swrite" {
				e.Arg = int64(rng.Intn(6))
			}
			if s.class == "swrite" || s.class == "sread" {
				e.Arg2 = int64(rng.Intn(8)) // which error
			}
		case "errdata":
			e.Arg2 = int64(rng.Intn(8))
		case "full":
			e.Arg = int64(rng.Intn(3)) * int64(rng.Intn(200))
			if rng.Intn(3) == 0 {
				e.Arg = rng.Int63n(40000)
			}
		case "closeerr":
			e.Arg = 1 + int64(rng.Intn(200))
			e.Arg2 = errno(rng, "close")
		}
		evs = append(evs, e)
		if k == "err" && rng.Intn(4) == 0 { // a persistent error
			for x := 1; x <= 3; x++ {
				evs = append(evs, wire.Event{Task: s.task, N: n + x, Kind: "err", Arg: e.Arg})
			}
		}
	}
	if p.Crash > 0 {
		if s, n, ok := pick(nil); ok {
			e := wire.Event{Task: s.task, N: n, Kind: "crash", Arg2: int64(rng.Intn(2))}
			if s.class == "write" {
				e.Arg = int64(rng.Intn(s.len + 1))
				if rng.Intn(3) == 0 {
					e.Arg = int64(rng.Intn(2)) * int64(s.len)
				}
			}
			if p.Crash == 2 {
				e.Kind = "power"
				e.Arg2 = rng.Int63()
				if s.class != "write" {
					e.Arg = int64(rng.Intn(2))
				}
			}
			evs = append(evs, e)
		}
	}
	if p.Delays != 0 {
		total := map[int]int{}
		for _, s := range segs {
			total[s.task] += s.count
		}
		var ids []int
		for t := range total {
			ids = append(ids, t)
		}
		sort.Ints(ids)
		if p.Delays < 0 { // every call, up to a limit
			scale := int64(1) << uint(8+rng.Intn(12))
			for _, t := range ids {
				step := 1 + total[t]/800
				for n := rng.Intn(step); n < total[t]; n += step {
					evs = append(evs, wire.Event{Task: t, N: n, Kind: "delay", Arg: rng.Int63n(scale) + 1})
				}
			}
		} else {
			for i := 0; i < p.Delays; i++ {
				s, n, ok := pick(nil)
				if !ok {
					break
				}
				evs = append(evs, wire.Event{Task: s.task, N: n, Kind: "delay", Arg: int64(1) << uint(10+rng.Intn(24))})
			}
		}
	}
	return evs
}

// preempt chooses statements before which a task loses the processor, spread
// over the statements of the source rather than over their visits.
func preempt(rng *rand.Rand, sites []wire.Site, ph *Phase) (evs []wire.Event) {
	if len(sites) == 0 || rng.Intn(4) == 0 || len(ph.Tasks) > 1 && ph.Plan.Delays == 0 {
		return nil
	} // (there are sites for a single task only if it runs goroutines)
	var own []wire.Site
	for _, s := range sites {
		if len(ph.Prologue) == 0 || s.Task != 0 {
			own = append(own, s)
		}
	}
	if len(own) == 0 {
		return nil
	}
	switch rng.Intn(4) {
	case 0: // a stretch of the source, in all tasks
		at, n := own[rng.Intn(len(own))].Site, 2+rng.Intn(10)
		for _, s := range own {
			if s.Site >= at && s.Site < at+n && (s.Count < 4 || rng.Intn(3) == 0) {
				evs = append(evs, wire.Event{Task: s.Task, Kind: "stmt", Site: s.Site, N: 1 + rng.Intn(s.Count), Arg: int64(1) << uint(8+rng.Intn(26))})
			}
		}
		return evs
	case 1: // many statements
		p := 2 + rng.Intn(10)
		for _, s := range own {
			if rng.Intn(p) == 0 {
				evs = append(evs, wire.Event{Task: s.Task, Kind: "stmt", Site: s.Site, N: 1 + rng.Intn(s.Count), Arg: int64(1) << uint(8+rng.Intn(20))})
			}
		}
		return evs
	}
	for i := 1 + rng.Intn(8)*rng.Intn(4); i > 0; i-- {
		s := own[rng.Intn(len(own))]
		n := 1 + rng.Intn(s.Count)
		for x := 1 + rng.Intn(2)*rng.Intn(40); x > 0 && n <= s.Count; x-- { // once, or on a run of visits
			evs = append(evs, wire.Event{Task: s.Task, Kind: "stmt", Site: s.Site, N: n, Arg: int64(1) << uint(8+rng.Intn(26))})
			n += 1 + rng.Intn(2)*rng.Intn(20)
		}
	}
	return evs
}

func shortLen(rng *rand.Rand, n int) int64 {
	switch rng.Intn(4) {
	case 0:
		return 1
	case 1:
		return 1 + int64(rng.Intn(4))
	}
	if n < 2 {
		return 1
	}
	return 1 + int64(rng.Intn(n-1))
}

func hasInt(l []int, v int) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasStr(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

var _ = strings.Join
