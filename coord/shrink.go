package main

import (
	"fmt"
	"time"

	"verif/sim/wire"
)

// reduce makes the failing history smaller while the same expectation stays
// broken, and confirms the result in new processes.
func reduce(p *Prop, seed int64, f found, known []*Known) (*Replay, bool) {
	nodeTimeout = 10 * time.Second
	run := func(sc *Scenario) (*Outcome, *Violation) {
		o, err := (&Exec{prop: p}).Run(clone(sc), nil)
		if err != nil {
			return nil, nil
		}
		for i := range o.V {
			if o.V[i].Group != f.v.Group {
				continue
			}
			k := false
			for _, kn := range known {
				k = k || kn.match(sc, &o.V[i])
			}
			if !k {
				return o, &o.V[i]
			}
		}
		return o, nil
	}
	best := clone(f.sc)
	for i := range best.Phases {
		best.Phases[i].Plan = nil
	}
	out, v := run(best)
	for i := 0; v == nil && i < 5 && !(huge(best) && i > 0); i++ {
		out, v = run(best)
	}
	if v == nil {
		return nil, false
	}
	deadline := time.Now().Add(60 * time.Second)
	if huge(best) {
		deadline = time.Now()
	}
	try := func(sc *Scenario) bool {
		if time.Now().After(deadline) {
			return false
		}
		if o, w := run(sc); w != nil {
			best, out, v = sc, o, w
			return true
		}
		return false
	}
	deep := func() *Scenario {
		c := clone(best)
		for i := range c.Phases {
			ph := &c.Phases[i]
			ph.Events = append([]wire.Event(nil), ph.Events...)
			ph.Tasks = append([]wire.Task(nil), ph.Tasks...)
			for t := range ph.Tasks {
				ph.Tasks[t].Ops = append([]wire.Op(nil), ph.Tasks[t].Ops...)
			}
			ph.Prologue = append([]wire.Op(nil), ph.Prologue...)
			ph.Fs = append([]FsMut(nil), ph.Fs...)
		}
		c.Files = append([]SFile(nil), c.Files...)
		return c
	}
	for round := 0; round < 4 && time.Now().Before(deadline); round++ {
		changed := false
		// events: none, halves, one by one
		for i := 0; i < len(best.Phases); i++ {
			if n := len(best.Phases[i].Events); n > 0 {
				for size := n; size >= 1; size /= 2 {
					for at := 0; at < len(best.Phases[i].Events); {
						c := deep()
						e := c.Phases[i].Events
						to := at + size
						if to > len(e) {
							to = len(e)
						}
						c.Phases[i].Events = append(e[:at:at], e[to:]...)
						if try(c) {
							changed = true
						} else {
							at += size
						}
						if time.Now().After(deadline) {
							break
						}
					}
				}
			}
		}
		for i := len(best.Phases) - 1; i >= 0 && len(best.Phases) > 1; i-- {
			c := deep()
			c.Phases = append(c.Phases[:i:i], c.Phases[i+1:]...)
			changed = try(c) || changed
		}
		for i := 0; i < len(best.Phases); i++ {
			for t := len(best.Phases[i].Tasks) - 1; t >= 0 && len(best.Phases[i].Tasks) > 1; t-- {
				c := deep()
				c.Phases[i].Tasks = append(c.Phases[i].Tasks[:t:t], c.Phases[i].Tasks[t+1:]...)
				changed = try(c) || changed
			}
			for k := len(best.Phases[i].Prologue) - 1; k >= 0; k-- {
				c := deep()
				c.Phases[i].Prologue = append(c.Phases[i].Prologue[:k:k], c.Phases[i].Prologue[k+1:]...)
				changed = try(c) || changed
			}
			for t := range best.Phases[i].Tasks {
				for k := len(best.Phases[i].Tasks[t].Ops) - 1; k >= 0; k-- {
					if len(best.Phases[i].Tasks[t].Ops) == 1 {
						break
					}
					c := deep()
					id := c.Phases[i].Tasks[t].ID
					ops := c.Phases[i].Tasks[t].Ops
					c.Phases[i].Tasks[t].Ops = append(ops[:k:k], ops[k+1:]...)
					// events behind the dropped operation move up with it
					start, n := 0, 0
					if i < len(out.PhaseClasses) {
						for _, s := range segments(out.PhaseClasses[i]) {
							if s.task == id && s.op < k {
								start = s.start + s.count
							}
							if s.task == id && s.op == k {
								n += s.count
							}
						}
					}
					var evs []wire.Event
					for _, e := range c.Phases[i].Events {
						if e.Task == id && e.N >= start {
							if e.N < start+n {
								continue
							}
							e.N -= n
						}
						evs = append(evs, e)
					}
					c.Phases[i].Events = evs
					changed = try(c) || changed
				}
			}
			for k := len(best.Phases[i].Fs) - 1; k >= 0; k-- {
				c := deep()
				c.Phases[i].Fs = append(c.Phases[i].Fs[:k:k], c.Phases[i].Fs[k+1:]...)
				changed = try(c) || changed
			}
		}
		for k := len(best.Files) - 1; k >= 0; k-- {
			c := deep()
			c.Files = append(c.Files[:k:k], c.Files[k+1:]...)
			changed = try(c) || changed
		}
		// smaller data
		for k := range best.Files {
			changed = smaller(best.Files[k].C, func(n *Content) bool {
				c := deep()
				c.Files[k].C = n
				return try(c)
			}) || changed
			if best.Files[k].Type == "fifo" && len(best.Files[k].Chunks) > 1 {
				c := deep()
				c.Files[k].Chunks = nil
				changed = try(c) || changed
			}
		}
		for i := range best.Phases {
			for t := range best.Phases[i].Tasks {
				for k := range best.Phases[i].Tasks[t].Ops {
					o := best.Phases[i].Tasks[t].Ops[k]
					if o.Kind != "enc" && o.Kind != "dec" && o.Kind != "prompt" {
						continue
					}
					alt := func(f func(*wire.Op)) {
						c := deep()
						f(&c.Phases[i].Tasks[t].Ops[k])
						changed = try(c) || changed
					}
					if len(o.Sizes) > 1 {
						alt(func(o *wire.Op) { o.Sizes = o.Sizes[:1] })
						alt(func(o *wire.Op) { o.Sizes = o.Sizes[len(o.Sizes)-1:] })
						alt(func(o *wire.Op) { o.Sizes = o.Sizes[:len(o.Sizes)/2] })
					}
					if len(o.Pieces) > 1 {
						alt(func(o *wire.Op) { o.Pieces = o.Pieces[:1] })
						alt(func(o *wire.Op) { o.Pieces = o.Pieces[len(o.Pieces)-1:] })
						alt(func(o *wire.Op) { o.Pieces = o.Pieces[:len(o.Pieces)/2] })
					}
					if n := len(o.Data); n > 0 {
						for _, m := range []int{0, 1, 2, 3, 4, n / 2, n - 4, n - 1} {
							if m >= 0 && m < n {
								alt(func(o *wire.Op) {
									if m < len(o.Data) {
										o.Data = o.Data[:m]
									}
								})
							}
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	// once more, in new processes
	o2, v2 := run(best)
	if v2 == nil || fmt.Sprint(o2.Hashes) != fmt.Sprint(out.Hashes) {
		return nil, false
	}
	return &Replay{Property: p.id, Group: v.Group, Message: v.Msg, VerifSeed: seed, Index: f.idx, Variant: f.variant,
		Hashes: out.Hashes, Trace: trace(best, out), Scenario: best}, true
}

// smaller proposes smaller contents.
func smaller(c *Content, try func(*Content) bool) bool {
	if c == nil {
		return false
	}
	changed := false
	cur := *c
	switch c.Kind {
	case "rand":
		for _, n := range []int{0, 1, 16, 24, c.Len / 2, c.Len - 1} {
			if n >= 0 && n < cur.Len {
				x := cur
				x.Len = n
				if try(&x) {
					cur = x
					changed = true
					break
				}
			}
		}
	case "raw":
		for _, n := range []int{0, 1, len(c.Raw) / 2} {
			if n >= 0 && n < len(cur.Raw) {
				x := cur
				x.Raw = cur.Raw[:n]
				if try(&x) {
					cur = x
					changed = true
					break
				}
			}
		}
	case "enc", "sig":
		changed = smaller(cur.Msg, func(m *Content) bool {
			x := cur
			x.Msg = m
			if try(&x) {
				cur = x
				return true
			}
			return false
		})
	}
	for k := len(cur.Bin) - 1; k >= 0; k-- {
		x := cur
		x.Bin = append(append([]Mut(nil), cur.Bin[:k]...), cur.Bin[k+1:]...)
		if try(&x) {
			cur, changed = x, true
		}
	}
	for k := len(cur.Text) - 1; k >= 0; k-- {
		x := cur
		x.Text = append(append([]Mut(nil), cur.Text[:k]...), cur.Text[k+1:]...)
		if try(&x) {
			cur, changed = x, true
		}
	}
	if len(cur.Comment) > 0 {
		x := cur
		x.Comment = nil
		if try(&x) {
			changed = true
		}
	}
	return changed
}
