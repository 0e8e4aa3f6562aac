package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

// Known is a listed finding: a defect of the code that was recorded, not
// repaired.  The file KNOWN_FINDINGS names the property, the rule that
// recognises exactly this failure, and the history that shows it.
type Known struct {
	Rule, What string
	Scenario   *Scenario
	match      func(*Scenario, *Violation) bool
}

var knownRules = map[string]func(*Scenario, *Violation) bool{
	// terminal.ReadPassword (golang.org/x/crypto) spins when reads of the
	// terminal return nothing for ever before a line is complete
	"prompt-hangup-spin": func(sc *Scenario, v *Violation) bool {
		if v.Group != "hang" || v.Phase >= len(sc.Phases) || !strings.Contains(v.Msg, "ttyread") {
			return false
		}
		ph := &sc.Phases[v.Phase]
		if !ph.TTYEof || !ph.HaveTTY || len(ph.Tasks) != 1 || len(ph.Tasks[0].Ops) == 0 {
			return false
		}
		// only the last prompt has input that ends early
		o := &ph.Tasks[0].Ops[len(ph.Tasks[0].Ops)-1]
		lines := 0
		for _, c := range o.TTY {
			lines += bytes.Count(c, []byte("\n"))
		}
		return o.Kind == "prompt" && lines < 1+o.Flag&1
	},
}

func loadKnown(p *Prop) []*Known {
	f, err := os.Open(filepath.Join(verifDir(), "KNOWN_FINDINGS"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []*Known
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		// known: property=ID rule=NAME history=FILE what fails
		l := sc.Text()
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		k := &Known{}
		id, hist := "", ""
		var rest []string
		for _, w := range strings.Fields(l[7:]) {
			switch {
			case strings.HasPrefix(w, "property="):
				id = w[9:]
			case strings.HasPrefix(w, "rule="):
				k.Rule = w[5:]
			case strings.HasPrefix(w, "history="):
				hist = w[8:]
			default:
				rest = append(rest, w)
			}
		}
		if id != p.id {
			continue
		}
		k.What = strings.Join(rest, " ")
		k.match = knownRules[k.Rule]
		b, err := os.ReadFile(filepath.Join(verifDir(), hist))
		if err != nil || k.match == nil {
			die("known finding %s: %v", k.Rule, err)
		}
		var r Replay
		if err := json.Unmarshal(b, &r); err != nil {
			die("known finding %s: %v", k.Rule, err)
		}
		k.Scenario = r.Scenario
		out = append(out, k)
	}
	return out
}
