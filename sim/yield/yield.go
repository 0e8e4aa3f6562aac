// Package yield is called before every statement of the program under test
// (the build inserts the calls into copies of its files, never into the
// repository).  It gives the simulator preemption points inside code that
// makes no calls, and a deterministic measure of computation.
package yield

// Max is the number of sites; higher numbers wrap around.
const Max = 4096

// State counts the visits of one task.
type State struct {
	N    [Max]uint32 // visits of each site
	Trig [Max]uint32 // visit at which Hook is called
}

// Cur is the state of the running task.
var Cur *State

// Hook is called at a triggering visit.
var Hook func(site int)

// Total counts all statements; at Limit, Over is called.
var Total, Limit int64
var Over func()

// Y is one statement.
func Y(site int) {
	s := Cur
	if s == nil {
		return
	}
	site &= Max - 1
	s.N[site]++
	if s.N[site] == s.Trig[site] {
		Hook(site)
	}
	Total++
	if Total == Limit {
		Over()
	}
}
