package main

import zzvops "verif/sim/ops"

// Laid into package main of cmd/psignify by 'go build -overlay' only.  When
// this node binary is started by the coordinator, Boot runs one incarnation of
// the simulated program (which may call main) and never returns.
func init() { zzvops.Boot(main) }
