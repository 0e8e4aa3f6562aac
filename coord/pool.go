package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/wire"
)

var nodePath string
var incarnations, simNs, simSteps, simSwitches int64
var nodeTimeout = 20 * time.Second

var hugeMu sync.Mutex
var hugeProc *os.Process // runs the very large message
var hugeEnd bool

// endHuge gives up the very large message: a violation has been found.
func endHuge() {
	hugeMu.Lock()
	defer hugeMu.Unlock()
	hugeEnd = true
	if hugeProc != nil {
		hugeProc.Kill()
	}
}

// runNode executes one incarnation in a fresh process.
func runNode(req *wire.Req) (*wire.Resp, error) {
	var in bytes.Buffer
	if err := gob.NewEncoder(&in).Encode(req); err != nil {
		return nil, err
	}
	data := in.Bytes()
	var last error
	nodeTimeout := nodeTimeout
	if req.Huge || req.Big {
		nodeTimeout = 200 * time.Second
	}
	for try := 0; try < 2; try++ {
		limit := nodeTimeout
		if try > 0 {
			limit = 3 * nodeTimeout
		}
		var out, errb bytes.Buffer
		cmd := exec.Command(nodePath)
		cmd.Args = []string{"psignify"}
		cmd.Env = []string{"VERIF_SIM_NODE=1", fmt.Sprintf("VERIF_SIM_SEED=%x", req.Entropy), "GOMAXPROCS=1", "GODEBUG=randautoseed=0,cryptocustomrand=1,asyncpreemptoff=1,gcshrinkstackoff=1"}
		cmd.Stdin = bytes.NewReader(data)
		cmd.Stdout, cmd.Stderr = &out, &errb
		began := time.Now()
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		timedOut := int32(0)
		if req.Huge || req.Big {
			hugeMu.Lock()
			hugeProc = cmd.Process
			if hugeEnd {
				hugeProc.Kill()
			}
			hugeMu.Unlock()
		}
		t := time.AfterFunc(limit, func() { atomic.StoreInt32(&timedOut, 1); cmd.Process.Kill() })
		err := cmd.Wait()
		t.Stop()
		atomic.AddInt64(&incarnations, 1)
		if req.Huge || req.Big {
			hugeMu.Lock()
			hugeProc = nil
			ended := hugeEnd
			hugeMu.Unlock()
			if ended {
				return &wire.Resp{Status: "toolong"}, nil
			}
		}
		if atomic.LoadInt32(&timedOut) == 1 {
			if req.Huge || req.Big { // too slow to tell
				fmt.Println("note: the huge message was given up")
				return &wire.Resp{Status: "toolong"}, nil
			}
			cpu := cmd.ProcessState.UserTime() + cmd.ProcessState.SystemTime()
			if cpu < limit*2/5 { // the machine is busy, not the program
				last = fmt.Errorf("node stopped after %v with only %v of processor time", limit, cpu)
				continue
			}
			return &wire.Resp{Status: "hang", Detail: fmt.Sprintf("no system call and no end for %v of real time", limit)}, nil
		}
		if os.Getenv("VERIF_SLOW") != "" && time.Since(began) > 200*time.Millisecond {
			fmt.Fprintf(os.Stderr, "slow: %v, user %v sys %v, request %d response %d bytes, %d tasks %d events\n", time.Since(began), cmd.ProcessState.UserTime(), cmd.ProcessState.SystemTime(), len(data), out.Len(), len(req.Tasks), len(req.Events))
		}
		var resp wire.Resp
		if derr := gob.NewDecoder(bytes.NewReader(out.Bytes())).Decode(&resp); derr != nil {
			e := errb.String()
			if len(e) > 1500 {
				e = e[:1500]
			}
			if (req.Huge || req.Big) && (e == "" || strings.Contains(e, "out of memory")) { // too little memory
				fmt.Println("note: the huge message was given up")
				return &wire.Resp{Status: "toolong"}, nil
			}
			// the Go runtime ended the process itself: an unrecoverable failure of the program
			if bytes.Contains(errb.Bytes(), []byte("fatal error:")) || bytes.Contains(errb.Bytes(), []byte("panic:")) || bytes.Contains(errb.Bytes(), []byte("goroutine ")) {
				if !bytes.Contains(errb.Bytes(), []byte("verif/sim")) || bytes.Contains(errb.Bytes(), []byte("stack overflow")) || bytes.Contains(errb.Bytes(), []byte("out of memory")) || bytes.Contains(errb.Bytes(), []byte("concurrent map")) {
					return &wire.Resp{Status: "panic", Detail: e}, nil
				}
			}
			if strings.Contains(errb.String(), "all goroutines are asleep") {
				return &wire.Resp{Status: "hang", Detail: e}, nil
			}
			last = fmt.Errorf("node failed: %v %v\n%s", err, derr, e)
			continue
		}
		atomic.AddInt64(&simNs, resp.SimNs)
		atomic.AddInt64(&simSteps, int64(resp.Steps))
		atomic.AddInt64(&simSwitches, int64(resp.Switches))
		return &resp, nil
	}
	return nil, last
}
