// Package wire holds the messages between the coordinator and a node process.
// A node is one incarnation of the simulated machine: it receives a disk
// image, programs and an explicit list of events, runs the real psignify code
// over the simulated kernel, and returns what happened.
package wire

// File is one object of a disk image.
type File struct {
	Path string
	// Type: "" regular, "dir", "fifo" (read-once stream of unknown size),
	// "proc" (regular file whose size is reported as 0), "sys" (reported as 4096), "null", "link".
	Type   string
	Mode   uint32
	Data   []byte
	Chunks []int // fifo: sizes in which the data becomes available
	Virt   int64 // "zeros": a regular file of that many zero bytes
	Sink   *Sink // a huge file that was written: what was kept of it

	Touched int // changes of owner or times while the node ran
}

// Sink digests a huge encrypted file while it is written.
type Sink struct {
	Size    int64 // bytes of text
	Comment string
	Header  []byte
	Total   int64  // bytes of the binary form
	Heads   []byte // 32 bytes of every sealed chunk
	Whole   map[int][]byte
	Odd     string // why the digest is incomplete
	Tail    []byte // the last bytes
}

// Event is one decision of the simulator: at the N-th seam crossing of task
// Task, do Kind.  Kinds:
//
//	delay   the call takes Arg simulated nanoseconds longer (schedule)
//	short   transfer at most Arg bytes (legal)
//	eintr   fail with EINTR before any effect (legal)
//	zero    stream source: return (0, nil) (legal)
//	err     fail with errno Arg before any effect
//	full    the disk has Arg bytes of free space left from now on
//	closeerr  close fails with errno Arg2, the last Arg bytes written are lost
//	crash   the process dies here (Arg: bytes of a write that took effect;
//	        Arg2=1: the call took effect)
//	stmt    before the N-th visit of statement site Site by task Task, the
//	        task loses the processor for Arg simulated nanoseconds (schedule)
//	power   as crash, then unsynced data is lost as decided by Arg2
type Event struct {
	Task int
	N    int
	Kind string
	Arg  int64
	Arg2 int64
	Site int `json:",omitempty"`
}

// Site tells how often a task visited a statement.
type Site struct {
	Task, Site, Count int
}

// Fired is an event that took effect.
type Fired struct {
	Event
	Op    int // index of the operation it hit
	Class string
	Path  string
}

// Answer is one scripted reply of the passphrase prompt.
type Answer struct {
	Pass []byte
	Err  string
}

// Op is one step of a task.
type Op struct {
	Kind    string // sign verify seal open gen genpair loadpriv loadpub tobox topub check isenc prompt enc dec fswrite fsappend fstrunc fsremove
	A, B, C string // paths
	Prompt  []Answer
	Pass    []byte
	Rounds  int // 0: nil options (gen with Flag 1: options with Rounds 0)
	Slot    int
	Data    []byte
	Sizes   []int // enc/dec: sizes of caller's calls (cycled); dec source: see Pieces
	Pieces  []int // dec: sizes in which the source delivers (cycled)
	Flag    int
	TTY     [][]byte // prompt: terminal input chunks
}

// Task is a sequential program.
type Task struct {
	ID  int
	Ops []Op
}

// CLI asks for a run of the command itself.
type CLI struct {
	Args []string
	Env  []string
}

// Req is one incarnation.
type Req struct {
	Image     []File
	Cwd       string
	Umask     uint32
	Prologue  []Op // run by task 0 before the tasks start
	Tasks     []Task
	CLI       *CLI
	TTY       [][]byte // terminal input on fd 0; nil: not a terminal
	HaveTTY   bool
	TTYEof    bool // after the script, terminal reads return 0 for ever (hang-up)
	Events    []Event
	Entropy   []byte
	StepLimit int
	StmtLimit int64
	LogReads  bool
	LogWrites bool
	Snapshots bool
	Quiet     bool // no class list
	Huge      bool // digest huge files instead of keeping them
	Big       bool // very many small reads
}

// Seg is data seen or stored by a call.
type Seg struct {
	Task, Op int
	Path     string
	Ino      int
	Off      int64
	Mode     uint32
	Data     []byte
}

// Class is a run of consecutive seam crossings of one task with equal class.
type Class struct {
	Task, Op int
	Name     string
	Path     string
	Count    int
	Len      int // largest transfer
}

// Result of one op.
type Result struct {
	Task, Op  int // Op -1-k: prologue op k
	Started   bool
	Done      bool
	Err       string
	Failed    bool
	Panic     string
	Out       []byte
	Counts    []int // enc: n of every Write; dec: n of every Read
	Errs      []string
	Bool      bool
	Prompts   int
	Confirms  []bool
	Wiped     bool // every prompted buffer is zero
	Leaked    int  // descriptors left open
	LeakPaths []string
	Steps     int
	Before    []File
	After     []File
	Changed   []string // existing paths that changed or vanished while the op ran (single-task phases)
	Appeared  []string // paths that came into being
	FailCall  int      // enc: 1 + index of the call during which the sink first failed
	TTYEchoed bool     // a terminal read happened while echo was on
	TTYDirty  bool     // terminal settings differ from before
}

// Resp is the outcome of an incarnation.
type Resp struct {
	Status    string // done, exit, crash, steplimit, panic, fatal, internal
	Detail    string
	Code      int
	Results   []Result
	Image     []File
	Fired     []Fired
	Classes   []Class
	Sites     []Site // of phases with several tasks
	Stmts     int64
	Hash      uint64
	Steps     int
	SimNs     int64
	Switches  int
	Threaded  map[int]bool // tasks in which several goroutines make calls
	Stdout    []byte
	Stderr    []byte
	Exposed   []string // files holding a secret key while accessible to others
	Reads     []Seg
	Writes    []Seg
	Calls     map[string]int
	TTYEchoed bool
	TTYDirty  bool
	TTYReads  int
	EntropyN  int
	RandLog   []Seg
	OpenEnd   []string // files open at the end that were not open at the start
}
