package main

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"time"
	"unsafe"
)

type evKind uint8

const (
	evOpStart evKind = iota
	evOpEnd
	evCall    // a method of the application begins
	evCallEnd // ... and ends
	evAct     // the application calls a method of its scope
	evActEnd  // ... which returns
	evHook    // reset hook
	evHookEnd
	evCancel
	evStall
	evFact
	evNote
)

type outcome uint8

const (
	outOK outcome = iota
	outErr
	outPanic
	outExit   // runtime.Goexit
	outCaught // panicked, and the application recovered
)

func (o outcome) String() string {
	return [...]string{"ok", "error", "panic", "goexit", "caught"}[o]
}

type method uint8

const (
	mNew method = iota
	mRoute
	mApply
	mCommand // HandleCommand
	mEvent   // HandleEvent
	mTimeout // HandleTimeout
	mVersion
	mClose
	mCompact
	mConfigure
)

func (m method) String() string {
	return [...]string{"New", "Route", "Apply", "HandleCommand", "HandleEvent", "HandleTimeout", "ResourceVersion", "CloseResource", "Compact", "Configure"}[m]
}

// Ev is an entry in the history of a run. The application, the clients and the
// observers write it; the order of entries is the order in which they happened.
type Ev struct {
	Kind evKind
	Out  outcome
	Meth method
	OK   bool // boolean result or flag
	W    int32
	Op   int32
	H    int32
	Call int32
	Obs  int32
	N    int64
	M    ref
	S    string // instance, resource or name of action
	S2   string
	V    any // error, panic value or fact
	Root []uint64
	T    int64 // engine-provided time
	Sim  int64 // simulated time
	GID  uint64
}

const histCap = 1 << 16

// hist is the history of the current run. It is written without any
// synchronisation, so that recording it cannot hide a data race in the code
// under test; the simulator lets only one task run at a time.
var hist struct {
	ev   []Ev
	n    int
	full bool
	call int32
	tag  uint64
}

func init() { hist.ev = make([]Ev, histCap) }

//go:norace
func histReset() {
	clear(hist.ev[:hist.n])
	hist.n = 0
	hist.full = false
	hist.call = 0
	hist.tag = 0
}

//go:norace
func add(e *Ev) {
	if hist.n >= histCap {
		hist.full = true
		runtime.SimProgress()
		return
	}
	e.Sim = time.Now().UnixNano()
	e.GID = runtime.SimGOID()
	hist.ev[hist.n] = *e
	hist.n++
	runtime.SimProgress()
}

//go:norace
func histLen() int { return hist.n }

//go:norace
func newCall() int32 { hist.call++; return hist.call }

//go:norace
func newTag() uint64 { hist.tag++; return hist.tag }

//go:norace
func noteStall(ms int64) { add(&Ev{Kind: evStall, Op: -1, H: -1, N: ms}) }

func events() []Ev { return hist.ev[:hist.n] }

// opInfo identifies the operation that the calling goroutine is performing.
type opInfo struct {
	w   *World
	op  int32
	ctx context.Context // the operation's, if it is to be checked
	act bool            // the operation is an action of a test
}

type opKey struct{}

func setLocal(o *opInfo) { runtime.SimSetLocal(unsafe.Pointer(o)) }

// opOf returns the operation that the caller belongs to, if known.
func opOf(ctx context.Context) *opInfo {
	if o := (*opInfo)(runtime.SimLocal()); o != nil {
		return o
	}
	if ctx != nil {
		if o, ok := ctx.Value(opKey{}).(*opInfo); ok {
			return o
		}
	}
	return (*opInfo)(runtime.SimFrom())
}

func curOp(ctx context.Context) int32 {
	if o := opOf(ctx); o != nil {
		return o.op
	}
	return -1
}

func simNS(t time.Time) string {
	return time.Unix(0, 0).Add(time.Duration(t.UnixNano())).UTC().Format("15:04:05.000")
}

func tns(n int64) string {
	if n == zeroNS {
		return "zero"
	}
	return fmt.Sprintf("%+.3fs", float64(n-epochNS)/1e9)
}

const zeroNS = -1 << 63

// ns converts a time to a number, with a value of its own for the zero time.
// Times too far away to be counted in nanoseconds are counted in seconds, and
// are less, or greater, than all others.
func ns(t time.Time) int64 {
	if t.IsZero() {
		return zeroNS
	}
	switch y := t.Year(); {
	case y < 1900:
		return -1<<62 + t.Unix()
	case y > 2100:
		return 1<<62 + t.Unix()
	}
	return t.UnixNano()
}

var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
var epochNS = epoch.UnixNano()

func (e *Ev) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%-9s op%-2d ", tns(e.Sim), e.Op)
	if e.W > 0 {
		fmt.Fprintf(&b, "w%d ", e.W)
	}
	if e.H >= 0 {
		fmt.Fprintf(&b, "h%d ", e.H)
	}
	switch e.Kind {
	case evOpStart:
		fmt.Fprintf(&b, "START %s", e.S)
		if e.M.Tag != 0 {
			fmt.Fprintf(&b, " %s", e.M)
		}
	case evOpEnd:
		fmt.Fprintf(&b, "RETURN %s", e.Out)
		if e.V != nil {
			fmt.Fprintf(&b, " %v", e.V)
		}
	case evCall:
		fmt.Fprintf(&b, "%s{ call=%d %s inst=%q root=%v t=%s", e.Meth, e.Call, e.M, e.S, e.Root, tns(e.T))
	case evCallEnd:
		fmt.Fprintf(&b, "} %s call=%d %s res=%q ok=%v", e.Meth, e.Call, e.Out, e.S, e.OK)
		if e.V != nil {
			fmt.Fprintf(&b, " %v", e.V)
		}
	case evAct:
		fmt.Fprintf(&b, "  %s( call=%d %s t=%s", e.S, e.Call, e.M, tns(e.T))
	case evActEnd:
		fmt.Fprintf(&b, "  %s) call=%d %s root=%v", e.S, e.Call, e.Out, e.Root)
		if e.V != nil {
			fmt.Fprintf(&b, " %v", e.V)
		}
	case evHook:
		fmt.Fprintf(&b, "hook %d {", e.N)
	case evHookEnd:
		fmt.Fprintf(&b, "} hook %d", e.N)
	case evCancel:
		fmt.Fprintf(&b, "CANCEL blocked=%v", e.OK)
	case evStall:
		fmt.Fprintf(&b, "STALL %dms", e.N)
	case evFact:
		fmt.Fprintf(&b, "    obs%d: %v", e.Obs, e.V)
	case evNote:
		fmt.Fprintf(&b, "note %s %v", e.S, e.V)
		if e.S2 != "" || e.OK || e.N != 0 {
			fmt.Fprintf(&b, " %s n=%d ok=%v", e.S2, e.N, e.OK)
		}
	}
	return b.String()
}
