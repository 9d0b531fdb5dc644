// Package simhook is the simulator's core: the yield points that simprep
// inserts into every statement of the code under test call Y, and a seeded
// scheduler decides which simulated task runs next.
//
// Every task is a real goroutine, but exactly one of them makes progress at
// any time: the others spin on `turn` with runtime.Gosched (GOMAXPROCS is 1).
// The hand-over is written in //go:norace functions on plain variables, so it
// is invisible to the race detector: under -race, two tasks are ordered only
// by the synchronisation of the code under test itself, and an unsynchronised
// conflicting access is reported whatever the schedule did with it.
//
// Nothing in here may allocate, append or touch a map while a schedule is
// running (the runtime reports those to the race detector even from norace
// functions).
package simhook

import (
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// StepLimit is the panic value raised when the code under test executes more
// statements than the budget of the current operation allows.
type StepLimit struct{}

func (StepLimit) Error() string { return "simulated step budget exhausted" }

// Deadlock is the panic value raised when every live task waits for a lock.
type Deadlock struct{}

func (Deadlock) Error() string { return "all simulated tasks are blocked" }

const (
	// MaxTasks bounds the number of tasks of one schedule.
	MaxTasks = 32
	// maxSegs bounds the recorded schedule.
	maxSegs = 1 << 16
)

// Seg is one scheduling decision: let the Pick-th runnable task run for Run
// yield points.
type Seg struct {
	Pick uint8
	Run  uint32
}

var (
	steps      uint64
	limit      uint64 = 1 << 62
	libSteps   uint64 // of them, statements of the library
	libLimit   uint64 = 1 << 62
	yieldFloor uint32 // ids below this are seam yields

	// scheduler state
	active   bool
	turn     int32 // id of the task that may run; -1: the controller
	nTasks   int32
	alive    [MaxTasks]bool
	nAlive   int32
	left     uint32 // yields left in the current segment
	rng      uint64
	meanRun  uint32
	replay   bool
	segs     [maxSegs]Seg
	nSegs    int // segments used so far
	nReplay  int // segments available in replay mode
	switches uint64
	schedH   uint64 // hash of the (task, yield point) switch sequence
	streak   int32  // blocked attempts without progress

	// per task step accounting
	taskSteps [MaxTasks]uint64
	taskLimit [MaxTasks]uint64
	depth     int32 // >0: a seam forbids preemption

	// coverage of yield points
	seen [1 << 16]bool

	// the simulated clock (nanoseconds)
	clock int64

	// the goroutine of each task (0: unknown yet), and whether it waits for
	// something the scheduler does not see (a channel, a condition): such a
	// task is out of the schedule until it wakes up and reaches a yield point
	taskG    [MaxTasks]uintptr
	outside  [MaxTasks]bool
	nOutside int32
	outEver  uint64
)

const (
	controller = -1 // turn: no schedule is running
	nobody     = -2 // turn: every live task waits for something
)

//go:norace
func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Y is a yield point.
//
//go:norace
func Y(id uint32) {
	if !active {
		steps++
		libSteps++
		seen[id&0xffff] = true
		if steps > limit || libSteps > libLimit {
			limit, libLimit = 1<<62, 1<<62
			panic(StepLimit{})
		}
		return
	}
	t := current()
	if t < 0 {
		return
	}
	seen[id&0xffff] = true
	streak = 0
	taskSteps[t]++
	if taskSteps[t] > taskLimit[t] {
		taskLimit[t] = 1 << 62
		panic(StepLimit{})
	}
	if left > 0 {
		left--
		return
	}
	pickNext(id, t, false)
}

// B counts work against the budget without being a yield point: simprep puts
// it into the loops and functions of the painting libraries.
//
//go:norace
func B() {
	if !active {
		steps++
		if steps > limit {
			limit = 1 << 62
			panic(StepLimit{})
		}
		return
	}
	t := current()
	if t < 0 {
		return
	}
	taskSteps[t]++
	if taskSteps[t] > taskLimit[t] {
		taskLimit[t] = 1 << 62
		panic(StepLimit{})
	}
}

// current is the task of the calling goroutine, whose turn it is when current
// returns; -1 if the goroutine is none of the tasks (the code under test may
// start goroutines of its own).
//
//go:norace
func current() int32 {
	g := sync.SimG()
	t := turn
	if t >= 0 && taskG[t] == g {
		return t
	}
	for i := int32(0); i < nTasks; i++ {
		if alive[i] && taskG[i] == g {
			// it waited for something and woke up
			if outside[i] {
				outside[i] = false
				nOutside--
			}
			if turn == nobody {
				turn = i
			}
			park(i)
			return i
		}
	}
	return -1
}

// nextSeg draws the next scheduling decision.
//
//go:norace
func nextSeg() Seg {
	if replay {
		if nSegs < nReplay {
			s := segs[nSegs]
			nSegs++
			return s
		}
		return Seg{0, 1 << 30}
	}
	r := splitmix(&rng)
	pick := uint8(r>>8) & 0x7f
	// geometric-like run length around meanRun, sometimes very short
	run := uint32(0)
	switch r & 7 {
	case 0:
		run = 0
	case 1:
		run = uint32(splitmix(&rng) % 4)
	default:
		run = uint32(splitmix(&rng) % uint64(2*meanRun+1))
	}
	s := Seg{pick, run}
	if nSegs < maxSegs {
		segs[nSegs] = s
		nSegs++
		return s
	}
	return Seg{0, 1 << 30}
}

// pickNext switches to the task the schedule names. exclude: the current task
// cannot continue (it is blocked).
//
//go:norace
func pickNext(id uint32, me int32, exclude bool) {
	n := int32(0)
	for i := int32(0); i < nTasks; i++ {
		if alive[i] && !outside[i] && !(exclude && i == me) {
			n++
		}
	}
	if n == 0 {
		if me < 0 || !alive[me] || outside[me] {
			turn = nobody
		}
		return
	}
	s := nextSeg()
	k := int32(s.Pick) % n
	next := int32(-1)
	// candidates are numbered starting with the current task, so that a
	// minimised schedule (all zero) does not switch
	for i := int32(0); i < nTasks; i++ {
		c := (me + i) % nTasks
		if me < 0 {
			c = i
		}
		if !alive[c] || outside[c] || (exclude && c == me) {
			continue
		}
		if k == 0 {
			next = c
			break
		}
		k--
	}
	if next < 0 {
		return
	}
	left = s.Run
	schedH = (schedH ^ (uint64(id)<<8 | uint64(uint8(next)))) * 0x100000001b3
	if next != me {
		switches++
		turn = next
		if me >= 0 && alive[me] && !outside[me] {
			park(me)
		}
	}
}

//go:norace
func park(me int32) {
	idle := 0
	for turn != me {
		runtime.Gosched()
		t := turn
		if t < 0 || t == me || taskG[t] == 0 || !sync.SimWaiting(taskG[t]) {
			idle = 0
			continue
		}
		// the task whose turn it is waits for a channel or the like: give
		// goroutines of the library the time to wake it, then go on without
		idle++
		if idle < 300 {
			continue
		}
		if idle < 320 {
			syscall.Nanosleep(&syscall.Timespec{Nsec: 1000000}, nil)
			continue
		}
		idle = 0
		if turn == t && !outside[t] {
			outside[t] = true
			nOutside++
			outEver++
			pickNext(3, t, true)
		}
	}
}

// blocked is called by the patched sync package when a lock is contended.
//
//go:norace
func blocked() bool {
	if !active {
		return blockedAlone()
	}
	t := current()
	if t < 0 {
		return false
	}
	streak++
	if nOutside > 0 {
		// those who wait for something else may wake up and release it
		if streak > 8*nTasks+1000 {
			streak = 0
			panic(Deadlock{})
		}
		if streak > 8*nTasks {
			syscall.Nanosleep(&syscall.Timespec{Nsec: 1000000}, nil)
		}
		runtime.Gosched()
		pickNext(1, t, true)
		return true
	}
	if streak > 8*nTasks || nAlive <= 1 {
		streak = 0
		panic(Deadlock{})
	}
	pickNext(1, t, true)
	return true
}

// blockedAlone is called for a contended lock outside of a simulation of
// several tasks. Inside a guarded call of the main goroutine nothing but a
// goroutine the library started itself could release it: it gets a second.
//
//go:norace
func blockedAlone() bool {
	if guards == 0 || sync.SimG() != mainG {
		return false
	}
	alone++
	if alone%64 == 0 {
		syscall.Nanosleep(&syscall.Timespec{Nsec: 1000000}, nil)
	}
	if alone > 64*1000 {
		alone = 0
		panic(Deadlock{})
	}
	runtime.Gosched()
	return true
}

var (
	guards int // guarded calls under way
	alone  int
	mainG  uintptr
)

func init() {
	mainG = sync.SimG()
	sync.SimLock = blocked
}

// ResetRun puts the process-wide simulated nondeterminism (map iteration
// order, sync.Pool contents, clock) in the state the seed asks for.
func ResetRun(seed uint64) {
	sync.SimMapSeed(seed | 1)
	sync.SimPoolReset()
	clock = 0
	timers = nil
}

// Steps runs f with a statement budget and returns the number of statements
// executed.
func Steps(budget uint64, f func()) (n uint64) {
	if t := currentTask(); t >= 0 {
		old := taskLimit[t]
		start := taskSteps[t]
		setTaskLimit(t, start+budget)
		defer func() { n = getTaskSteps(t) - start; setTaskLimit(t, old) }()
		f()
		return
	}
	old := limit
	start := steps
	limit = steps + budget
	guards++
	alone = 0
	defer func() { n = steps - start; limit = old; guards-- }()
	f()
	return
}

// LibSteps runs f with a budget of its own for the statements of the library,
// not counting the work of the painting libraries. Only outside of schedules.
func LibSteps(budget uint64, f func()) (n uint64) {
	start := libSteps
	libLimit = start + budget
	defer func() { n = libSteps - start; libLimit = 1 << 62 }()
	f()
	return
}

//go:norace
func currentTask() int32 {
	if !active {
		return -1
	}
	return current()
}

//go:norace
func setTaskLimit(t int32, v uint64) { taskLimit[t] = v }

//go:norace
func getTaskSteps(t int32) uint64 { return taskSteps[t] }

// simTimer is a timer the library started: it fires when the simulated clock
// passes its time.
type simTimer struct {
	t      *time.Timer
	due    int64
	period int64
	fire   func()
	isFunc bool
	off    bool // stopped or fired
}

var (
	timers     []*simTimer
	timersLock uint32
	// TimersStarted and TimersFired count.
	TimersStarted, TimersFired int
)

func lockTimers() {
	for !atomic.CompareAndSwapUint32(&timersLock, 0, 1) {
		runtime.Gosched()
	}
}

func unlockTimers() { atomic.StoreUint32(&timersLock, 0) }

//go:norace
func takesTimer() bool { return !active && guards > 0 }

func startTimer(t *time.Timer, d, period time.Duration, fire func(), isFunc bool) {
	lockTimers()
	TimersStarted++
	timers = append(timers, &simTimer{t: t, due: clock + max(int64(d), 0), period: int64(period), fire: fire, isFunc: isFunc})
	unlockTimers()
	if d <= 0 {
		Advance(0)
	}
}

func findTimer(t *time.Timer) *simTimer {
	for _, s := range timers {
		if s.t == t {
			return s
		}
	}
	return nil
}

func stopTimer(t *time.Timer) (was, ok bool) {
	lockTimers()
	defer unlockTimers()
	s := findTimer(t)
	if s == nil {
		return false, false
	}
	was, s.off = !s.off, true
	return was, true
}

func resetTimer(t *time.Timer, d time.Duration) (was, ok bool) {
	lockTimers()
	defer unlockTimers()
	s := findTimer(t)
	if s == nil {
		return false, false
	}
	s.due = clock + max(int64(d), 0)
	if s.period > 0 {
		s.period = int64(d)
	}
	was, s.off = !s.off, false
	return was, true
}

// sleep takes the time from the simulated clock.
func sleep(d time.Duration) bool {
	if !takesTimer() {
		return false
	}
	Y(4)
	Advance(max(d, 0))
	for i := 0; i < 20; i++ {
		runtime.Gosched()
	}
	return true
}

// PendingFuncs is the number of functions that timers are still to call.
func PendingFuncs() (n int) {
	lockTimers()
	defer unlockTimers()
	for _, s := range timers {
		if s.isFunc && !s.off {
			n++
		}
	}
	return
}

// nextDue takes the timer that is due first, if it is due until then.
func nextDue(until int64) *simTimer {
	lockTimers()
	defer unlockTimers()
	var first *simTimer
	for _, s := range timers {
		if !s.off && s.due <= until && (first == nil || s.due < first.due) {
			first = s
		}
	}
	if first == nil {
		return nil
	}
	TimersFired++
	clock = max(clock, first.due)
	if first.period > 0 {
		first.due += first.period
	} else {
		first.off = true
	}
	return first
}

// Advance moves the simulated clock and fires the timers that become due.
//
//go:norace
func Advance(d time.Duration) {
	until := clock + int64(d)
	if len(timers) == 0 {
		clock = until
		return
	}
	for n := 0; n < 1000; n++ {
		s := nextDue(until)
		if s == nil {
			break
		}
		if !s.isFunc {
			s.fire()
			continue
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			s.fire()
		}()
		for i := 0; i < 2000; i++ {
			select {
			case <-done:
				i = 2000
			default:
				runtime.Gosched()
			}
		}
	}
	clock = max(clock, until)
}

// Jump sets the simulated clock.
//
//go:norace
func Jump(d time.Duration) { clock += int64(d) }

// Clock is the simulated time since the start of the run.
//
//go:norace
func Clock() time.Duration { return time.Duration(clock) }

//go:norace
func simNow() time.Time { return time.Unix(1700000000, clock) }

// UseSimClock installs the simulated clock behind time.Now.
func UseSimClock() {
	time.SimNow = simNow
	time.SimTakes, time.SimTimer, time.SimStop, time.SimReset, time.SimSleep = takesTimer, startTimer, stopTimer, resetTimer, sleep
}

// Result of a schedule.
type Result struct {
	Segs     []Seg
	Hash     uint64
	Switches uint64
}

// Run executes the tasks under the seeded scheduler (or the given schedule)
// and returns when all have finished. A task's panics are its own business.
func Run(tasks []func(), seed uint64, mean uint32, sched []Seg, useSched bool) Result {
	if len(tasks) > MaxTasks {
		panic("too many tasks")
	}
	done := make(chan struct{}, len(tasks))
	start(len(tasks), seed, mean, sched, useSched)
	for i := range tasks {
		i := i
		go func() {
			setG(i)
			park(int32(i))
			defer func() {
				finish(int32(i))
				done <- struct{}{}
			}()
			tasks[i]()
		}()
	}
	for !allKnown(len(tasks)) {
		runtime.Gosched()
	}
	begin()
	for range tasks {
		<-done
	}
	return end()
}

//go:norace
func setG(i int) { taskG[i] = sync.SimG() }

//go:norace
func allKnown(n int) bool {
	for i := 0; i < n; i++ {
		if taskG[i] == 0 {
			return false
		}
	}
	return true
}

//go:norace
func start(n int, seed uint64, mean uint32, sched []Seg, useSched bool) {
	nTasks = int32(n)
	nAlive = nTasks
	for i := range alive {
		alive[i] = i < n
		taskSteps[i] = 0
		taskLimit[i] = 1 << 62
		taskG[i] = 0
		outside[i] = false
	}
	nOutside = 0
	left, nSegs, nReplay = 0, 0, 0
	rng, meanRun, replay = seed, mean, useSched
	switches, schedH, streak = 0, 0xcbf29ce484222325, 0
	turn = controller
	if useSched {
		nReplay = len(sched)
		if nReplay > maxSegs {
			nReplay = maxSegs
		}
		for i := 0; i < nReplay; i++ {
			segs[i] = sched[i]
		}
	}
	active = true
}

//go:norace
func begin() { pickNext(0, -1, false) }

//go:norace
func finish(i int32) {
	current() // it may come back from outside
	alive[i] = false
	nAlive--
	if nAlive == 0 {
		turn = controller
		return
	}
	pickNext(2, i, false)
}

//go:norace
func end() Result {
	active = false
	turn = controller
	n := nSegs
	out := make([]Seg, n)
	for i := 0; i < n; i++ {
		out[i] = segs[i]
	}
	return Result{Segs: out, Hash: schedH, Switches: switches}
}

// Active reports whether a schedule is running.
//
//go:norace
func Active() bool { return active }

// TotalSteps counts the statements executed outside schedules.
func TotalSteps() uint64 { return steps }

// Seen returns how many distinct yield points were reached.
func Seen(from, to int) int {
	n := 0
	for i := from; i < to && i < len(seen); i++ {
		if seen[i] {
			n++
		}
	}
	return n
}

// SeenIDs lists the yield points reached.
func SeenIDs() []int {
	var out []int
	for i, b := range seen {
		if b {
			out = append(out, i)
		}
	}
	return out
}

// Watch ends the process when a call of the code under test makes no progress
// for the given number of real seconds: it waits for something that will never
// come, or loops outside of the instrumented code.
func Watch(seconds int) {
	go func() {
		last, idle := uint64(0), 0
		for {
			time.SimRealSleep(time.Second)
			n, busy := progress()
			if !busy || n != last {
				last, idle = n, 0
				continue
			}
			idle++
			if idle >= seconds {
				b := make([]byte, 1<<16)
				b = b[:runtime.Stack(b, true)]
				os.Stderr.WriteString("simulation: no progress inside the library, which waits or loops for ever\n" + string(b))
				os.Exit(4)
			}
		}
	}()
}

//go:norace
func progress() (n uint64, busy bool) {
	n = steps + switches + outEver
	for i := range taskSteps {
		n += taskSteps[i]
	}
	return n, guards > 0 || active
}
