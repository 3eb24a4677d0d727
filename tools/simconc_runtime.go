package runtime

// A scheduler for actors: goroutines of which one runs at a time, switched at
// the calls of SimYield. Parking and waking happen below the race detector's
// notice, so the schedule adds no happens-before edges. Everything assumes
// GOMAXPROCS=1 and no preemption.

const (
	simNone = iota
	simParked
	simRunning
	simDone
)

const simMaxActors = 16

var simActors [simMaxActors]struct {
	gp    *g
	state uint8
}
var simCur = -1
var simRnd uint64
var simProb uint32 // switch probability, of 1<<16
var simYields, simBlocks uint64
var simForced []uint64 // replay: point<<8 | actor
var simReplay bool
var simLog [1 << 16]uint64
var simLogN int

func simRand() uint64 {
	simRnd += 0x9e3779b97f4a7c15
	z := simRnd
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimActorsReset prepares a round.
func SimActorsReset(seed uint64, prob uint32, replay bool, forced []uint64) {
	for i := range simActors {
		simActors[i].gp = nil
		simActors[i].state = simNone
	}
	simCur = -1
	simRnd = seed
	simProb = prob
	simYields = 0
	simBlocks = 0
	simReplay = replay
	simForced = forced
	simLogN = 0
}

func simID() int {
	gp := getg()
	for i := range simActors {
		if simActors[i].gp == gp {
			return i
		}
	}
	return -1
}

func simPark(id int) {
	simActors[id].state = simParked
	gopark(nil, nil, waitReasonZero, traceBlockGeneric, 1)
}

func simSwitch(next int) {
	simCur = next
	if next >= 0 && simActors[next].state == simParked {
		simActors[next].state = simRunning
		goready(simActors[next].gp, 1)
	}
}

// simPick chooses a parked actor other than id; -1 if there is none.
func simPick(id int) int {
	n := 0
	for i := range simActors {
		if i != id && simActors[i].state == simParked {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := int(simRand() % uint64(n))
	if simReplay {
		k = 0
	}
	for i := range simActors {
		if i != id && simActors[i].state == simParked {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

// simForcedAt looks up a recorded switch.
func simForcedAt(point uint64) int {
	for len(simForced) > 0 && simForced[0]>>8 < point {
		simForced = simForced[1:]
	}
	if len(simForced) > 0 && simForced[0]>>8 == point {
		a := int(simForced[0] & 255)
		if a < simMaxActors && simActors[a].state == simParked {
			return a
		}
	}
	return -1
}

func simRecord(next int) {
	if simLogN < len(simLog) {
		simLog[simLogN] = simYields<<8 | uint64(next)
		simLogN++
	}
}

// SimActor makes the calling goroutine actor id; it waits for its first turn.
func SimActor(id int) {
	simActors[id].gp = getg()
	simPark(id)
}

// SimActorEnd ends the calling actor.
func SimActorEnd() {
	id := simID()
	simActors[id].state = simDone
	simActors[id].gp = nil
	if simCur != id {
		return
	}
	simYields++
	next := -1
	if simReplay {
		next = simForcedAt(simYields)
	}
	if next < 0 {
		next = simPick(id)
	}
	if next >= 0 {
		simRecord(next)
	}
	simSwitch(next)
}

// SimYield is a scheduling point.
func SimYield() {
	if simCur < 0 {
		return
	}
	id := simID()
	if id < 0 {
		return
	}
	if simCur != id {
		simPark(id) // it was blocked, and another one had its turn
		return
	}
	simYields++
	next := -1
	if simReplay {
		next = simForcedAt(simYields)
	} else if uint32(simRand()&0xffff) < simProb {
		next = simPick(id)
	}
	if next < 0 || next == id {
		return
	}
	simRecord(next)
	simSwitch(next)
	simPark(id)
}

// SimYieldBlocked lets another actor run, because the caller waits for a lock.
// It reports whether there was one.
func SimYieldBlocked() bool {
	id := simID()
	if id < 0 || simCur != id {
		return false
	}
	simYields++
	simBlocks++
	next := -1
	if simReplay {
		next = simForcedAt(simYields)
	}
	if next < 0 {
		next = simPick(id)
	}
	if next < 0 {
		return false
	}
	simRecord(next)
	simSwitch(next)
	simPark(id)
	return true
}

// SimSupervise runs the actors to their end. It reports false if they are stuck.
func SimSupervise(n int) bool {
	idle := 0
	for {
		done, parked := 0, 0
		for i := 0; i < n; i++ {
			switch simActors[i].state {
			case simDone:
				done++
			case simParked:
				parked++
			}
		}
		if done == n {
			return true
		}
		if simCur < 0 && parked == n {
			simYields++
			next := -1
			if simReplay {
				next = simForcedAt(simYields)
			}
			if next < 0 {
				next = simPick(-1)
			}
			simRecord(next)
			simSwitch(next)
		} else if simCur >= 0 && simActors[simCur].gp != nil && readgstatus(simActors[simCur].gp) == _Gwaiting && runqempty(getg().m.p.ptr()) && sched.runq.empty() {
			// The actor at turn waits for something.
			idle++
			if idle > 3 && parked > 0 {
				simYields++
				simBlocks++
				next := -1
				if simReplay {
					next = simForcedAt(simYields)
				}
				if next < 0 {
					next = simPick(simCur)
				}
				simRecord(next)
				simSwitch(next)
				idle = 0
			} else if idle > 20 {
				usleep(1000)
				if idle > 20000 {
					return false
				}
			}
		} else if simCur >= 0 && simActors[simCur].state == simDone || simCur < 0 {
			// The actor at turn is gone; others were blocked meanwhile.
			if parked > 0 {
				simSwitch(simPick(-1))
			} else {
				for i := 0; i < n; i++ {
					if simActors[i].state == simRunning {
						simCur = i
					}
				}
			}
		}
		Gosched()
	}
}

// SimActorsStats returns scheduling points, forced switches and the recorded switches.
func SimActorsStats() (yields, blocks uint64, log []uint64) {
	return simYields, simBlocks, simLog[:simLogN]
}
