package simrt

import "unsafe"

// A select statement with several cases ready takes one by the runtime's
// per-thread random number. Sel, called just before, makes that number a
// function of the run's seed.

//go:linkname cheaprand runtime.cheaprand
func cheaprand() uint32

const gM = 48 // offset of m in the g structure

var randOff uintptr // offset of cheaprand in the m structure, found at start-up; 0: unknown

//go:norace
//go:nocheckptr
//go:noinline
func mWord(off uintptr) *uint32 {
	m := *(*uintptr)(unsafe.Pointer(getg() + gM))
	return (*uint32)(unsafe.Pointer(m + off))
}

//go:norace
func init() {
	const n = 4096
	for try := 0; try < 8; try++ {
		var was [n / 4]uint32
		for off := uintptr(0); off < n; off += 4 {
			was[off/4] = *mWord(off)
		}
		cheaprand()
		found := uintptr(0)
		for off := uintptr(0); off < n; off += 4 {
			if *mWord(off) == was[off/4]+0x53c5ca59 {
				found = off
			}
		}
		if found == 0 || (randOff != 0 && found != randOff) {
			randOff = 0
			return
		}
		randOff = found
	}
}

// Sel makes the choice of the select statement that follows.
//
//go:norace
func Sel() {
	if !active || randOff == 0 || goid() != curG {
		return
	}
	r := Rand{cfg.Seed ^ uint64(cur.id)<<40 ^ uint64(cur.n)}
	*mWord(randOff) = uint32(r.Next() >> 16)
}
