package main

import (
	"math/rand"
	randv2 "math/rand/v2"
	"os"
	"runtime"
	"time"
)

// The harness is built with a compiler overlay (see build.sh) that adds hooks to the
// standard library: time.VerifNow, which time.Now returns from if set; runtime.VerifSetMapIter,
// which replaces the random offsets of map iteration; runtime.VerifSetMapSeed, which chooses where
// large maps place their entries; os.VerifPid, for os.Getpid; rand.VerifRand, for random numbers;
// os.VerifExit, which os.Exit calls first; and syscall.VerifTouch, which is told of everything that
// would change the file system.

var clockNow int64

func init() {
	time.VerifNow = nil
}

func setClock(sec int64, nanos int) {
	clockNow = sec
	time.VerifNow = func() time.Time { return time.Unix(clockNow, int64(nanos)) }
}

// setChance decides what is otherwise left to chance: placements in maps, random numbers, the
// number of the process.
func setChance(seed, random, pid int) {
	if seed != 0 {
		runtime.VerifSetMapSeed(uint64(seed) * 0xbf58476d1ce4e5b9)
	} else {
		runtime.VerifSetMapSeed(0)
	}
	os.VerifPid = pid
	rand.VerifRand, randv2.VerifRand = nil, nil
	if random != 0 {
		n := uint64(0)
		f := func() uint64 {
			n++
			switch random {
			case 1:
				return 0
			case 2:
				return 1<<64 - 1
			case 3:
				return -(n & 1)
			case 4:
				return 1<<63 - 1 + n&1
			}
			return (n + uint64(random)) * 0x9e3779b97f4a7c15
		}
		rand.VerifRand, randv2.VerifRand = f, f
	}
}

func clearClock() { time.VerifNow = nil }

// mapChoice decides the offset of every map iteration of one run. Choice c at iteration i makes a
// map of up to eight entries start at slot c and go round; the offset of the i-th iteration is
// choices[i], or the last element for all later ones.
type mapChoice struct {
	choices []int
	n       int
	half    bool
}

var mapCtl mapChoice

//go:nosplit
func nextMapOffset() uint64 {
	// each iteration asks twice (entry offset and directory offset): answer both alike
	c := 0
	if len(mapCtl.choices) > 0 {
		if mapCtl.n < len(mapCtl.choices) {
			c = mapCtl.choices[mapCtl.n]
		} else {
			c = mapCtl.choices[len(mapCtl.choices)-1]
		}
	}
	if mapCtl.half {
		mapCtl.n++
	}
	mapCtl.half = !mapCtl.half
	return uint64(c)
}

func setMaps(choices []int) {
	mapCtl = mapChoice{choices: choices}
	runtime.VerifSetMapIter(nextMapOffset)
}

func clearMaps() int {
	runtime.VerifSetMapIter(nil)
	return mapCtl.n
}
