// Package model is the environment of the code under test under the symbolic
// executor: randomness, process identity and the like become unconstrained
// symbolic values. It has no effect natively.
package model

import (
	mathrand "math/rand"
	"net"

	"verif/nd"
)

//sym:replace net.Interfaces
func interfaces() ([]net.Interface, error) {
	return []net.Interface{{Index: 1, MTU: 1500, Name: "eth0", HardwareAddr: net.HardwareAddr(nd.Bytes("env.mac", 6))}}, nil
}

//sym:replace crypto/rand.Read
func randRead(b []byte) (int, error) {
	copy(b, nd.Bytes("env.rand", len(b)))
	return len(b), nil
}

//sym:replace os.Getpid
func getpid() int { return nd.Range("env.pid", 1, 1<<22-1) }

//sym:replace math/rand.NewSource
func newSource(seed int64) mathrand.Source { return nil }

//sym:replace math/rand.New
func newRand(s mathrand.Source) *mathrand.Rand { return new(mathrand.Rand) }

//sym:replace (*math/rand.Rand).Intn
func randIntn(r *mathrand.Rand, n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return nd.Range("env.intn", 0, n-1)
}

//sym:replace math/rand.Intn
func globalIntn(n int) int {
	if n <= 0 {
		panic("invalid argument to Intn")
	}
	return nd.Range("env.intn", 0, n-1)
}

//sym:replace errors.Is
func errorsIs(err, target error) bool {
	for err != nil {
		if err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		u, ok := err.(interface{ Unwrap() error })
		if !ok {
			return false
		}
		err = u.Unwrap()
	}
	return target == nil
}

//sym:replace (*math/rand.Rand).Int63n
func randInt63n(r *mathrand.Rand, n int64) int64 {
	if n <= 0 {
		panic("invalid argument to Int63n")
	}
	return int64(nd.Range("env.int63n", 0, int(n-1)))
}

//sym:replace (*math/rand.Rand).Int63
func randInt63(r *mathrand.Rand) int64 { return nd.Int64("env.int63") & (1<<63 - 1) }

//sym:replace (*math/rand.Rand).Int
func randInt(r *mathrand.Rand) int { return int(nd.Int64("env.int") & (1<<63 - 1)) }

//sym:replace (*math/rand.Rand).Uint64
func randUint64(r *mathrand.Rand) uint64 {
	Draws++
	nd.Assume(MaxDraws == 0 || Draws <= MaxDraws)
	return nd.Uint64("env.uint64")
}

// MaxDraws bounds rejection sampling.
var Draws, MaxDraws int

//sym:replace (*math/rand.Rand).Uint32
func randUint32(r *mathrand.Rand) uint32 { return nd.Uint32("env.uint32") }
