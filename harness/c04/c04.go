// Property C04: generated UUIDs are well-formed and unique within the process.
package c04

import (
	"sync"

	"github.com/donnie4w/gofer/util"
	"github.com/donnie4w/gofer/uuid"
	_ "verif/model"
	"verif/nd"
)

func wellFormed(u *uuid.UUID) {
	nd.Assert(u != nil, "NewUUID must return a value")
	nd.Assert(u.Version() == 4, "generated UUIDs are version 4")
	nd.Assert(u.Variant() == 1, "generated UUIDs have the RFC 4122 variant")
	nd.Assert(u[8]>>6 == 2, "octet 8 must start with bits 10")
	nd.Assert(u[6]>>4 == 4, "octet 6 must start with nibble 4")
}

func distinct(us []*uuid.UUID) {
	for i := range us {
		for j := 0; j < i; j++ {
			same := true
			for k := range us[i] {
				same = nd.And(same, us[i][k] == us[j][k])
			}
			nd.Assert(!same, "generated UUIDs must be pairwise distinct")
		}
	}
}

func CheckSequential() {
	nd.ModelOnly("hash values are uninterpreted")
	var us []*uuid.UUID
	for i := 0; i < nd.Q(5, 9); i++ {
		u := uuid.NewUUID()
		wellFormed(u)
		us = append(us, u)
		if i == 2 {
			_, _ = util.UUID64(), util.UUID32()
		}
	}
	distinct(us)
	nd.Reach("end")
}

func CheckConcurrent() {
	nd.ModelOnly("hash values are uninterpreted")
	nd.Preemptions(nd.Q(2, 4))
	n := nd.Q(3, 3)
	per := 2
	us := make([]*uuid.UUID, n*per)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				us[g*per+i] = uuid.NewUUID()
			}
		}()
	}
	wg.Wait()
	for _, u := range us {
		wellFormed(u)
	}
	distinct(us)
	nd.Reach("end")
}

// Many goroutines.
func CheckCrowd() {
	nd.ModelOnly("hash values are uninterpreted")
	us := make([]*uuid.UUID, nd.Q(6, 10))
	nd.Crowd(len(us), func(g int) { us[g] = uuid.NewUUID() })
	for _, u := range us {
		wellFormed(u)
	}
	distinct(us)
	nd.Reach("end")
}

// Long runs: values far apart.
func CheckMany() {
	nd.ModelOnly("hash values are uninterpreted")
	nd.MaxSteps(60000)
	n := 66000 // more than 16 bits count
	us := make([]*uuid.UUID, n)
	for i := range us {
		us[i] = uuid.NewUUID()
	}
	for d := 1; d < n; d *= 2 {
		wellFormed(us[d])
		distinct([]*uuid.UUID{us[0], us[d]})
		distinct([]*uuid.UUID{us[n-1-d], us[n-1]})
	}
	nd.Reach("end")
}
