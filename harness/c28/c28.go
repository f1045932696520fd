// Property C28: a signal listener's function runs once, with the first listed signal.
package c28

import (
	"os"
	"os/signal"
	"syscall"

	"github.com/donnie4w/gofer/gosignal"
	_ "verif/model"

	"verif/nd"
)

// Signals as package signal delivers them: to every channel registered for
// them, without waiting for a receiver.
type listener struct {
	c    chan<- os.Signal
	all  bool
	sigs []os.Signal
}

var listeners []*listener

//sym:replace os/signal.Notify
func notify(c chan<- os.Signal, sigs ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	nd.Atomic(func() {
		for _, l := range listeners {
			if l.c == c {
				l.all = l.all || len(sigs) == 0
				l.sigs = append(l.sigs, sigs...)
				return
			}
		}
		listeners = append(listeners, &listener{c, len(sigs) == 0, append([]os.Signal(nil), sigs...)})
	})
	nd.Point("notify")
}

//sym:replace os/signal.Stop
func stop(c chan<- os.Signal) {
	nd.Atomic(func() {
		for i, l := range listeners {
			if l.c == c {
				listeners = append(append([]*listener(nil), listeners[:i]...), listeners[i+1:]...)
				return
			}
		}
	})
}

func gone(l *listener, s os.Signal) {
	listed := l.all
	var rest []os.Signal
	for _, w := range l.sigs {
		if w != s {
			rest = append(rest, w)
		}
	}
	if listed {
		l.all = false
		for _, w := range all {
			if w != s {
				rest = append(rest, w)
			}
		}
	}
	l.sigs = rest
}

// Reset and Ignore take the signals from every channel.
//
//sym:replace os/signal.Reset
func reset(sigs ...os.Signal) {
	nd.Atomic(func() {
		if len(sigs) == 0 {
			listeners = nil
		}
		for _, l := range listeners {
			for _, s := range sigs {
				gone(l, s)
			}
		}
	})
	nd.Point("reset")
}

//sym:replace os/signal.Ignore
func ignore(sigs ...os.Signal) { reset(sigs...) }

func deliver(s os.Signal) {
	nd.Point("signal")
	nd.Atomic(func() {
		for _, l := range listeners {
			listed := l.all
			for _, w := range l.sigs {
				listed = listed || w == s
			}
			if listed {
				select {
				case l.c <- s:
				default:
				}
			}
		}
	})
}

var all = []os.Signal{syscall.SIGHUP, syscall.SIGTERM, syscall.SIGUSR1}

// Each listener's function runs once, with the first signal among those listed
// that arrives after ListenSignalEvent returned.
func CheckListen() {
	nd.ModelOnly("signals are a model")
	nd.Preemptions(nd.Q(1, 2))
	nd.RacesAreBugs()
	listeners = nil
	k := 1 + nd.Choose("listeners", nd.Q(2, 3))
	mask := make([]int, k)
	got := make([][]os.Signal, k)
	n := make([]int, k)
	slow := nd.Bool("slow function")
	gate := make(chan bool)
	own := make(chan os.Signal, 9)
	signal.Notify(own) // the rest of the program
	for i := 0; i < k; i++ {
		i := i
		mask[i] = nd.Choose("listed", 8)
		var sigs []os.Signal
		for j, s := range all {
			if mask[i]>>j&1 == 1 {
				sigs = append(sigs, s)
			}
		}
		gosignal.ListenSignalEvent(func(s os.Signal) {
			nd.Atomic(func() { got[i] = append(got[i], s); n[i]++ })
			if slow {
				<-gate
			}
		}, sigs...)
		for j := range sigs {
			sigs[j] = nil
		}
		if mask[i] == 0 {
			mask[i] = 7
		}
	}
	m := nd.Choose("signals", nd.Q(3, 4))
	var sent []int
	for i := 0; i < m; i++ {
		j := nd.Choose("signal", 3)
		sent = append(sent, j)
		deliver(all[j])
	}
	nd.Idle()
	for i := range mask {
		first := -1
		for _, j := range sent {
			if mask[i]>>j&1 == 1 {
				first = j
				break
			}
		}
		if first < 0 {
			nd.Assert(n[i] == 0, "without a listed signal the function does not run")
		} else {
			nd.Assert(n[i] == 1 && got[i][0] == all[first], "the function runs once, with the first listed signal")
		}
	}
	nd.Assert(len(own) == len(sent), "the rest of the program still receives its signals")
	close(gate)
	nd.Idle()
	for i := range mask {
		nd.Assert(n[i] <= 1, "the function runs once")
	}
	nd.Reach("end")
}
