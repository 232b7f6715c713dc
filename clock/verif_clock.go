package time

import (
	"sync"
	"syscall"
)

// see harness/clock.go
var verifClock struct {
	once       sync.Once
	base, step int64
	off        []int64
}

func verifShift(sec int64) int64 {
	verifClock.once.Do(func() {
		s, ok := syscall.Getenv("VERIF_CLOCK")
		if !ok {
			return
		}
		var v []int64
		n, neg, any := int64(0), false, false
		for i := 0; i <= len(s); i++ {
			switch {
			case i == len(s) || s[i] == ',':
				if !any {
					return
				}
				if neg {
					n = -n
				}
				v = append(v, n)
				n, neg, any = 0, false, false
			case s[i] == '-':
				neg = true
			case s[i] >= '0' && s[i] <= '9':
				n, any = n*10+int64(s[i]-'0'), true
			default:
				return
			}
		}
		if len(v) >= 3 && v[1] > 0 {
			verifClock.base, verifClock.step, verifClock.off = v[0], v[1], v[2:]
		}
	})
	c := &verifClock
	if len(c.off) == 0 || sec < c.base {
		return sec
	}
	i := (sec - c.base) / c.step
	if i >= int64(len(c.off)) {
		i = int64(len(c.off)) - 1
	}
	return sec + c.off[i]
}
