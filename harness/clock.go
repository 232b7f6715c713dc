package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// The wall clock of the code under test. run.sh builds some programs with the
// standard library's time.Now extended by a schedule of offsets that it takes
// from VERIF_CLOCK ("base,step,off0,off1,...": from Unix second base on, off0
// for step seconds, then off1, ...; the last one lasts). The monotonic clock
// is left alone, as it is when somebody sets the clock.
type clockPlan struct {
	base, step int64
	off        []int64
}

func (c *clockPlan) String() string {
	s := fmt.Sprintf("%d,%d", c.base, c.step)
	for _, o := range c.off {
		s += fmt.Sprintf(",%d", o)
	}
	return s
}

func parseClock(s string) *clockPlan {
	var v []int64
	for _, p := range strings.Split(s, ",") {
		n, err := strconv.ParseInt(p, 10, 64)
		if err != nil {
			return nil
		}
		v = append(v, n)
	}
	if len(v) < 3 || v[1] < 1 {
		return nil
	}
	return &clockPlan{v[0], v[1], v[2:]}
}

// at translates a real time into what the shifted clock shows.
func (c *clockPlan) at(real int64) int64 {
	if c == nil || real < c.base {
		return real
	}
	i := (real - c.base) / c.step
	if i >= int64(len(c.off)) {
		i = int64(len(c.off)) - 1
	}
	return real + c.off[i]
}

// between tells whether the shifted clock showed sec (within slack seconds)
// at some moment between two real times.
func (c *clockPlan) between(sec, t0, t1, slack int64) bool {
	for t := t0 - slack; t <= t1+slack; t++ {
		if d := c.at(t) - sec; d >= -1 && d <= 1 {
			return true
		}
	}
	return false
}

// clockForward makes the clock jump ahead again and again, each time to one
// second before something about the date or the time of day turns over.
// Local times are in zone loc. Now and then it is set back by an hour.
func clockForward(base time.Time, loc *time.Location, slots int) *clockPlan {
	c := &clockPlan{base: base.Unix(), step: 2}
	y := base.Year() + 1
	d := func(y, m, d, h, mi, s int) int64 { return time.Date(y, time.Month(m), d, h, mi, s, 0, loc).Unix() }
	const back = 0
	t := []int64{
		d(y, 1, 5, 12, 59, 59), // a 12-hour clock
		d(y, 1, 9, 23, 59, 59), // the day of the month gets a digit
		back,
		fallBack(y, loc),         // an hour is repeated in local time
		d(y, 12, 31, 23, 59, 59), // year
		back,
		d(y+1, 1, 6, 9, 59, 59),
		d(y+1, 1, 31, 23, 59, 59), // month
		back,
		d(y+1, 2, 28, 23, 59, 59),
		d(y+1, 3, 9, 11, 59, 59), // am, pm
		back,
		d(y+1, 9, 30, 23, 59, 59), // the month gets a digit
		fallBack(y+1, loc),
		d(y+2, 12, 31, 23, 59, 59),
		back,
		d(y+3, 1, 1, 0, 59, 59),
		d(y+3, 12, 31, 23, 59, 59),
		d(y+4+(10-(y+4)%10)-1, 12, 31, 23, 59, 59), // decade
	}
	last := int64(0)
	for i := 0; i < slots; i++ {
		real := c.base + int64(i)*c.step
		want := real + last
		switch {
		case i < len(t) && t[i] == back:
			want -= 3600
		case i < len(t) && t[i] > want:
			want = t[i]
		default:
			want += 3600
		}
		last = want - real
		c.off = append(c.off, last)
	}
	return c
}

// fallBack finds the second before an hour is repeated in year y.
func fallBack(y int, loc *time.Location) int64 {
	t := time.Date(y, 7, 1, 0, 0, 0, 0, loc)
	_, o := t.Zone()
	for i := 0; i < 6*31*24; i++ {
		n := t.Add(time.Hour)
		if _, p := n.Zone(); p < o {
			return n.Unix() - 1
		}
		t = n
	}
	return t.Unix()
}

// clockBack makes the clock be set back by ever different amounts, sometimes
// ahead again.
func clockBack(base time.Time, slots int, seed int64) *clockPlan {
	rg := sub(seed, "clock")
	c := &clockPlan{base: base.Unix(), step: 2}
	last := int64(0)
	for i := 0; i < slots; i++ {
		switch rg.Intn(4) {
		case 0:
			last += int64(rg.Intn(86400))
		case 1:
			last -= 3600
		case 2:
			last -= int64(rg.Intn(5)) + 3
		default:
			last -= int64(rg.Intn(86400))
		}
		c.off = append(c.off, last)
	}
	return c
}

// ownClock is the plan this process itself runs under.
var ownClock = parseClock(os.Getenv("VERIF_CLOCK"))

// ownPlans sets the environment of the monitor process of some properties.
var ownPlans = map[string]func(seed int64) []string{
	"P13": func(seed int64) []string {
		loc := clockZone()
		f := clockForward(time.Now().Add(time.Second), loc, 20)
		b := clockBack(time.Now(), 2000, seed)
		last := f.off[len(f.off)-1]
		for _, o := range b.off {
			f.off = append(f.off, last+o)
		}
		return []string{"VERIF_CLOCK=" + f.String(), "TZ=" + loc.String()}
	},
}

// clockZone is a place with summer time.
func clockZone() *time.Location {
	loc, err := time.LoadLocation("America/New_York")
	must(err)
	return loc
}

// realNow is the real time, whatever time.Now shows.
func realNow() int64 {
	var t syscall.Timeval
	must(syscall.Gettimeofday(&t))
	return t.Sec
}
