package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// term is what a terminal shows after a program has written to it.
type term struct {
	rows, cols int
	cell       [][]rune
	y, x       int
}

func newTerm(rows, cols int) *term {
	t := &term{rows: rows, cols: cols}
	t.cell = make([][]rune, rows)
	for i := range t.cell {
		t.cell[i] = []rune(strings.Repeat(" ", cols))
	}
	return t
}

func (t *term) clamp() {
	t.y = max(0, min(t.y, t.rows-1))
	t.x = max(0, min(t.x, t.cols-1))
}

func (t *term) erase(y, from, to int) {
	for x := from; x < to; x++ {
		t.cell[y][x] = ' '
	}
}

func (t *term) write(s string) {
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == 0x1b && i+1 < len(s) && s[i+1] == '[':
			j := i + 2
			for j < len(s) && (s[j] < 0x40 || s[j] > 0x7e) {
				j++
			}
			if j == len(s) {
				return
			}
			t.csi(s[i+2:j], s[j])
			i = j + 1
		case c == 0x1b && i+1 < len(s) && strings.IndexByte("()*+#", s[i+1]) >= 0:
			i += 3
		case c == 0x1b:
			i += 2
		case c == '\r':
			t.x = 0
			i++
		case c == '\n':
			t.y++
			t.clamp()
			i++
		case c == 8:
			t.x--
			t.clamp()
			i++
		case c < 0x20:
			i++
		default:
			r, n := utf8.DecodeRuneInString(s[i:])
			t.cell[t.y][t.x] = r
			if t.x < t.cols-1 {
				t.x++
			}
			i += n
		}
	}
}

func (t *term) csi(p string, f byte) {
	if strings.HasPrefix(p, "?") {
		return
	}
	var a []int
	for _, x := range strings.Split(p, ";") {
		n, _ := strconv.Atoi(x)
		a = append(a, n)
	}
	n := max(1, a[0])
	switch f {
	case 'H', 'f':
		col := 1
		if len(a) > 1 {
			col = max(1, a[1])
		}
		t.y, t.x = n-1, col-1
	case 'A':
		t.y -= n
	case 'B':
		t.y += n
	case 'C':
		t.x += n
	case 'D':
		t.x -= n
	case 'G':
		t.x = n - 1
	case 'd':
		t.y = n - 1
	case 'J':
		switch a[0] {
		case 0:
			t.erase(t.y, t.x, t.cols)
			for y := t.y + 1; y < t.rows; y++ {
				t.erase(y, 0, t.cols)
			}
		case 1:
			for y := 0; y < t.y; y++ {
				t.erase(y, 0, t.cols)
			}
			t.erase(t.y, 0, t.x+1)
		default:
			for y := range t.cell {
				t.erase(y, 0, t.cols)
			}
		}
	case 'K':
		t.erase(t.y, t.x, t.cols)
	}
	t.clamp()
}

func (t *term) lines() []string {
	var l []string
	for _, r := range t.cell {
		l = append(l, strings.TrimRight(string(r), " "))
	}
	return l
}

// Shown is what the terminal of the client shows.
func (c *Cli) Shown() []string {
	t := newTerm(c.rows, c.cols)
	t.write(c.Screen())
	return t.lines()
}

// Shows tells whether the terminal of the client shows a text.
func (c *Cli) Shows(s string) bool { return strings.Contains(strings.Join(c.Shown(), "\n"), s) }
