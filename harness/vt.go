package main

// A small terminal emulator: enough of a VT100/xterm to know what the screen
// shows and which modes a program left behind.

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

type VT struct {
	rows, cols int
	grid       [][]rune
	alt        [][]rune // saved main screen while the alternate one is shown
	inAlt      bool
	x, y       int
	wrap       bool // the next character wraps
	sx, sy     int
	ax, ay     int
	top, bot   int
	last       rune
	Modes      map[string]bool // private modes set, by number
	CursorHid  bool
	state      int
	params     string
	inter      string
	pend       []byte
	scrolled   []string // lines scrolled off the main screen
	Kitty      int
}

func newVT(rows, cols int) *VT {
	v := &VT{rows: rows, cols: cols, bot: rows - 1, Modes: map[string]bool{}}
	v.grid = blank(rows, cols)
	return v
}

func blank(r, c int) [][]rune {
	g := make([][]rune, r)
	for i := range g {
		g[i] = blankRow(c)
	}
	return g
}

func blankRow(c int) []rune {
	r := make([]rune, c)
	for i := range r {
		r[i] = ' '
	}
	return r
}

func (v *VT) Resize(rows, cols int) {
	rows, cols = max(rows, 1), max(cols, 1)
	fit := func(g [][]rune) [][]rune {
		n := blank(rows, cols)
		for y := 0; y < rows && y < len(g); y++ {
			copy(n[y], g[y])
		}
		return n
	}
	v.grid = fit(v.grid)
	if v.inAlt {
		v.alt = fit(v.alt)
	}
	v.rows, v.cols, v.top, v.bot = rows, cols, 0, rows-1
	v.clamp()
}

func (v *VT) clamp() {
	v.wrap = false
	v.x = max(0, min(v.x, v.cols-1))
	v.y = max(0, min(v.y, v.rows-1))
}

func (v *VT) Lines() []string {
	out := make([]string, v.rows)
	for i, r := range v.grid {
		s := make([]rune, 0, len(r))
		for _, c := range r {
			if c != 0 {
				s = append(s, c)
			}
		}
		out[i] = strings.TrimRight(string(s), " ")
	}
	return out
}

// All returns the scrolled-off lines followed by the screen.
func (v *VT) All() []string { return append(append([]string{}, v.scrolled...), v.Lines()...) }

func (v *VT) lf() {
	if v.y == v.bot {
		v.scrollUp(1)
	} else if v.y < v.rows-1 {
		v.y++
	}
}

func (v *VT) scrollUp(n int) {
	for ; n > 0; n-- {
		if v.top == 0 && !v.inAlt {
			v.scrolled = append(v.scrolled, strings.TrimRight(string(v.grid[0]), " \x00"))
		}
		copy(v.grid[v.top:v.bot], v.grid[v.top+1:v.bot+1])
		v.grid[v.bot] = blankRow(v.cols)
	}
}

func (v *VT) scrollDown(n int) {
	for ; n > 0; n-- {
		copy(v.grid[v.top+1:v.bot+1], v.grid[v.top:v.bot])
		v.grid[v.top] = blankRow(v.cols)
	}
}

func runeWidth(r rune) int {
	switch {
	case r >= 0x300 && r <= 0x36f, r >= 0x200b && r <= 0x200f, r >= 0xfe00 && r <= 0xfe0f:
		return 0
	case r >= 0x1100 && r <= 0x115f, r >= 0x2e80 && r <= 0xa4cf, r >= 0xac00 && r <= 0xd7a3, r >= 0xf900 && r <= 0xfaff,
		r >= 0xfe30 && r <= 0xfe6f, r >= 0xff00 && r <= 0xff60, r >= 0x1f300 && r <= 0x1faff:
		return 2
	}
	return 1
}

func (v *VT) put(r rune) {
	w := runeWidth(r)
	if w == 0 {
		return
	}
	if v.wrap || (w == 2 && v.x == v.cols-1) {
		v.x = 0
		v.lf()
		v.wrap = false
	}
	v.grid[v.y][v.x] = r
	if w == 2 && v.x+1 < v.cols {
		v.grid[v.y][v.x+1] = 0
	}
	v.last = r
	if v.x+w >= v.cols {
		v.x = v.cols - 1
		v.wrap = true
	} else {
		v.x += w
	}
}

func (v *VT) Write(b []byte) {
	v.pend = append(v.pend, b...)
	for len(v.pend) > 0 {
		if v.pend[0] >= 0x80 && !utf8.FullRune(v.pend) {
			return
		}
		r, n := utf8.DecodeRune(v.pend)
		v.pend = v.pend[n:]
		v.step(r)
	}
}

const (
	sGround = iota
	sEsc
	sCSI
	sStr // OSC, DCS, APC, PM, SOS
	sStrEsc
	sEscInter
)

func (v *VT) step(r rune) {
	switch v.state {
	case sStr:
		switch r {
		case 7, 0x9c:
			v.state = sGround
		case 27:
			v.state = sStrEsc
		case 0x18, 0x1a:
			v.state = sGround
		}
		return
	case sStrEsc:
		if r == '\\' {
			v.state = sGround
			return
		}
		v.state = sEsc
		v.esc(r)
		return
	}
	if r < 0x20 {
		switch r {
		case 27:
			v.state, v.params, v.inter = sEsc, "", ""
		case '\r':
			v.x, v.wrap = 0, false
		case '\n', 0x0b, 0x0c:
			v.wrap = false
			v.lf()
		case 8:
			v.wrap = false
			if v.x > 0 {
				v.x--
			}
		case 9:
			v.x = min((v.x/8+1)*8, v.cols-1)
		case 0x18, 0x1a:
			v.state = sGround
		}
		return
	}
	switch v.state {
	case sEsc:
		v.esc(r)
	case sEscInter:
		if r >= 0x30 {
			v.state = sGround
		}
	case sCSI:
		switch {
		case r >= 0x30 && r <= 0x3f:
			v.params += string(r)
		case r >= 0x20 && r <= 0x2f:
			v.inter += string(r)
		case r >= 0x40 && r <= 0x7e:
			v.state = sGround
			v.csi(r)
		default:
			v.state = sGround
		}
	default:
		if r != 0x7f {
			v.put(r)
		}
	}
}

func (v *VT) esc(r rune) {
	v.state = sGround
	switch r {
	case '[':
		v.state, v.params, v.inter = sCSI, "", ""
	case ']', 'P', '_', '^', 'X':
		v.state = sStr
	case '7':
		v.sx, v.sy = v.x, v.y
	case '8':
		v.x, v.y = v.sx, v.sy
		v.clamp()
	case 'M':
		if v.y == v.top {
			v.scrollDown(1)
		} else if v.y > 0 {
			v.y--
		}
	case 'D':
		v.lf()
	case 'E':
		v.x = 0
		v.lf()
	case 'c':
		*v = *newVT(v.rows, v.cols)
	default:
		if r >= 0x20 && r <= 0x2f {
			v.state = sEscInter
		}
	}
}

func (v *VT) csi(f rune) {
	p := v.params
	priv := byte(0)
	if p != "" && strings.IndexByte("?<=>", p[0]) >= 0 {
		priv = p[0]
		p = p[1:]
	}
	var a []int
	for _, s := range strings.Split(p, ";") {
		n, err := strconv.Atoi(s)
		if err != nil {
			n = -1
		}
		a = append(a, n)
	}
	arg := func(i, def int) int {
		if i < len(a) && a[i] > 0 {
			return a[i]
		}
		return def
	}
	if priv == '?' && (f == 'h' || f == 'l') {
		for _, n := range a {
			v.mode(n, f == 'h')
		}
		return
	}
	if priv != 0 {
		if f == 'u' {
			switch priv {
			case '>':
				v.Kitty++
			case '<':
				v.Kitty--
			}
		}
		return
	}
	if v.inter != "" {
		return
	}
	row := v.grid[v.y]
	switch f {
	case 'A':
		v.y = max(0, v.y-arg(0, 1))
		v.wrap = false
	case 'B', 'e':
		v.y = min(v.rows-1, v.y+arg(0, 1))
		v.wrap = false
	case 'C', 'a':
		v.x = min(v.cols-1, v.x+arg(0, 1))
		v.wrap = false
	case 'D':
		v.x = max(0, v.x-arg(0, 1))
		v.wrap = false
	case 'E':
		v.x, v.y = 0, min(v.rows-1, v.y+arg(0, 1))
		v.wrap = false
	case 'F':
		v.x, v.y = 0, max(0, v.y-arg(0, 1))
		v.wrap = false
	case 'G', '`':
		v.x = arg(0, 1) - 1
		v.clamp()
	case 'd':
		v.y = arg(0, 1) - 1
		v.clamp()
	case 'H', 'f':
		v.y, v.x = arg(0, 1)-1, arg(1, 1)-1
		v.clamp()
	case 'I':
		for i := arg(0, 1); i > 0; i-- {
			v.x = min((v.x/8+1)*8, v.cols-1)
		}
	case 'Z':
		for i := arg(0, 1); i > 0; i-- {
			v.x = max(0, (v.x-1)/8*8)
		}
	case 'J':
		switch arg(0, 0) {
		case 0:
			clearRow(row[v.x:])
			for y := v.y + 1; y < v.rows; y++ {
				clearRow(v.grid[y])
			}
		case 1:
			clearRow(row[:v.x+1])
			for y := 0; y < v.y; y++ {
				clearRow(v.grid[y])
			}
		default:
			for y := range v.grid {
				clearRow(v.grid[y])
			}
		}
	case 'K':
		switch arg(0, 0) {
		case 0:
			clearRow(row[v.x:])
		case 1:
			clearRow(row[:v.x+1])
		default:
			clearRow(row)
		}
	case 'X':
		clearRow(row[v.x:min(v.cols, v.x+arg(0, 1))])
	case 'P':
		n := min(arg(0, 1), v.cols-v.x)
		copy(row[v.x:], row[v.x+n:])
		clearRow(row[v.cols-n:])
	case '@':
		n := min(arg(0, 1), v.cols-v.x)
		copy(row[v.x+n:], row[v.x:v.cols-n])
		clearRow(row[v.x : v.x+n])
	case 'L':
		if v.y >= v.top && v.y <= v.bot {
			t := v.top
			v.top = v.y
			v.scrollDown(min(arg(0, 1), v.bot-v.y+1))
			v.top = t
		}
	case 'M':
		if v.y >= v.top && v.y <= v.bot {
			for i := min(arg(0, 1), v.bot-v.y+1); i > 0; i-- {
				copy(v.grid[v.y:v.bot], v.grid[v.y+1:v.bot+1])
				v.grid[v.bot] = blankRow(v.cols)
			}
		}
	case 'S':
		v.scrollUp(min(arg(0, 1), v.rows))
	case 'T':
		v.scrollDown(min(arg(0, 1), v.rows))
	case 'b':
		for i := arg(0, 1); i > 0; i-- {
			v.put(v.last)
		}
	case 'r':
		v.top, v.bot = arg(0, 1)-1, arg(1, v.rows)-1
		if v.top < 0 || v.bot >= v.rows || v.top >= v.bot {
			v.top, v.bot = 0, v.rows-1
		}
		v.x, v.y, v.wrap = 0, 0, false
	case 's':
		v.sx, v.sy = v.x, v.y
	case 'u':
		v.x, v.y = v.sx, v.sy
		v.clamp()
	}
}

func clearRow(r []rune) {
	for i := range r {
		r[i] = ' '
	}
}

func (v *VT) mode(n int, on bool) {
	v.Modes[strconv.Itoa(n)] = on
	switch n {
	case 25:
		v.CursorHid = !on
	case 47, 1047, 1049:
		if on == v.inAlt {
			return
		}
		if on {
			v.alt, v.ax, v.ay = v.grid, v.x, v.y
			v.grid = blank(v.rows, v.cols)
		} else {
			v.grid, v.x, v.y = v.alt, v.ax, v.ay
		}
		v.inAlt = on
		v.clamp()
	}
}
