package main

import (
	"strconv"
	"strings"
	"unicode/utf8"
)

// vt is a small terminal emulator: what it holds after a run's output is what a
// user sees.
type vt struct {
	cols, rows int
	main, alt  [][]string
	hist       []string // lines scrolled off the main screen
	histWrap   []bool
	mainWrap   []bool
	inAlt      bool
	x, y       int
	pend       bool // the cursor is past the last column
	top, bot   int
	sx, sy     int // saved cursor
	mx, my     int // cursor of the main screen while the other one is shown
	last       string
	noWrap     bool
	insert     bool
	buf        []byte
	unknown    map[string]int
}

func newVT(cols, rows int) *vt {
	v := &vt{cols: cols, rows: rows, bot: rows - 1, unknown: map[string]int{}}
	v.main, v.alt = v.blank(), v.blank()
	v.mainWrap = make([]bool, rows)
	return v
}

func (v *vt) line() []string {
	l := make([]string, v.cols)
	for i := range l {
		l[i] = " "
	}
	return l
}

func (v *vt) blank() [][]string {
	g := make([][]string, v.rows)
	for i := range g {
		g[i] = v.line()
	}
	return g
}

func (v *vt) grid() [][]string {
	if v.inAlt {
		return v.alt
	}
	return v.main
}

// resize keeps the upper left of the alternate screen; what a real terminal does
// to the main one is its own affair.
func (v *vt) resize(cols, rows int) {
	// what is on the main screen counts as scrolled off
	for y := 0; y < v.rows; y++ {
		t := strings.Join(v.main[y], "")
		if !v.mainWrap[y] {
			t = strings.TrimRight(t, " ")
		}
		v.hist = append(v.hist, t)
		v.histWrap = append(v.histWrap, v.mainWrap[y])
	}
	old := v.alt
	v.cols, v.rows = cols, rows
	v.main, v.alt = v.blank(), v.blank()
	v.mainWrap = make([]bool, rows)
	for y := 0; y < rows && y < len(old); y++ {
		copy(v.alt[y], old[y])
	}
	v.top, v.bot = 0, rows-1
	v.x, v.y = min(v.x, cols-1), min(v.y, rows-1)
	v.mx, v.my = 0, 0
	v.pend = false
}

func rowText(l []string) string { return strings.TrimRight(strings.Join(l, ""), " ") }

func (v *vt) screen() []string {
	var out []string
	for _, l := range v.grid() {
		out = append(out, rowText(l))
	}
	return out
}

// transcript is everything on the main screen and above, wrapped lines joined.
func (v *vt) transcript() []string {
	var out []string
	cont := false
	add := func(t string, w bool) {
		if cont {
			out[len(out)-1] += t
		} else {
			out = append(out, t)
		}
		cont = w
	}
	for i, t := range v.hist {
		add(t, v.histWrap[i])
	}
	for i, l := range v.main {
		t := strings.Join(l, "")
		if !v.mainWrap[i] {
			t = strings.TrimRight(t, " ")
		}
		add(t, v.mainWrap[i])
	}
	return out
}

func (v *vt) scrollUp(n int) {
	g := v.grid()
	for ; n > 0; n-- {
		if !v.inAlt && v.top == 0 {
			t := strings.Join(g[0], "")
			if !v.mainWrap[0] {
				t = strings.TrimRight(t, " ")
			}
			v.hist = append(v.hist, t)
			v.histWrap = append(v.histWrap, v.mainWrap[0])
		}
		copy(g[v.top:v.bot], g[v.top+1:v.bot+1])
		g[v.bot] = v.line()
		if !v.inAlt {
			copy(v.mainWrap[v.top:v.bot], v.mainWrap[v.top+1:v.bot+1])
			v.mainWrap[v.bot] = false
		}
	}
}

func (v *vt) scrollDown(n int) {
	g := v.grid()
	for ; n > 0; n-- {
		copy(g[v.top+1:v.bot+1], g[v.top:v.bot])
		g[v.top] = v.line()
		if !v.inAlt {
			copy(v.mainWrap[v.top+1:v.bot+1], v.mainWrap[v.top:v.bot])
			v.mainWrap[v.top] = false
		}
	}
}

func (v *vt) lf() {
	switch {
	case v.y == v.bot:
		v.scrollUp(1)
	case v.y < v.rows-1:
		v.y++
	}
	v.pend = false
}

func cellWidth(r rune) int {
	switch {
	case r == 0 || r >= 0x300 && r <= 0x36f || r == 0x200d || r >= 0xfe00 && r <= 0xfe0f:
		return 0
	case r >= 0x1100 && (r <= 0x115f || r >= 0x2e80 && r <= 0xa4cf && r != 0x303f || r >= 0xac00 && r <= 0xd7a3 || r >= 0xf900 && r <= 0xfaff || r >= 0xfe30 && r <= 0xfe6f || r >= 0xff00 && r <= 0xff60 || r >= 0xffe0 && r <= 0xffe6 || r >= 0x1f300 && r <= 0x1f64f || r >= 0x1f900 && r <= 0x1f9ff || r >= 0x20000 && r <= 0x3fffd):
		return 2
	}
	return 1
}

func textWidth(s string) int {
	n := 0
	for _, r := range s {
		n += cellWidth(r)
	}
	return n
}

// cutWidth is the part of s that fits in w columns.
func cutWidth(s string, w int) string {
	n := 0
	for i, r := range s {
		n += cellWidth(r)
		if n > w {
			return s[:i]
		}
	}
	return s
}

func (v *vt) put(r rune) {
	w := cellWidth(r)
	g := v.grid()
	if w == 0 {
		x := v.x - 1
		if v.pend {
			x = v.cols - 1
		}
		if x >= 0 {
			g[v.y][x] += string(r)
		}
		return
	}
	if v.pend || v.x+w > v.cols {
		if v.noWrap {
			v.x, v.pend = v.cols-w, false
		} else {
			if !v.inAlt {
				v.mainWrap[v.y] = true
			}
			v.x = 0
			v.lf()
			g = v.grid()
		}
	}
	v.last = string(r)
	l := g[v.y]
	for k := 0; k < w && v.insert; k++ {
		copy(l[v.x+1:], l[v.x:v.cols-1])
		l[v.x] = " "
	}
	if l[v.x] == "" && v.x > 0 {
		l[v.x-1] = " "
	}
	l[v.x] = string(r)
	if w == 2 && v.x+1 < v.cols {
		l[v.x+1] = ""
	}
	if n := v.x + w; n < v.cols && l[n] == "" {
		l[n] = " "
	}
	v.x += w
	if v.x >= v.cols {
		v.x, v.pend = v.cols-1, true
	}
}

func (v *vt) clear(y, a, b int) {
	l := v.grid()[y]
	for x := max(a, 0); x < b && x < v.cols; x++ {
		l[x] = " "
	}
	if !v.inAlt && b >= v.cols {
		v.mainWrap[y] = false
	}
}

// write feeds output to the terminal; nl says that the terminal's own
// processing turns \n into \r\n.
// echo shows what the kernel echoes of the user's typing (ECHOCTL).
func (v *vt) echo(s string) {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < 0x20 && c != '\t' && c != '\n' {
			b.WriteByte('^')
			b.WriteByte(c + 0x40)
		} else {
			b.WriteByte(c)
		}
	}
	v.write(b.String(), true)
}

func (v *vt) write(s string, nl bool) {
	v.buf = append(v.buf, s...)
	for len(v.buf) > 0 {
		n := v.step(nl)
		if n == 0 {
			return // incomplete
		}
		v.buf = v.buf[n:]
	}
}

func (v *vt) step(nl bool) int {
	b := v.buf
	c := b[0]
	switch {
	case c == 0x1b:
		return v.escape()
	case c == '\n' || c == 0x0b || c == 0x0c:
		if nl && c == '\n' {
			v.x = 0
		}
		v.lf()
		return 1
	case c == '\r':
		v.x, v.pend = 0, false
		return 1
	case c == '\b':
		v.x, v.pend = max(0, v.x-1), false
		return 1
	case c == '\t':
		v.x, v.pend = min(v.cols-1, v.x/8*8+8), false
		return 1
	case c < 0x20 || c == 0x7f:
		return 1
	case c < 0x80:
		v.put(rune(c))
		return 1
	}
	if !utf8.FullRune(b) {
		return 0
	}
	r, n := utf8.DecodeRune(b)
	if r != utf8.RuneError && r >= 0xa0 {
		v.put(r)
	}
	return n
}

func (v *vt) escape() int {
	b := v.buf
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '[':
		for i := 2; i < len(b); i++ {
			if b[i] >= 0x40 && b[i] <= 0x7e {
				v.csi(string(b[2:i]), b[i])
				return i + 1
			}
		}
		return 0
	case ']', 'P', '_', '^', 'X':
		for i := 2; i < len(b); i++ {
			if b[i] == 7 && b[1] == ']' {
				return i + 1
			}
			if b[i] == 0x1b {
				if i+1 >= len(b) {
					return 0
				}
				return i + 2
			}
		}
		return 0
	case '(', ')', '*', '+', '#', '%', ' ':
		if len(b) < 3 {
			return 0
		}
		return 3
	case '7':
		v.sx, v.sy = v.x, v.y
	case '8':
		v.x, v.y, v.pend = v.sx, v.sy, false
	case 'M':
		if v.y == v.top {
			v.scrollDown(1)
		} else if v.y > 0 {
			v.y--
		}
		v.pend = false
	case 'D':
		v.lf()
	case 'E':
		v.x = 0
		v.lf()
	}
	return 2
}

func (v *vt) csi(arg string, fin byte) {
	if arg != "" && strings.IndexByte("?<>=", arg[0]) >= 0 {
		if fin == 'h' || fin == 'l' {
			for _, n := range strings.Split(arg[1:], ";") {
				v.mode(n, fin == 'h')
			}
		}
		return
	}
	if arg != "" && arg[len(arg)-1] < 0x30 {
		return // with an intermediate byte: cursor shapes and the like
	}
	var ps []int
	for _, s := range strings.Split(arg, ";") {
		n, err := strconv.Atoi(s)
		if err != nil {
			n = -1
		}
		ps = append(ps, n)
	}
	p := func(i, def int) int {
		if i >= len(ps) || ps[i] < 0 {
			return def
		}
		return ps[i]
	}
	n := max(1, p(0, 1))
	g := v.grid()
	if fin != 'b' && fin != 'm' {
		v.pend = false
	}
	switch fin {
	case 'A':
		v.y = max(0, v.y-n)
	case 'B', 'e':
		v.y = min(v.rows-1, v.y+n)
	case 'C', 'a':
		v.x = min(v.cols-1, v.x+n)
	case 'D':
		v.x = max(0, v.x-n)
	case 'E':
		v.x, v.y = 0, min(v.rows-1, v.y+n)
	case 'F':
		v.x, v.y = 0, max(0, v.y-n)
	case 'G', '`':
		v.x = min(v.cols-1, n-1)
	case 'd':
		v.y = min(v.rows-1, n-1)
	case 'H', 'f':
		v.y, v.x = min(v.rows-1, n-1), min(v.cols-1, max(1, p(1, 1))-1)
	case 'I':
		v.x = min(v.cols-1, v.x/8*8+8*n)
	case 'Z':
		v.x = max(0, (v.x+7)/8*8-8*n)
	case 'J':
		switch p(0, 0) {
		case 0:
			v.clear(v.y, v.x, v.cols)
			for y := v.y + 1; y < v.rows; y++ {
				v.clear(y, 0, v.cols)
			}
		case 1:
			v.clear(v.y, 0, v.x+1)
			for y := 0; y < v.y; y++ {
				v.clear(y, 0, v.cols)
			}
		case 2:
			for y := 0; y < v.rows; y++ {
				v.clear(y, 0, v.cols)
			}
		}
	case 'K':
		switch p(0, 0) {
		case 0:
			v.clear(v.y, v.x, v.cols)
		case 1:
			v.clear(v.y, 0, v.x+1)
		case 2:
			v.clear(v.y, 0, v.cols)
		}
	case 'X':
		v.clear(v.y, v.x, min(v.cols, v.x+n))
	case 'P':
		l := g[v.y]
		for k := 0; k < n && k < v.cols; k++ {
			copy(l[v.x:], l[v.x+1:])
			l[v.cols-1] = " "
		}
	case '@':
		l := g[v.y]
		for k := 0; k < n && k < v.cols; k++ {
			copy(l[v.x+1:], l[v.x:v.cols-1])
			l[v.x] = " "
		}
	case 'L', 'M':
		if v.y >= v.top && v.y <= v.bot {
			top := v.top
			v.top = v.y
			hist, hw := v.hist, v.histWrap
			if fin == 'L' {
				v.scrollDown(min(n, v.rows))
			} else {
				v.scrollUp(min(n, v.rows))
			}
			v.hist, v.histWrap = hist, hw
			v.top = top
			v.x = 0
		}
	case 'S':
		v.scrollUp(min(n, v.rows))
	case 'T':
		v.scrollDown(min(n, v.rows))
	case 'r':
		t, b := max(1, p(0, 1))-1, p(1, v.rows)-1
		if t < b && b < v.rows {
			v.top, v.bot = t, b
			v.x, v.y = 0, 0
		}
	case 'b':
		for ; n > 0 && v.last != ""; n-- {
			r, _ := utf8.DecodeRuneInString(v.last)
			v.put(r)
		}
	case 's':
		v.sx, v.sy = v.x, v.y
	case 'u':
		v.x, v.y = v.sx, v.sy
	case 'h', 'l':
		if p(0, 0) == 4 {
			v.insert = fin == 'h'
		}
	case 'm', 'n', 'c', 't', 'g', 'q':
	default:
		v.unknown[string(fin)]++
	}
}

func (v *vt) mode(n string, on bool) {
	switch n {
	case "1049", "1047", "47":
		if on == v.inAlt {
			return
		}
		if on {
			v.mx, v.my = v.x, v.y
			v.alt = v.blank()
		} else {
			v.x, v.y = v.mx, v.my
		}
		v.inAlt, v.pend = on, false
		v.top, v.bot = 0, v.rows-1
	case "7":
		v.noWrap = !on
	}
}
