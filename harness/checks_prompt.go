package main

// C23: prompts on a terminal.

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

// The characters passwords are made of show up nowhere else on the screen.
const pwChars = "ÄÖÜßñøþЖЯäöжя"

type ask struct {
	msg   string   // the message shown
	defs  []string // the options selected at first
	it    *Item
	opts  []string // the options after interpolation
	def   string   // the default after interpolation
	want  string   // the answer given
	abort bool
}

// keys of the line editor
const (
	kLeft, kRight, kHome, kEnd, kDel = "\x1b[D", "\x1b[C", "\x1b[H", "\x1b[F", "\x1b[3~"
	kUp, kDown                       = "\x1b[A", "\x1b[B"
	pasteOn, pasteOff                = "\x1b[200~", "\x1b[201~"
)

// editor is the line a user edits.
type editor struct {
	v   []rune
	pos int
}

func newEditor(s string) *editor { return &editor{[]rune(s), utf8.RuneCountInString(s)} }

func (e *editor) key(k string) {
	switch k {
	case kLeft:
		e.pos = max(e.pos-1, 0)
	case kRight:
		e.pos = min(e.pos+1, len(e.v))
	case kHome, "\x01":
		e.pos = 0
	case kEnd:
		e.pos = len(e.v)
	case "\x7f":
		if e.pos > 0 {
			e.v = append(append([]rune{}, e.v[:e.pos-1]...), e.v[e.pos:]...)
			e.pos--
		}
	case kDel:
		if e.pos < len(e.v) {
			e.v = append(append([]rune{}, e.v[:e.pos]...), e.v[e.pos+1:]...)
		}
	case "\x15":
		e.v, e.pos = append([]rune{}, e.v[e.pos:]...), 0
	case "\x0b":
		e.v = append([]rune{}, e.v[:e.pos]...)
	case "\t", "\x1b[Z", kUp, kDown, "\x1b[5~", "\x1b[6~":
	default:
		k = strings.TrimSuffix(strings.TrimPrefix(k, pasteOn), pasteOff)
		ins := []rune(k)
		e.v = append(append(append([]rune{}, e.v[:e.pos]...), ins...), e.v[e.pos:]...)
		e.pos += len(ins)
	}
}

var patterns = []struct {
	re   string
	good []string
}{
	{`^[a-c]+$`, []string{"a", "cab", "abcabc"}},
	{`^\d{3}$`, []string{"123", "000"}},
	{`^(x|yy)$`, []string{"x", "yy"}},
	{`b`, []string{"b", "abc", "   b"}},
	{`^$|^z+$`, []string{"", "z", "zzzz"}},
	{`^v[0-9]+\.[0-9]+$`, []string{"v1.2", "v10.20"}},
	{`^.{2,4}$`, []string{"éé", "abcd", "日本語"}},
	{`(?i)^yes$`, []string{"yes", "YES", "yEs"}},
	{`^[^ ]`, []string{"a b", "x "}},
}

// valid tells whether an answer satisfies the rules of a typed prompt.
func (a *ask) valid(s string) bool {
	switch a.it.PType {
	case "number":
		if s == "" {
			s = a.def
		}
		if !regexp.MustCompile(`^-?[0-9]+$`).MatchString(s) {
			return false
		}
		n, err := strconv.ParseInt(s, 10, 64)
		return err == nil && (a.it.Min == nil || n >= int64(*a.it.Min)) && (a.it.Max == nil || n <= int64(*a.it.Max))
	case "input":
		return a.it.Validate == "" || regexp.MustCompile(a.it.Validate).MatchString(s)
	}
	return true
}

// answers proposes lines to enter.
func (a *ask) answer(r *randT) string {
	switch a.it.PType {
	case "number":
		lo, hi := int64(-20), int64(20)
		if a.it.Min != nil {
			lo = int64(*a.it.Min)
		}
		if a.it.Max != nil {
			hi = int64(*a.it.Max)
		}
		n := pick(r, lo, hi, lo-1, hi+1, lo-1, hi+1, lo+1, hi-1, 0, 1, -1, (lo+hi)/2, lo*10, hi*10, -lo, -hi)
		return pick(r, fmt.Sprint(n), fmt.Sprint(n), fmt.Sprint(n), fmt.Sprint(n), "", "abc", "-", "1.5", "5a", "0x1", "1e1", "99999999999999999999", "--1", "1,000", fmt.Sprintf(" %d", n), fmt.Sprintf("%d ", n), fmt.Sprint(math.MaxInt64))
	case "input":
		if a.it.Validate != "" && r.Intn(3) > 0 {
			for _, p := range patterns {
				if p.re == a.it.Validate {
					g := pick(r, p.good...)
					return pick(r, g, g, g+"x", " "+g, g+" ", strings.ToUpper(g), g+g, "")
				}
			}
		}
		return pick(r, "", "a", "xyz 123", "it's \"quoted\"", "${{ nope }}", "$HOME `x` $(y)", "é日本語😀", "true", "a,b", "  padded  ", "-1", "\\n", "very "+strings.Repeat("long ", 20))
	}
	n := 3 + r.Intn(8)
	rs := []rune(pwChars)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return pick(r, "", "", "", " ") + b.String() + pick(r, "", "", "", " ")
}

// good returns an answer that satisfies the rules.
func (a *ask) good(r *randT) string {
	for i := 0; i < 400; i++ {
		if s := a.answer(r); a.valid(s) {
			return s
		}
	}
	switch {
	case a.it.PType == "number" && a.it.Min != nil:
		return fmt.Sprint(*a.it.Min)
	case a.it.PType == "number" && a.it.Max != nil:
		return fmt.Sprint(*a.it.Max)
	case a.it.PType == "number":
		return "0"
	}
	for _, p := range patterns {
		if p.re == a.it.Validate {
			return p.good[0]
		}
	}
	return ""
}

type promptRun struct {
	*Case
	p      *Pty
	raw    bool // send key by key with pauses
	secret bool
	trace  []string
}

func (k *promptRun) send(s string) {
	k.trace = append(k.trace, s)
	k.p.Send(s)
	k.Obs("keys sent", 1)
}

// shown waits until the terminal is quiet and checks that no password is on it.
func (k *promptRun) settle() bool {
	k.p.Quiet(25*time.Millisecond, 3*time.Second)
	for _, l := range k.p.Screen() {
		if i := strings.IndexAny(l, pwChars); i >= 0 {
			k.Fail("characters of a password are on the screen: %q\n%s", l, k.ctx())
			return false
		}
	}
	return true
}

func (k *promptRun) ctx() string {
	return fmt.Sprintf("keys sent: %q\nscreen:\n%s", k.trace, strings.Join(k.p.Screen(), "\n"))
}

// asks waits for the prompt with the given message.
func (k *promptRun) asks(msg string) bool {
	if k.p.WaitFor(20*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, "\n"), msg) }) {
		k.p.Quiet(30*time.Millisecond, 3*time.Second)
		return true
	}
	if k.p.Alive() || !k.bad {
		k.Fail("the prompt %q does not appear\n%s", msg, k.ctx())
	}
	return false
}

// stays checks that a refused answer keeps the prompt.
func (k *promptRun) stays(msg, why string) bool {
	k.p.Reacted(250 * time.Millisecond)
	if !k.settle() {
		return false
	}
	if !k.p.Alive() || !k.p.WaitFor(5*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, "\n"), msg) }) {
		k.Fail("%s was accepted\n%s", why, k.ctx())
		return false
	}
	k.Obs("refused answers", 1)
	return true
}

// line answers a prompt that takes a line; the answers before the last are
// refused by accept.
func (k *promptRun) line(msg, initial string, tries []string, accept func(string) bool, last bool) (string, bool) {
	r := k.R
	e := newEditor(initial)
	press := func(out *strings.Builder, key string) {
		e.key(key)
		out.WriteString(key)
	}
	for _, want := range tries {
		var b strings.Builder
		switch {
		case r.Intn(2) == 0 && string(e.v) == "":
		case r.Intn(2) == 0:
			press(&b, kEnd)
			press(&b, "\x15")
		case r.Intn(2) == 0:
			press(&b, kHome)
			press(&b, "\x0b")
		default:
			press(&b, kEnd)
			for len(e.v) > 0 {
				press(&b, "\x7f")
			}
		}
		// type it, with mistakes
		done := []rune(want)
		for i := 0; i < len(done); {
			switch r.Intn(14) {
			case 0:
				if k.secret {
					press(&b, string([]rune(pwChars)[0]))
				} else {
					press(&b, "7")
				}
				press(&b, "\x7f")
			case 1:
				if e.pos > 0 {
					press(&b, kLeft)
					if k.secret {
						press(&b, string([]rune(pwChars)[1]))
					} else {
						press(&b, "q")
					}
					press(&b, kLeft)
					press(&b, kDel)
					press(&b, kEnd)
				}
			case 2:
				press(&b, pick(r, "\t", "\x1b[Z", kUp, kDown))
			case 3:
				k.Obs("texts pasted", 1)
				n := 1 + r.Intn(len(done)-i)
				press(&b, pasteOn+string(done[i:i+n])+pasteOff)
				i += n
			default:
				press(&b, string(done[i]))
				i++
			}
		}
		for i := r.Intn(3); i > 0 && len(e.v) > 0; i-- {
			press(&b, pick(r, kHome, kLeft, kLeft, kRight, kEnd))
		}
		if k.raw {
			k.send(b.String())
			if !k.settle() {
				return "", false
			}
			b.Reset()
		}
		v := string(e.v)
		ok := accept(v)
		b.WriteString("\r")
		if ok {
			if last && r.Intn(3) == 0 {
				// keys pressed too late
				b.WriteString(pick(r, "9", "\x7f", "a", "\x7f\x7f", "9\r", "\x15", "\x7f1\r", pasteOn+"9"+pasteOff))
				k.Obs("answers followed by more keys", 1)
			}
			k.send(b.String())
			return v, true
		}
		k.send(b.String())
		if !k.stays(msg, fmt.Sprintf("the answer %q to %q", v, msg)) {
			return "", false
		}
	}
	return "", false
}

// rows reads the options of a list from the screen: the one under the cursor
// and, for those shown, whether they are selected.
func (k *promptRun) rows(opts []string) (cursor int, seen map[int]bool) {
	cursor, seen = -1, map[int]bool{}
	for _, l := range k.p.Screen() {
		if !strings.HasPrefix(l, "┃") {
			continue
		}
		for i, o := range opts {
			o = strings.TrimRight(o, " ")
			j := strings.Index(l, o)
			if j < 0 || strings.TrimRight(l[j+len(o):], " ") != "" {
				continue
			}
			if strings.Contains(l[:j], ">") {
				cursor = i
			}
			seen[i] = strings.Contains(l[:j], "✓")
		}
	}
	return cursor, seen
}

// list is the model of a list of options under keys.
type list struct {
	opts   []string
	multi  bool
	sel    []bool
	cur    int
	vis    []int // indices shown
	filter string
}

func newList(opts, defaults []string, multi bool) *list {
	l := &list{opts: opts, multi: multi, sel: make([]bool, len(opts))}
	for i, o := range opts {
		l.sel[i] = contains(defaults, o)
	}
	l.narrow("")
	return l
}

func (l *list) narrow(f string) {
	l.vis, l.filter = nil, f
	for i, o := range l.opts {
		if strings.Contains(strings.ToLower(o), strings.ToLower(f)) {
			l.vis = append(l.vis, i)
		}
	}
	if len(l.vis) > 0 {
		l.cur = min(l.cur, len(l.vis)-1)
	}
}

func (l *list) key(k string) {
	switch k {
	case kDown, "j", "\x0e":
		l.cur++
		if l.cur >= len(l.vis) {
			l.cur = map[bool]int{true: len(l.vis) - 1}[l.multi]
		}
	case kUp, "k", "\x10":
		l.cur--
		if l.cur < 0 {
			l.cur = map[bool]int{false: len(l.vis) - 1}[l.multi]
		}
	case "g", kHome:
		l.cur = 0
	case "G", kEnd:
		l.cur = len(l.vis) - 1
	case "x", " ":
		if l.multi {
			l.sel[l.vis[l.cur]] = !l.sel[l.vis[l.cur]]
		}
	case "\x01":
		if l.multi {
			all := true
			for _, i := range l.vis {
				all = all && l.sel[i]
			}
			for _, i := range l.vis {
				l.sel[i] = !all
			}
		}
	}
}

func (l *list) chosen() (out []string) {
	for i, o := range l.opts {
		if l.sel[i] {
			out = append(out, o)
		}
	}
	return out
}

// agrees waits until the screen shows the list as the model has it.
func (k *promptRun) agrees(l *list, msg, when string) bool {
	ok := k.p.WaitFor(10*time.Second, func([]string) bool {
		cur, seen := k.rows(l.opts)
		if cur != l.vis[l.cur] || len(seen) != len(l.vis) {
			return false
		}
		for i, on := range seen {
			if !containsInt(l.vis, i) || on != l.sel[i] {
				return false
			}
		}
		return true
	})
	if !ok {
		k.Fail("%s, the list of %q is not as expected: cursor on %q, selected %q\n%s", when, msg, l.opts[l.vis[l.cur]], l.chosen(), k.ctx())
	}
	k.Obs("lists compared with the screen", 1)
	return ok
}

// walk presses random keys in a list.
func (k *promptRun) walk(l *list, msg string) bool {
	r := k.R
	keys := func(n int) {
		var b strings.Builder
		for i := 0; i < n; i++ {
			key := pick(r, kDown, kUp, "j", "k", "g", "G", kHome, kEnd, "\x0e", "\x10", "\t", "x", " ", "x", " ")
			if l.multi && r.Intn(10) == 0 {
				key = "\x01"
			}
			l.key(key)
			b.WriteString(key)
		}
		if n > 0 {
			k.send(b.String())
		}
	}
	shows := func(want bool) bool {
		ok := k.p.WaitFor(10*time.Second, func(s []string) bool { return strings.Contains(strings.Join(s, "\n"), msg) == want })
		if !ok {
			k.Fail("a filter of %q was not taken\n%s", msg, k.ctx())
		}
		return ok
	}
	keys(r.Intn(8))
	for i := r.Intn(4); i > 1; i-- {
		// the list narrows; moving the cursor about while it may be empty
		f := pick(r, "a", "zz", "Opt", "1", "", "b", "opt-x", "o w")
		k.send("/")
		if !shows(false) {
			return false
		}
		k.send(f)
		move := func() {
			for j := r.Intn(3); j > 0; j-- {
				key := pick(r, kDown, kUp, "\x0e", "\x10")
				k.send(key)
				if len(l.vis) > 0 {
					l.key(key)
				}
			}
		}
		k.Obs("lists filtered", 1)
		for n := range f {
			l.narrow(f[:n+1])
		}
		move()
		if !l.multi && len(l.vis) > 0 {
			// Enter takes the option under the cursor
			return r.Intn(2) == 0 || k.agrees(l, msg, "after the filter "+f)
		}
		if len(l.vis) == 0 && r.Intn(2) == 0 {
			k.send("\x04")
		}
		k.send(map[bool]string{true: pick(r, "\x1b", "\r"), false: "\x1b"}[l.multi])
		if !shows(true) {
			return false
		}
		if len(l.vis) == 0 {
			l.narrow("")
		}
		k.send("g")
		l.key("g")
		keys(r.Intn(5))
		if !k.agrees(l, msg, "after the filter "+f) {
			return false
		}
		if l.filter == "" {
			continue
		}
		k.send("\x1b")
		l.narrow("")
		if !k.p.WaitFor(10*time.Second, func(s []string) bool {
			return !strings.Contains(strings.Join(s, "\n"), msg+"/")
		}) {
			k.Fail("the filter of %q was not cleared\n%s", msg, k.ctx())
			return false
		}
		k.send("g")
		l.key("g")
		keys(r.Intn(5))
	}
	return r.Intn(2) == 0 || k.agrees(l, msg, "after the keys")
}

func (k *promptRun) answer(a *ask, last bool) bool {
	r, it := k.R, a.it
	if !k.asks(a.msg) {
		return false
	}
	if a.abort {
		switch r.Intn(3) {
		case 0:
			k.send(pick(r, "1", "a", "x", "j"))
		case 1:
			if it.PType == "password" && it.Confirm != nil && *it.Confirm {
				k.send(string([]rune(pwChars)[2:5]) + "\r")
				if !k.asks("Confirm " + strings.ToLower(a.msg)) {
					return false
				}
			}
		}
		k.send("\x03")
		k.Obs("prompts aborted", 1)
		return true
	}
	k.Obs(it.PType+" prompts answered", 1)
	switch it.PType {
	case "confirm":
		yes := regexp.MustCompile(`^(?i:true|yes|y|1)$`).MatchString(a.def)
		var b strings.Builder
		for i := r.Intn(6); i > 0; i-- {
			key := pick(r, "h", "l", kLeft, kRight, "x", " ", "\t", "7")
			if key == "h" || key == "l" || key == kLeft || key == kRight {
				yes = !yes
			}
			b.WriteString(key)
		}
		end := pick(r, "\r", "\r", "y", "Y", "n", "N")
		switch end {
		case "y", "Y":
			yes = true
		case "n", "N":
			yes = false
		}
		b.WriteString(end)
		if last && r.Intn(3) == 0 {
			b.WriteString(pick(r, "y", "n", "h", "l", "\r", "nn"))
			k.Obs("answers followed by more keys", 1)
		}
		k.send(b.String())
		a.want = strconv.FormatBool(yes)
		return true
	case "input", "number":
		var tries []string
		for i := r.Intn(4); i > 0; i-- {
			tries = append(tries, a.answer(r))
		}
		v, ok := k.line(a.msg, a.def, append(tries, a.good(r)), a.valid, last)
		if ok && it.PType == "number" && v == "" {
			v = a.def
		}
		a.want = v
		return ok
	case "password":
		k.secret = true
		defer func() { k.secret = false }()
		twice := it.Confirm != nil && *it.Confirm
		v, ok := k.line(a.msg, "", []string{a.answer(r)}, func(string) bool { return true }, last && !twice)
		if !ok {
			return false
		}
		a.want = v
		if !twice {
			return true
		}
		msg := "Confirm " + strings.ToLower(a.msg)
		if !k.asks(msg) {
			return false
		}
		var tries []string
		if r.Intn(2) == 0 {
			tries = append(tries, pick(r, strings.ToLower(v), strings.ToUpper(v), strings.TrimSpace(v)))
		}
		if t := strings.TrimSpace(v); t != v && r.Intn(4) > 0 {
			tries = append(tries, t)
		}
		for i := r.Intn(3); i > 0; i-- {
			tries = append(tries, pick(r, a.answer(r), v+string([]rune(pwChars)[0]), "", strings.ToLower(v), strings.ToUpper(v), " "+v, v+" ",
				string([]rune(v)[1:]), string([]rune(v)[:len([]rune(v))-1]), string([]rune(v)[1:])+string([]rune(v)[:1])))
		}
		_, ok = k.line(msg, "", append(tries, v), func(s string) bool { return s == v }, last)
		return ok
	case "select", "multiselect":
		l := newList(a.opts, a.defs, it.PType == "multiselect")
		for i, o := range a.opts {
			if a.def != "" && o == a.def {
				l.cur = i
			}
		}
		if l.multi {
			k.send("g")
		}
		if !k.agrees(l, a.msg, "at the start") {
			return false
		}
		lo, hi := 0, len(a.opts)
		if it.Min != nil {
			lo = *it.Min
		}
		if it.Max != nil {
			hi = min(hi, *it.Max)
		}
		for try := 0; ; try++ {
			if try == 0 && !k.walk(l, a.msg) {
				return false
			}
			if l.multi && (try > 0 || r.Intn(3) == 0) {
				// choose a set on purpose, a good one in the end
				n := lo + r.Intn(hi-lo+1)
				if try < 2 && r.Intn(2) == 0 {
					n = pick(r, max(lo-1, 0), min(hi+1, len(a.opts)), lo, hi)
				}
				want := map[int]bool{}
				for _, i := range r.Perm(len(a.opts))[:n] {
					want[i] = true
				}
				var b strings.Builder
				press := func(key string) { l.key(key); b.WriteString(key) }
				press("g")
				for i := range a.opts {
					if l.sel[i] != want[i] {
						press(pick(r, "x", " "))
					}
					press(pick(r, "j", kDown))
				}
				k.send(b.String())
				if r.Intn(2) == 0 && !k.agrees(l, a.msg, "after choosing") {
					return false
				}
			}
			end := "\r"
			if last && r.Intn(3) == 0 {
				end += pick(r, "x", "jx", "\x01", "kx", " ", kDown, kUp, kDown+kDown, "G", "j", "/a")
			}
			if !l.multi {
				a.want = a.opts[l.vis[l.cur]]
				k.send(end)
				return true
			}
			chosen := l.chosen()
			if len(chosen) >= lo && len(chosen) <= hi {
				a.want = strings.Join(chosen, ",")
				k.send(end)
				return true
			}
			k.send("\r")
			if !k.stays(a.msg, fmt.Sprintf("a selection of %d options of %q (min %d, max %d)", len(chosen), a.msg, lo, hi)) {
				return false
			}
		}
	}
	return false
}

func containsInt(l []int, n int) bool {
	for _, x := range l {
		if x == n {
			return true
		}
	}
	return false
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ask makes a random prompt.
func (cs *Case) ask(n int) (*ask, []KV) {
	r := cs.R
	it := &Item{Kind: kPrompt, Prompt: fmt.Sprintf("p%d", n), Message: fmt.Sprintf("%s %d%s", pick(r, "Question", "Which one", "Zahl"), n, pick(r, "?", ":", "")),
		PType: pick(r, "input", "number", "select", "multiselect", "confirm", "password", "input", "number", "multiselect", "password")}
	a := &ask{it: it}
	var vars []KV
	def := func(s string) {
		it.Default, a.def = s, s
		if s != "" && r.Intn(3) == 0 {
			v := fmt.Sprintf("d%d", n)
			vars = append(vars, KV{v, s})
			it.Default = "${{ " + v + " }}"
		}
	}
	switch it.PType {
	case "confirm":
		def(pick(r, "", "", "true", "false", "yes", "no", "Y", "n", "1", "0", "TRUE"))
	case "input":
		if r.Intn(3) > 0 {
			it.Validate = patterns[r.Intn(len(patterns))].re
		}
		if r.Intn(2) == 0 {
			def(pick(r, "cab", "123", "yy", "b", "zz", "v1.2", "some default", "é"))
		}
		if r.Intn(3) == 0 {
			it.Placeholder = pick(r, "hint", "abc", "123")
		}
	case "number":
		if r.Intn(2) == 0 {
			it.Min = ip(r.Intn(30) - 10)
		}
		if r.Intn(2) == 0 {
			it.Max = ip(r.Intn(30) - 10)
			if it.Min != nil && *it.Min > *it.Max {
				it.Min, it.Max = it.Max, it.Min
			}
		}
		if r.Intn(2) == 0 {
			def(a.good(r))
			if r.Intn(4) == 0 {
				a.def = pick(r, "-100", "100")
			}
			it.Default, vars = a.def, nil
		}
		if r.Intn(4) == 0 {
			it.Placeholder = "5"
		}
	case "select", "multiselect":
		for i := pick(r, 1, 2, 2, 3, 4, 5, 6, 7); i > 0; i-- {
			a.opts = append(a.opts, fmt.Sprintf("opt%s%d%s", pick(r, "", "-A", "-b", " two words "), i, pick(r, "", "", "é", " 日本", " ")))
		}
		it.Options = append([]string{}, a.opts...)
		if it.PType == "select" {
			if r.Intn(2) == 0 {
				i := r.Intn(len(it.Options))
				def(it.Options[i])
				it.Options[i] = it.Default
			}
			break
		}
		if r.Intn(2) == 0 {
			it.Min = ip(r.Intn(len(it.Options) + 1))
		}
		if r.Intn(2) == 0 {
			lo := 0
			if it.Min != nil {
				lo = *it.Min
			}
			it.Max = ip(lo + r.Intn(len(it.Options)-lo+1))
		}
		if r.Intn(2) == 0 {
			for _, o := range it.Options {
				if r.Intn(2) == 0 {
					it.Defaults = append(it.Defaults, o)
				}
			}
			r.Shuffle(len(it.Defaults), func(i, j int) { it.Defaults[i], it.Defaults[j] = it.Defaults[j], it.Defaults[i] })
		}
	case "password":
		if r.Intn(3) > 0 {
			it.Confirm = bp(r.Intn(4) > 0)
		}
	}
	a.msg, a.defs = it.Message, it.Defaults
	if r.Intn(4) == 0 {
		v := fmt.Sprintf("m%d", n)
		vars = append(vars, KV{v, it.Message[:3]})
		it.Message = "${{" + v + "}}" + it.Message[3:]
	}
	if len(it.Options) > 0 && r.Intn(3) == 0 {
		j, v := r.Intn(len(it.Options)), fmt.Sprintf("o%d", n)
		if o := it.Options[j]; o != it.Default {
			vars = append(vars, KV{v, o[3:]})
			it.Options[j] = "opt${{ " + v + " }}"
			it.Defaults = append([]string{}, a.defs...)
			for i := range it.Defaults {
				if it.Defaults[i] == o {
					it.Defaults[i] = it.Options[j]
				}
			}
		}
	}
	return a, vars
}

func (cs *Case) promptCase() {
	r := cs.R
	main := &Task{Name: "main"}
	var asks []*ask
	n := 1 + r.Intn(3)
	var want []string
	cmd := func(id string) *Item {
		it := &Item{Kind: kCmd, ID: id, Cmd: "$R " + id}
		for _, a := range asks {
			it.Env = append(it.Env, KV{"E_" + strings.ToUpper(a.it.Prompt), "${{ " + a.it.Prompt + " }}"})
		}
		want = append(want, id)
		return it
	}
	aborted := false
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			main.Run = append(main.Run, cmd(fmt.Sprintf("before%d", i)))
		}
		a, vars := cs.ask(i)
		main.Vars = append(main.Vars, vars...)
		main.Run = append(main.Run, a.it)
		asks = append(asks, a)
		if r.Intn(10) == 0 {
			a.abort, aborted = true, true
			break
		}
	}
	stop := len(want)
	main.Run = append(main.Run, cmd("after"))
	if aborted {
		want = want[:stop]
	}
	f := &File{Path: "Babfile.yml", Tasks: []*Task{main}}
	if r.Intn(4) == 0 {
		// the prompts belong to a dependency
		f.Tasks = append(f.Tasks, &Task{Name: "user", Deps: []string{"main"}, Run: []*Item{{Kind: kCmd, ID: "user", Cmd: "$R user"}}})
		if !aborted {
			want = append(want, "user")
		}
	}
	proj := &Project{Files: map[string]*File{f.Path: f}, Main: f.Path}
	pl := cs.Place(proj, nil, cs.modelEnv())
	args := []string{f.Tasks[len(f.Tasks)-1].Name}
	if r.Intn(3) == 0 {
		args = append(args, "--verbose")
	}
	p, err := cs.PtyStart(Run{Dir: pl.Root, Args: args}, pick(r, 40, 60), pick(r, 100, 200))
	if err != nil {
		cs.Inconclusive("no terminal: " + err.Error())
		return
	}
	k := &promptRun{Case: cs, p: p, raw: r.Intn(2) == 0}
	good := true
	for i, a := range asks {
		if !k.answer(a, i == len(asks)-1) {
			good = false
			break
		}
	}
	if !good {
		p.Send("\x03")
	}
	res := p.Wait(15 * time.Second)
	cs.Case(fmt.Sprint(proj.Dump(), k.trace))
	if !good && !cs.bad {
		return
	}
	if !cs.healthy(res, "prompts on a terminal") {
		cs.Sample(k.trace)
		return
	}
	if cs.bad {
		return
	}
	var types []string
	for _, a := range asks {
		types = append(types, a.it.PType)
	}
	cs.Sample(map[string]any{"case": cs.Name, "prompts": types, "keys": fmt.Sprintf("%q", k.trace), "aborted": aborted})
	what := fmt.Sprintf("keys sent: %q\noutput:\n%s", k.trace, clip(res.Out, 6000))
	if got := started(res.Events); !same(got, want) {
		cs.Fail("commands run: %v, expected %v\n%s", got, want, what)
		return
	}
	if (res.Code != 0) != aborted || res.Code > 1 {
		cs.Fail("exit status %d (a prompt aborted: %v)\n%s", res.Code, aborted, what)
		return
	}
	for _, id := range want {
		e := startOf(res.Events, id)
		for _, a := range asks {
			key := "E_" + strings.ToUpper(a.it.Prompt)
			got, ok := e.Env[key]
			if !ok {
				continue
			}
			if got != a.want {
				cs.Fail("%s prompt %q: the answer given is %q, the command got %q\n%s", a.it.PType, a.msg, a.want, got, what)
				return
			}
			cs.Obs("answers compared", 1)
		}
	}
	if strings.ContainsAny(res.Out, pwChars) {
		cs.Fail("characters of a password appear in the output\n%s", what)
		return
	}
	if bad := p.terminalLeft(); bad != "" {
		cs.Fail("the terminal is not as it was: %s\n%s", bad, what)
	}
}

func init() {
	register("C23", "tasks with one to three prompts of random type and constraints, alone or in a dependency, answered on a pseudo terminal: lines edited with cursor movements, deletions and refused answers on the way, lists walked, filtered and toggled at random, keys typed too early and too late, prompts aborted; the values the later commands get are compared with what an editor model or the emulated screen shows at the moment of Enter, every refused answer has to keep the prompt, the screen is searched for passwords and nothing may run after an abort",
		func(c *Ctx) {
			c.Each("ask", c.N(420, 6000), func(cs *Case) { cs.promptCase() })
		}, "two prompts open at the same time (in branches of a parallel block) are not exercised", "the screen is read through the harness's own terminal emulator")
}
