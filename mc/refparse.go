package main

import (
	"math/big"
	"path"
	"strings"
	"unicode"
	"unicode/utf8"
)

// refParse reads a journal by its grammar, one line at a time, as a state machine whose state is the
// open transaction. It shares nothing with the implementation, and says so (Odd) where the
// properties leave the meaning open, in which case only absence of crashes is required.
type refResult struct {
	Txns []Txn
	Err  *Rejected
	Odd  string
}

type openTxn struct {
	t    Txn
	from int // line of its header
	open bool
	bad  string // an error that is reported by the line that ends the entry at the latest
}

type refState struct {
	files   map[string]string
	out     []Txn
	odd     string
	open    openTxn
	reading []string
	chain   []Loc
	steps   int
	lines   []string // of the file being read
}

// entryEnd finds the line that ends the entry that line n belongs to.
func (s *refState) entryEnd(n int) int {
	for i := n; i < len(s.lines); i++ {
		l := s.lines[i]
		if l == "" || l[0] == '~' || l[0] == 'i' || unicode.IsNumber([]rune(l)[0]) {
			return i + 1
		}
	}
	return len(s.lines) + 1
}

func refParse(files map[string]string, main string) refResult {
	s := &refState{files: files}
	err := s.file(main)
	return refResult{Txns: s.out, Err: err, Odd: s.odd}
}

func (s *refState) strange(why string) {
	if s.odd == "" {
		s.odd = why
	}
}

func (s *refState) reject(file string, from, to int, why string) *Rejected {
	return &Rejected{File: file, From: from, To: to, Chain: append([]Loc(nil), s.chain...), Why: why}
}

// linkMark begins the content of what is a symbolic link, and comes before where it leads.
const linkMark = "\x00-> "

// real gives the file that a name leads to, and whether there is one.
func (s *refState) real(name string) (string, bool) {
	linked := false
	for _, content := range s.files {
		linked = linked || strings.HasPrefix(content, linkMark)
	}
	if !linked {
		_, ok := s.files[path.Clean(name)]
		return path.Clean(name), ok
	}
	at, rest := []string{}, strings.Split(name, "/")
	for hops := 0; len(rest) > 0; {
		part := rest[0]
		rest = rest[1:]
		switch part {
		case "", ".":
			continue
		case "..":
			if len(at) == 0 {
				return name, false
			}
			at = at[:len(at)-1]
			continue
		}
		next := strings.Join(append(append([]string(nil), at...), part), "/")
		content, file := s.files[next]
		if to, link := strings.CutPrefix(content, linkMark); link {
			if hops++; hops > 40 {
				return name, false
			}
			rest = append(strings.Split(to, "/"), rest...)
			continue
		}
		dir := false
		for other := range s.files {
			dir = dir || strings.HasPrefix(other, next+"/")
		}
		if file && len(rest) > 0 || !file && !dir {
			return name, false
		}
		at = append(at, part)
	}
	key := strings.Join(at, "/")
	_, ok := s.files[key]
	return key, ok
}

func splitLines(content string) []string {
	l := strings.Split(content, "\n")
	ended := false
	if l[len(l)-1] == "" {
		l = l[:len(l)-1]
		ended = true
	}
	for i := range l {
		if i < len(l)-1 || ended {
			l[i] = strings.TrimSuffix(l[i], "\r")
		}
	}
	return l
}

func (s *refState) file(name string) *Rejected {
	key, ok := s.real(name)
	if !ok {
		return s.reject(name, 0, 0, "no such file")
	}
	content := s.files[key]
	s.reading = append(s.reading, key)
	lines := splitLines(content)
	saved := s.lines
	s.lines = lines
	defer func() { s.lines = saved }()
	for i, l := range lines {
		if err := s.line(name, i+1, l); err != nil {
			return err
		}
	}
	if err := s.end(name, len(lines)+1); err != nil {
		return err
	}
	s.reading = s.reading[:len(s.reading)-1]
	return nil
}

// end closes the open transaction on a line.
func (s *refState) end(file string, line int) *Rejected {
	if !s.open.open {
		return nil
	}
	t := s.open.t
	from := s.open.from
	bad := s.open.bad
	s.open = openTxn{}
	if bad != "" {
		return s.reject(file, from, line, bad)
	}
	sum, elided, comm := new(big.Int), -1, ""
	for i, p := range t.Posts {
		if p.Elided {
			elided = i
			continue
		}
		sum.Add(sum, big.NewInt(p.Q))
		if p.Comm != comm && i > 0 && !(elided == 0 && i == 1) {
			s.strange("several commodities")
		}
		comm = p.Comm
	}
	switch {
	case elided >= 0 || t.Period:
		// what is left over (by a budget entry too) must be an amount itself
		if len(new(big.Int).Abs(sum).String()) > 18 && new(big.Int).Abs(sum).Cmp(big.NewInt(1<<63-1)) > 0 {
			return s.reject(file, from, line, "the rest is too large")
		}
		if elided >= 0 {
			t.Posts[elided].Q = -sum.Int64()
			t.Posts[elided].Comm = comm
		}
	case sum.Sign() != 0:
		return s.reject(file, from, line, "does not balance")
	}
	t.File = s.reading[len(s.reading)-1]
	s.out = append(s.out, t)
	return nil
}

func isSp(c byte) bool { return c == ' ' || c == '\t' }

// word takes up to a tab, two spaces or a comment, without one trailing space.
func word(l string) (w, rest string) {
	for i := 0; i < len(l); i++ {
		switch {
		case l[i] == '\t', l[i] == ';', l[i] == '#':
			return strings.TrimSuffix(l[:i], " "), l[i:]
		case l[i] == ' ' && i+1 < len(l) && l[i+1] == ' ':
			return l[:i], l[i:]
		}
	}
	return strings.TrimSuffix(l, " "), ""
}

func trimSp(l string) string {
	for l != "" && isSp(l[0]) {
		l = l[1:]
	}
	return l
}

func isComment(l string) bool { return l != "" && (l[0] == ';' || l[0] == '#') }

func noteText(l string) string { return strings.TrimLeft(l[1:], " ") }

// unusual tells whether a line has bytes that are not text, or a space other than ' ' and tab where
// spaces separate. Such a space within a name, or in a note, is a character like any other.
func unusual(l string) bool {
	if !utf8.ValidString(l) {
		return true
	}
	prev := ' '
	for i, r := range l {
		if isComment(l[i:]) && (i == 0 || l[i-1] == '\t' || strings.HasSuffix(l[:i], "  ") || strings.Trim(l[:i], " \t") == "") {
			return false
		}
		odd := r != ' ' && r != '\t' && unicode.IsSpace(r)
		if odd && (unicode.IsSpace(prev) || prev == '!' || prev == '*' || prev == '~') {
			return true
		}
		prev = r
	}
	return false
}

func (s *refState) line(file string, n int, l string) *Rejected {
	s.steps++
	if l == "" {
		return s.end(file, n)
	}
	first := []rune(l)[0]
	// a line that begins like none is an error whatever follows
	if unusual(l) && (l[0] == '\t' || strings.Contains(" ;#i~", l[:1]) || unicode.IsNumber(first) || unicode.IsSpace(first)) {
		s.strange("unusual characters")
	}
	switch {
	case isComment(l):
		return nil
	case l[0] == 'i':
		rest, ok := strings.CutPrefix(l, "include")
		if !ok || rest == "" || rest[0] != ' ' {
			return s.reject(file, n, n, "not a directive")
		}
		name, rest := word(trimSp(rest))
		if trimSp(rest) != "" && !isComment(trimSp(rest)) {
			s.strange("text after include")
		}
		if name == "" {
			return s.reject(file, n, n, "include of nothing")
		}
		if err := s.end(file, n); err != nil {
			return err
		}
		dir, _ := path.Split(file)
		target := dir + name
		key, ok := s.real(target)
		for _, r := range s.reading {
			if r == key {
				return s.reject(file, n, n, "include cycle")
			}
		}
		if strings.HasPrefix(name, "/") {
			s.strange("absolute include")
		}
		// a name that ends in a slash is that of a directory
		if !ok || strings.HasSuffix(target, "/") || strings.HasSuffix(target, "/.") {
			return s.reject(file, n, n, "no such file")
		}
		s.chain = append(s.chain, Loc{file, n})
		if err := s.file(target); err != nil {
			return err
		}
		s.chain = s.chain[:len(s.chain)-1]
		return nil
	case l[0] == '~':
		if len(l) == 1 || !isSp(l[1]) {
			return s.reject(file, n, n, "period needs a space")
		}
		p, rest := word(trimSp(l[1:]))
		if trimSp(rest) != "" {
			s.strange("text after period")
		}
		if err := s.end(file, n); err != nil {
			return err
		}
		if len(p) != 7 || p[4] != '-' || !digits(p[:4]) || !digits(p[5:]) || p[5:] < "01" || p[5:] > "12" {
			s.strange("period other than a month")
		}
		s.open = openTxn{open: true, from: n, t: Txn{Period: true, Month: p, State: ' '}}
		return nil
	case unicode.IsNumber(first):
		tok := l
		if i := strings.IndexByte(l, ' '); i >= 0 {
			tok = l[:i]
		}
		d, ok := validDate(tok)
		// the open transaction is closed by the new date first
		if err := s.end(file, n); err != nil {
			return err
		}
		if !ok {
			return s.reject(file, n, s.entryEnd(n), "not a date")
		}
		t := Txn{Date: d, State: ' '}
		rest := trimSp(l[len(tok):])
		if rest != "" && (rest[0] == '!' || rest[0] == '*') {
			t.State = rest[0]
			rest = trimSp(rest[1:])
		}
		t.Payee, rest = word(rest)
		rest = trimSp(rest)
		if isComment(rest) {
			t.HNote = noteText(rest)
		} else if rest != "" {
			s.strange("text after payee")
		}
		s.open = openTxn{open: true, from: n, t: t}
		return nil
	case l[0] == '\t' || strings.HasPrefix(l, "  "):
		return s.indented(file, n, trimSp(l))
	}
	return s.reject(file, n, n, "unknown line")
}

func (s *refState) indented(file string, n int, l string) *Rejected {
	if l == "" {
		return nil
	}
	from := n
	if s.open.open {
		from = s.open.from
	}
	if isComment(l) {
		if s.open.open {
			s.note(noteText(l))
		}
		return nil
	}
	if !unicode.IsLetter([]rune(l)[0]) {
		return s.reject(file, from, s.entryEnd(n), "not an account")
	}
	// the account runs to a tab, two spaces or the end
	end := len(l)
	for i := 0; i < len(l); i++ {
		if l[i] == '\t' || l[i] == ' ' && i+1 < len(l) && l[i+1] == ' ' {
			end = i
			break
		}
	}
	acct := strings.TrimSuffix(l[:end], " ")
	l = trimSp(l[end:])
	if !s.open.open {
		return s.reject(file, n, s.entryEnd(n), "posting outside of a transaction")
	}
	t := &s.open.t
	p := Post{Acct: acct}
	note := ""
	hasNote := false
	if l == "" || isComment(l) {
		p.Elided = true
		if l != "" {
			note, hasNote = noteText(l), true
		}
	} else {
		// commodity, then quantity
		i := 0
		rs := []rune(l)
		for i < len(rs) {
			r := rs[i]
			if unicode.IsNumber(r) || r == '-' || r == '+' || r == ' ' || r == '\t' {
				break
			}
			if r == '.' && i+1 < len(rs) && unicode.IsNumber(rs[i+1]) && (i == 0 || !unicode.IsLetter(rs[i-1])) {
				break
			}
			if r == ';' || r == '#' {
				s.strange("comment indicator in a commodity")
			}
			i++
		}
		p.Comm = string(rs[:i])
		l = string(rs[i:])
		if l != "" && isSp(l[0]) {
			p.Comm += " "
			l = trimSp(l)
		}
		var qs string
		qs, l = word(l)
		q, ok := parseQ(qs)
		if !ok {
			return s.reject(file, from, s.entryEnd(n), "not an amount")
		}
		p.Q = q
		l = trimSp(l)
		if isComment(l) {
			note, hasNote = noteText(l), true
		} else if l != "" {
			return s.reject(file, from, s.entryEnd(n), "text after the amount")
		}
	}
	if p.Elided {
		for _, o := range t.Posts {
			if o.Elided {
				// found out by the line that ends the second posting at the latest
				s.open.bad = "a second amount is omitted"
			}
		}
	}
	t.Posts = append(t.Posts, p)
	if hasNote {
		s.note(note)
	}
	return nil
}

func (s *refState) note(text string) {
	t := &s.open.t
	if len(t.Posts) > 0 {
		p := &t.Posts[len(t.Posts)-1]
		p.Notes = append(p.Notes, text)
	} else {
		t.Notes = append(t.Notes, text)
	}
}
