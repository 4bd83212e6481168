//go:build api

package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"github.com/rikchilvers/gledger/journal"
	"github.com/rikchilvers/gledger/parser"
)

func init() {
	register(&Space{
		ID:   "C19",
		Rule: "every way a reader may answer, for every journal of the set: the bytes split at every single offset and every pair of offsets, delivered n at a time for every n, with 0 to 3 empty reads in between, with the end of file alone or together with data; and a failure at every offset, alone or together with data, permanent or passing, as several kinds of error. The transactions handed to the callbacks and the error must be those of the reference reading (splits) or a prefix of them and an error (failures)",
		Bound: map[string]string{
			"journals": "20 journals of up to some 400 bytes, valid and in error, and all sequences of up to 2 (quick) / 3 (thorough) of 12 lines",
			"splits":   "up to two split points (three in the thorough tier for journals up to 60 bytes), or a constant size",
			"errors":   "35 errors (time-outs, interrupted and temporary ones, errors of files, of the network and of buffers; errors that look like the end of file)",
			"failures": "one failure per read of a journal; includes are read by the operating system and not intercepted here",
			"buffer":   "five journals of 4096 +- 300 and 8192 +- 300 bytes, split and failing at every offset around the buffer's size; last lines, ended and not, of 12 lengths around those of buffers",
		},
		Run: runC19,
	})
}

// answer is one Read.
type answer struct {
	n   int
	err error
}

// script is a reader that answers as told; then it gives all that is left, then the end of file.
type script struct {
	data    []byte
	answers []answer
	with    bool // the end of file comes together with the last bytes
	pos     int
	reads   int
}

var errBoom = errors.New("boom")

func (s *script) Read(p []byte) (int, error) {
	s.reads++
	if s.reads > 1<<20 {
		panic("reading without end")
	}
	var a answer
	if len(s.answers) > 0 {
		a = s.answers[0]
		s.answers = s.answers[1:]
	} else {
		a = answer{n: len(s.data) + 1}
	}
	k := a.n
	if k > len(s.data)-s.pos {
		k = len(s.data) - s.pos
	}
	if k > len(p) {
		// the rest of this answer is given by the next read
		s.answers = append([]answer{{a.n - len(p), a.err}}, s.answers...)
		k = len(p)
		a.err = nil
	}
	copy(p, s.data[s.pos:s.pos+k])
	s.pos += k
	if a.err != nil {
		return k, a.err
	}
	if s.pos == len(s.data) && (s.with || k == 0) && a.n > 0 {
		return k, io.EOF
	}
	return k, nil
}

// passing is an error as of a network.
type passing struct{ timeout, temporary bool }

func (p passing) Error() string   { return "passing" }
func (p passing) Timeout() bool   { return p.timeout }
func (p passing) Temporary() bool { return p.temporary }

// booms are the failures a read may end with.
var booms = []error{
	errBoom, io.ErrUnexpectedEOF, io.ErrClosedPipe, fmt.Errorf("wrapped %w", io.ErrUnexpectedEOF),
	io.ErrNoProgress, io.ErrShortBuffer, io.ErrShortWrite, os.ErrDeadlineExceeded, os.ErrClosed, os.ErrNotExist, os.ErrPermission, os.ErrInvalid, context.DeadlineExceeded, context.Canceled,
	syscall.EAGAIN, syscall.EINTR, syscall.EIO, syscall.EISDIR, syscall.EBADF, syscall.ETIMEDOUT, syscall.ECONNRESET, syscall.ENOSPC, &os.PathError{Op: "read", Path: mainFile, Err: syscall.EINTR}, &os.PathError{Op: "read", Path: mainFile, Err: os.ErrDeadlineExceeded}, os.NewSyscallError("read", syscall.EAGAIN),
	passing{true, false}, passing{false, true}, passing{true, true}, passing{}, &net.OpError{Op: "read", Err: syscall.ECONNRESET}, bufio.ErrTooLong, bufio.ErrNegativeCount, errors.New("EOF"), errors.New("unexpected EOF"), errors.New(""),
}

type delivery struct {
	txns []string
	err  error
}

func deliver(r io.Reader) (d delivery) {
	p := parser.NewParser(
		func(t *journal.Transaction, path string) error {
			d.txns = append(d.txns, path+"|"+t.String())
			return nil
		},
		func(t *journal.PeriodicTransaction, path string) error {
			s := path + "|~ " + t.Period.StartDate.Format("2006-01-02")
			for _, p := range t.Transaction.Postings {
				if text := p.String(); !strings.HasPrefix(text, "_budget_root_") { // the balancing side, not written
					s += "\n    " + text
				}
			}
			d.txns = append(d.txns, s+"\n")
			return nil
		})
	d.err = p.Parse(r, mainFile)
	return d
}

// expected is the reference reading in the same form.
func expected(text string) (d delivery, odd bool) {
	r := refParse(one(text), mainFile)
	for _, t := range r.Txns {
		if t.Period {
			s := mainFile + "|~ " + t.Month + "-01"
			for _, p := range t.Posts {
				s += "\n    " + p.String()
			}
			d.txns = append(d.txns, s+"\n")
		} else {
			d.txns = append(d.txns, mainFile+"|"+t.String())
		}
	}
	if r.Err != nil {
		d.err = errors.New(r.Err.Why)
	}
	return d, r.Odd != ""
}

func sameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Error() == b.Error()
}

func isPrefix(a, b []string) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runC19(e *E) {
	rich := "; head\n\n2020-01-02 * Shop é  ; hn\n  ; tn\n  Expenses:Food  £10.50 ; pn\r\n  Assets:Bank\n\n~ 2020-01\n  Food  £5\n  Rent  £6\n2020/01/03 ! Café\n\tA:b c\t\t-3\n  B\n  ; last"
	texts := []string{
		"", "\n", "\n\n", "; c", "\r\n", "  ", "2020-01-01 x", "2020-01-01 x\n  A  1\n  B",
		"2020-01-01 x\n  A  1\n  B\n", "2020-01-01 x\r\n  A  1\r\n  B\r\n", "2020-01-01 x\r\n  A  10\r\n  B\r\r\n\r",
		"2020-01-01 x\n  A  12\n  B\n2020-01-02 y\n  A  34\n  B  -34\n2020-01-03 z\n  C  5.67\n  D",
		rich, rich + "\n\n" + strings.ReplaceAll(rich, "2020", "2021"),
		"2020-01-01 x\n  A  1\n  B\n\n2020-13-01 bad\n  A  1\n  B\n", "2020-01-01 x\n  A  1\n  B  2\n\n2020-01-02 y\n  A  1\n  B\n",
		"2020-01-01 x\n  A  1\n  B\nzzz\n2020-01-02 y\n  A  1\n  B\n", "2020-01-01 x\n  A  1\n  B\n\n  C  1\n",
		"2020-01-01 €\n  Ä:ß  €1\n  日本  €-1 ; 日\n", "~ 2020-01\n  A  10\n~ 2020-02\n  A  20\n",
	}
	lines := []string{"", "2020-01-01 p", "2020-02-02 * q  ; h", "  A:b  £1.50", "  A  -1", "  B", "  ; note", "~ 2020-01", "  B  0 ; c", "; c", "bad", "\t"}
	depth := 2
	if e.Thorough {
		depth = 3
	}
	seqs(len(lines), 1, depth, func(ix []int) {
		var l []string
		for _, i := range ix {
			l = append(l, lines[i])
		}
		texts = append(texts, strings.Join(l, "\n"), strings.Join(l, "\n")+"\n")
	})
	deepFrom := len(texts)
	// a transaction after a comment long enough to reach the reader's buffer
	tail := "\n2020-01-01 x ; hh\n  A:longer name  12.34 ; nn\n  B\n2020-01-02 y\n  A  34\n  B  -34\n"
	for _, size := range []int{4096 - 40, 4096 - 1, 4096, 8192 - 30} {
		texts = append(texts, ";"+strings.Repeat("c", size-1)+tail)
	}
	lastFrom := len(texts)
	// a last line, with no end, as long as the reader's buffer
	for _, size := range []int{16, 64, 512, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 12288} {
		for k, last := range []string{"  B", "  ; ", "2020-01-02 q", "\t;", "  A:b  ; c"} {
			if k > 2 && !e.Thorough && size%4096 != 0 {
				continue
			}
			text := "2020-01-01 x\n  A  1\n  C  ; n\n" + last + longText(size-len(last))
			if k == 0 {
				text = "2020-01-01 x\n  A  1\n" + last + longText(size-len(last))
			}
			texts = append(texts, text, text[:len(text)-1]+"\n")
		}
	}
	lastTo := len(texts)
	texts = append(texts, "2020-01-01 "+strings.Repeat("p", 8192)+"\n  A"+strings.Repeat("a", 4090)+"  1\n  B\n")

	for ti, text := range texts {
		data := []byte(text)
		big := ti >= deepFrom
		var offsets []int // where to split and fail
		d := 70
		if ti >= lastFrom && ti < lastTo {
			d = 2
		}
		for k := 0; k <= len(data); k++ {
			if d < 70 {
				if start := strings.LastIndexByte(text[:len(text)-1], '\n') + 1; near(k, 4096, d) || near(k, 8192, d) || near(k, len(data), d) || near(k, start, d) || near(k, start+4096, d) || near(k, start+8192, d) {
					offsets = append(offsets, k)
				}
				continue
			}
			if !big || near(k, 4096, 70) || near(k, 8192, 70) || near(k, len(data), 70) || k < 40 {
				offsets = append(offsets, k)
			}
		}
		check := func(x *X, what string, s *script) error {
			want, odd := expected(text)
			s.data = data
			got := deliver(s)
			x.Trace(1)
			if odd {
				return nil
			}
			if (got.err == nil) != (want.err == nil) {
				return Fail("%s: expected error %v, got %v of\n%s", what, want.err, got.err, clip(text))
			}
			if strings.Join(got.txns, "") != strings.Join(want.txns, "") {
				return Fail("%s: of\n%s--- expected\n%s--- got\n%s", what, clip(text), clip(strings.Join(want.txns, "")), clip(strings.Join(got.txns, "")))
			}
			// the same error as when read in one piece
			if whole := deliver(strings.NewReader(text)); !sameErr(whole.err, got.err) {
				return Fail("%s: error %v, but %v in one piece, of\n%s", what, got.err, whole.err, clip(text))
			}
			x.Step(len(want.txns) + 1)
			x.State(text, s.pos, s.reads)
			x.Outcome(fmt.Sprint(got.txns, got.err))
			return nil
		}
		e.Part("one split")
		for _, k := range offsets {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("journal %d split at %d", ti, k)
				x.Sample(fmt.Sprintf("%s: %q", x.key, clip(text)))
				for empties := 0; empties <= 3; empties++ {
					for _, with := range []bool{false, true} {
						for pat := 0; pat < 4; pat++ {
							var a []answer
							if pat&1 != 0 {
								a = append(a, make([]answer, empties)...)
							}
							a = append(a, answer{n: k})
							if k == 0 {
								a = nil
							}
							if pat&2 != 0 {
								a = append(a, make([]answer, empties)...)
							}
							if err := check(x, fmt.Sprintf("split at %d with %d empty reads (%d), end of file with data %v", k, empties, pat, with), &script{answers: a, with: with}); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
		e.Part("two splits")
		for i, k := range offsets {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("journal %d split at %d and later", ti, k)
				for _, m := range offsets[i+1:] {
					for _, with := range []bool{false, true} {
						if err := check(x, fmt.Sprintf("split at %d and %d", k, m), &script{answers: []answer{{n: k}, {n: m - k}}[b2i(k == 0):], with: with}); err != nil {
							return err
						}
						if !e.Thorough || len(data) > 60 {
							continue
						}
						for l := m + 1; l <= len(data); l++ {
							if err := check(x, fmt.Sprintf("split at %d, %d and %d", k, m, l), &script{answers: []answer{{n: k}, {n: m - k}, {n: l - m}}[b2i(k == 0):], with: with}); err != nil {
								return err
							}
						}
					}
				}
				return nil
			})
		}
		e.Part("constant size")
		for n := 1; n <= len(data); n++ {
			if big && !(n < 70 || near(n, 4096, 20) || near(n, 8192, 20)) || d < 70 && n > 3 && n != 16 && n != 64 && !near(n, 4096, 1) {
				continue
			}
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("journal %d read %d at a time", ti, n)
				for empties := 0; empties <= 2; empties++ {
					for _, with := range []bool{false, true} {
						var a []answer
						for k := 0; k < len(data); k += n {
							a = append(a, answer{n: n})
							a = append(a, make([]answer, empties)...)
						}
						if err := check(x, fmt.Sprintf("%d at a time with %d empty reads", n, empties), &script{answers: a, with: with}); err != nil {
							return err
						}
					}
				}
				return nil
			})
		}
		e.Part("failure")
		for _, k := range offsets {
			if !e.Mine() {
				e.Pass()
				continue
			}
			e.Do(func(x *X) error {
				x.Key("journal %d fails at %d", ti, k)
				want, odd := expected(text)
				for bi, boom := range booms {
					if bi >= 4 && big && !e.Thorough {
						break
					}
					for _, lasting := range []bool{true, false} {
						for from := 0; from <= 3; from++ {
							// the bytes up to k come 1: in a read of their own, 2: together with the failure,
							// 3: split in the middle, the second half with the failure; 0: byte by byte
							var a []answer
							switch from {
							case 0:
								for i := 0; i < k; i++ {
									a = append(a, answer{n: 1})
								}
								a = append(a, answer{0, boom})
							case 1:
								if k > 0 {
									a = append(a, answer{n: k})
								}
								a = append(a, answer{0, boom})
							case 2:
								a = append(a, answer{k, boom})
							case 3:
								if k/2 > 0 {
									a = append(a, answer{n: k / 2})
								}
								a = append(a, answer{k - k/2, boom})
							}
							if lasting {
								for i := 0; i < 8; i++ {
									a = append(a, answer{0, boom})
								}
							}
							s := &script{data: data, answers: a}
							got := deliver(s)
							x.Trace(1)
							x.Step(1)
							x.State(text, k, lasting, from)
							if odd {
								continue
							}
							what := fmt.Sprintf("failure (%v, lasting %v, manner %d) at offset %d of\n%s", boom, lasting, from, k, clip(text))
							if got.err == nil {
								return Fail("%s\nis reported as success", what)
							}
							if !isPrefix(got.txns, want.txns) {
								return Fail("%s\n--- handed out\n%s--- of the whole\n%s", what, clip(strings.Join(got.txns, "")), clip(strings.Join(want.txns, "")))
							}
							// what was handed out was read: it must be a prefix for what had arrived, too
							if x.w.Only < 0 {
								x.Outcome(fmt.Sprint(len(got.txns), got.err))
							}
						}
					}
				}
				return nil
			})
		}
	}
}

func near(a, b, d int) bool { return a >= b-d && a <= b+d }

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
