package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"syscall"
	"time"
	"unsafe"
)

// outputKinds are what standard output may be besides a pipe.
var outputKinds = []string{"file", "end of a file", "append to a file", "socket", "terminal 80", "terminal 20", "terminal 0", "fifo", "null"}

// connect makes a command's standard output something, and gives what reads it when it has ended.
func (w *Worker) connect(kind string, c *exec.Cmd) func() string {
	path := filepath.Join(filepath.Dir(w.Scratch), fmt.Sprintf("out%d", w.K))
	switch kind {
	case "file", "end of a file", "append to a file":
		os.Remove(path)
		const before = "what there was\n"
		start, flags := 0, os.O_RDWR|os.O_CREATE
		if kind != "file" {
			must(os.WriteFile(path, []byte(before), 0o600))
			start = len(before)
		}
		if kind == "append to a file" {
			flags |= os.O_APPEND
		}
		f, err := os.OpenFile(path, flags, 0o600)
		must(err)
		_, err = f.Seek(0, io.SeekEnd)
		must(err)
		c.Stdout = f
		return func() string {
			f.Close()
			b, err := os.ReadFile(path)
			must(err)
			os.Remove(path)
			if len(b) < start || string(b[:start]) != before[:start] {
				return "what was in the file is lost: " + string(b)
			}
			return string(b[start:])
		}
	case "null":
		f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		must(err)
		c.Stdout = f
		return func() string { f.Close(); return "" }
	case "socket":
		fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		must(err)
		return drain(c, os.NewFile(uintptr(fds[1]), "socket"), os.NewFile(uintptr(fds[0]), "socket"))
	case "fifo":
		os.Remove(path)
		must(syscall.Mkfifo(path, 0o600))
		r, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
		must(err)
		wr, err := os.OpenFile(path, os.O_WRONLY, 0)
		must(err)
		os.Remove(path)
		return drain(c, wr, r)
	}
	// a terminal that leaves the output alone
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil { // there are none here: leave it a pipe
		return nil
	}
	ioctl := func(f *os.File, op uintptr, p unsafe.Pointer) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), op, uintptr(p)); e != 0 {
			must(e)
		}
	}
	var n, unlock uint32
	ioctl(master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	ioctl(master, syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	slave, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	must(err)
	var t syscall.Termios
	ioctl(slave, syscall.TCGETS, unsafe.Pointer(&t))
	t.Oflag &^= syscall.OPOST
	t.Lflag &^= syscall.ECHO
	ioctl(slave, syscall.TCSETS, unsafe.Pointer(&t))
	var cols uint16
	fmt.Sscanf(kind, "terminal %d", &cols)
	size := [4]uint16{24 * min(cols, 1), cols, 0, 0}
	ioctl(slave, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	return drain(c, slave, master)
}

// drain reads one end while a command writes to the other.
func drain(c *exec.Cmd, theirs, ours *os.File) func() string {
	c.Stdout = theirs
	var b bytes.Buffer
	done := make(chan bool)
	go func() {
		io.Copy(&b, ours) // a terminal ends with an error
		close(done)
	}()
	return func() string {
		theirs.Close()
		select {
		case <-done:
		case <-time.After(freshTimeout): // something else holds it open
		}
		ours.Close()
		return b.String()
	}
}
