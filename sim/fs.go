//go:build go1.21

package verifsim

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"syscall"
	"time"
)

// Kinds of injected file-system behaviour.
const (
	IOShort   = iota // a read returns fewer bytes than asked for (legal)
	IOZero           // a read returns 0 bytes and no error (legal, discouraged)
	IOEOFData        // the last bytes come together with io.EOF (legal)
	IOError          // a read fails with EIO
	IOTrunc          // the file ends early
	IOCorrupt        // a byte differs
	IOOpen           // the open fails
	nIOFaults
)

// IOFaultNames names them.
var IOFaultNames = [nIOFaults]string{"short-read", "zero-read", "eof-with-data", "read-error", "truncation", "corruption", "open-failure"}

// IOConfig is the fault mix of a run (record mode).
type IOConfig struct {
	PShort   int // in 1/256 per read
	PZero    int
	PEOFData int
	PError   int   // in 1/256 per read
	ErrAt    int64 // >0: the read that reaches this offset fails
	TruncAt  int64 // >=1: file ends at offset TruncAt-1
	FlipAt   int64 // >=1: byte at offset FlipAt-1 is changed
	FlipBits int64
	POpen    int
	Only     string // apply only to files whose name ends so
}

// File stands for os.File (reading only).
type File struct {
	name   string
	data   []byte
	off    int64
	closed bool
	zeros  int
	real   *os.File
	sim    bool
}

// Loaded lets the harness provide file contents; nil means the real file.
var Loaded func(name string) ([]byte, error)

func readReal(name string) ([]byte, error) {
	if Loaded != nil {
		return Loaded(name)
	}
	return os.ReadFile(name)
}

// encoding of an io decision: kind*2^40 + argument
//
//go:norace
func ioDecide(isOpen bool, want, avail int64, name string) (kind int, arg int64) {
	r := rs
	op()
	flush()
	t := cur
	if r.cfg.Replay {
		if d, ok := r.other(t, kIO); ok {
			r.decs = append(r.decs, d)
			k := int(d.c >> 40)
			r.res.IOFaults[k]++
			r.res.Faults[kIO]++
			return k, d.c & (1<<40 - 1)
		}
		return -1, 0
	}
	c := &r.cfg.IO
	if c.Only != "" && !hasSuffix(name, c.Only) {
		return -1, 0
	}
	kind = -1
	if isOpen {
		if r.chance(c.POpen, 256) {
			kind = IOOpen
			arg = int64(r.intn(3))
		} else if c.TruncAt > 0 && c.TruncAt-1 < avail {
			kind, arg = IOTrunc, c.TruncAt-1
		} else if c.FlipAt > 0 && c.FlipAt-1 < avail {
			kind, arg = IOCorrupt, (c.FlipAt-1)<<8|(c.FlipBits&255)
		}
	} else {
		switch {
		case r.chance(c.PError, 256) || c.ErrAt > 0 && want >= 0 && avail >= 0 && r.readOff+want >= c.ErrAt:
			kind = IOError
			if c.ErrAt > 0 {
				if arg = c.ErrAt - r.readOff - 1; arg < 0 {
					arg = 0
				}
			}
		case want > 1 && avail > 1 && r.chance(c.PShort, 256):
			m := want
			if avail < m {
				m = avail
			}
			kind = IOShort
			if r.chance(128, 256) {
				arg = 1
			} else {
				arg = 1 + int64(r.rnd()%uint64(m))
			}
		case r.chance(c.PZero, 256):
			kind = IOZero
		case avail > 0 && want >= avail && r.chance(c.PEOFData, 256):
			kind = IOEOFData
		}
	}
	if kind < 0 {
		return
	}
	r.res.Faults[kIO]++
	r.res.IOFaults[kind]++
	r.decs = append(r.decs, dec{task: t.key, n: t.local, kind: kIO, c: int64(kind)<<40 | arg, note: IOFaultNames[kind]})
	return
}

//go:norace
func hasSuffix(s, p string) bool { return len(s) >= len(p) && s[len(s)-len(p):] == p }

// Open stands for os.Open.
func Open(name string) (*File, error) {
	if rs == nil {
		data, err := os.ReadFile(name)
		if err != nil {
			return nil, err
		}
		return &File{name: name, data: data}, nil
	}
	data, err := readReal(name)
	if err != nil {
		op()
		return nil, err
	}
	k, arg := ioDecide(true, 0, int64(len(data)), name)
	switch k {
	case IOOpen:
		return nil, &os.PathError{Op: "open", Path: name, Err: []error{syscall.EMFILE, syscall.EIO, syscall.EACCES}[arg%3]}
	case IOTrunc:
		if arg < int64(len(data)) {
			data = data[:arg]
		}
	case IOCorrupt:
		p := arg >> 8
		if p < int64(len(data)) && arg&255 != 0 {
			data = append([]byte(nil), data...)
			data[p] ^= byte(arg & 255)
		}
	}
	openFiles(1)
	return &File{name: name, data: data, sim: true}, nil
}

//go:norace
func openFiles(d int) {
	if rs != nil {
		rs.res.OpenFiles += d
	}
}

// OpenFile stands for os.OpenFile (reading).
func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		return nil, &os.PathError{Op: "open", Path: name, Err: syscall.EROFS}
	}
	return Open(name)
}

func (f *File) Read(p []byte) (n int, err error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.closed {
		return 0, &os.PathError{Op: "read", Path: f.name, Err: os.ErrClosed}
	}
	if len(p) == 0 {
		return 0, nil
	}
	rest := f.data[min64(f.off, int64(len(f.data))):]
	if rs == nil || !f.sim {
		if len(rest) == 0 {
			return 0, io.EOF
		}
		n = copy(p, rest)
		f.off += int64(n)
		return n, nil
	}
	setReadOff(f.off)
	k, arg := ioDecide(false, int64(len(p)), int64(len(rest)), f.name)
	if k != IOZero {
		f.zeros = 0
	}
	switch k {
	case IOError:
		if arg > int64(len(rest)) {
			arg = int64(len(rest))
		}
		n = copy(p, rest[:arg])
		f.off += int64(n)
		return n, &os.PathError{Op: "read", Path: f.name, Err: syscall.EIO}
	case IOShort:
		if int64(len(p)) > arg {
			p = p[:arg]
		}
	case IOZero:
		if f.zeros < 3 {
			f.zeros++
			return 0, nil
		}
	}
	if len(rest) == 0 {
		return 0, io.EOF
	}
	n = copy(p, rest)
	f.off += int64(n)
	if k == IOEOFData && n == len(rest) {
		err = io.EOF
	}
	return
}

//go:norace
func setReadOff(o int64) { rs.readOff = o }

// ReadAt implements io.ReaderAt.
func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	old := f.off
	defer func() { f.off = old }()
	f.off = off
	return io.ReadFull(f, p)
}

// Seek implements io.Seeker.
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.off
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, &os.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.off = off
	return off, nil
}

// Close closes the file.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.closed {
		return &os.PathError{Op: "close", Path: f.name, Err: os.ErrClosed}
	}
	f.closed = true
	if f.sim {
		openFiles(-1)
	}
	return nil
}

// Name is the file's name.
func (f *File) Name() string { return f.name }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) { return info{f.name, int64(len(f.data))}, nil }

type info struct {
	name string
	size int64
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return 0444 }
func (i info) ModTime() time.Time { return time.Time{} }
func (i info) IsDir() bool        { return false }
func (i info) Sys() interface{}   { return nil }

// ReadFile stands for os.ReadFile and ioutil.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// Stat stands for os.Stat.
func Stat(name string) (os.FileInfo, error) {
	if rs != nil {
		op()
		if Loaded != nil {
			d, err := Loaded(name)
			if err != nil {
				return nil, err
			}
			return info{name, int64(len(d))}, nil
		}
	}
	return os.Stat(name)
}

// Exit stands for os.Exit.
func Exit(code int) { panic(ExitPanic{Code: code, Msg: fmt.Sprintf("os.Exit(%d)", code)}) }

func LogFatal(v ...interface{})            { panic(ExitPanic{Code: 1, Msg: fmt.Sprint(v...)}) }
func LogFatalln(v ...interface{})          { panic(ExitPanic{Code: 1, Msg: fmt.Sprintln(v...)}) }
func LogFatalf(f string, v ...interface{}) { panic(ExitPanic{Code: 1, Msg: fmt.Sprintf(f, v...)}) }

var _ = log.Prefix
var _ = errors.New

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
