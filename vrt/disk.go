package vrt

import (
	"errors"
	"io"
	"os"
	"sync"
)

// Disk operations of the code under test.  A crash point lies before every operation
// that changes a file and inside every write (after one byte, half of it, all but one byte).

type diskState struct {
	mu      sync.Mutex
	on      bool
	steps   int
	crashAt int // -1: never
	dead    bool
}

var disk diskState

var errCrashed = errors.New("the process has crashed")

type crashSentinel struct{}

// DiskRun runs f with a crash at the given step (-1: none) and tells the number of
// steps passed and whether it crashed.  After a crash no operation has any effect.
func DiskRun(crashAt int, f func()) (steps int, crashed bool) {
	disk.mu.Lock()
	disk.on, disk.steps, disk.crashAt, disk.dead = true, 0, crashAt, false
	disk.mu.Unlock()
	defer func() {
		disk.mu.Lock()
		steps, crashed = disk.steps, disk.dead
		disk.on, disk.dead = false, false
		disk.mu.Unlock()
		if r := recover(); r != nil {
			if _, ok := r.(crashSentinel); !ok {
				panic(r)
			}
		}
	}()
	f()
	return
}

// diskStep is a crash point; it fails if the process is dead already.
func diskStep() error {
	disk.mu.Lock()
	if !disk.on {
		disk.mu.Unlock()
		return nil
	}
	if disk.dead {
		disk.mu.Unlock()
		return errCrashed
	}
	if disk.steps == disk.crashAt {
		disk.dead = true
		disk.mu.Unlock()
		panic(crashSentinel{})
	}
	disk.steps++
	disk.mu.Unlock()
	return nil
}

// File is an os.File with crash points in its writes.
type File struct{ *os.File }

func wrapFile(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

func (f *File) chunks(b []byte, put func(b []byte, done int) (int, error)) (int, error) {
	disk.mu.Lock()
	on := disk.on
	disk.mu.Unlock()
	if !on {
		return put(b, 0)
	}
	cuts := []int{0, 1, len(b) / 2, len(b) - 1, len(b)}
	done := 0
	for _, c := range cuts[1:] {
		if c <= done {
			continue
		}
		if err := diskStep(); err != nil {
			return done, err
		}
		k, err := put(b[done:c], done)
		done += k
		if err != nil {
			return done, err
		}
	}
	return done, nil
}

func (f *File) Write(b []byte) (int, error) {
	return f.chunks(b, func(b []byte, _ int) (int, error) { return f.File.Write(b) })
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	return f.chunks(b, func(b []byte, done int) (int, error) { return f.File.WriteAt(b, off+int64(done)) })
}
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := f.Write(b)
	return int64(n), err
}
func (f *File) Truncate(n int64) error {
	if err := diskStep(); err != nil {
		return err
	}
	return f.File.Truncate(n)
}

func OsOpen(name string) (*File, error) { return wrapFile(os.Open(name)) }
func OsCreate(name string) (*File, error) {
	if err := diskStep(); err != nil {
		return nil, err
	}
	return wrapFile(os.Create(name))
}
func OsOpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		if err := diskStep(); err != nil {
			return nil, err
		}
	}
	return wrapFile(os.OpenFile(name, flag, perm))
}
func OsCreateTemp(dir, pat string) (*File, error) {
	if err := diskStep(); err != nil {
		return nil, err
	}
	return wrapFile(os.CreateTemp(dir, pat))
}
func OsWriteFile(name string, b []byte, perm os.FileMode) error {
	f, err := OsOpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}
func OsRename(a, b string) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.Rename(a, b)
}
func OsRemove(a string) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.Remove(a)
}
func OsRemoveAll(a string) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.RemoveAll(a)
}
func OsTruncate(a string, n int64) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.Truncate(a, n)
}
func OsLink(a, b string) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.Link(a, b)
}
func OsMkdir(a string, m os.FileMode) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.Mkdir(a, m)
}
func OsMkdirAll(a string, m os.FileMode) error {
	if err := diskStep(); err != nil {
		return err
	}
	return os.MkdirAll(a, m)
}
