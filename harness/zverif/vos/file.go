package vos

import (
	"io"
	"os"
	"path/filepath"

	"github.com/miniLCT/gosb/zverif/vsched"
)

// File is a file whose operations are steps; a write is two.
type File struct{ *os.File }

func file(f *os.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	return &File{f}, nil
}

var (
	Stdin  = &File{os.Stdin}
	Stdout = &File{os.Stdout}
	Stderr = &File{os.Stderr}
)

func NewFile(fd uintptr, name string) *File {
	if f := os.NewFile(fd, name); f != nil {
		return &File{f}
	}
	return nil
}

func Pipe() (*File, *File, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, err
	}
	return &File{r}, &File{w}, nil
}

func Open(name string) (*File, error) {
	opens(name)
	if err := step("open"); err != nil {
		return nil, err
	}
	return file(os.Open(name))
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	opens(name)
	if err := step("open"); err != nil {
		return nil, err
	}
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC) != 0 && outside(name) {
		return nil, &os.PathError{Op: "open", Path: name, Err: ErrInjected}
	}
	return file(os.OpenFile(name, flag, perm))
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func CreateTemp(dir, pattern string) (*File, error) {
	if err := step("open"); err != nil {
		return nil, err
	}
	if dir == "" {
		dir = os.TempDir()
	}
	if outside(filepath.Join(dir, pattern)) {
		return nil, &os.PathError{Op: "createtemp", Path: dir, Err: ErrInjected}
	}
	return file(os.CreateTemp(dir, pattern))
}

// ok is false for what os refuses.
func (f *File) ok() bool { return f != nil && f.File != nil }

func (f *File) Close() error {
	if !f.ok() {
		return os.ErrInvalid
	}
	return f.File.Close()
}

// halves does a write in two steps.
func halves(b []byte, write func(from int, b []byte) (int, error)) (int, error) {
	h := len(b) / 2
	if Cut >= 0 && Cut < len(b) {
		h = Cut
	}
	if err := step("write1"); err != nil {
		return 0, err
	}
	n, err := write(0, b[:h])
	if err != nil {
		return n, err
	}
	if err := step("write2"); err != nil {
		return n, err
	}
	m, err := write(h, b[h:])
	vsched.Y()
	return n + m, err
}

func (f *File) Write(b []byte) (int, error) {
	if !f.ok() {
		return 0, os.ErrInvalid
	}
	return halves(b, func(_ int, b []byte) (int, error) { return f.File.Write(b) })
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if !f.ok() {
		return 0, os.ErrInvalid
	}
	return halves(b, func(i int, b []byte) (int, error) { return f.File.WriteAt(b, off+int64(i)) })
}

func (f *File) ReadFrom(r io.Reader) (n int64, err error) { return io.Copy(struct{ io.Writer }{f}, r) }
func (f *File) WriteTo(w io.Writer) (n int64, err error)  { return io.Copy(w, struct{ io.Reader }{f}) }

// Read reads a little, and lets others run.
func (f *File) Read(b []byte) (int, error) {
	if !f.ok() {
		return 0, os.ErrInvalid
	}
	vsched.Y()
	if len(b) > 64 {
		b = b[:64]
	}
	return f.File.Read(b)
}

func (f *File) Truncate(size int64) error {
	if !f.ok() {
		return os.ErrInvalid
	}
	if err := step("truncate"); err != nil {
		return err
	}
	return f.File.Truncate(size)
}

func (f *File) Sync() error {
	if !f.ok() {
		return os.ErrInvalid
	}
	if err := step("sync"); err != nil {
		return err
	}
	return f.File.Sync()
}

func Truncate(name string, size int64) error {
	if err := step("truncate"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	return os.Truncate(name, size)
}

func Link(a, b string) error {
	if err := step("link"); err != nil {
		return err
	}
	if outside(b) {
		return nil
	}
	return os.Link(a, b)
}

func Symlink(a, b string) error {
	if err := step("symlink"); err != nil {
		return err
	}
	if outside(b) {
		return nil
	}
	return os.Symlink(a, b)
}
