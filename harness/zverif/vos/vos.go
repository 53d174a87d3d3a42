package vos

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/miniLCT/gosb/zverif/vsched"
)

// Steps counts the file system steps since Reset. A step that has the number
// FailAt is not done and reports an error; a write does a part of it first.
var (
	Steps  int
	FailAt int
	// Cut is how much of a file the first part of a write writes, if not negative.
	Cut = -1
	// Inside, if set, is the directory that changes are confined to: others are not done, but noted.
	Inside  string
	Escapes []string
	// Names, if set, is told the names of the files that are opened.
	Names func(name string)
)

// ErrInjected is the error of a step that failed.
var ErrInjected = errors.New("verif: injected fault")

// Reset starts counting steps; 0 is no fault.
func Reset(failAt int) { Steps, FailAt = 0, failAt }

func step(what string) error {
	vsched.Op()
	if vsched.Hook != nil {
		vsched.Hook()
	}
	Steps++
	if FailAt != 0 && Steps == FailAt {
		return &os.PathError{Op: what, Path: "?", Err: ErrInjected}
	}
	return nil
}

// outside says that name is not in Inside, and notes that.
func outside(name string) bool {
	if Inside == "" {
		return false
	}
	p, err := filepath.Abs(name)
	if err == nil && (p == Inside || strings.HasPrefix(p, Inside+"/")) {
		return false
	}
	Escapes = append(Escapes, name)
	return true
}

func ReadFile(name string) ([]byte, error) {
	opens(name)
	if err := step("read"); err != nil {
		return nil, err
	}
	f, err := os.Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []byte
	buf := make([]byte, 64)
	for {
		n, err := f.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		vsched.Y()
	}
}

func opens(name string) {
	if Names != nil {
		Names(name)
	}
}

// WriteFile opens (and truncates), writes one half, writes the other half.
func WriteFile(name string, data []byte, perm os.FileMode) error {
	if err := step("open"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = (&File{f}).Write(data)
	return err
}

func Remove(name string) error {
	if err := step("remove"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	return os.Remove(name)
}

func RemoveAll(name string) error {
	if err := step("removeall"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	return os.RemoveAll(name)
}

func Rename(a, b string) error {
	if err := step("rename"); err != nil {
		return err
	}
	if outside(a) || outside(b) {
		return nil
	}
	return os.Rename(a, b)
}

func Mkdir(name string, perm os.FileMode) error {
	if err := step("mkdir"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	return os.Mkdir(name, perm)
}

func MkdirAll(name string, perm os.FileMode) error {
	if err := step("mkdirall"); err != nil {
		return err
	}
	if outside(name) {
		return nil
	}
	return os.MkdirAll(name, perm)
}

func Stat(name string) (os.FileInfo, error) {
	opens(name)
	if err := step("stat"); err != nil {
		return nil, err
	}
	return os.Stat(name)
}

func Lstat(name string) (os.FileInfo, error) {
	if err := step("lstat"); err != nil {
		return nil, err
	}
	return os.Lstat(name)
}
