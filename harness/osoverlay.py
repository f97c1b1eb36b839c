#!/usr/bin/env python3
"""osoverlay.py DIR: writes a copy of the standard package os with a hook on every call that changes a
file, and prints the overlay entries. Built into the crash harness only; GOROOT is not touched."""
import json, os, re, subprocess, sys

out = sys.argv[1]
root = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = os.path.join(root, "src", "os")
rep = {}


def patch(name, subs):
    t = open(os.path.join(src, name)).read()
    for old, new in subs:
        if t.count(old) != 1:
            sys.exit("osoverlay: %s: %r found %d times" % (name, old, t.count(old)))
        t = t.replace(old, new)
    p = os.path.join(out, name)
    open(p, "w").write(t)
    rep[os.path.join(src, name)] = p


patch("file.go", [
    ("\nfunc (f *File) Write(b []byte) (n int, err error) {", "\nfunc (f *File) verifWrite(b []byte) (n int, err error) {"),
    ("\nfunc (f *File) WriteAt(b []byte, off int64) (n int, err error) {", "\nfunc (f *File) verifWriteAt(b []byte, off int64) (n int, err error) {"),
    ("\nfunc Mkdir(name string, perm FileMode) error {", "\nfunc verifMkdir(name string, perm FileMode) error {"),
    ("\nfunc OpenFile(name string, flag int, perm FileMode) (*File, error) {", "\nfunc verifOpenFile(name string, flag int, perm FileMode) (*File, error) {"),
    ("\nfunc (f *File) ReadAt(b []byte, off int64) (n int, err error) {", "\nfunc (f *File) verifReadAt(b []byte, off int64) (n int, err error) {"),
    ("\nfunc Rename(oldpath, newpath string) error {", "\nfunc verifRename(oldpath, newpath string) error {"),
])
patch("stat.go", [("\nfunc Stat(name string) (FileInfo, error) {", "\nfunc verifStat(name string) (FileInfo, error) {")])
patch("file_posix.go", [("\nfunc (f *File) Close() error {", "\nfunc (f *File) verifClose() error {"), ("\nfunc (f *File) Truncate(size int64) error {", "\nfunc (f *File) verifTruncate(size int64) error {")])
patch("file_unix.go", [("\nfunc Remove(name string) error {", "\nfunc verifRemove(name string) error {"),
                       ("\nfunc Truncate(name string, size int64) error {", "\nfunc verifTruncateName(name string, size int64) error {")])
open(os.path.join(out, "zz_verif.go"), "w").write('''package os

import (
	"sync"
	"sync/atomic"
)

// VerifOp is one call that changed a file.
type VerifOp struct {
	Op, Name, To string
	Off          int64
	Data         []byte
	File         *File
}

var (
	verifMu   sync.Mutex
	verifHook atomic.Pointer[func(o VerifOp)]
	verifPre  atomic.Pointer[func(o VerifOp) error]
	verifGo   atomic.Pointer[func()]
)

// VerifSetStep makes f run before every call that uses a file with an absolute name.
func VerifSetStep(f func()) {
	if f == nil {
		verifGo.Store(nil)
		return
	}
	verifGo.Store(&f)
}

func verifStep(name string) {
	if f := verifGo.Load(); f != nil && name != "" && name[0] == '/' {
		(*f)()
	}
}

// Close is the hooked form of the call.
func (f *File) Close() error {
	if f != nil && f.file != nil {
		verifStep(f.name)
	}
	return f.verifClose()
}

// ReadAt is the hooked form of the call.
func (f *File) ReadAt(b []byte, off int64) (n int, err error) {
	if f != nil && f.file != nil {
		verifStep(f.name)
	}
	return f.verifReadAt(b, off)
}

// Stat is the hooked form of the call.
func Stat(name string) (FileInfo, error) {
	verifStep(name)
	return verifStat(name)
}

// VerifSetHook makes f see every successful call that changes a file, in the order of their effects.
func VerifSetHook(f func(o VerifOp)) {
	verifMu.Lock()
	defer verifMu.Unlock()
	if f == nil {
		verifHook.Store(nil)
		return
	}
	verifHook.Store(&f)
}

// VerifSetFault makes f decide whether a call that changes a file fails.
func VerifSetFault(f func(o VerifOp) error) {
	verifMu.Lock()
	defer verifMu.Unlock()
	if f == nil {
		verifPre.Store(nil)
		return
	}
	verifPre.Store(&f)
}

type verifShort int

func (k verifShort) Error() string { return "input/output error" }

// VerifShort is the fault of a write of which k bytes are written.
func VerifShort(k int) error { return verifShort(k) }

func verifOn() bool { return verifHook.Load() != nil || verifPre.Load() != nil }

func verifFault(o VerifOp) error {
	if f := verifPre.Load(); f != nil {
		return (*f)(o)
	}
	return nil
}

func verifTell(o VerifOp) {
	if f := verifHook.Load(); f != nil {
		(*f)(o)
	}
}

// Write is the hooked form of the call.
func (f *File) Write(b []byte) (n int, err error) {
	if f != nil && f.file != nil {
		verifStep(f.name)
	}
	if f == nil || f.name == "" || f.name[0] != '/' || !verifOn() {
		return f.verifWrite(b)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	var off int64
	if f.appendMode {
		if fi, err := f.Stat(); err == nil {
			off = fi.Size()
		}
	} else {
		off, err = f.Seek(0, 1)
		if err != nil {
			return f.verifWrite(b)
		}
	}
	o := VerifOp{Op: "write", Name: f.name, Off: off, Data: b, File: f}
	if err := verifFault(o); err != nil {
		if k, ok := err.(verifShort); ok && int(k) < len(b) {
			n, _ = f.verifWrite(b[:k])
			if n > 0 {
				o.Data = b[:n]
				verifTell(o)
			}
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	n, err = f.verifWrite(b)
	if n > 0 {
		o.Data = b[:n]
		verifTell(o)
	}
	return n, err
}

// WriteAt is the hooked form of the call.
func (f *File) WriteAt(b []byte, off int64) (n int, err error) {
	if f != nil && f.file != nil {
		verifStep(f.name)
	}
	if f == nil || !verifOn() {
		return f.verifWriteAt(b, off)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "write", Name: f.name, Off: off, Data: b, File: f}
	if err := verifFault(o); err != nil {
		if k, ok := err.(verifShort); ok && int(k) < len(b) {
			n, _ = f.verifWriteAt(b[:k], off)
			if n > 0 {
				o.Data = b[:n]
				verifTell(o)
			}
		}
		return n, &PathError{Op: "write", Path: f.name, Err: err}
	}
	n, err = f.verifWriteAt(b, off)
	if n > 0 {
		o.Data = b[:n]
		verifTell(o)
	}
	return n, err
}

// Truncate is the hooked form of the call.
func (f *File) Truncate(size int64) error {
	if f != nil && f.file != nil {
		verifStep(f.name)
	}
	if f == nil || !verifOn() {
		return f.verifTruncate(size)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "truncate", Name: f.name, Off: size, File: f}
	if err := verifFault(o); err != nil {
		return &PathError{Op: "truncate", Path: f.name, Err: err}
	}
	err := f.verifTruncate(size)
	if err == nil {
		verifTell(o)
	}
	return err
}

// Mkdir is the hooked form of the call.
func Mkdir(name string, perm FileMode) error {
	verifStep(name)
	if !verifOn() {
		return verifMkdir(name, perm)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "mkdir", Name: name}
	if err := verifFault(o); err != nil {
		return &PathError{Op: "mkdir", Path: name, Err: err}
	}
	err := verifMkdir(name, perm)
	if err == nil {
		verifTell(o)
	}
	return err
}

// OpenFile is the hooked form of the call.
func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	verifStep(name)
	if !verifOn() || flag&(O_CREATE|O_TRUNC) == 0 {
		return verifOpenFile(name, flag, perm)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "create", Name: name}
	if err := verifFault(o); err != nil {
		return nil, &PathError{Op: "open", Path: name, Err: err}
	}
	f, err := verifOpenFile(name, flag, perm)
	if err == nil {
		if flag&O_TRUNC != 0 {
			o.Op = "createtrunc"
		}
		o.File = f
		verifTell(o)
	}
	return f, err
}

// Rename is the hooked form of the call.
func Rename(oldpath, newpath string) error {
	verifStep(oldpath)
	if !verifOn() {
		return verifRename(oldpath, newpath)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "rename", Name: oldpath, To: newpath}
	if err := verifFault(o); err != nil {
		return &LinkError{"rename", oldpath, newpath, err}
	}
	err := verifRename(oldpath, newpath)
	if err == nil {
		verifTell(o)
	}
	return err
}

// Remove is the hooked form of the call.
func Remove(name string) error {
	verifStep(name)
	if !verifOn() {
		return verifRemove(name)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "remove", Name: name}
	if err := verifFault(o); err != nil {
		return &PathError{Op: "remove", Path: name, Err: err}
	}
	err := verifRemove(name)
	if err == nil {
		verifTell(o)
	}
	return err
}

// Truncate is the hooked form of the call.
func Truncate(name string, size int64) error {
	verifStep(name)
	if !verifOn() {
		return verifTruncateName(name, size)
	}
	verifMu.Lock()
	defer verifMu.Unlock()
	o := VerifOp{Op: "truncate", Name: name, Off: size}
	if err := verifFault(o); err != nil {
		return &PathError{Op: "truncate", Path: name, Err: err}
	}
	err := verifTruncateName(name, size)
	if err == nil {
		verifTell(o)
	}
	return err
}
''')
rep[os.path.join(src, "zz_verif.go")] = os.path.join(out, "zz_verif.go")
json.dump(rep, sys.stdout)
