package v

// A model of the file system used by the executor in place of package os.

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"
)

type fsNode struct {
	data  []byte
	mtime int64
	dir   bool
}

type fsHandle struct {
	path  string
	node  *fsNode
	off   int
	names []string
	write bool
	apnd  bool
}

var (
	fsFiles   = map[string]*fsNode{}
	fsHandles = map[*os.File]*fsHandle{}
	fsClock   = int64(1700000000)
	fsTemp    = 0
	fsLimit   = -1
)

func fsClean(p string) string {
	p = filepath.Clean(p)
	if !strings.HasPrefix(p, "/") {
		p = fsCwd + "/" + p
		p = filepath.Clean(p)
	}
	return p
}

func fsMkdirs(p string) {
	for p != "/" && p != "." {
		if n := fsFiles[p]; n == nil {
			fsFiles[p] = &fsNode{dir: true}
		}
		p = filepath.Dir(p)
	}
}

func fsPut(path string, data []byte, mtime int64) {
	p := fsClean(path)
	fsMkdirs(filepath.Dir(p))
	fsFiles[p] = &fsNode{data: data, mtime: mtime}
}

func fsRemove(path string) { delete(fsFiles, fsClean(path)) }

func fsErr(op, path string, err error) error {
	return &fs.PathError{Op: op, Path: path, Err: err}
}

func fsIsDir(p string) bool {
	if p == "/" || p == "/v" || p == "/cwd" {
		return true
	}
	n := fsFiles[p]
	return n != nil && n.dir
}

func fsLookup(op, path string) (*fsNode, error) {
	p := fsClean(path)
	n := fsFiles[p]
	if n == nil {
		if fsIsDir(p) {
			return &fsNode{dir: true}, nil
		}
		for d := filepath.Dir(p); d != "/"; d = filepath.Dir(d) {
			if q := fsFiles[d]; q != nil && !q.dir {
				return nil, fsErr(op, path, syscall.ENOTDIR)
			}
		}
		return nil, fsErr(op, path, syscall.ENOENT)
	}
	return n, nil
}

type fsInfo struct {
	name string
	node *fsNode
}

func (i fsInfo) Name() string { return i.name }
func (i fsInfo) Size() int64  { return int64(len(i.node.data)) }
func (i fsInfo) Mode() fs.FileMode {
	if i.node.dir {
		return fs.ModeDir | 0o755
	}
	return 0o644
}
func (i fsInfo) ModTime() time.Time { return fsTime(i.node.mtime) }

// fsTime is the time of a modification: t/2 seconds, and a nanosecond more if t is odd.
func fsTime(t int64) time.Time { return time.Unix(fsClock+t>>1, t&1) }
func (i fsInfo) IsDir() bool   { return i.node.dir }
func (i fsInfo) Sys() any      { return nil }

func OsStat(path string) (os.FileInfo, error) {
	n, err := fsLookup("stat", path)
	if err != nil {
		return nil, err
	}
	return fsInfo{filepath.Base(path), n}, nil
}

func OsReadFile(path string) ([]byte, error) {
	n, err := fsLookup("open", path)
	if err != nil {
		return nil, err
	}
	if n.dir {
		return nil, fsErr("read", path, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

func OsWriteFile(path string, data []byte, perm os.FileMode) error {
	f, err := OsOpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = FileWrite(f, data)
	return err
}

func OsOpen(path string) (*os.File, error) { return OsOpenFile(path, os.O_RDONLY, 0) }
func OsCreate(path string) (*os.File, error) {
	return OsOpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func OsOpenFile(path string, flag int, perm os.FileMode) (*os.File, error) {
	p := fsClean(path)
	n, err := fsLookup("open", path)
	if err != nil {
		if flag&os.O_CREATE == 0 || !fsIsDir(filepath.Dir(p)) {
			return nil, err
		}
		n = &fsNode{mtime: 1 << 20}
		fsFiles[p] = n
	}
	w := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n.dir && w {
		return nil, fsErr("open", path, syscall.EISDIR)
	}
	if err == nil && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, fsErr("open", path, syscall.EEXIST)
	}
	if w && flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := new(os.File)
	h := &fsHandle{path: path, node: n, write: w, apnd: flag&os.O_APPEND != 0}
	if n.dir {
		h.names = fsNames(p)
	}
	fsHandles[f] = h
	return f, nil
}

func fsNames(d string) []string {
	var out []string
	for p := range fsFiles {
		if filepath.Dir(p) == d && p != d {
			out = append(out, filepath.Base(p))
		}
	}
	sort.Strings(out)
	return out
}

func OsMkdirAll(path string, perm os.FileMode) error {
	p := fsClean(path)
	for q := p; q != "/"; q = filepath.Dir(q) {
		if n := fsFiles[q]; n != nil && !n.dir {
			return fsErr("mkdir", path, syscall.ENOTDIR)
		}
	}
	fsMkdirs(p)
	return nil
}

func OsRemove(path string) error {
	if _, err := fsLookup("remove", path); err != nil {
		return err
	}
	fsRemove(path)
	return nil
}

func OsRemoveAll(path string) error {
	p := fsClean(path)
	for q := range fsFiles {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(fsFiles, q)
		}
	}
	return nil
}

func OsRename(from, to string) error {
	n, err := fsLookup("rename", from)
	if err != nil {
		return err
	}
	p := fsClean(to)
	if !fsIsDir(filepath.Dir(p)) {
		return fsErr("rename", to, syscall.ENOENT)
	}
	if fsIsDir(p) && !n.dir {
		return fsErr("rename", to, syscall.EEXIST)
	}
	f := fsClean(from)
	for q, m := range fsFiles {
		if strings.HasPrefix(q, f+"/") {
			delete(fsFiles, q)
			fsFiles[p+q[len(f):]] = m
		}
	}
	delete(fsFiles, f)
	fsFiles[p] = n
	return nil
}

func fsTempName(dir, pattern string) string {
	if dir == "" {
		dir = os.TempDir()
		fsMkdirs(fsClean(dir))
	}
	fsTemp++
	pre, post := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	return filepath.Join(dir, pre+strings.Repeat("7", fsTemp)+post)
}

func OsMkdirTemp(dir, pattern string) (string, error) {
	name := fsTempName(dir, pattern)
	if !fsIsDir(fsClean(filepath.Dir(name))) {
		return "", fsErr("mkdir", name, syscall.ENOENT)
	}
	fsMkdirs(fsClean(name))
	return name, nil
}

func OsCreateTemp(dir, pattern string) (*os.File, error) {
	return OsOpenFile(fsTempName(dir, pattern), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0o600)
}

func OsReadDir(path string) ([]os.DirEntry, error) {
	n, err := fsLookup("open", path)
	if err != nil {
		return nil, err
	}
	if !n.dir {
		return nil, fsErr("readdirent", path, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, name := range fsNames(fsClean(path)) {
		out = append(out, fs.FileInfoToDirEntry(fsInfo{name, fsFiles[fsClean(path)+"/"+name]}))
	}
	return out, nil
}

func OsChtimes(path string, atime, mtime time.Time) error {
	n, err := fsLookup("chtimes", path)
	if err != nil {
		return err
	}
	n.mtime = 2 * (mtime.Unix() - fsClock)
	if mtime.Nanosecond() > 0 {
		n.mtime++
	}
	return nil
}

func OsChmod(path string, mode os.FileMode) error {
	_, err := fsLookup("chmod", path)
	return err
}

func FileSync(f *os.File) error { return nil }

func FileChmod(f *os.File, mode os.FileMode) error { return nil }

var fsCwd = "/v"

func OsGetwd() (string, error) { return fsCwd, nil }

func OsChdir(p string) error {
	n, err := fsLookup("chdir", p)
	if err != nil {
		return err
	}
	if !n.dir {
		return fsErr("chdir", p, syscall.ENOTDIR)
	}
	fsCwd = fsClean(p)
	return nil
}

func FileRead(f *os.File, b []byte) (int, error) {
	h := fsHandles[f]
	if h == nil {
		return 0, errors.New("file already closed")
	}
	if h.node.dir {
		return 0, fsErr("read", h.path, syscall.EISDIR)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= len(h.node.data) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.off:])
	h.off += n
	return n, nil
}

func FileWrite(f *os.File, b []byte) (int, error) {
	h := fsHandles[f]
	if h == nil {
		return len(b), nil // a standard stream
	}
	runtime.Gosched() // others may write in between
	if !h.write {
		return 0, fsErr("write", h.path, syscall.EBADF)
	}
	if h.apnd {
		h.off = len(h.node.data)
	}
	for len(h.node.data) < h.off {
		h.node.data = append(h.node.data, 0)
	}
	if fsLimit >= 0 && h.off+len(b) > fsLimit {
		k := fsLimit - h.off
		if k > 0 {
			n := copy(h.node.data[h.off:], b[:k])
			h.node.data = append(h.node.data, b[n:k]...)
			h.off += k
		} else {
			k = 0
		}
		return k, fsErr("write", h.path, syscall.EFBIG)
	}
	n := copy(h.node.data[h.off:], b)
	h.node.data = append(h.node.data, b[n:]...)
	h.off += len(b)
	return len(b), nil
}

func FileWriteString(f *os.File, s string) (int, error) { return FileWrite(f, []byte(s)) }

func FileClose(f *os.File) error {
	if f == nil {
		return os.ErrInvalid
	}
	delete(fsHandles, f)
	return nil
}

func FileName(f *os.File) string {
	if h := fsHandles[f]; h != nil {
		return h.path
	}
	return ""
}

func FileStat(f *os.File) (os.FileInfo, error) {
	h := fsHandles[f]
	if h == nil {
		return nil, os.ErrClosed
	}
	return fsInfo{filepath.Base(h.path), h.node}, nil
}

func FileReaddirnames(f *os.File, n int) ([]string, error) {
	h := fsHandles[f]
	if h == nil {
		return nil, os.ErrClosed
	}
	if !h.node.dir {
		return nil, fsErr("readdirent", h.path, syscall.ENOTDIR)
	}
	out := h.names
	if n > 0 && len(out) == 0 {
		return nil, io.EOF
	}
	if n > 0 && len(out) > n {
		out = out[:n]
	}
	h.names = h.names[len(out):]
	return out, nil
}

func FileReaddir(f *os.File, n int) ([]os.FileInfo, error) {
	names, err := FileReaddirnames(f, n)
	if err != nil {
		return nil, err
	}
	out := []os.FileInfo{}
	for _, name := range names {
		out = append(out, fsInfo{name, fsFiles[fsClean(fsHandles[f].path)+"/"+name]})
	}
	return out, nil
}

func FileReadDir(f *os.File, n int) ([]os.DirEntry, error) {
	infos, err := FileReaddir(f, n)
	var out []os.DirEntry
	for _, info := range infos {
		out = append(out, fs.FileInfoToDirEntry(info))
	}
	return out, err
}

// FileSeek supports rewinding.
func FileSeek(f *os.File, off int64, whence int) (int64, error) {
	h := fsHandles[f]
	if h == nil {
		return 0, os.ErrClosed
	}
	switch whence {
	case io.SeekStart:
		h.off = int(off)
	case io.SeekCurrent:
		h.off += int(off)
	case io.SeekEnd:
		h.off = len(h.node.data) + int(off)
	}
	return int64(h.off), nil
}

// FileReadFrom copies by reads and writes.
func FileReadFrom(f *os.File, r io.Reader) (int64, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	n, err := FileWrite(f, b)
	return int64(n), err
}

// FileWriteTo copies by reads and writes.
func FileWriteTo(f *os.File, w io.Writer) (int64, error) {
	var total int64
	b := make([]byte, 512)
	for {
		n, err := FileRead(f, b)
		if n > 0 {
			m, err := w.Write(b[:n])
			total += int64(m)
			if err != nil {
				return total, err
			}
		}
		if err == io.EOF {
			return total, nil
		}
		if err != nil {
			return total, err
		}
	}
}
