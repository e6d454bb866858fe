// Driver for C29, C30 and C31: listings, digests and file operations (fs) in a directory of its own. It is meant to
// be run as an unprivileged user: nothing outside its directory can be changed by it.
package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash"
	"hash/crc32"
	"hash/crc64"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vipally/gx/fs"
	"gxverif/drv"
)

var work string // directory of this script

func text(p []string, abs bool) string {
	if abs || len(p) == 0 {
		return strings.Join(append([]string{work}, p...), "/")
	}
	return strings.Join(p, "/")
}

// back turns a path text into names relative to work.
func back(s string) []string {
	if s == work {
		return []string{}
	}
	r := strings.TrimPrefix(s, work+"/")
	if r == "" || strings.HasPrefix(r, "/") || filepath.Clean(r) != r || r == ".." || strings.HasPrefix(r, "../") {
		return []string{"?" + s}
	}
	return strings.Split(r, "/")
}

// owners gives, for every path, its owner and group.
func owners() []interface{} {
	r := []interface{}{}
	filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err == nil {
			x := fi.Sys().(*syscall.Stat_t)
			r = append(r, []interface{}{back(p), int(x.Uid), int(x.Gid)})
		}
		return nil
	})
	return r
}

// left counts the descriptors of this process that lead into work.
func left() (n int) {
	ds, _ := os.ReadDir("/proc/self/fd")
	for _, d := range ds {
		if x, err := os.Readlink("/proc/self/fd/" + d.Name()); err == nil && (x == work || strings.HasPrefix(x, work+"/")) {
			n++
		}
	}
	return
}

func strs(x interface{}) []string {
	r := []string{}
	for _, v := range x.([]interface{}) {
		r = append(r, v.(string))
	}
	return r
}

func expand(x interface{}) []byte {
	b := []byte{}
	for _, v := range x.([]interface{}) {
		r := v.([]interface{})
		for i := 0; i < int(r[1].(float64)); i++ {
			b = append(b, byte(r[0].(float64)))
		}
	}
	return b
}

func rle(b []byte) [][]int {
	r := [][]int{}
	for _, c := range b {
		if k := len(r) - 1; k >= 0 && r[k][0] == int(c) {
			r[k][1]++
		} else {
			r = append(r, []int{int(c), 1})
		}
	}
	return r
}

func kind(fi os.FileInfo) string {
	switch {
	case fi.IsDir():
		return "d"
	case fi.Mode().IsRegular():
		return "f"
	case fi.Mode()&os.ModeSymlink != 0:
		return "l"
	}
	return "?"
}

func isDir(p string) bool {
	fi, err := os.Lstat(p)
	return err == nil && fi.IsDir()
}

// dump is the whole tree as the operating system sees it.
func dump() (rows []interface{}) {
	rows = []interface{}{}
	first := map[uint64]int{}
	filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			drv.Fail("dump: %v", err)
		}
		if p == work {
			return nil
		}
		data, to, ino := [][]int{}, []string{}, fi.Sys().(*syscall.Stat_t).Ino
		switch kind(fi) {
		case "f":
			b, err := os.ReadFile(p)
			if err != nil {
				drv.Fail("dump: %v", err)
			}
			data = rle(b)
		case "l":
			x, _ := os.Readlink(p)
			to = back(x)
		}
		if first[ino] == 0 {
			first[ino] = len(rows) + 1
		}
		rows = append(rows, []interface{}{back(p), kind(fi), int(fi.Mode().Perm()), data, to, first[ino]})
		return nil
	})
	return
}

func build(x interface{}) {
	for _, v := range x.([]interface{}) {
		r := v.([]interface{})
		p := text(strs(r[0]), true)
		var err error
		switch r[1].(string) {
		case "d":
			err = os.Mkdir(p, 0755)
		case "f":
			err = os.WriteFile(p, expand(r[2]), 0644)
		case "l":
			err = os.Symlink(text(strs(r[3]), true), p)
		}
		if err != nil {
			drv.Fail("build: %v", err)
		}
	}
}

// rebuild turns the tree into another one; files that stay are written again in place.
func rebuild(x interface{}) {
	rows, stay := []interface{}{}, map[string]string{}
	for _, v := range x.([]interface{}) {
		r := v.([]interface{})
		stay[text(strs(r[0]), true)] = r[1].(string)
	}
	filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			drv.Fail("rebuild: %v", err)
		}
		if p == work {
			return nil
		}
		if stay[p] != kind(fi) || kind(fi) == "l" {
			if err := os.RemoveAll(p); err != nil {
				drv.Fail("rebuild: %v", err)
			}
			if fi.IsDir() {
				return filepath.SkipDir
			}
			return nil
		}
		os.Chmod(p, map[string]os.FileMode{"d": 0755, "f": 0644}[kind(fi)])
		return nil
	})
	for _, v := range x.([]interface{}) {
		r := v.([]interface{})
		p := text(strs(r[0]), true)
		if _, err := os.Lstat(p); err != nil {
			rows = append(rows, v)
		} else if r[1] == "f" {
			if b, err := os.ReadFile(p); err == nil && string(b) == string(expand(r[2])) {
				continue
			}
			if err := os.WriteFile(p, expand(r[2]), 0644); err != nil {
				drv.Fail("rebuild: %v", err)
			}
		}
	}
	build(rows)
}

// pin gives everything in the tree the same time.
func pin() {
	at := time.Unix(1500000000, 0)
	filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
		if err == nil && kind(fi) != "l" {
			os.Chtimes(p, at, at)
		}
		return nil
	})
}

func do(m map[string]interface{}, abs bool, e drv.Ev) {
	for k, v := range m {
		e[k] = v
	}
	p := fs.FilePath(text(strs(m["path"]), abs))
	mode := fs.FileMode(m["m"].(float64))
	to := ""
	if m["abs"].(bool) {
		to = text(strs(m["to"]), true)
	} else {
		to = strings.Join(strs(m["to"]), "/")
	}
	var err error
	var n fs.FilePathObject
	put := func(f *os.File, er error) error {
		if er == nil {
			_, er = f.Write(expand(m["data"]))
			f.Close()
		}
		return er
	}
	switch m["f"] {
	case "mkdir":
		err = p.Mkdir(mode)
	case "mkdirall":
		err = p.MkdirAll(mode)
	case "create":
		err = put(p.Create())
	case "openfile":
		err = put(p.OpenFile(os.O_RDWR|os.O_CREATE|os.O_TRUNC, mode))
	case "openx":
		var f *os.File
		fl := 0
		e["read"], e["werr"] = [][]int{}, false
		for _, x := range strs(m["fl"]) {
			fl |= map[string]int{"ro": os.O_RDONLY, "wo": os.O_WRONLY, "rw": os.O_RDWR, "create": os.O_CREATE, "excl": os.O_EXCL, "append": os.O_APPEND, "trunc": os.O_TRUNC}[x]
		}
		if f, err = p.OpenFile(fl, mode); err == nil {
			_, er := f.Write(expand(m["data"]))
			e["werr"] = er != nil
			if fi, er := f.Stat(); er == nil && !fi.IsDir() {
				f.Seek(0, io.SeekStart)
				if b, er := io.ReadAll(f); er == nil {
					e["read"] = rle(b)
				}
			}
			f.Close()
		}
	case "truncate":
		err = p.Truncate(int64(m["n"].(float64)))
	case "chmod":
		err = p.Chmod(mode)
	case "remove":
		err = p.Remove()
	case "removeall":
		err = p.RemoveAll()
	case "rename":
		n, err = p.Rename(to)
	case "move":
		n, err = p.Move(to)
	case "link":
		n, err = p.Link(to)
	case "symlink":
		n, err = fs.FilePath(text(strs(m["path"]), true)).Symlink(to)
	}
	if err != nil && os.Getenv("DRV_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, err)
	}
	e["ok"], e["got"] = err == nil, back(n.String())
	e["dump"] = dump()
}

func look(p []string, abs bool, e drv.Ev) {
	q := fs.FilePath(text(p, abs))
	e["path"] = p
	fi, err := q.Lstat()
	e["lok"], e["lk"], e["lsize"] = err == nil, "", 0
	if err == nil {
		e["lk"], e["lsize"] = kind(fi), int(fi.Size())
	}
	fi, err = q.Stat()
	e["sok"], e["sk"] = err == nil, ""
	if err == nil {
		e["sk"] = kind(fi)
	}
	e["rok"], e["data"] = false, [][]int{}
	if f, err := q.Open(); err == nil {
		if b, err := io.ReadAll(f); err == nil {
			e["rok"], e["data"] = true, rle(b)
		}
		f.Close()
	}
	s, err := q.EvalSymlinks()
	e["eok"], e["eval"] = err == nil, back(s)
	s, err = q.Readlink()
	e["kok"], e["link"] = err == nil, back(s)
}

var opts = map[string]fs.FsOption{"dir": fs.FsDir, "file": fs.FsFile, "full": fs.FsFullPath, "deep": fs.FsDeep, "leaf": fs.FsLeaf}

func list(how string, p []string, abs bool, o []string, e drv.Ev) {
	d := text(p, abs)
	var l []string
	var err error
	switch how {
	case "leafdirs":
		l, err = fs.GetLeafDirs(d)
		o = []string{"dir", "leaf", "full"}
	case "dirs":
		l, err = fs.GetSubDirs(d)
		o = []string{"dir"}
	case "files":
		l, err = fs.GetSubFiles(d)
		o = []string{"file"}
	case "subs":
		l, err = fs.GetSubs(d)
		o = []string{"dir", "file"}
	case "deepfiles":
		l, err = fs.GetDeepFiles(d)
		o = []string{"file", "deep"}
	default:
		op := fs.FsNone
		for _, x := range o {
			op |= opts[x]
		}
		l, err = fs.CollectSubs(d, op)
	}
	full := false
	for _, x := range o {
		full = full || x == "full"
	}
	got := [][]string{}
	for _, x := range l {
		if full {
			got = append(got, back(x))
		} else {
			got = append(got, []string{x})
		}
	}
	e["path"], e["o"], e["ok"], e["got"], e["top"] = p, o, err == nil, got, filepath.Base(work)
	if err != nil {
		e["got"] = [][]string{}
	}
}

// ---------------------------------------------------------------- digests by the standard library
var iso = crc64.MakeTable(crc64.ISO)

func std(method string, in []byte, size int64) string {
	var h hash.Hash
	switch method {
	case "MD5":
		h = md5.New()
	case "SHA1":
		h = sha1.New()
	case "SHA256":
		h = sha256.New()
	case "SHA512":
		h = sha512.New()
	case "CRC32":
		h = crc32.NewIEEE()
	case "CRC64":
		h = crc64.New(iso)
	case "FINGERPRINT", "fp":
		a, b, c := md5.Sum(in), sha1.Sum(in), crc64.New(iso)
		c.Write(in)
		if method == "fp" {
			return fmt.Sprintf("%012x-%x-%x-%x", size, a[4:10], b[7:13], c.Sum(nil)[1:7])
		}
		return fmt.Sprintf("%012x%x%x%x", len(in), a[4:10], b[7:13], c.Sum(nil)[1:7])
	default:
		drv.Fail("method %s", method)
	}
	h.Write(in)
	return hex.EncodeToString(h.Sum(nil))
}

func bs(s string) []int {
	r := make([]int, len(s))
	for i := range r {
		r[i] = int(s[i])
	}
	return r
}

type dig struct {
	size int64
	h    string
}

func oracle(p []string, method, salt string, fd, dd *[]interface{}) (d dig) {
	s := text(p, true)
	fi, err := os.Stat(s) // links are followed
	if err != nil {
		return
	}
	if !fi.IsDir() {
		b, _ := os.ReadFile(s)
		d = dig{int64(len(b)), std(method, append([]byte(salt), b...), int64(len(b)))}
		*fd = append(*fd, []interface{}{p, bs(d.h)})
		return
	}
	es, _ := os.ReadDir(s)
	ks := []dig{}
	for _, x := range es {
		k := oracle(append(append([]string{}, p...), x.Name()), method, salt, fd, dd)
		ks = append(ks, k)
		d.size += k.size
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].size < ks[j].size || ks[i].size == ks[j].size && ks[i].h < ks[j].h })
	in := ""
	for _, k := range ks {
		in += k.h
	}
	d.h = std(method, append([]byte(salt), in...), d.size)
	*dd = append(*dd, []interface{}{bs(in), int(d.size), bs(d.h)})
	return
}

var methods = map[string]func(fs.FilePathObject, string) (*fs.FileHashTreeNode, error){
	"MD5":         func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.MD5, s) },
	"SHA1":        func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.SHA1, s) },
	"SHA256":      func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.SHA256, s) },
	"SHA512":      func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.SHA512, s) },
	"CRC32":       func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.CRC32, s) },
	"CRC64":       func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.CRC64, s) },
	"FINGERPRINT": func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Hash(fs.FINGERPRINT, s) },
	"fp":          func(p fs.FilePathObject, s string) (*fs.FileHashTreeNode, error) { return p.Fingerprint() },
}

func digest(p []string, abs bool, method, salt string, e drv.Ev) {
	if method == "fp" { // takes no salt
		salt = ""
	}
	root, err := methods[method](fs.FilePath(text(p, abs)), salt)
	nodes, visit, rev, fd, dd := []interface{}{}, [][]string{}, [][]string{}, []interface{}{}, []interface{}{}
	if err == nil {
		for _, v := range root.All() {
			nodes = append(nodes, []interface{}{back(v.Path), int(v.Size.N()), v.IsDir, bs(v.Hash)})
		}
		for v := root.Visitor(); v.Next() && len(visit) <= 2*len(nodes); {
			visit = append(visit, back(v.Get().Path))
		}
		for v := root.Visitor(); v.Prev() && len(rev) <= 2*len(nodes); {
			rev = append(rev, back(v.Get().Path))
		}
		oracle(p, method, salt, &fd, &dd)
	}
	e["path"], e["ok"], e["nodes"], e["visit"], e["back"], e["fdig"], e["ddig"] = p, err == nil, nodes, visit, rev, fd, dd
}

func limbs(n int64) []int { return []int{int(n >> 20), int(n & (1<<20 - 1))} }

// modes: call f with mode bits m (setuid 2048, setgid 1024, sticky 512) under a umask; the same through os on a twin
func modes(f string, m, umask int, e drv.Ev) {
	d := work + "/modes"
	if err := os.Mkdir(d, 0755); err != nil {
		drv.Fail("%v", err)
	}
	defer os.RemoveAll(d)
	fm, gm := os.FileMode(m&0777), fs.FileMode(m&0777)
	for _, x := range []struct {
		bit int
		o   os.FileMode
		g   fs.FileMode
	}{{2048, os.ModeSetuid, fs.ModeSetuid}, {1024, os.ModeSetgid, fs.ModeSetgid}, {512, os.ModeSticky, fs.ModeSticky}} {
		if m&x.bit != 0 {
			fm, gm = fm|x.o, gm|x.g
		}
	}
	a, b := d+"/a", d+"/b"
	if f == "chmod" || f == "chmoddir" {
		for _, p := range []string{a, b} {
			if f == "chmod" {
				os.WriteFile(p, nil, 0640)
			} else {
				os.Mkdir(p, 0750)
			}
		}
	}
	old := syscall.Umask(umask)
	var err, er error
	shut := func(x *os.File, err error) error {
		if err == nil {
			x.Close()
		}
		return err
	}
	o := fs.FilePath(a)
	switch f {
	case "chmod", "chmoddir":
		err, er = o.Chmod(gm), os.Chmod(b, fm)
	case "mkdir":
		err, er = o.Mkdir(gm), os.Mkdir(b, fm)
	case "mkdirall":
		err, er = o.MkdirAll(gm), os.MkdirAll(b, fm)
	case "openfile":
		err, er = shut(o.OpenFile(os.O_CREATE|os.O_RDWR, gm)), shut(os.OpenFile(b, os.O_CREATE|os.O_RDWR, fm))
	case "create":
		err, er = shut(o.Create()), shut(os.Create(b))
	}
	syscall.Umask(old)
	bits := func(p string) int {
		fi, err := os.Lstat(p)
		if err != nil {
			return -1
		}
		n := int(fi.Mode().Perm())
		for k, x := range map[int]os.FileMode{2048: os.ModeSetuid, 1024: os.ModeSetgid, 512: os.ModeSticky} {
			if fi.Mode()&x != 0 {
				n |= k
			}
		}
		return n
	}
	e["f"], e["m"], e["umask"], e["ok"], e["twinok"], e["got"], e["twin"] = f, m, umask, err == nil, er == nil, bits(a), bits(b)
}

// storable: whether the file system keeps these times.
func storable(a, m time.Time) bool {
	f, err := os.CreateTemp(filepath.Dir(work), "t")
	if err != nil {
		drv.Fail("%v", err)
	}
	f.Close()
	defer os.Remove(f.Name())
	if os.Chtimes(f.Name(), a, m) != nil {
		return false
	}
	fi, err := os.Stat(f.Name())
	if err != nil {
		return false
	}
	x := fi.Sys().(*syscall.Stat_t)
	return time.Unix(x.Atim.Unix()).Equal(a) && time.Unix(x.Mtim.Unix()).Equal(m)
}

// sparse: rows of [name, size] (size as limbs) in a directory; question stat, ops, or a digest method.
func sparse(rows []interface{}, q string, e drv.Ev) {
	d := work + "/sparse"
	if err := os.Mkdir(d, 0755); err != nil {
		drv.Fail("%v", err)
	}
	defer os.RemoveAll(d)
	out, ops := []interface{}{}, []interface{}{}
	e["rows"], e["q"], e["skip"], e["ops"] = rows, q, false, ops
	for _, r := range rows {
		r := r.([]interface{})
		name := r[0].(string)
		size := int64(r[1].([]interface{})[0].(float64))<<20 + int64(r[1].([]interface{})[1].(float64))
		p := d + "/" + name
		if err := os.WriteFile(p, nil, 0644); err != nil {
			drv.Fail("%v", err)
		}
		err := os.Truncate(p, size)
		if err != nil { // the file system has no such files
			e["skip"] = true
			return
		}
		if q == "ops" {
			os.Truncate(p, 0)
			o := fs.FilePath(p)
			err := o.Truncate(size)
			real, _ := os.Stat(p)
			l, er1 := o.Lstat()
			s, er2 := o.Stat()
			if er1 != nil || er2 != nil {
				l, s = real, nil
			}
			ops = append(ops, []interface{}{err == nil, limbs(real.Size()), limbs(l.Size()), s != nil && limbs(s.Size())[0] == limbs(l.Size())[0] && s.Size() == l.Size()})
		}
	}
	e["ops"] = ops
	switch q {
	case "ops":
	case "stat":
		nd, nf, size, info := fs.FilePath(d).Statistic()
		e["dirs"], e["files"], e["size"], e["info"] = nd, nf, limbs(int64(size)), len(info)
	default:
		stop := make(chan bool)
		defer close(stop)
		go func() {
			for k := 0; k < 300; k++ { // long, not hanging
				select {
				case <-stop:
					return
				case <-time.After(time.Second):
					drv.Tick()
				}
			}
		}()
		root, err := methods[q](fs.FilePath(d), "")
		e["ok"] = err == nil
		if err != nil {
			return
		}
		for _, v := range root.All() {
			out = append(out, []interface{}{back(v.Path), limbs(int64(v.Size.N())), v.IsDir, bs(v.Hash)})
		}
		e["nodes"], e["fdig"] = out, []interface{}{}
		fd, dd := []interface{}{}, []interface{}{}
		type kid struct {
			size int64
			h    string
		}
		ks, total := []kid{}, int64(0)
		es, _ := os.ReadDir(d)
		for _, x := range es {
			f, err := os.Open(d + "/" + x.Name())
			if err != nil {
				drv.Fail("%v", err)
			}
			n, h := stream(q, f)
			f.Close()
			total += n
			ks = append(ks, kid{n, h})
			fd = append(fd, []interface{}{back(d + "/" + x.Name()), bs(h)})
		}
		sort.SliceStable(ks, func(i, j int) bool { return ks[i].size < ks[j].size || ks[i].size == ks[j].size && ks[i].h < ks[j].h })
		in := ""
		for _, k := range ks {
			in += k.h
		}
		dd = append(dd, bs(in), bs(std(q, []byte(in), total)))
		e["fdig"], e["ddig"] = fd, dd
	}
}

// stream digests without holding the bytes.
func stream(method string, r io.Reader) (n int64, h string) {
	switch method {
	case "CRC32":
		c := crc32.NewIEEE()
		n, _ = io.Copy(c, r)
		return n, hex.EncodeToString(c.Sum(nil))
	case "fp":
		a, b, c := md5.New(), sha1.New(), crc64.New(iso)
		n, _ = io.Copy(io.MultiWriter(a, b, c), r)
		return n, fmt.Sprintf("%012x-%x-%x-%x", n, a.Sum(nil)[4:10], b.Sum(nil)[7:13], c.Sum(nil)[1:7])
	}
	drv.Fail("method %s", method)
	return
}

func run(t *drv.T, s drv.Script) {
	top, err := os.Getwd()
	if err != nil {
		drv.Fail("%v", err)
	}
	if work, err = os.MkdirTemp(top, "w"); err != nil {
		drv.Fail("%v", err)
	}
	os.Chmod(work, 0755)
	os.Chdir(work)
	shut := []string{}
	defer func() {
		for _, p := range shut {
			os.Chmod(p, 0755)
		}
		os.Chdir(top)
		os.RemoveAll(work)
	}()
	run := func(name string, f func(drv.Ev)) {
		t.Op(name, func(e drv.Ev) {
			e["open"] = 0
			f(e)
			e["open"] = left()
		})
	}
	// a question about the tree
	ask := func(name string, st drv.Step, abs bool) func(e drv.Ev) {
		return func(e drv.Ev) {
			switch name {
			case "list":
				list(st.Str(1), strs(st[2]), abs, strs(st[3]), e)
			case "hash":
				digest(strs(st[1]), abs, st.Str(2), st.Str(3), e)
			case "walk":
				got, errs, how, at, stop := [][]string{}, [][]string{}, "all", []string{}, errors.New("stop")
				if len(st) > 2 {
					how, at = st.Str(2), strs(st[3])
				}
				err := fs.FilePath(text(strs(st[1]), abs)).Walk(func(p string, fi fs.FileInfo, err error) error {
					if err != nil {
						errs = append(errs, back(p))
						return nil
					}
					if fi == nil || fi.Name() != filepath.Base(p) || fi.IsDir() != isDir(p) {
						got = append(got, []string{"?"})
					}
					got = append(got, back(p))
					if how != "all" && strings.Join(back(p), "/") == strings.Join(at, "/") {
						if how == "skip" {
							return filepath.SkipDir
						}
						return stop
					}
					return nil
				})
				e["path"], e["got"], e["errs"], e["how"], e["at"], e["ret"] = st[1], got, errs, how, at, "other"
				if err == nil {
					e["ret"] = "nil"
				} else if err == stop {
					e["ret"] = "same"
				}
			case "stat":
				d, f, size, info := fs.FilePath(text(strs(st[1]), abs)).Statistic()
				links, men := []interface{}{}, [][]string{}
				filepath.Walk(work, func(p string, fi os.FileInfo, err error) error {
					if err == nil && kind(fi) == "l" {
						links = append(links, []interface{}{back(p), int(fi.Size())})
					}
					return nil
				})
				for _, p := range shut {
					if strings.Contains(info, p) || (!abs && strings.Contains(info, strings.TrimPrefix(p, work+"/"))) {
						men = append(men, back(p))
					}
				}
				e["path"], e["dirs"], e["files"], e["size"], e["info"], e["linklen"], e["mention"] = st[1], d, f, int(size), len(info), links, men
			default:
				drv.Fail("step %v", st)
			}
		}
	}
	for _, st := range s {
		abs := true
		name := st.Name()
		if strings.HasSuffix(name, "/rel") {
			abs, name = false, strings.TrimSuffix(name, "/rel")
		}
		switch name {
		case "tree":
			build(st[1])
			run("tree", func(e drv.Ev) { e["rows"] = st[1] })
		case "retree": // rows, whether all times are set back
			rebuild(st[1])
			if st.Bool(2) {
				pin()
			}
			run("tree", func(e drv.Ev) { e["rows"] = st[1] })
		case "do":
			run("do", func(e drv.Ev) { do(st[1].(map[string]interface{}), abs, e) })
		case "look":
			run("look", func(e drv.Ev) { look(strs(st[1]), abs, e) })
		case "times":
			run("times", func(e drv.Ev) {
				p := fs.FilePath(text(strs(st[1]), abs))
				a, m := time.Unix(int64(st.Int(2)), int64(st.Int(3))), time.Unix(int64(st.Int(4)), int64(st.Int(5)))
				if !storable(a, m) {
					a, m = time.Unix(1400000001, 0), time.Unix(1300000002, 0)
				}
				show := func(x time.Time) []int { return append(limbs(x.Unix()), x.Nanosecond()) }
				err := p.Chtimes(a, m)
				e["path"], e["ok"], e["want"], e["got"] = st[1], err == nil, [][]int{show(a), show(m)}, [][]int{}
				if fi, er := os.Stat(p.String()); er == nil {
					x := fi.Sys().(*syscall.Stat_t)
					e["got"] = [][]int{show(time.Unix(x.Atim.Unix())), show(time.Unix(x.Mtim.Unix()))}
				}
			})
		case "own": // path, follow, uid, gid
			run("own", func(e drv.Ev) {
				p := fs.FilePath(text(strs(st[1]), abs))
				e["path"], e["follow"], e["uid"], e["gid"], e["before"] = st[1], st.Bool(2), st.Int(3), st.Int(4), owners()
				var err error
				if st.Bool(2) {
					err = p.Chown(st.Int(3), st.Int(4))
				} else {
					err = p.Lchown(st.Int(3), st.Int(4))
				}
				e["ok"], e["after"] = err == nil, owners()
			})
		case "newfile": // an open file taken over with a path as its name
			run("newfile", func(e drv.Ev) {
				p := fs.FilePath(text(strs(st[1]), abs))
				e["path"], e["ok"], e["name"], e["data"] = st[1], false, false, [][]int{}
				f, err := os.Open(p.String())
				if err != nil {
					return
				}
				defer f.Close()
				if fi, er := f.Stat(); er != nil || fi.IsDir() {
					return
				}
				fd, err := syscall.Dup(int(f.Fd()))
				if err != nil {
					drv.Fail("dup %v", err)
				}
				g := p.NewFile(uintptr(fd))
				b, err := io.ReadAll(g)
				e["ok"], e["name"], e["data"] = err == nil, g.Name() == p.String(), rle(b)
				g.Close()
			})
		case "list", "stat", "walk", "hash":
			run(name, ask(name, st, abs))
		case "par": // questions asked at the same time, several times; every distinct answer is recorded
			done, seen := make(chan drv.Ev), map[string]bool{}
			for _, x := range st[1].([]interface{}) {
				q := drv.Step(x.([]interface{}))
				go func() {
					for k := 0; k < st.Int(2); k++ {
						e := drv.Ev{"op": q.Name(), "p": 0, "open": 0}
						if drv.Try(func() { ask(q.Name(), q, true)(e) }) {
							e["p"] = 1
						}
						done <- e
					}
					done <- nil
				}()
			}
			for n := len(st[1].([]interface{})); n > 0; {
				e := <-done
				if e == nil {
					n--
					continue
				}
				b, err := json.Marshal(e)
				if err != nil {
					drv.Fail("%v", err)
				}
				if !seen[string(b)] {
					seen[string(b)] = true
					t.Emit(e)
				}
			}
		case "modes":
			run("modes", func(e drv.Ev) { modes(st.Str(1), st.Int(2), st.Int(3), e) })
		case "sparse":
			run("sparse", func(e drv.Ev) { sparse(st[1].([]interface{}), st.Str(2), e) })
		case "bad": // something that can be opened but not read to its end
			run("bad", func(e drv.Ev) {
				_, err := methods[st.Str(2)](fs.FilePath(st.Str(1)), "")
				e["ok"] = err == nil
			})
		case "mode":
			if err := os.Chmod(text(strs(st[1]), true), os.FileMode(st.Int(2))); err != nil {
				drv.Fail("%v", err)
			}
			run("mode", func(e drv.Ev) { e["path"], e["m"] = st[1], st[2] })
		case "shut":
			p := text(strs(st[1]), true)
			if err := os.Chmod(p, 0); err != nil {
				drv.Fail("%v", err)
			}
			if _, err := os.Open(p); err == nil {
				drv.Fail("cannot make %s unreadable (privileged user?)", p)
			}
			shut = append(shut, p)
			run("shut", func(e drv.Ev) { e["path"] = st[1] })
		case "open":
			os.Chmod(text(strs(st[1]), true), 0755)
			run("open", func(e drv.Ev) { e["path"] = st[1] })
		default:
			drv.Fail("step %v", st)
		}
	}
}

func main() {
	syscall.Umask(0)
	drv.Memory = 20 << 30 // (a large file may well be read as a whole)
	drv.Main(run)
}
