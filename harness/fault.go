package main

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"

	"github.com/hpinc/go3mf"
)

func init() {
	ops["wfault"] = opWFault
	ops["writes"] = opWrites
	ops["prefixes"] = opPrefixes
	ops["rfault"] = opRFault
}

var errInjected = errors.New("injected failure")

// failures are the errors that streams fail with: some mean something to packages between the stream and the caller.
var failures = []error{errInjected, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrNoProgress, os.ErrClosed, io.ErrClosedPipe, zip.ErrFormat, zip.ErrChecksum,
	context.Canceled, context.DeadlineExceeded, os.ErrNotExist, fmt.Errorf("failed: %w", io.EOF), fmt.Errorf("failed: %w", io.ErrUnexpectedEOF), syscall.EAGAIN, syscall.EINTR, temporary{}}

type temporary struct{}

func (temporary) Error() string   { return "try again" }
func (temporary) Temporary() bool { return true }
func (temporary) Timeout() bool   { return true }

// failure is the error of a case; the destination of a writer can also fail with io.EOF.
func failure(c M) error {
	k := c.i("kind")
	if k < 0 {
		return io.EOF
	}
	return failures[k%len(failures)]
}

// faultWriter answers each call as planned; beyond the plan, all is written.
type faultWriter struct {
	plan   []string
	err    error
	sticky bool
	calls  int
	failed bool
	lost   bool
	got    bytes.Buffer
	sizes  []int
}

func (w *faultWriter) Write(b []byte) (int, error) {
	mode := "ok"
	if w.calls < len(w.plan) {
		mode = w.plan[w.calls]
	} else if w.sticky && w.failed {
		mode = "none"
	}
	w.calls++
	w.sizes = append(w.sizes, len(b))
	if mode == "ok" {
		if w.lost {
			return len(b), nil
		}
		return w.got.Write(b)
	}
	w.failed = true
	n := len(b)
	switch mode {
	case "none":
		n = 0
	case "part":
		n = len(b) / 2
	}
	if !w.lost {
		w.got.Write(b[:n])
	}
	if n < len(b) {
		w.lost = true
	}
	return n, w.err
}

// faultReader is the stream of an attachment that fails after n bytes.
type faultReader struct {
	data   []byte
	n      int
	with   bool // the error comes with the last bytes
	failed *bool
	err    error
}

func (r *faultReader) Read(b []byte) (int, error) {
	if r.n <= 0 {
		*r.failed = true
		return 0, r.err
	}
	k := len(b)
	if k > r.n {
		k = r.n
	}
	copy(b[:k], r.data)
	r.data = r.data[k:]
	r.n -= k
	if r.n == 0 && r.with {
		*r.failed = true
		return k, r.err
	}
	return k, nil
}

// bigPM is a model of the package view with data that does not compress.
func bigPM(c M) *go3mf.Model {
	m := buildPM(c.m("pm"))
	for i, n := range c.l("sizes") {
		if i < len(m.Attachments) {
			b := make([]byte, int(n.(float64)))
			rand.New(rand.NewSource(int64(i))).Read(b)
			for k := range b {
				b[k] &= 0x7f
			}
			m.Attachments[i].Stream = bytes.NewReader(b)
		}
	}
	if n := c.i("vertices"); n > 0 {
		rng := rand.New(rand.NewSource(7))
		mesh := func() *go3mf.Mesh {
			ms := new(go3mf.Mesh)
			for k := 0; k < n; k++ {
				ms.Vertices.Vertex = append(ms.Vertices.Vertex, go3mf.Point3D{rng.Float32(), rng.Float32(), rng.Float32()})
			}
			return ms
		}
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 90, Mesh: mesh()})
		for _, k := range sortedKeys(m.Childs) {
			m.Childs[k].Resources.Objects = append(m.Childs[k].Resources.Objects, &go3mf.Object{ID: 90, Mesh: mesh()})
		}
	}
	return m
}

func sortedKeys(m map[string]*go3mf.ChildModel) (ks []string) {
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return
}

// seen is everything that a decoded model has, for comparison.
func seen(m *go3mf.Model) M {
	r := proj{prec: -1}.model(m)
	r["atts"] = attachments(m)
	for _, k := range []string{"rels", "rrels"} { // the order of relationships to children is that of a map
		l := r[k].(L)
		sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	}
	return r
}

// opWFault encodes to a destination that fails as planned.
//
//	case: pm, sizes (of attachments), plan, sticky, att: [] or [index, offset, with]
//	out:  calls, failed, lost (part of what was written did not arrive), err, opens, same
func opWFault(c M) M {
	m := bigPM(c)
	want, err := decodeWritten(bigPM(c))
	if err != nil {
		return M{"fail": "harness", "msg": err.Error()}
	}
	w := &faultWriter{sticky: c.b("sticky"), err: failure(c)}
	for _, p := range c.l("plan") {
		w.plan = append(w.plan, p.(string))
	}
	srcFailed := false
	if a := c.l("att"); len(a) > 0 {
		att := &m.Attachments[int(a[0].(float64))]
		b, _ := io.ReadAll(att.Stream)
		n := int(a[1].(float64))
		if n > len(b) {
			n = len(b)
		}
		att.Stream = &faultReader{b, n, a[2].(bool) && n > 0, &srcFailed, failure(c)}
	}
	e := go3mf.NewEncoder(w)
	err = e.Encode(m)
	r := M{"calls": w.calls, "failed": w.failed || srcFailed, "lost": w.lost, "err": "", "opens": false, "same": true}
	if err != nil {
		r["err"] = err.Error()
	}
	got := w.got.Bytes()
	dm, derr := decodePackage(context.Background(), got, true)
	if derr == nil {
		r["opens"] = true
		r["same"] = reflect.DeepEqual(seen(dm), want)
	}
	return r
}

func decodeWritten(m *go3mf.Model) (M, error) {
	var b bytes.Buffer
	if err := go3mf.NewEncoder(&b).Encode(m); err != nil {
		return nil, err
	}
	d, err := decodePackage(context.Background(), b.Bytes(), true)
	if err != nil {
		return nil, err
	}
	return seen(d), nil
}

// opWrites tells the calls that the destination gets.
func opWrites(c M) M {
	w := &faultWriter{}
	if err := go3mf.NewEncoder(w).Encode(bigPM(c)); err != nil {
		return M{"fail": "harness", "msg": err.Error()}
	}
	s := L{}
	for _, n := range w.sizes {
		s = append(s, n)
	}
	return M{"sizes": s, "total": w.got.Len()}
}

// opPrefixes decodes proper prefixes of what is written.
//
//	case: pm, sizes, step, from
//	out:  total, accepted (lengths)
func opPrefixes(c M) M {
	var b bytes.Buffer
	if err := go3mf.NewEncoder(&b).Encode(bigPM(c)); err != nil {
		return M{"fail": "harness", "msg": err.Error()}
	}
	acc := L{}
	n := 0
	for k := c.i("from"); k < b.Len(); k += c.i("step") {
		n++
		if _, err := decodePackage(context.Background(), b.Bytes()[:k], k%2 == 0); err == nil {
			acc = append(acc, k)
		}
	}
	return M{"total": b.Len(), "tried": n, "accepted": acc}
}

// faultReaderAt fails, or changes data, around a position.
type faultReaderAt struct {
	data []byte
	pos  int64
	mode string // fail, part, short, once (only the nth time), flip
	bit  uint
	nth  int
	hits int
	err  error
}

func (r *faultReaderAt) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(b, r.data[off:])
	var err error
	if n < len(b) {
		err = io.EOF
	}
	if off <= r.pos && r.pos < off+int64(n) {
		r.hits++
		switch r.mode {
		case "fail":
			return 0, r.err
		case "part":
			return int(r.pos - off), r.err
		case "short":
			return int(r.pos - off), io.EOF
		case "once":
			if r.hits == r.nth {
				return 0, r.err
			}
		case "flip":
			b[r.pos-off] ^= 1 << r.bit
		}
	}
	return n, err
}

// regions tells what each byte of a package belongs to.
func regions(data []byte, root string, childs []string) []string {
	at := make([]string, len(data))
	dir := int(binary.LittleEndian.Uint32(data[len(data)-22+16:]))
	for i := range at {
		at[i] = "header"
		if i >= dir {
			at[i] = "directory"
		}
	}
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	for _, f := range z.File {
		off, err := f.DataOffset()
		if err != nil {
			panic(err)
		}
		kind, name := "attachment", "/"+f.Name
		switch {
		case f.Name == "[Content_Types].xml":
			kind = "types"
		case strings.HasSuffix(name, ".rels"):
			kind = "rels"
		case name == root:
			kind = "root"
		case strings.HasPrefix(name, "/unused"):
			kind = "unused"
		}
		for _, c := range childs {
			if c == name {
				kind = "child"
			}
		}
		for i := int(off); i < int(off)+int(f.CompressedSize64); i++ {
			at[i] = kind
		}
	}
	return at
}

// opRFault decodes a package with a fault at each position of a range.
//
//	case: pkg {parts, rels} and store, or pm and sizes; mode, bits, nth, from, step, strict
//	out:  total, tried, groups [{at, mode, hit, err, same, n, pos}]
func opRFault(c M) M {
	var data []byte
	if c.has("pkg") {
		data = rawPackage(c)
	} else {
		var b bytes.Buffer
		if err := go3mf.NewEncoder(&b).Encode(bigPM(c)); err != nil {
			return M{"fail": "harness", "msg": err.Error()}
		}
		data = b.Bytes()
	}
	good, err := decodePackage(context.Background(), data, c.b("strict"))
	if err != nil {
		return M{"fail": "harness", "msg": err.Error()}
	}
	want := seen(good)
	at := regions(data, good.Path, sortedKeys(good.Childs))
	type key struct {
		at, mode  string
		hit, same bool
		err       string
	}
	count := map[key]int{}
	pos := map[key]int{}
	tried := 0
	for p := c.i("from"); p < len(data); p += c.i("step") {
		for bit := 0; bit < 8; bit++ {
			if c.s("mode") != "flip" && bit > 0 || c.s("mode") == "flip" && bit%c.i("bits") != p%c.i("bits") {
				continue
			}
			r := &faultReaderAt{data: data, pos: int64(p), mode: c.s("mode"), bit: uint(bit), nth: c.i("nth"), err: failure(c)}
			d := go3mf.NewDecoder(r, int64(len(data)))
			d.Strict = c.b("strict")
			m := new(go3mf.Model)
			err := d.Decode(m)
			tried++
			k := key{at: at[p], mode: c.s("mode"), hit: r.hits > 0, same: true}
			if r.mode == "once" {
				k.hit = r.hits >= r.nth
			}
			if err != nil {
				k.err = "error"
			} else {
				k.same = reflect.DeepEqual(seen(m), want)
			}
			if count[k] == 0 {
				pos[k] = p
			}
			count[k]++
		}
	}
	groups := L{}
	for k, n := range count {
		groups = append(groups, M{"at": k.at, "mode": k.mode, "hit": k.hit, "err": k.err, "same": k.same, "n": n, "pos": pos[k]})
	}
	sort.Slice(groups, func(i, j int) bool { return groups[i].(M)["pos"].(int) < groups[j].(M)["pos"].(int) })
	return M{"total": len(data), "tried": tried, "groups": groups}
}
