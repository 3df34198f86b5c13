package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"archive/zip"

	"github.com/hpinc/go3mf"
	gerr "github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() {
	ops["load"] = opLoad
	ops["cancel"] = opCancel
	ops["stlcancel"] = opStlCancel
}

// trigger is a context that ends when told to.
type trigger struct {
	mu    sync.Mutex
	done  chan struct{}
	err   error
	after []func()
}

func newTrigger() *trigger { return &trigger{done: make(chan struct{})} }

func (t *trigger) Deadline() (time.Time, bool)       { return time.Time{}, false }
func (t *trigger) Done() <-chan struct{}             { return t.done }
func (t *trigger) Value(key interface{}) interface{} { return nil }
func (t *trigger) Err() error {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.err
}

// AfterFunc lets derived contexts end at once and not some time later.
func (t *trigger) AfterFunc(f func()) func() bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.err != nil {
		go f()
		return func() bool { return false }
	}
	t.after = append(t.after, f)
	return func() bool { return true }
}

func (t *trigger) end(err error) {
	t.mu.Lock()
	if t.err != nil {
		t.mu.Unlock()
		return
	}
	t.err = err
	close(t.done)
	fs := t.after
	t.mu.Unlock()
	for _, f := range fs {
		f()
	}
}

// Documents for parts: part k has k objects and then one with many vertices, with a fault at one of them.
const loadVertex = "<vertex x=\"1.25\" y=\"2.5\" z=\"%d\"/>\n"

// styles are other contents for parts whose reading is cancelled, by the element that is repeated.
var styles = map[string][3]string{
	"":        {"<object id=\"%d\" name=\"part %d\"><mesh><vertices>\n", loadVertex, "</vertices><triangles></triangles></mesh></object>\n"},
	"object":  {"<!-- %d %d -->", "<object id=\"1\" name=\"o\" partnumber=\"%d\"/>\n", ""},
	"ignored": {"<nothing a=\"%d\" b=\"%d\">", "<vertex x=\"1.25\" y=\"no\" z=\"%d\"/>\n", "</nothing>"},
	"unknown": {"<u:nothing xmlns:u=\"http://x.org/u\" a=\"%d\" b=\"%d\">", "<u:vertex x=\"1.25\" y=\"no\" z=\"%d\"/>\n", "</u:nothing>"},
	"deep":    {"<u:nothing xmlns:u=\"http://x.org/u\" a=\"%d\" b=\"%d\"><u:inner><object>", "<u:vertex x=\"1.25\" z=\"%d\"/>\n", "</object></u:inner></u:nothing>"},
	"deeper":  {"<nothing a=\"%d\" b=\"%d\"><object><mesh>", "<vertex x=\"1.25\" y=\"no\" z=\"%d\"/>\n", "</mesh></object></nothing>"},
	"comment": {"<object id=\"%d\" name=\"part %d\">", "<!-- a remark on part number %d -->\n", "</object>"},
	"pi":      {"<u:nothing xmlns:u=\"http://x.org/u\" a=\"%d\" b=\"%d\">", "<?remark on part number %d?>\n", "</u:nothing>"},
	"base":    {"<basematerials id=\"%d\"><!-- %d -->", "<base name=\"b%d\" displaycolor=\"#010203\"/>\n", "</basematerials>"},
	"color":   {"<c:colorgroup xmlns:c=\"http://schemas.microsoft.com/3dmanufacturing/material/2015/02\" id=\"%d\" n=\"%d\">", "<c:color color=\"#010203\" n=\"%d\"/>\n", "</c:colorgroup>"},
	"comp":    {"<object id=\"%d\" name=\"part %d\"><components>\n", "<component objectid=\"1\" more=\"x%d\"/>\n", "</components></object>\n"},
	"tri":     {"<object id=\"%d\" name=\"part %d\"><mesh><vertices/><triangles>\n", "<triangle v1=\"0\" v2=\"1\" v3=\"%d\"/>\n", "</triangles></mesh></object>\n"},
}

func loadDoc(k, n int, root bool, fault string, at int, style ...string) (doc []byte, faultOff int) {
	st := styles[strings.Join(style, "")]
	var b bytes.Buffer
	b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<model xmlns=\"http://schemas.microsoft.com/3dmanufacturing/core/2015/02\" unit=\"millimeter\">\n")
	b.WriteString(strings.Repeat("\n", 17*k)) // so that errors that tell the line differ
	b.WriteString("<resources>\n")
	for i := 0; i < k; i++ {
		fmt.Fprintf(&b, "<object id=\"%d\" name=\"small %d\"/>", i+1, k)
	}
	fmt.Fprintf(&b, st[0], k+1, k)
	for i := 0; i < n; i++ {
		if i == at {
			switch fault {
			case "content":
				b.WriteString("<vertex x=\"no\" y=\"1\" z=\"2\"/>\n")
			case "syntax":
				fmt.Fprintf(&b, "<vertex x=\"1\" y=\"1\" z=\"2\"></bad%d>\n", k)
			}
			faultOff = b.Len()
		}
		fmt.Fprintf(&b, st[1], k)
	}
	b.WriteString(st[2] + "\n</resources>\n")
	if root {
		b.WriteString("<build/>")
	}
	b.WriteString("</model>")
	return b.Bytes(), faultOff
}

// gated makes the reads of model parts wait for permission.
type gated struct {
	data   []byte
	parts  []span // the root is the last
	reqs   chan *request
	closed chan struct{} // no gates any more
	fails  map[int]int   // part: offset whose reading fails
	late   int32
	over   int32 // decoding has returned
}

type span struct{ from, to int }

type request struct {
	who, to int
	go_     chan struct{}
}

func (g *gated) ReadAt(b []byte, off int64) (int, error) {
	if atomic.LoadInt32(&g.over) != 0 {
		atomic.AddInt32(&g.late, 1)
	}
	if off >= int64(len(g.data)) {
		return 0, io.EOF
	}
	end := int(off) + len(b)
	if end > len(g.data) {
		end = len(g.data)
	}
	for i, s := range g.parts {
		if int(off) >= s.from && int(off) < s.to {
			r := &request{i, end - s.from, make(chan struct{})}
			select {
			case g.reqs <- r:
				select {
				case <-r.go_:
				case <-g.closed:
				}
			case <-g.closed:
			}
			if f, ok := g.fails[i]; ok && end-s.from > f {
				return 0, fmt.Errorf("reading of part %d failed", i)
			}
		}
	}
	n := copy(b, g.data[off:end])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// loadPackage has the kids and the root, stored.
//
//	parts: [{n, fault: ok|content|syntax|read, at}], the last is the root
func loadPackage(parts []M, att int) (data []byte, spans []span, faultAt []int) {
	var raws []rawPart
	var rels []rawRel
	root := len(parts) - 1
	for i, p := range parts {
		doc, at := loadDoc(i, p.i("n"), i == root, p.s("fault"), p.i("at"), p.s("style"))
		name := fmt.Sprintf("/3D/k%d.model", i)
		if i == root {
			name = "/3D/3dmodel.model"
		} else {
			rels = append(rels, rawRel{"/3D/3dmodel.model", unRel("3dmodel"), name, ""})
		}
		raws = append(raws, rawPart{name, unCT("model"), doc})
		faultAt = append(faultAt, at)
	}
	rels = append(rels, rawRel{"/", unRel("3dmodel"), "/3D/3dmodel.model", ""})
	if att > 0 {
		raws = append(raws, rawPart{"/a.bin", "text/plain", bytes.Repeat([]byte("0123456789"), att/10)})
		rels = append(rels, rawRel{"/3D/3dmodel.model", "http://x.org/r", "/a.bin", ""})
	}
	// The end of the directory is searched in a block, which must not be mistaken for a read of a part.
	raws = append(raws, rawPart{"/zz.bin", "text/plain", make([]byte, 70000)})
	data = buildPackage(raws, rels, true)
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		panic(err)
	}
	spans = make([]span, len(parts))
	for _, f := range z.File {
		for i := range parts {
			if "/"+f.Name == raws[i].name {
				off, _ := f.DataOffset()
				spans[i] = span{int(off), int(off) + int(f.CompressedSize64)}
			}
		}
	}
	return
}

func isCtx(err error) bool {
	return errors.Is(err, context.Canceled) || errors.Is(err, context.DeadlineExceeded)
}

// opLoad decodes a package under a schedule of reads.
//
//	case: parts (the last is the root), strict, sched [[who, level]], who 0 is the end of the context;
//	      level 1 is half way to the fault, 2 the fault and 3 everything
//	out:  events [{k: read|ask|end|return, who, to}], result {kind, who}, same, own, late, pending, leak
func opLoad(c M) M {
	parts := c.ms("parts")
	n := len(parts)
	data, spans, faultAt := loadPackage(parts, 0)
	level := func(w, to int) int {
		size, f := spans[w].to-spans[w].from, faultAt[w]
		switch {
		case to >= size:
			return 3
		case to >= f:
			return 2
		case to >= f/2:
			return 1
		}
		return 0
	}
	// The errors of each part on its own, and the model when nothing fails to be read.
	alone := make([]string, n)
	for w := range parts {
		if parts[w].s("fault") == "ok" {
			continue
		}
		one := make([]M, n)
		for i := range parts {
			one[i] = parts[i]
			if i != w {
				one[i] = M{"n": parts[i]["n"], "fault": "ok", "at": parts[i]["at"]}
			}
		}
		d, sp, at := loadPackage(one, 0)
		g := &gated{data: d, parts: sp, closed: make(chan struct{}), fails: map[int]int{}}
		if parts[w].s("fault") == "read" {
			g.fails[w] = at[w]
		}
		close(g.closed)
		dec := go3mf.NewDecoder(g, int64(len(d)))
		dec.Strict = c.b("strict")
		if err := dec.Decode(new(go3mf.Model)); err != nil {
			alone[w] = err.Error()
		}
	}
	g := &gated{data: data, parts: spans, reqs: make(chan *request), closed: make(chan struct{}), fails: map[int]int{}}
	for w, p := range parts {
		if p.s("fault") == "read" {
			g.fails[w] = faultAt[w]
		}
	}
	before := runtime.NumGoroutine()
	ctx := newTrigger()
	m := new(go3mf.Model)
	done := make(chan error)
	go func() {
		d := go3mf.NewDecoder(g, int64(len(data)))
		d.Strict = c.b("strict")
		err := d.DecodeContext(ctx, m)
		atomic.StoreInt32(&g.over, 1)
		done <- err
	}()
	events := L{}
	waiting := make([]*request, n)
	pos := make([]int, n)
	var err error
	finished := false
	asked := false
	ask := func(r *request) {
		waiting[r.who] = r
		if r.who == n-1 && !asked {
			asked = true
			events = append(events, M{"k": "ask", "who": n, "to": 0})
		}
	}
	fin := func(e error) {
		err, finished = e, true
	}
	// wait for something to happen
	poll := func(d time.Duration) bool {
		select {
		case r := <-g.reqs:
			ask(r)
			return true
		case e := <-done:
			fin(e)
			return true
		case <-time.After(d):
			return false
		}
	}
	grant := func(w int) {
		r := waiting[w]
		waiting[w] = nil
		if r.to > pos[w] {
			pos[w] = r.to
		}
		l := level(w, pos[w])
		if k := len(events); k == 0 || !reflect.DeepEqual(events[k-1], M{"k": "read", "who": w + 1, "to": l}) {
			events = append(events, M{"k": "read", "who": w + 1, "to": l})
		}
		close(r.go_)
	}
	for _, s := range c.l("sched") {
		w, to := int(s.([]interface{})[0].(float64))-1, int(s.([]interface{})[1].(float64))
		if w < 0 {
			ctx.end(context.Canceled)
			events = append(events, M{"k": "end", "who": 0, "to": 0})
			continue
		}
		for !finished && level(w, pos[w]) < to {
			deadline := time.Now().Add(3 * time.Millisecond)
			for !finished && waiting[w] == nil && time.Now().Before(deadline) {
				poll(time.Until(deadline))
			}
			if waiting[w] == nil {
				break // it does not read any more, or not yet
			}
			grant(w)
		}
	}
	for !finished {
		any := false
		for w := range waiting {
			if waiting[w] != nil {
				grant(w)
				any = true
			}
		}
		if !any {
			poll(time.Second)
		}
	}
	pending := 0
	for _, r := range waiting {
		if r != nil {
			pending++
		}
	}
	events = append(events, M{"k": "return", "who": 0, "to": 0})
	// what is still running asks for more, or reads
	leak := false
	for i := 0; ; i++ {
		select {
		case r := <-g.reqs:
			pending++
			_ = r
			continue
		default:
		}
		if runtime.NumGoroutine() <= before {
			break
		}
		if i == 200 {
			leak = true
			break
		}
		time.Sleep(time.Duration(i/10) * time.Millisecond)
	}
	close(g.closed)
	result := M{"kind": "ok", "who": L{}}
	who := L{}
	if err != nil {
		_, isErr := err.(*gerr.Error)
		_, isList := err.(*gerr.List)
		switch {
		case isCtx(err):
			result["kind"] = "ctx"
		case isErr || isList:
			result["kind"] = "content"
			for _, x := range flatten(err) {
				var w int
				if _, e := fmt.Sscanf(x.(M).s("x"), "/model/resources/object[%d]", &w); e == nil {
					who = append(who, w+1)
				} else {
					who = append(who, 0)
				}
			}
		default:
			result["kind"] = "hard"
			for w := range alone {
				if alone[w] == err.Error() {
					who = append(who, w+1)
				}
			}
		}
		result["msg"] = err.Error()
	}
	result["who"] = who
	own := L{}
	for i := 0; i < n; i++ {
		objs := &m.Resources
		if i < n-1 {
			ch := m.Childs[fmt.Sprintf("/3D/k%d.model", i)]
			if ch == nil {
				own = append(own, M{"names": L{}, "vertices": -1})
				continue
			}
			objs = &ch.Resources
		}
		names, v := L{}, 0
		for _, o := range objs.Objects {
			names = append(names, o.Name)
			if o.Mesh != nil {
				v += len(o.Mesh.Vertices.Vertex)
			}
		}
		own = append(own, M{"names": names, "vertices": v})
	}
	return M{"events": events, "result": result, "own": own, "nchilds": len(m.Childs), "pending": pending, "late": int(atomic.LoadInt32(&g.late)), "leak": leak}
}

// counter lets everything through, ends the context at a point, and counts what is read after that.
type counter struct {
	mu    sync.Mutex
	data  []byte
	parts []span
	who   int
	off   int
	ctx   *trigger
	err   error
	pos   []int
	left  []int // what remained when the context ended
	after []int
	ended bool
}

func (r *counter) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(r.data)) {
		return 0, io.EOF
	}
	n := copy(b, r.data[off:])
	r.mu.Lock()
	for i, s := range r.parts {
		if int(off) >= s.from && int(off) < s.to {
			if r.ended {
				r.after[i] += n
			}
			if to := int(off) + n - s.from; to > r.pos[i] {
				r.pos[i] = to
			}
		}
	}
	if !r.ended && (r.who < 0 && int(off) <= r.off && r.off < int(off)+n || r.who >= 0 && r.pos[r.who] > r.off) {
		r.stop()
	}
	r.mu.Unlock()
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (r *counter) stop() {
	r.ended = true
	for i, s := range r.parts {
		if l := s.to - s.from - r.pos[i]; l > 0 {
			r.left[i] = l
		}
	}
	r.ctx.end(r.err)
}

// opCancel ends the context while a package is decoded.
//
//	case: parts [{n, style}], att (size of an attachment), strict, who (1.. the part, 0: what is not a part; -1: before the start), off, deadline
//	out:  ended, result, left (vertices), after (vertices)
func opCancel(c M) M {
	parts := c.ms("parts")
	n := len(parts)
	data, spans, _ := loadPackage(parts, c.i("att"))
	r := &counter{data: data, parts: spans, who: c.i("who") - 1, ctx: newTrigger(), err: context.Canceled, pos: make([]int, n), left: make([]int, n), after: make([]int, n)}
	if c.b("deadline") {
		r.err = context.DeadlineExceeded
	}
	size := len(data)
	if r.who >= 0 {
		size = spans[r.who].to - spans[r.who].from
	}
	r.off = int(float64(size-1) * c["off"].(float64) / 1000)
	if c.i("who") < 0 {
		r.stop()
	}
	d := go3mf.NewDecoder(r, int64(len(data)))
	d.Strict = c.b("strict")
	m := new(go3mf.Model)
	err := d.DecodeContext(r.ctx, m)
	res := "ok"
	switch {
	case err == nil:
	case errors.Is(err, r.err):
		res = "ctx"
	case isCtx(err):
		res = "otherctx"
	default:
		res = "error"
	}
	left, after := L{}, L{}
	for i := range parts {
		unit := len(fmt.Sprintf(styles[parts[i].s("style")][1], 1))
		left = append(left, r.left[i]/unit)
		after = append(after, r.after[i]/unit)
	}
	return M{"ended": r.ended, "result": res, "left": left, "after": after}
}

// endingReader ends the context when it has given some bytes.
type endingReader struct {
	r     io.Reader
	ctx   *trigger
	err   error
	n     int // bytes until the end of the context
	after int
	ended bool
	chunk int
}

func (r *endingReader) Read(b []byte) (int, error) {
	if r.chunk > 0 && len(b) > r.chunk {
		b = b[:r.chunk]
	}
	n, err := r.r.Read(b)
	if r.ended {
		r.after += n
	}
	r.n -= n
	if r.n < 0 && !r.ended {
		r.ended = true
		r.ctx.end(r.err)
	}
	return n, err
}

// opStlCancel ends the context while a STL is imported.
//
//	case: text, n (facets), at (facet, or -1: before the start), chunk (size of reads), deadline
//	out:  result, left, after (facets), same
func opStlCancel(c M) M {
	n := c.i("n")
	var b bytes.Buffer
	unit := 50
	if c.b("text") {
		b.WriteString("solid s\n")
		for i := 0; i < n; i++ {
			k := b.Len()
			fmt.Fprintf(&b, "facet normal 0 0 1\nouter loop\nvertex %5d 0 0\nvertex 0 %5d 0\nvertex 1 1 %5d\nendloop\nendfacet\n", i%9973, i%9967, i%9949)
			unit = b.Len() - k
		}
		b.WriteString("endsolid s\n")
	} else {
		b.Write(make([]byte, 80))
		b.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
		for i := 0; i < n; i++ {
			f := make([]byte, 50)
			f[15], f[14], f[20], f[30] = 0x41, byte(i), byte(i>>8), byte(i>>3)
			b.Write(f)
		}
	}
	m := &go3mf.Model{Units: go3mf.UnitInch}
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 3, Name: "there"})
	m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 3})
	was := fmt.Sprint(seen(m))
	total := b.Len()
	r := &endingReader{r: &b, ctx: newTrigger(), err: context.Canceled, n: c.i("at") * unit, chunk: c.i("chunk")}
	if c.b("deadline") {
		r.err = context.DeadlineExceeded
	}
	at := c.i("at") * unit
	if at < 0 {
		at, r.ended = 0, true
		r.ctx.end(r.err)
	}
	err := stl.NewDecoder(r).DecodeContext(r.ctx, m)
	res := "ok"
	switch {
	case err == nil:
	case errors.Is(err, r.err):
		res = "ctx"
	default:
		res = "error"
	}
	left := (total - at) / unit
	return M{"ended": r.ended, "result": res, "left": L{left}, "after": L{r.after / unit}, "same": fmt.Sprint(seen(m)) == was}
}
