package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() { ops["pure"] = opPure }

func digest(xs ...interface{}) string {
	h := sha256.New()
	for _, x := range xs {
		fmt.Fprintf(h, "%v\n", x)
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:8])
}

func errDigest(err error) string {
	if err == nil {
		return "ok"
	}
	fl := flatten(err)
	sort.Slice(fl, func(i, j int) bool { return fmt.Sprint(fl[i]) < fmt.Sprint(fl[j]) })
	lines := strings.Split(err.Error(), "\n")
	sort.Strings(lines)
	return fmt.Sprintf("%d errors %s", len(fl), digest(fl, lines))
}

// history is what a program has: models, their packages and decoders.
type history struct {
	models []*go3mf.Model
	spare  []bool // something was written behind the end of a slice of the model
	pkgs   [][]byte
	decs   []*go3mf.Decoder
	mu     []sync.Mutex
}

func newHistory(models []M) *history {
	h := &history{mu: make([]sync.Mutex, len(models))}
	h.spare = make([]bool, len(models))
	for _, j := range models {
		h.models = append(h.models, bModel(j))
		eachSlice(reflect.ValueOf(h.models[len(h.models)-1]).Elem(), room)
		var b bytes.Buffer
		go3mf.NewEncoder(&b).Encode(bModel(j)) // what cannot be encoded is a damaged package
		h.pkgs = append(h.pkgs, b.Bytes())
		d := go3mf.NewDecoder(bytes.NewReader(b.Bytes()), int64(b.Len()))
		d.Strict = false
		h.decs = append(h.decs, d)
	}
	return h
}

func (h *history) touch(i int) {
	m := h.models[i]
	eachObject(m, func(o *go3mf.Object) {
		if o.Mesh != nil && len(o.Mesh.Vertices.Vertex) > 0 {
			o.Mesh.Vertices.Vertex[0][0] += 1
		}
		o.Name += "+"
	})
	mesh := new(go3mf.Mesh)
	mesh.Vertices.Vertex = []go3mf.Point3D{{0, 0, 0}, {9, 0, 0}, {0, 9, 0}, {0, 0, 9}}
	mesh.Triangles.Triangle = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}, {V1: 0, V2: 1, V3: 3}, {V1: 2, V2: 2, V3: 3}}
	o := &go3mf.Object{ID: m.Resources.UnusedID(), Mesh: mesh}
	m.Resources.Objects = append(m.Resources.Objects, o)
	m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: o.ID}, &go3mf.Item{ObjectID: 12345})
	eachSlice(reflect.ValueOf(m).Elem(), room)
}

// room gives a slice room to grow: what another slice of the same array may have there is nobody else's to write.
func room(s reflect.Value) {
	n := reflect.MakeSlice(s.Type(), s.Len(), s.Len()+3)
	reflect.Copy(n, s)
	s.Set(n)
}

// written tells whether there is something in the room of a slice of the model.
func written(m *go3mf.Model) (w bool) {
	eachSlice(reflect.ValueOf(m).Elem(), func(s reflect.Value) {
		for i := s.Len(); i < s.Cap(); i++ {
			w = w || !s.Slice(0, s.Cap()).Index(i).IsZero()
		}
	})
	return
}

// eachSlice visits the slices that are reached through exported fields.
func eachSlice(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() || v.Kind() == reflect.Interface && v.Elem().Kind() != reflect.Ptr {
			return
		}
		if _, ok := v.Interface().(io.Reader); ok {
			return
		}
		eachSlice(v.Elem(), f)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				eachSlice(v.Field(i), f)
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			eachSlice(v.MapIndex(k), f)
		}
	case reflect.Slice:
		if !v.CanSet() {
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				eachSlice(v.Index(i), f)
			}
		}
		f(v)
	}
}

func eachObject(m *go3mf.Model, f func(*go3mf.Object)) {
	for _, o := range m.Resources.Objects {
		f(o)
	}
	for _, k := range sortedKeys(m.Childs) {
		for _, o := range m.Childs[k].Resources.Objects {
			f(o)
		}
	}
}

// do runs an operation and returns how its answer looks.
func (h *history) do(op string, i int) func() string {
	m := h.models[i]
	decode := func(d *go3mf.Decoder) func() string {
		out := new(go3mf.Model)
		err := d.DecodeContext(context.Background(), out)
		return func() string { return errDigest(err) + " " + digest(seen(out)) }
	}
	switch op {
	case "validate":
		err := m.Validate()
		return func() string { return errDigest(err) }
	case "coherency":
		err := m.ValidateCoherency()
		return func() string { return errDigest(err) }
	case "bbox":
		b := m.BoundingBox()
		return func() string { return fmt.Sprint(b) }
	case "boxes":
		var bs []interface{}
		eachObject(m, func(o *go3mf.Object) {
			if o.Mesh != nil {
				bs = append(bs, o.Mesh.BoundingBox(), o.Mesh.ValidateCoherency())
			}
		})
		return func() string { return digest(bs...) }
	case "encode":
		var b bytes.Buffer
		e := go3mf.NewEncoder(&b)
		e.FloatPrecision = 5
		err := e.Encode(m)
		return func() string {
			if err != nil {
				return "error"
			}
			p := readPackage(b.Bytes())
			var s []string
			for _, x := range p.parts {
				if !strings.HasSuffix(x.name, ".rels") {
					s = append(s, digest(x.name, x.ct, x.data))
				}
			}
			for _, x := range p.rels {
				s = append(s, digest(x.src, x.typ, x.target))
			}
			sort.Strings(s)
			return digest(s, p.errs)
		}
	case "marshal":
		b, err := go3mf.MarshalModel(m)
		return func() string { return digest(b, err) }
	case "unmarshal":
		b, _ := go3mf.MarshalModel(m)
		out := new(go3mf.Model)
		err := go3mf.UnmarshalModel(b, out)
		return func() string { return errDigest(err) + " " + digest(seen(out)) }
	case "look":
		r := L{m.Resources.UnusedID()}
		m.WalkObjects(func(p string, o *go3mf.Object) error { r = append(r, p, o.ID, o.Name); return nil })
		m.WalkAssets(func(p string, a go3mf.Asset) error { r = append(r, p, a.Identify()); return nil })
		for id := uint32(0); id < 10; id++ {
			_, ok := m.FindObject("", id)
			_, ok2 := m.FindAsset("/3D/a.model", id)
			r = append(r, ok, ok2)
		}
		return func() string { return digest(r...) }
	case "decode":
		h.mu[i].Lock()
		defer h.mu[i].Unlock()
		return decode(h.decs[i])
	case "decode2":
		d := go3mf.NewDecoder(bytes.NewReader(h.pkgs[i]), int64(len(h.pkgs[i])))
		d.Strict = false
		return decode(d)
	case "decodebad":
		d := go3mf.NewDecoder(bytes.NewReader(h.pkgs[i]), int64(len(h.pkgs[i]))-1)
		return decode(d)
	case "stl":
		out := new(go3mf.Model)
		err := stl.NewDecoder(strings.NewReader("solid a\nfacet\nvertex 1 2 3\nvertex 4 5 6\nvertex 1 2 7\nendfacet\nendsolid")).Decode(out)
		return func() string { return errDigest(err) + " " + digest(seen(out)) }
	}
	panic("no operation " + op)
}

// opPure goes through a history.
//
//	case: models, steps [[{op, m}]]
//	out:  steps [{answers, states}], late
func opPure(c M) M {
	h := newHistory(c.ms("models"))
	steps := L{}
	type look struct{ fs []func() string }
	var looks []look
	for _, s := range c.l("steps") {
		var step []M
		for _, x := range s.([]interface{}) {
			step = append(step, toM(x))
		}
		fs := make([]func() string, len(step))
		var saved [][]byte
		if len(step) == 1 {
			// encoding reads the streams of the attachments: that is no change of the model
			for i := range h.models[step[0].i("m")-1].Attachments {
				a := &h.models[step[0].i("m")-1].Attachments[i]
				b, _ := io.ReadAll(a.Stream)
				a.Stream = bytes.NewReader(b)
				saved = append(saved, b)
			}
		}
		if len(step) == 1 && step[0].s("op") == "touch" {
			h.touch(step[0].i("m") - 1)
			fs[0] = func() string { return "" }
		} else if len(step) == 1 {
			fs[0] = h.do(step[0].s("op"), step[0].i("m")-1)
		} else {
			var wg sync.WaitGroup
			begin := make(chan struct{})
			for i := range step {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-begin
					fs[i] = h.do(step[i].s("op"), step[i].i("m")-1)
				}(i)
			}
			close(begin)
			wg.Wait()
		}
		for i, b := range saved {
			h.models[step[0].i("m")-1].Attachments[i].Stream = bytes.NewReader(b)
		}
		answers, states := L{}, L{}
		for _, f := range fs {
			answers = append(answers, f())
		}
		for i, m := range h.models {
			h.spare[i] = h.spare[i] || written(m)
			if h.spare[i] { // a state that nothing else has
				states = append(states, fmt.Sprint("written behind a slice ", os.Getpid(), time.Now().UnixNano()))
			} else {
				states = append(states, digest(seen(m)))
			}
		}
		steps = append(steps, M{"answers": answers, "states": states})
		looks = append(looks, look{fs})
	}
	late := L{}
	for _, l := range looks {
		a := L{}
		for _, f := range l.fs {
			a = append(a, f())
		}
		late = append(late, a)
	}
	return M{"steps": steps, "late": late}
}
