package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
)

func init() {
	ops["stl"] = opStl
	ops["stlbig"] = opStlBig
}

var errRead = errors.New("verif: read fails")

// pieces reads in pieces, some of them empty, and fails after some bytes.
type pieces struct {
	data         []byte
	fails, chunk int
	with, zeros  bool
	at, calls    int
}

func (r *pieces) Read(p []byte) (int, error) {
	r.calls++
	if r.zeros && r.calls%3 == 2 {
		return 0, nil
	}
	end, err := len(r.data), io.EOF
	if r.fails >= 0 && r.fails < end {
		end = r.fails
	}
	if r.fails >= 0 {
		err = errRead
	}
	if r.at >= end {
		return 0, err
	}
	n := end - r.at
	if n > len(p) {
		n = len(p)
	}
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	copy(p, r.data[r.at:r.at+n])
	r.at += n
	if r.with && r.at == end {
		return n, err
	}
	return n, nil
}

func bits(f float32) string {
	b := math.Float32bits(f)
	return fmt.Sprintf("%d.%d.%d.%d", b&255, b>>8&255, b>>16&255, b>>24)
}

func index(i uint32) int {
	if i > 1<<24 {
		return 1 << 24
	}
	return int(i)
}

func withAtts(m *go3mf.Model) M {
	r := proj{prec: -1}.model(m)
	r["atts"] = attachments(m)
	return r
}

// opStl imports files, each into the same model.
//
//	case: model, files: [{bytes, fails (or -1), chunk, with, zeros}]
//	out:  files: [{failed, err, before, after (without the mesh of the new object), vs: [[bits]], ts: [[index]], bare}]
func opStl(c M) M {
	files := L{}
	for _, f := range c.ms("files") {
		before := withAtts(bModel(c.m("model")))
		m := bModel(c.m("model"))
		n := len(m.Resources.Objects)
		raw := ints(f["bytes"])
		data := make([]byte, len(raw))
		for i, b := range raw {
			data[i] = byte(b)
		}
		err := stl.NewDecoder(&pieces{data: data, fails: f.i("fails"), chunk: f.i("chunk"), with: f.b("with"), zeros: f.b("zeros")}).Decode(m)
		vs, ts := L{}, L{}
		bare := true
		if len(m.Resources.Objects) == n+1 {
			o := m.Resources.Objects[n]
			if o.Mesh == nil {
				bare = false
			} else {
				for _, v := range o.Mesh.Vertices.Vertex {
					vs = append(vs, L{bits(v[0]), bits(v[1]), bits(v[2])})
				}
				for _, t := range o.Mesh.Triangles.Triangle {
					ts = append(ts, L{index(t.V1), index(t.V2), index(t.V3)})
					bare = bare && t.PID == 0 && t.P1 == 0 && t.P2 == 0 && t.P3 == 0 && len(t.AnyAttr) == 0
				}
				bare = bare && len(o.Mesh.Any) == 0 && len(o.Mesh.AnyAttr) == 0 && len(o.Mesh.Vertices.AnyAttr) == 0 && len(o.Mesh.Triangles.AnyAttr) == 0
				o.Mesh = nil
			}
		}
		files = append(files, M{"failed": err != nil, "err": fmt.Sprint(err), "before": before, "after": withAtts(m), "vs": vs, "ts": ts, "bare": bare})
	}
	return M{"files": files}
}

// opStlBig imports a file of many facets: the corner k of facet f is the position f + k of a grid, or 3f + k.
//
//	case: n, text, apart, chunk
//	out:  failed, objects, vs: which position each vertex is, ts: [[index]]
func opStlBig(c M) M {
	n, by := c.i("n"), 1
	if c.b("apart") {
		by = 3
	}
	var b bytes.Buffer
	if c.b("text") {
		b.WriteString("solid big\n")
	} else {
		b.Write(make([]byte, 80))
		b.Write([]byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)})
	}
	for f := 0; f < n; f++ {
		if c.b("text") {
			b.WriteString("facet normal 0 0 1\nouter loop\n")
		} else {
			b.Write(make([]byte, 12))
		}
		for k := 0; k < 3; k++ {
			p := gridPos(f*by+k, 1)
			if c.b("text") {
				fmt.Fprintf(&b, "vertex %v %v %v\n", p[0], p[1], p[2])
			} else {
				for _, x := range p {
					u := math.Float32bits(x)
					b.Write([]byte{byte(u), byte(u >> 8), byte(u >> 16), byte(u >> 24)})
				}
			}
		}
		if c.b("text") {
			b.WriteString("endloop\nendfacet\n")
		} else {
			b.Write([]byte{0, 0})
		}
	}
	if c.b("text") {
		b.WriteString("endsolid big\n")
	}
	m := new(go3mf.Model)
	err := stl.NewDecoder(&pieces{data: b.Bytes(), fails: -1, chunk: c.i("chunk")}).Decode(m)
	vs, ts := L{}, L{}
	for _, o := range m.Resources.Objects {
		if o.Mesh != nil {
			for _, v := range o.Mesh.Vertices.Vertex {
				vs = append(vs, gridIdx(v, 1))
			}
			for _, t := range o.Mesh.Triangles.Triangle {
				ts = append(ts, L{index(t.V1), index(t.V2), index(t.V3)})
			}
		}
	}
	return M{"failed": err != nil, "objects": len(m.Resources.Objects), "vs": vs, "ts": ts}
}
