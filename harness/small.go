package main

import (
	"bytes"
	stderrors "errors"
	"fmt"
	"io"
	"math"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
)

func init() {
	ops["errs"] = opErrs
	ops["uuid"] = opUUID
	ops["uuidnew"] = opUUIDNew
	ops["mat"] = opMat
	ops["parsemat"] = opParseMat
	ops["bbox"] = opBBox
	ops["coh"] = opCoh
	ops["mb"] = opMB
	ops["mbbig"] = opMBBig
	ops["look"] = opLook
}

func toInt(v interface{}) int {
	f, _ := v.(float64)
	return int(f)
}
func ints(v interface{}) []int {
	l, _ := v.([]interface{})
	r := []int{}
	for _, x := range l {
		r = append(r, toInt(x))
	}
	return r
}

// fi gives an exact integer of a float, or a number that no specification predicts.
func fi(v float32) interface{} { return fsc(v, 0) }

// fsc is fi of a number in units of 2^e.
func fsc(x float32, e int) interface{} {
	v := math.Ldexp(float64(x), -e)
	if v == math.Trunc(v) && math.Abs(v) < 1<<30 {
		return int(v)
	}
	return 999999999
}

// ---------------------------------------------------------------- errors

// opErrs executes a stack program of error operations and reports every value of the final stack.
func opErrs(c M) M {
	leaves := map[string]error{}
	leaf := func(n string) error {
		if leaves[n] == nil {
			leaves[n] = stderrors.New(n)
			switch n { // what it must read like
			case "required field 'id' is not set":
				leaves[n] = errors.NewMissingFieldError("id")
			case "error parsing required attribute 'x1'":
				leaves[n] = errors.NewParseAttrError("x1", true)
			case "error parsing optional attribute 'p:b'":
				leaves[n] = errors.NewParseAttrError("p:b", false)
			}
			for _, e := range append([]error{errors.ErrMissingID, errors.ErrRecursion}, failures[1:]...) { // errors that programs test for
				if e.Error() == n {
					leaves[n] = e
				}
			}
		}
		return leaves[n]
	}
	member := func(e error) M {
		r := M{"x": "", "p": "", "leaf": "", "text": e.Error()}
		if t, ok := e.(*errors.Error); ok {
			r["x"], r["p"] = t.XPath(), t.Path
		}
		for n, l := range leaves {
			if stderrors.Is(e, l) {
				r["leaf"] = r["leaf"].(string) + n
			}
		}
		return r
	}
	var st []error
	pop := func() error {
		e := st[len(st)-1]
		st = st[:len(st)-1]
		return e
	}
	for _, o := range c.ms("prog") {
		switch o.s("o") {
		case "leaf":
			st = append(st, leaf(o.s("n")))
		case "nil":
			st = append(st, nil)
		case "app1":
			st = append(st, errors.Append(pop()))
		case "app2":
			b, a := pop(), pop()
			st = append(st, errors.Append(a, b))
		case "app3":
			x, b, a := pop(), pop(), pop()
			st = append(st, errors.Append(a, b, x))
		case "appn":
			k := len(st) - o.i("n")
			as := append([]error(nil), st[k:]...)
			st = append(st[:k], errors.Append(as[0], as[1:]...))
		case "turn":
			if l, ok := st[len(st)-1].(*errors.List); ok && l.Len() > 1 {
				l.Swap(0, l.Len()-1)
			}
		case "say":
			if e := st[len(st)-1]; e != nil {
				_ = e.Error()
				_ = fmt.Sprintf("%+v", e)
				_ = member(e)
			}
		case "wrap":
			st = append(st, errors.Wrap(pop(), o.s("n")))
		case "wrapi":
			st = append(st, errors.WrapIndex(pop(), o.s("n"), o.i("i")))
		case "wrapp":
			st = append(st, errors.WrapPath(pop(), o.s("n"), o.s("p")))
		}
	}
	out := L{}
	for _, e := range st {
		switch t := e.(type) {
		case nil:
			out = append(out, M{"k": "nil", "ms": L{}, "text": "", "n": 0, "first": ""})
		case *errors.List:
			ms := L{}
			for _, x := range t.Errors {
				ms = append(ms, member(x))
			}
			out = append(out, M{"k": "list", "ms": ms, "text": t.Error(), "n": t.Len(), "first": member(e)["leaf"]})
		default:
			out = append(out, M{"k": "one", "ms": L{member(e)}, "text": e.Error(), "n": 1, "first": member(e)["leaf"]})
		}
	}
	return M{"st": out}
}

// ---------------------------------------------------------------- identifiers

// opUUID asks every place that judges identifiers about each string.
func opUUID(c M) M {
	out := L{}
	for _, s := range strs(c["ss"]) {
		ok := uuid.Validate(s) == nil
		doc := M{"t": "S", "ns": "core", "n": "model", "a": L{
			M{"ns": "", "n": "xmlns", "s": go3mf.Namespace}, M{"ns": "xmlns", "n": "p", "s": production.Namespace}}, "c": L{
			M{"t": "S", "ns": "core", "n": "resources", "a": L{}, "c": L{}},
			M{"t": "S", "ns": "core", "n": "build", "a": L{M{"ns": "p", "n": "UUID", "s": s}}, "c": L{}}}}
		dec := "?"
		if b, err := serialize(round(doc), 0); err == nil {
			m := new(go3mf.Model)
			err := go3mf.UnmarshalModel(b, m)
			dec = "accept"
			if err != nil {
				dec = "reject"
			}
		}
		m := &go3mf.Model{Extensions: []go3mf.Extension{production.DefaultExtension}}
		m.Build.AnyAttr = append(m.Build.AnyAttr, &production.BuildAttr{UUID: s})
		val := "accept"
		if m.Validate() != nil {
			val = "reject"
		}
		out = append(out, M{"ok": ok, "dec": dec, "val": val})
	}
	return M{"rs": out}
}

// oneByte returns at most n bytes on each read.
type chunked struct {
	r io.Reader
	n int
}

func (c chunked) Read(p []byte) (int, error) {
	if c.n > 0 && len(p) > c.n {
		p = p[:c.n]
	}
	return c.r.Read(p)
}

func opUUIDNew(c M) M {
	var b []byte
	for _, x := range ints(c["bytes"]) {
		b = append(b, byte(x))
	}
	defer uuid.SetRand(nil)
	uuid.SetRand(chunked{bytes.NewReader(b), c.i("chunk")})
	out := L{}
	for i := 0; i+16 <= len(b); i += 16 {
		s := uuid.New()
		out = append(out, M{"s": s, "ok": uuid.Validate(s) == nil})
	}
	uuid.SetRand(nil)
	x, y := uuid.New(), uuid.New()
	return M{"rs": out, "fresh": x != y && uuid.Validate(x) == nil && uuid.Validate(y) == nil}
}

// ---------------------------------------------------------------- transforms

// mat16 builds a matrix from 16 integers in row-major order, or an affine one from 12.
func mat16(v []int) (m go3mf.Matrix) {
	if len(v) == 12 {
		for r := 0; r < 4; r++ {
			for k := 0; k < 3; k++ {
				m[4*r+k] = float32(v[3*r+k])
			}
		}
		m[15] = 1
		return
	}
	for i := range v {
		m[i] = float32(v[i])
	}
	return
}

func pt(v go3mf.Point3D, e int) L { return L{fsc(v[0], e), fsc(v[1], e), fsc(v[2], e)} }

func pBox(b go3mf.Box, e int) L { return L{pt(b.Min, e), pt(b.Max, e)} }

// sc is a number in units of 2^e.
func sc(v, e int) float32 { return float32(math.Ldexp(float64(v), e)) }

func opMat(c M) M {
	a, b := mat16(ints(c["a"])), mat16(ints(c["b"]))
	it, co := go3mf.Item{Transform: a}, go3mf.Component{Transform: a}
	// a in units of 2^ea and b in units of 2^eb: every answer is in units of a power of two, and as exact
	ea, eb := c.i("ea"), c.i("eb")
	for i := range a {
		a[i] = float32(math.Ldexp(float64(a[i]), ea))
		b[i] = float32(math.Ldexp(float64(b[i]), eb))
	}
	p := ints(c["p"])
	p3 := go3mf.Point3D{float32(p[0]), float32(p[1]), float32(p[2])}
	p2 := go3mf.Point2D{float32(p[0]), float32(p[1])}
	full := func(m go3mf.Matrix, e int) L {
		r := L{}
		for _, v := range m {
			r = append(r, fsc(v, e))
		}
		return r
	}
	q2 := a.Mul2D(p2)
	bx := ints(c["box"])
	box := go3mf.Box{Min: go3mf.Point3D{float32(bx[0]), float32(bx[1]), float32(bx[2])}, Max: go3mf.Point3D{float32(bx[3]), float32(bx[4]), float32(bx[5])}}
	ebox := ea
	if a == (go3mf.Matrix{}) { // no transform
		ebox = 0
	}
	return M{"ab": full(a.Mul(b), ea+eb), "ida": full(go3mf.Identity().Mul(a), ea), "aid": full(a.Mul(go3mf.Identity()), ea),
		"tr": full(a.Translate(sc(p[0], ea), sc(p[1], ea), sc(p[2], ea)), ea), "p3": pt(a.Mul3D(p3), ea), "p2": L{fsc(q2[0], ea), fsc(q2[1], ea)},
		"box": pBox(a.MulBox(box), ebox), "has": it.HasTransform(), "hasc": co.HasTransform()}
}

// opParseMat parses text, and writes and parses a matrix given in units of 1/64.
func opParseMat(c M) M {
	view := func(s string) M {
		m, ok := spec.ParseMatrix(s)
		r := L{}
		if ok {
			for _, v := range m {
				r = append(r, int(math.Round(float64(v)*1000)))
			}
		}
		return M{"ok": ok, "m": r}
	}
	if c.has("text") {
		return view(c.s("text"))
	}
	m := mat16(ints(c["m"]))
	for r := 0; r < 4; r++ {
		for k := 0; k < 3; k++ {
			m[4*r+k] /= 64
		}
	}
	s := m.String()
	v := view(s)
	v["s"] = s
	return v
}

// ---------------------------------------------------------------- bounding boxes

func opBBox(c M) M {
	m := geoModel(c)
	meshes := L{}
	for _, p := range c.ms("parts") {
		rs, _ := m.FindResources(p.s("path"))
		for _, o := range rs.Objects {
			if o.Mesh != nil {
				meshes = append(meshes, pBox(o.Mesh.BoundingBox(), c.i("scale")))
			} else {
				meshes = append(meshes, L{})
			}
		}
	}
	n := c.i("rep")
	if n == 0 {
		n = 1
	}
	first := pBox(m.BoundingBox(), c.i("scale"))
	same := true
	for i := 1; i < n; i++ {
		same = same && fmt.Sprint(pBox(m.BoundingBox(), c.i("scale"))) == fmt.Sprint(first)
	}
	return M{"box": first, "same": same, "meshes": meshes}
}

// geoModel builds a model from integers: parts (the first is the root) with objects, and build items.
func geoModel(c M) *go3mf.Model {
	m := &go3mf.Model{Path: c.s("rootpath"), Childs: map[string]*go3mf.ChildModel{}}
	tr := func(v interface{}) go3mf.Matrix {
		if x := ints(v); len(x) == 12 || len(x) == 16 {
			m := mat16(x)
			for i := 12; i < 15; i++ {
				m[i] = float32(math.Ldexp(float64(m[i]), c.i("scale")))
			}
			return m
		}
		return go3mf.Matrix{}
	}
	for i, p := range c.ms("parts") {
		rs := &m.Resources
		if i > 0 {
			m.Childs[p.s("path")] = &go3mf.ChildModel{}
			rs = &m.Childs[p.s("path")].Resources
		}
		for _, o := range p.ms("objs") {
			ob := &go3mf.Object{ID: uint32(o.i("id"))}
			if o.b("mesh") {
				ob.Mesh = new(go3mf.Mesh)
				for _, v := range o.l("vs") {
					x := ints(v)
					ob.Mesh.Vertices.Vertex = append(ob.Mesh.Vertices.Vertex, go3mf.Point3D{sc(x[0], c.i("scale")), sc(x[1], c.i("scale")), sc(x[2], c.i("scale"))})
				}
			}
			if o.b("hascomps") {
				ob.Components = new(go3mf.Components)
				for _, k := range o.ms("comps") {
					x := &go3mf.Component{ObjectID: uint32(k.i("oid")), Transform: tr(k["tr"])}
					if q := k.s("path"); q != "" {
						x.AnyAttr = append(x.AnyAttr, &production.ComponentAttr{Path: q})
					}
					ob.Components.Component = append(ob.Components.Component, x)
				}
			}
			rs.Objects = append(rs.Objects, ob)
		}
	}
	for _, k := range c.ms("items") {
		x := &go3mf.Item{ObjectID: uint32(k.i("oid")), Transform: tr(k["tr"])}
		if q := k.s("path"); q != "" {
			x.AnyAttr = append(x.AnyAttr, &production.ItemAttr{Path: q})
		}
		m.Build.Items = append(m.Build.Items, x)
	}
	decorate(m, c.i("decor"), true)
	return m
}

// ---------------------------------------------------------------- mesh coherency

// triMesh numbers the vertices as a map says, if there is one.
func triMesh(nv int, ts []interface{}, names []interface{}) *go3mf.Mesh {
	at := func(i int) uint32 {
		if i < len(names) {
			n, err := strconv.ParseUint(names[i].(string), 10, 32)
			if err != nil {
				panic(err)
			}
			return uint32(n)
		}
		return uint32(i)
	}
	me := new(go3mf.Mesh)
	for i := 0; i < nv; i++ {
		me.Vertices.Vertex = append(me.Vertices.Vertex, go3mf.Point3D{float32(i), float32(i * i), float32(i % 3)})
	}
	for _, t := range ts {
		x := ints(t)
		me.Triangles.Triangle = append(me.Triangles.Triangle, go3mf.Triangle{V1: at(x[0]), V2: at(x[1]), V3: at(x[2])})
	}
	return me
}

// opCoh checks a list of meshes one by one, or a model made of objects.
func opCoh(c M) M {
	if c.has("meshes") {
		r := L{}
		for _, x := range c.ms("meshes") {
			me := triMesh(x.i("nv"), x.l("ts"), c.l("names"))
			if k := c.i("decor"); k != 0 {
				decorate(&go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{{Mesh: me}}}}, k+len(r), false)
			}
			err := me.ValidateCoherency()
			if err == nil {
				r = append(r, "ok")
			} else {
				r = append(r, code(err))
			}
		}
		return M{"rs": r}
	}
	m := &go3mf.Model{Path: c.s("rootpath"), Childs: map[string]*go3mf.ChildModel{}}
	for i, p := range c.ms("parts") {
		rs := &m.Resources
		if i > 0 {
			m.Childs[p.s("path")] = &go3mf.ChildModel{}
			rs = &m.Childs[p.s("path")].Resources
		}
		for j, o := range p.ms("objs") {
			ob := &go3mf.Object{ID: uint32(j + 1), Type: go3mf.ObjectType(idx(otypeNames, o.s("type")))}
			if o.b("mesh") {
				ob.Mesh = triMesh(o.i("nv"), o.l("ts"), c.l("names"))
			} else {
				ob.Components = new(go3mf.Components)
			}
			rs.Objects = append(rs.Objects, ob)
		}
	}
	decorate(m, c.i("decor"), false)
	err := m.ValidateCoherency()
	return M{"errs": flatten(err), "nil": err == nil}
}

// ---------------------------------------------------------------- mesh building

// opMB adds positions (text of three coordinates) and reports index and mesh after every step.
func opMB(c M) M {
	pos := c.l("pos")
	at := func(i int) go3mf.Point3D {
		f := bFS(pos[i])
		return go3mf.Point3D{f[0], f[1], f[2]}
	}
	me := new(go3mf.Mesh)
	for _, i := range ints(c["pre"]) {
		me.Vertices.Vertex = append(me.Vertices.Vertex, at(i))
	}
	var b *go3mf.MeshBuilder
	if c.b("conn") {
		b = go3mf.NewMeshBuilder(me)
	} else {
		b = go3mf.NewMeshBuilder(me)
		b.CalculateConnectivity = false
	}
	// Bits identify a position exactly, up to the sign of zero.
	id := func(v go3mf.Point3D) int {
		for i := range pos {
			if at(i) == v {
				return i
			}
		}
		return -1
	}
	steps := L{}
	for _, o := range c.ms("adds") {
		if o.has("conn") {
			b.CalculateConnectivity = o.b("conn")
		}
		k := o.i("p")
		r := b.AddVertex(at(k))
		vs := L{}
		for _, v := range me.Vertices.Vertex {
			vs = append(vs, id(v))
		}
		steps = append(steps, M{"i": int(r), "vs": vs})
	}
	return M{"steps": steps}
}

// gridPos is the i-th of the positions of a grid, all of them far from each other; gridIdx is its inverse, or -1.
func gridPos(i int, step float32) go3mf.Point3D {
	return go3mf.Point3D{float32(i%50) * step, float32(i/50%50) * step, float32(i/2500) * step}
}

func gridIdx(p go3mf.Point3D, step float32) int {
	x, y, z := int(p[0]/step+.5), int(p[1]/step+.5), int(p[2]/step+.5)
	i := x + 50*y + 2500*z
	if i < 0 || gridPos(i, step) != p {
		return -1
	}
	return i
}

// opMBBig adds the positions of a grid in passes.
//
//	case: n, step, passes: [{down, conn}]
//	out:  is: the answers, ns: the number of vertices after each, vs: which position each vertex is
func opMBBig(c M) M {
	n, step := c.i("n"), bFS([]interface{}{c["step"]})[0]
	me := new(go3mf.Mesh)
	b := go3mf.NewMeshBuilder(me)
	is, ns, vs := L{}, L{}, L{}
	for _, p := range c.ms("passes") {
		b.CalculateConnectivity = p.b("conn")
		for k := 0; k < n; k++ {
			i := k
			if p.b("down") {
				i = n - 1 - k
			}
			is = append(is, index(b.AddVertex(gridPos(i, step))))
			ns = append(ns, len(me.Vertices.Vertex))
		}
	}
	for _, v := range me.Vertices.Vertex {
		vs = append(vs, gridIdx(v, step))
	}
	return M{"is": is, "ns": ns, "vs": vs}
}

// ---------------------------------------------------------------- lookup

// opLook builds parts with resources and asks for ids, lookups and walks.
// Every resource is named by its part and position.
func opLook(c M) M {
	m := &go3mf.Model{Path: c.s("rootpath")}
	names := map[interface{}]string{}
	for i, p := range c.ms("parts") {
		rs := &m.Resources
		if i > 0 {
			if m.Childs == nil {
				m.Childs = map[string]*go3mf.ChildModel{}
			}
			m.Childs[p.s("path")] = &go3mf.ChildModel{}
			rs = &m.Childs[p.s("path")].Resources
		}
		for j, id := range ints(p["assets"]) {
			if id == 0 && (i+j)%2 == 0 {
				a := bAsset(M{"k": "unk", "tree": map[string]interface{}{"t": "S", "ns": "http://x.org/one", "n": "thing", "a": []interface{}{}, "c": []interface{}{}}})
				names[a] = fmt.Sprintf("%s#a%d", p.s("path"), j)
				rs.Assets = append(rs.Assets, a)
				continue
			}
			a := bAsset(M{"k": []string{"base", "color", "tex", "texg", "comp", "multi", "stack"}[(i+j)%7], "id": fmt.Sprint(id)})
			names[a] = fmt.Sprintf("%s#a%d", p.s("path"), j)
			rs.Assets = append(rs.Assets, a)
		}
		for j, id := range ints(p["objects"]) {
			o := &go3mf.Object{ID: uint32(id)}
			names[o] = fmt.Sprintf("%s#o%d", p.s("path"), j)
			rs.Objects = append(rs.Objects, o)
		}
	}
	decorate(m, c.i("decor"), true)
	unused := L{}
	for _, p := range c.ms("parts") {
		rs, ok := m.FindResources(p.s("path"))
		if !ok {
			unused = append(unused, -1)
			continue
		}
		unused = append(unused, int(rs.UnusedID()))
	}
	find := L{}
	for _, q := range c.ms("find") {
		a, o := "-", "-"
		if x, ok := m.FindAsset(q.s("path"), uint32(q.i("id"))); ok {
			a = names[x]
		}
		if x, ok := m.FindObject(q.s("path"), uint32(q.i("id"))); ok {
			o = names[x]
		}
		_, r := m.FindResources(q.s("path"))
		find = append(find, M{"a": a, "o": o, "r": r})
	}
	walk := func(stop int, objs bool) M {
		n := 0
		seen := L{}
		e := failure(c)
		visit := func(path string, x interface{}) error {
			seen = append(seen, path+">"+names[x])
			n++
			if n == stop {
				return e
			}
			return nil
		}
		var err error
		if objs {
			err = m.WalkObjects(func(p string, o *go3mf.Object) error { return visit(p, o) })
		} else {
			err = m.WalkAssets(func(p string, a go3mf.Asset) error { return visit(p, a) })
		}
		return M{"seen": seen, "err": err == e, "nil": err == nil}
	}
	walks := L{}
	for _, s := range ints(c["stops"]) {
		walks = append(walks, M{"a": walk(s, false), "o": walk(s, true)})
	}
	return M{"unused": unused, "find": find, "walks": walks}
}
