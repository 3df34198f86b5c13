package main

import (
	"bytes"
	"encoding/xml"
	"image/color"
	"io"
	"sort"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

var (
	unitNames  = []string{"millimeter", "micron", "centimeter", "inch", "foot", "meter"}
	otypeNames = []string{"model", "other", "support", "solidsupport", "surface"}
	ctNames    = []string{"", "image/png", "image/jpeg"}
	tileNames  = []string{"wrap", "mirror", "clamp", "none"}
	filtNames  = []string{"auto", "linear", "nearest"}
	blendNames = []string{"mix", "multiply"}
	resNames   = []string{"fullres", "lowres"}
	clipNames  = []string{"none", "inside", "outside"}
	capNames   = []string{"sphere", "hemisphere", "butt"}
)

func idx(names []string, s string) int {
	for i, n := range names {
		if n == s {
			return i
		}
	}
	return 0
}
func nameOf(names []string, i int) string {
	if i >= 0 && i < len(names) {
		return names[i]
	}
	return "?"
}

// Short names of the known name spaces, used in the specification.
var nsAlias = map[string]string{
	go3mf.Namespace:                        "core",
	materials.Namespace:                    "m",
	slices.Namespace:                       "s",
	beamlattice.Namespace:                  "b",
	production.Namespace:                   "p",
	"http://www.w3.org/XML/1998/namespace": "xml",
}
var nsURL = func() map[string]string {
	r := map[string]string{}
	for k, v := range nsAlias {
		r[v] = k
	}
	return r
}()

func alias(s string) string {
	if a, ok := nsAlias[s]; ok {
		return a
	}
	return s
}
func unalias(s string) string {
	if a, ok := nsURL[s]; ok {
		return a
	}
	return s
}

// ---------------------------------------------------------------- JSON -> model

func bMatrix(v interface{}) go3mf.Matrix {
	s := strs(v)
	if len(s) != 12 {
		return go3mf.Matrix{}
	}
	var t [12]float32
	for i := range t {
		t[i] = pf(s[i])
	}
	return go3mf.Matrix{t[0], t[1], t[2], 0, t[3], t[4], t[5], 0, t[6], t[7], t[8], 0, t[9], t[10], t[11], 1}
}

func bColor(s string) color.RGBA {
	var b [4]byte
	for i := range b {
		if len(s) >= 2*i+2 {
			b[i] = unhex(s[2*i])<<4 | unhex(s[2*i+1])
		}
	}
	return color.RGBA{R: b[0], G: b[1], B: b[2], A: b[3]}
}
func unhex(c byte) byte {
	switch {
	case c >= '0' && c <= '9':
		return c - '0'
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10
	}
	return 0
}

func bAttrs(v []M) (r spec.AnyAttr) {
	for _, g := range v {
		switch g.s("k") {
		case "u":
			u := &spec.UnknownAttrs{Space: unalias(g.s("ns"))}
			for _, a := range g.ms("a") {
				u.Attr = append(u.Attr, xml.Attr{Name: xml.Name{Space: unalias(a.s("ns")), Local: a.s("n")}, Value: a.s("s")})
			}
			r = append(r, u)
		case "pbuild":
			r = append(r, &production.BuildAttr{UUID: g.s("uuid")})
		case "pobj":
			r = append(r, &production.ObjectAttr{UUID: g.s("uuid")})
		case "pitem":
			r = append(r, &production.ItemAttr{UUID: g.s("uuid"), Path: g.s("path")})
		case "pcomp":
			r = append(r, &production.ComponentAttr{UUID: g.s("uuid"), Path: g.s("path")})
		case "sobj":
			r = append(r, &slices.ObjectAttr{SliceStackID: g.u("id"), MeshResolution: slices.MeshResolution(idx(resNames, g.s("res")))})
		}
	}
	return
}

func bMeta(v []M) (r []go3mf.Metadata) {
	for _, x := range v {
		r = append(r, go3mf.Metadata{Name: xml.Name{Space: x.s("ns"), Local: x.s("n")}, Value: x.s("val"), Type: x.s("type"), Preserve: x.b("pres")})
	}
	return
}

func bMetaGroup(v M) go3mf.MetadataGroup {
	return go3mf.MetadataGroup{Metadata: bMeta(v.ms("md")), AnyAttr: bAttrs(v.ms("attrs"))}
}

func bTokens(n M) []xml.Token {
	if n.s("t") == "T" {
		return []xml.Token{xml.CharData(n.s("s"))}
	}
	name := xml.Name{Space: unalias(n.s("ns")), Local: n.s("n")}
	se := xml.StartElement{Name: name}
	for _, a := range n.ms("a") {
		se.Attr = append(se.Attr, xml.Attr{Name: xml.Name{Space: unalias(a.s("ns")), Local: a.s("n")}, Value: a.s("s")})
	}
	r := []xml.Token{se}
	for _, c := range n.ms("c") {
		r = append(r, bTokens(c)...)
	}
	return append(r, xml.EndElement{Name: name})
}

func bUS(v interface{}) (r []uint32) {
	for _, s := range strs(v) {
		r = append(r, pu(s))
	}
	return
}
func bFS(v interface{}) (r []float32) {
	for _, s := range strs(v) {
		r = append(r, pf(s))
	}
	return
}
func list(v interface{}) []interface{} { l, _ := v.([]interface{}); return l }

func bPts2(v []interface{}) (r [][2]float32) {
	for _, p := range v {
		f := bFS(p)
		r = append(r, [2]float32{f[0], f[1]})
	}
	return
}

func bAsset(a M) go3mf.Asset {
	switch a.s("k") {
	case "base":
		r := &go3mf.BaseMaterials{ID: a.u("id"), AnyAttr: bAttrs(a.ms("attrs"))}
		for _, b := range a.ms("mats") {
			r.Materials = append(r.Materials, go3mf.Base{Name: b.s("name"), Color: bColor(b.s("color")), AnyAttr: bAttrs(b.ms("attrs"))})
		}
		return r
	case "color":
		r := &materials.ColorGroup{ID: a.u("id")}
		for _, c := range strs(a["cs"]) {
			r.Colors = append(r.Colors, bColor(c))
		}
		return r
	case "tex":
		return &materials.Texture2D{ID: a.u("id"), Path: a.s("path"), ContentType: materials.Texture2DType(idx(ctNames, a.s("ct"))),
			TileStyleU: materials.TileStyle(idx(tileNames, a.s("u"))), TileStyleV: materials.TileStyle(idx(tileNames, a.s("v"))),
			Filter: materials.TextureFilter(idx(filtNames, a.s("f")))}
	case "texg":
		r := &materials.Texture2DGroup{ID: a.u("id"), TextureID: a.u("tid")}
		for _, p := range bPts2(a.l("cs")) {
			r.Coords = append(r.Coords, materials.TextureCoord(p))
		}
		return r
	case "comp":
		r := &materials.CompositeMaterials{ID: a.u("id"), MaterialID: a.u("mid"), Indices: bUS(a["idx"])}
		for _, v := range a.l("vals") {
			r.Composites = append(r.Composites, materials.Composite{Values: bFS(v)})
		}
		return r
	case "multi":
		r := &materials.MultiProperties{ID: a.u("id"), PIDs: bUS(a["pids"])}
		for _, b := range strs(a["blends"]) {
			r.BlendMethods = append(r.BlendMethods, materials.BlendMethod(idx(blendNames, b)))
		}
		for _, v := range a.l("ms") {
			r.Multis = append(r.Multis, materials.Multi{PIndices: bUS(v)})
		}
		return r
	case "stack":
		r := &slices.SliceStack{ID: a.u("id"), BottomZ: a.f("zb")}
		for _, s := range a.ms("slices") {
			sl := slices.Slice{TopZ: s.f("zt")}
			for _, p := range bPts2(s.l("vs")) {
				sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D(p))
			}
			for _, p := range s.ms("ps") {
				pl := slices.Polygon{StartV: p.u("sv")}
				for _, g := range p.ms("segs") {
					pl.Segments = append(pl.Segments, slices.Segment{V2: g.u("v2"), PID: g.u("pid"), P1: g.u("p1"), P2: g.u("p2")})
				}
				sl.Polygons = append(sl.Polygons, pl)
			}
			r.Slices = append(r.Slices, sl)
		}
		for _, s := range a.ms("refs") {
			r.Refs = append(r.Refs, slices.SliceRef{SliceStackID: s.u("id"), Path: s.s("path")})
		}
		return r
	case "unk":
		return &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: bTokens(a.m("tree"))}}
	}
	return nil
}

func bAny(v []M) (r spec.Any) {
	for _, x := range v {
		switch x.s("k") {
		case "tok":
			r = append(r, &spec.UnknownTokens{Token: bTokens(x.m("tree"))})
		case "bl":
			b := &beamlattice.BeamLattice{ClipMode: beamlattice.ClipMode(idx(clipNames, x.s("clip"))), ClippingMeshID: x.u("cm"),
				RepresentationMeshID: x.u("rm"), MinLength: x.f("minl"), Radius: x.f("rad"), CapMode: beamlattice.CapMode(idx(capNames, x.s("cap")))}
			for _, y := range x.ms("beams") {
				v, rr, c := bUS(y["v"]), bFS(y["r"]), strs(y["cap"])
				b.Beams.Beam = append(b.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{v[0], v[1]}, Radius: [2]float32{rr[0], rr[1]},
					CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(idx(capNames, c[0])), beamlattice.CapMode(idx(capNames, c[1]))}})
			}
			for _, y := range x.ms("sets") {
				b.BeamSets.BeamSet = append(b.BeamSets.BeamSet, beamlattice.BeamSet{Name: y.s("name"), Identifier: y.s("ident"), Refs: bUS(y["refs"])})
			}
			r = append(r, b)
		default:
			if a, ok := bAsset(x).(spec.Marshaler); ok {
				r = append(r, a)
			}
		}
	}
	return
}

func bObject(o M) *go3mf.Object {
	r := &go3mf.Object{ID: o.u("id"), Name: o.s("name"), PartNumber: o.s("pn"), Thumbnail: o.s("thumb"), PID: o.u("pid"), PIndex: o.u("pidx"),
		Type: go3mf.ObjectType(idx(otypeNames, o.s("type"))), Metadata: bMetaGroup(o.m("meta")), AnyAttr: bAttrs(o.ms("attrs"))}
	for _, m := range o.ms("mesh") {
		ms := &go3mf.Mesh{AnyAttr: bAttrs(m.ms("attrs")), Any: bAny(m.ms("any"))}
		ms.Vertices.AnyAttr = bAttrs(m.ms("vattrs"))
		ms.Triangles.AnyAttr = bAttrs(m.ms("tattrs"))
		for _, v := range m.l("vs") {
			f := bFS(v)
			ms.Vertices.Vertex = append(ms.Vertices.Vertex, go3mf.Point3D{f[0], f[1], f[2]})
		}
		for _, t := range m.ms("ts") {
			v, p := bUS(t["v"]), bUS(t["p"])
			ms.Triangles.Triangle = append(ms.Triangles.Triangle, go3mf.Triangle{V1: v[0], V2: v[1], V3: v[2], PID: t.u("pid"), P1: p[0], P2: p[1], P3: p[2], AnyAttr: bAttrs(t.ms("attrs"))})
		}
		r.Mesh = ms
	}
	for _, c := range o.ms("comps") {
		cs := &go3mf.Components{AnyAttr: bAttrs(c.ms("attrs"))}
		for _, x := range c.ms("list") {
			cs.Component = append(cs.Component, &go3mf.Component{ObjectID: x.u("oid"), Transform: bMatrix(x["tr"]), AnyAttr: bAttrs(x.ms("attrs"))})
		}
		r.Components = cs
	}
	return r
}

func bRes(v M) go3mf.Resources {
	r := go3mf.Resources{AnyAttr: bAttrs(v.ms("attrs"))}
	for _, a := range v.ms("assets") {
		if x := bAsset(a); x != nil {
			r.Assets = append(r.Assets, x)
		}
	}
	for _, o := range v.ms("objects") {
		r.Objects = append(r.Objects, bObject(o))
	}
	return r
}

func bRels(v []M) (r []go3mf.Relationship) {
	for _, x := range v {
		r = append(r, go3mf.Relationship{Path: x.s("path"), Type: x.s("type"), ID: x.s("id")})
	}
	return
}

func bModel(v M) *go3mf.Model {
	m := &go3mf.Model{Path: v.s("path"), Language: v.s("lang"), Units: go3mf.Units(idx(unitNames, v.s("unit"))), Thumbnail: v.s("thumb"),
		Resources: bRes(v.m("res")), Metadata: bMeta(v.ms("meta")), Any: bAny(v.ms("any")), AnyAttr: bAttrs(v.ms("attrs")),
		RootRelationships: bRels(v.ms("rrels")), Relationships: bRels(v.ms("rels"))}
	for _, e := range v.ms("exts") {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: e.s("ns"), LocalName: e.s("p"), IsRequired: e.b("req")})
	}
	b := v.m("build")
	m.Build.AnyAttr = bAttrs(b.ms("attrs"))
	for _, i := range b.ms("items") {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: i.u("oid"), Transform: bMatrix(i["tr"]), PartNumber: i.s("pn"),
			Metadata: bMetaGroup(i.m("meta")), AnyAttr: bAttrs(i.ms("attrs"))})
	}
	for _, c := range v.ms("childs") {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[c.s("path")] = &go3mf.ChildModel{Resources: bRes(c.m("res")), Relationships: bRels(c.ms("rels")), Any: bAny(c.ms("any"))}
	}
	for _, a := range v.ms("atts") {
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: a.s("path"), ContentType: a.s("ct"), Stream: strings.NewReader(a.s("data"))})
	}
	return m
}

// ---------------------------------------------------------------- model -> JSON

// proj projects models rounding coordinates to prec decimals, or exactly if prec < 0.
// With written, transforms have three decimals.
type proj struct {
	prec    int
	written bool
}

func (p proj) f(v float32) string {
	if p.prec < 0 {
		return fs(v)
	}
	return fround(v, p.prec)
}

func (p proj) matrix(m go3mf.Matrix) L {
	prec := 3
	if p.prec < 0 && !p.written {
		prec = -1
	}
	g := func(v float32) string {
		if prec < 0 {
			return fs(v)
		}
		return fround(v, prec)
	}
	if m == (go3mf.Matrix{}) {
		return L{}
	}
	r := L{g(m[0]), g(m[1]), g(m[2]), g(m[4]), g(m[5]), g(m[6]), g(m[8]), g(m[9]), g(m[10]), g(m[12]), g(m[13]), g(m[14])}
	if m[3] != 0 || m[7] != 0 || m[11] != 0 || m[15] != 1 {
		r = append(r, "column", fs(m[3]), fs(m[7]), fs(m[11]), fs(m[15]))
	}
	id := L{"1", "0", "0", "0", "1", "0", "0", "0", "1", "0", "0", "0"}
	if len(r) == 12 {
		for i := range id {
			if id[i] != r[i] {
				return r
			}
		}
		return L{}
	}
	return r
}

func pColor(c color.RGBA) string {
	const h = "0123456789abcdef"
	var b []byte
	for _, v := range []byte{c.R, c.G, c.B, c.A} {
		b = append(b, h[v>>4], h[v&15])
	}
	return string(b)
}

func pXAttrs(a []xml.Attr) L {
	r := L{}
	for _, x := range a {
		r = append(r, M{"ns": alias(x.Name.Space), "n": x.Name.Local, "s": x.Value})
	}
	return r
}

func pAttrs(a spec.AnyAttr) L {
	r := L{}
	for _, g := range a {
		switch g := g.(type) {
		case *spec.UnknownAttrs:
			r = append(r, M{"k": "u", "ns": alias(g.Space), "a": pXAttrs(g.Attr)})
		case *production.BuildAttr:
			r = append(r, M{"k": "pbuild", "uuid": g.UUID})
		case *production.ObjectAttr:
			r = append(r, M{"k": "pobj", "uuid": g.UUID})
		case *production.ItemAttr:
			r = append(r, M{"k": "pitem", "uuid": g.UUID, "path": g.Path})
		case *production.ComponentAttr:
			r = append(r, M{"k": "pcomp", "uuid": g.UUID, "path": g.Path})
		case *slices.ObjectAttr:
			r = append(r, M{"k": "sobj", "id": us(g.SliceStackID), "res": nameOf(resNames, int(g.MeshResolution))})
		default:
			r = append(r, M{"k": "?"})
		}
	}
	return r
}

func pMeta(v []go3mf.Metadata) L {
	r := L{}
	for _, x := range v {
		r = append(r, M{"ns": x.Name.Space, "n": x.Name.Local, "val": x.Value, "type": x.Type, "pres": x.Preserve})
	}
	return r
}
func pMetaGroup(g go3mf.MetadataGroup) M {
	return M{"md": pMeta(g.Metadata), "attrs": pAttrs(g.AnyAttr)}
}

// pTree turns a list of tokens into a tree.
func pTree(toks []xml.Token) M {
	type node struct {
		m    M
		kids L
		name xml.Name
	}
	bad := func(why string) M { return M{"t": "BAD", "why": why} }
	var stk []*node
	var root M
	text := func(kids L, s string) L {
		if s == "" {
			return kids
		}
		if n := len(kids); n > 0 {
			if l := kids[n-1].(M); l["t"] == "T" {
				kids[n-1] = M{"t": "T", "s": l["s"].(string) + s}
				return kids
			}
		}
		return append(kids, M{"t": "T", "s": s})
	}
	for _, t := range toks {
		if root != nil {
			return bad("more than one root")
		}
		switch t := t.(type) {
		case xml.StartElement:
			stk = append(stk, &node{m: M{"t": "S", "ns": alias(t.Name.Space), "n": t.Name.Local, "a": pXAttrs(t.Attr)}, kids: L{}, name: t.Name})
		case xml.EndElement:
			if len(stk) == 0 {
				return bad("end without start")
			}
			n := stk[len(stk)-1]
			if n.name != t.Name {
				return bad("mismatched end")
			}
			n.m["c"] = n.kids
			stk = stk[:len(stk)-1]
			if len(stk) == 0 {
				root = n.m
			} else {
				up := stk[len(stk)-1]
				up.kids = append(up.kids, n.m)
			}
		case xml.CharData:
			if len(stk) == 0 {
				return bad("text outside")
			}
			up := stk[len(stk)-1]
			up.kids = text(up.kids, string(t))
		default:
			return bad("token")
		}
	}
	if root == nil {
		return bad("not closed")
	}
	return root
}

func pUS(v []uint32) L {
	r := L{}
	for _, x := range v {
		r = append(r, us(x))
	}
	return r
}
func (p proj) fs(v ...float32) L {
	r := L{}
	for _, x := range v {
		r = append(r, p.f(x))
	}
	return r
}

func (p proj) asset(a interface{}) M {
	switch a := a.(type) {
	case *go3mf.BaseMaterials:
		ms := L{}
		for _, b := range a.Materials {
			ms = append(ms, M{"name": b.Name, "color": pColor(b.Color), "attrs": pAttrs(b.AnyAttr)})
		}
		return M{"k": "base", "id": us(a.ID), "mats": ms, "attrs": pAttrs(a.AnyAttr)}
	case *materials.ColorGroup:
		cs := L{}
		for _, c := range a.Colors {
			cs = append(cs, pColor(c))
		}
		return M{"k": "color", "id": us(a.ID), "cs": cs}
	case *materials.Texture2D:
		return M{"k": "tex", "id": us(a.ID), "path": a.Path, "ct": nameOf(ctNames, int(a.ContentType)), "u": nameOf(tileNames, int(a.TileStyleU)),
			"v": nameOf(tileNames, int(a.TileStyleV)), "f": nameOf(filtNames, int(a.Filter))}
	case *materials.Texture2DGroup:
		cs := L{}
		for _, c := range a.Coords {
			cs = append(cs, p.fs(c[0], c[1]))
		}
		return M{"k": "texg", "id": us(a.ID), "tid": us(a.TextureID), "cs": cs}
	case *materials.CompositeMaterials:
		vs := L{}
		for _, c := range a.Composites {
			vs = append(vs, p.fs(c.Values...))
		}
		return M{"k": "comp", "id": us(a.ID), "mid": us(a.MaterialID), "idx": pUS(a.Indices), "vals": vs}
	case *materials.MultiProperties:
		bs, ms := L{}, L{}
		for _, b := range a.BlendMethods {
			bs = append(bs, nameOf(blendNames, int(b)))
		}
		for _, x := range a.Multis {
			ms = append(ms, pUS(x.PIndices))
		}
		return M{"k": "multi", "id": us(a.ID), "pids": pUS(a.PIDs), "blends": bs, "ms": ms}
	case *slices.SliceStack:
		ss, rs := L{}, L{}
		for _, s := range a.Slices {
			vs, ps := L{}, L{}
			for _, v := range s.Vertices.Vertex {
				vs = append(vs, p.fs(v[0], v[1]))
			}
			for _, y := range s.Polygons {
				gs := L{}
				for _, g := range y.Segments {
					gs = append(gs, M{"v2": us(g.V2), "pid": us(g.PID), "p1": us(g.P1), "p2": us(g.P2)})
				}
				ps = append(ps, M{"sv": us(y.StartV), "segs": gs})
			}
			ss = append(ss, M{"zt": p.f(s.TopZ), "vs": vs, "ps": ps})
		}
		for _, x := range a.Refs {
			rs = append(rs, M{"id": us(x.SliceStackID), "path": x.Path})
		}
		return M{"k": "stack", "id": us(a.ID), "zb": p.f(a.BottomZ), "slices": ss, "refs": rs}
	case *go3mf.UnknownAsset:
		return M{"k": "unk", "id": us(a.Identify()), "tree": pTree(a.Token)}
	}
	return M{"k": "?"}
}

func (p proj) any(v spec.Any) L {
	r := L{}
	for _, x := range v {
		switch x := x.(type) {
		case *spec.UnknownTokens:
			r = append(r, M{"k": "tok", "tree": pTree(x.Token)})
		case *beamlattice.BeamLattice:
			bs, ss := L{}, L{}
			for _, b := range x.Beams.Beam {
				bs = append(bs, M{"v": L{us(b.Indices[0]), us(b.Indices[1])}, "r": p.fs(b.Radius[0], b.Radius[1]),
					"cap": L{nameOf(capNames, int(b.CapMode[0])), nameOf(capNames, int(b.CapMode[1]))}})
			}
			for _, s := range x.BeamSets.BeamSet {
				ss = append(ss, M{"name": s.Name, "ident": s.Identifier, "refs": pUS(s.Refs)})
			}
			r = append(r, M{"k": "bl", "clip": nameOf(clipNames, int(x.ClipMode)), "cm": us(x.ClippingMeshID), "rm": us(x.RepresentationMeshID),
				"minl": p.f(x.MinLength), "rad": p.f(x.Radius), "cap": nameOf(capNames, int(x.CapMode)), "beams": bs, "sets": ss})
		default:
			r = append(r, p.asset(x))
		}
	}
	return r
}

func (p proj) object(o *go3mf.Object) M {
	mesh, comps := L{}, L{}
	if m := o.Mesh; m != nil {
		vs, ts := L{}, L{}
		for _, v := range m.Vertices.Vertex {
			vs = append(vs, p.fs(v[0], v[1], v[2]))
		}
		for _, t := range m.Triangles.Triangle {
			ts = append(ts, M{"v": L{us(t.V1), us(t.V2), us(t.V3)}, "pid": us(t.PID), "p": L{us(t.P1), us(t.P2), us(t.P3)}, "attrs": pAttrs(t.AnyAttr)})
		}
		mesh = L{M{"attrs": pAttrs(m.AnyAttr), "vattrs": pAttrs(m.Vertices.AnyAttr), "tattrs": pAttrs(m.Triangles.AnyAttr), "vs": vs, "ts": ts, "any": p.any(m.Any)}}
	}
	if c := o.Components; c != nil {
		l := L{}
		for _, x := range c.Component {
			l = append(l, M{"oid": us(x.ObjectID), "tr": p.matrix(x.Transform), "attrs": pAttrs(x.AnyAttr)})
		}
		comps = L{M{"attrs": pAttrs(c.AnyAttr), "list": l}}
	}
	return M{"id": us(o.ID), "name": o.Name, "pn": o.PartNumber, "thumb": o.Thumbnail, "pid": us(o.PID), "pidx": us(o.PIndex),
		"type": nameOf(otypeNames, int(o.Type)), "meta": pMetaGroup(o.Metadata), "mesh": mesh, "comps": comps, "attrs": pAttrs(o.AnyAttr)}
}

func (p proj) res(v *go3mf.Resources) M {
	as, os := L{}, L{}
	for _, a := range v.Assets {
		as = append(as, p.asset(a))
	}
	for _, o := range v.Objects {
		os = append(os, p.object(o))
	}
	return M{"attrs": pAttrs(v.AnyAttr), "assets": as, "objects": os}
}

func pRels(v []go3mf.Relationship) L {
	r := L{}
	for _, x := range v {
		r = append(r, M{"path": x.Path, "type": x.Type, "id": x.ID})
	}
	return r
}

func (p proj) content(m *go3mf.Model) M {
	exts, items := L{}, L{}
	for _, e := range m.Extensions {
		exts = append(exts, M{"ns": e.Namespace, "p": e.LocalName, "req": e.IsRequired})
	}
	for _, i := range m.Build.Items {
		items = append(items, M{"oid": us(i.ObjectID), "tr": p.matrix(i.Transform), "pn": i.PartNumber, "meta": pMetaGroup(i.Metadata), "attrs": pAttrs(i.AnyAttr)})
	}
	return M{"lang": m.Language, "unit": nameOf(unitNames, int(m.Units)), "thumb": m.Thumbnail, "exts": exts, "meta": pMeta(m.Metadata),
		"res": p.res(&m.Resources), "build": M{"attrs": pAttrs(m.Build.AnyAttr), "items": items}, "any": p.any(m.Any), "attrs": pAttrs(m.AnyAttr)}
}

// model projects everything but the attachments.
func (p proj) model(m *go3mf.Model) M {
	r := p.content(m)
	r["path"] = m.Path
	r["rels"] = pRels(m.Relationships)
	r["rrels"] = pRels(m.RootRelationships)
	var paths []string
	for k := range m.Childs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	childs := L{}
	for _, k := range paths {
		c := m.Childs[k]
		childs = append(childs, M{"path": k, "res": p.res(&c.Resources), "any": p.any(c.Any), "rels": pRels(c.Relationships)})
	}
	r["childs"] = childs
	return r
}

// attachments projects and consumes the attachments.
func attachments(m *go3mf.Model) L {
	r := L{}
	for i := range m.Attachments {
		a := &m.Attachments[i]
		b, err := io.ReadAll(a.Stream)
		s := string(b)
		if err != nil {
			s = "!"
		}
		a.Stream = bytes.NewReader(b)
		r = append(r, M{"path": a.Path, "ct": a.ContentType, "data": s})
	}
	return r
}
