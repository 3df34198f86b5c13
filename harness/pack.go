package main

import (
	"encoding/xml"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/materials"
)

func init() {
	ops["pkgenc"] = opPkgEnc
	ops["pkgdec"] = opPkgDec
}

// tagOf is the tag of a model document: its first metadata, or the name of its first object.
func tagOf(data []byte) string {
	t, err := readTree(data)
	if err != nil {
		return "!" + err.Error()
	}
	tag := ""
	var walk func(n M)
	walk = func(n M) {
		if n["t"] == "T" || tag != "" {
			return
		}
		if n.s("n") == "metadata" {
			for _, c := range n["c"].(L) {
				tag += c.(M).s("s")
			}
			return
		}
		if n.s("n") == "object" {
			for _, a := range n["a"].(L) {
				if a.(M).s("n") == "name" {
					tag = a.(M).s("s")
				}
			}
		}
		for _, c := range n["c"].(L) {
			walk(c.(M))
		}
	}
	walk(t)
	return tag
}

// tagDoc is a document with the tag at both places.
func tagDoc(tag string) []byte {
	return []byte(`<model xmlns="` + go3mf.Namespace + `"><metadata name="Title">` + esc(tag) + `</metadata><resources><object id="1" name="` + esc(tag) + `"></object></resources></model>`)
}

// buildPM makes a model from the package view of it.
func buildPM(v M) *go3mf.Model {
	rels := func(l []M) (r []go3mf.Relationship) {
		for _, x := range l {
			r = append(r, go3mf.Relationship{ID: x.s("id"), Type: unRel(x.s("type")), Path: x.s("path")})
		}
		return
	}
	res := func(l []M, tag string) (r go3mf.Resources) {
		if tag != "" {
			r.Objects = append(r.Objects, &go3mf.Object{ID: 1, Name: tag})
		}
		for i, x := range l {
			id := uint32(10 + i)
			if x.s("type") == "thumbnail" {
				r.Objects = append(r.Objects, &go3mf.Object{ID: id, Thumbnail: x.s("path")})
			} else {
				r.Assets = append(r.Assets, &materials.Texture2D{ID: id, Path: x.s("path"), ContentType: materials.TextureTypePNG})
			}
		}
		return
	}
	m := &go3mf.Model{Path: v.s("path"), Thumbnail: v.s("thumb"), Relationships: rels(v.ms("rels")), RootRelationships: rels(v.ms("rrels")),
		Extensions: []go3mf.Extension{{Namespace: materials.Namespace, LocalName: "m"}},
		Metadata:   []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: v.s("tag")}}, Resources: res(v.ms("imp"), "")}
	for _, c := range v.ms("childs") {
		if m.Childs == nil {
			m.Childs = map[string]*go3mf.ChildModel{}
		}
		m.Childs[c.s("path")] = &go3mf.ChildModel{Relationships: rels(c.ms("rels")), Resources: res(c.ms("imp"), c.s("tag"))}
	}
	for _, a := range v.ms("atts") {
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: a.s("path"), ContentType: unCT(a.s("ct")), Stream: strings.NewReader(a.s("data"))})
	}
	return m
}

// viewPM is the package view of what has been decoded.
func viewPM(m *go3mf.Model, err error) M {
	if err != nil {
		return M{"err": err.Error()}
	}
	rels := func(l []go3mf.Relationship) L {
		r := L{}
		for _, x := range l {
			r = append(r, M{"id": x.ID, "type": tAlias(x.Type), "path": x.Path})
		}
		return r
	}
	tag := ""
	if len(m.Metadata) > 0 {
		tag = m.Metadata[0].Value
	}
	childs := L{}
	for k, c := range m.Childs {
		t := ""
		if len(c.Resources.Objects) > 0 {
			t = c.Resources.Objects[0].Name
		}
		childs = append(childs, M{"path": k, "tag": t, "rels": rels(c.Relationships)})
	}
	atts := L{}
	for _, a := range attachments(m) {
		a := a.(M)
		data := a.s("data")
		if a.s("ct") == ctModel {
			data = tagOf([]byte(data))
		}
		atts = append(atts, M{"path": a["path"], "ct": tAlias(a.s("ct")), "data": data})
	}
	return M{"err": "", "path": m.Path, "tag": tag, "rels": rels(m.Relationships), "rrels": rels(m.RootRelationships), "childs": childs, "atts": atts}
}

// opPkgEnc encodes a model and reads the package, on its own and with the library.
//
//	case: pm
//	out:  err, pkg {parts, rels}, bad, dec
func opPkgEnc(c M) M {
	res := M{"err": "", "bad": L{}, "pkg": M{"parts": L{}, "rels": L{}}, "dec": M{"err": "-"}}
	data, err := encodeBytes(buildPM(c.m("pm")), 4, c.b("file"))
	if err != nil {
		res["err"] = err.Error()
		return res
	}
	o := readPackage(data)
	bad, parts, rels := L{}, L{}, L{}
	for _, s := range o.errs {
		bad = append(bad, s)
	}
	for _, p := range o.parts {
		data := string(p.data)
		if p.ct == ctModel {
			data = tagOf(p.data)
		}
		parts = append(parts, M{"name": p.name, "ct": tAlias(p.ct), "data": data})
	}
	for _, r := range o.rels {
		rels = append(rels, M{"src": r.src, "id": r.id, "type": tAlias(r.typ), "target": r.target})
	}
	res["bad"], res["pkg"] = bad, M{"parts": parts, "rels": rels}
	m, err := decodeBytes(data, true, c.b("file"))
	res["dec"] = viewPM(m, err)
	return res
}

// opPkgDec decodes a package written on its own.
//
//	case: pkg {parts, rels}, store, strict
//	out:  dec
func opPkgDec(c M) M {
	m, err := decodeBytes(rawPackage(c), c.b("strict"), c.b("file"))
	return M{"dec": viewPM(m, err)}
}

// rawPackage writes case.pkg {parts, rels} on its own.
func rawPackage(c M) []byte {
	var parts []rawPart
	for _, p := range c.m("pkg").ms("parts") {
		data := []byte(p.s("data"))
		if p.s("ct") == "model" {
			data = tagDoc(p.s("data"))
		}
		parts = append(parts, rawPart{p.s("name"), unCT(p.s("ct")), data})
	}
	var rels []rawRel
	for _, r := range c.m("pkg").ms("rels") {
		rels = append(rels, rawRel{r.s("src"), unRel(r.s("type")), r.s("target"), r.s("id")})
	}
	return buildPackage(parts, rels, c.b("store"))
}
