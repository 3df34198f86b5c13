package main

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"

	"github.com/hpinc/go3mf/materials"
)

const (
	relModel     = "http://schemas.microsoft.com/3dmanufacturing/2013/01/3dmodel"
	relThumbnail = "http://schemas.openxmlformats.org/package/2006/relationships/metadata/thumbnail"
	relTicket    = "http://schemas.microsoft.com/3dmanufacturing/2013/01/printticket"
	relMustKeep  = "http://schemas.openxmlformats.org/package/2006/relationships/mustpreserve"
	ctModel      = "application/vnd.ms-package.3dmanufacturing-3dmodel+xml"
	ctTicket     = "application/vnd.ms-printing.printticket+xml"
	ctRels       = "application/vnd.openxmlformats-package.relationships+xml"
)

// Short names of relationship and content types.
var typeAlias = map[string]string{relModel: "3dmodel", relThumbnail: "thumbnail", relTicket: "printticket", relMustKeep: "mustpreserve", materials.RelTypeTexture3D: "3dtexture",
	ctModel: "model", ctTicket: "ticket", ctRels: "rels"}

func tAlias(s string) string {
	if a, ok := typeAlias[s]; ok {
		return a
	}
	return s
}

var relURL = map[string]string{"3dmodel": relModel, "thumbnail": relThumbnail, "printticket": relTicket, "mustpreserve": relMustKeep, "3dtexture": materials.RelTypeTexture3D}
var ctURL = map[string]string{"model": ctModel, "ticket": ctTicket, "rels": ctRels}

func unRel(s string) string {
	if u, ok := relURL[s]; ok {
		return u
	}
	return s
}
func unCT(s string) string {
	if u, ok := ctURL[s]; ok {
		return u
	}
	return s
}

type rawPart struct {
	name string // with the leading slash
	ct   string
	data []byte
}
type rawRel struct{ src, typ, target, id string }

func esc(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// relsName is the name of the part with the relationships of src ("/" for the package).
func relsName(src string) string {
	if src == "/" {
		return "/_rels/.rels"
	}
	d, f := path.Split(src)
	return d + "_rels/" + f + ".rels"
}

// buildPackage writes a package on its own, without the library.
func buildPackage(parts []rawPart, rels []rawRel, store bool) []byte {
	var buf bytes.Buffer
	z := zip.NewWriter(&buf)
	put := func(name string, data []byte) {
		h := &zip.FileHeader{Name: strings.TrimPrefix(name, "/"), Method: zip.Deflate}
		if store {
			h.Method = zip.Store
		}
		w, err := z.CreateHeader(h)
		if err != nil {
			panic(err)
		}
		w.Write(data)
	}
	var ct strings.Builder
	ct.WriteString(xml.Header + `<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="rels" ContentType="` + ctRels + `"/>`)
	for _, p := range parts {
		fmt.Fprintf(&ct, `<Override PartName="%s" ContentType="%s"/>`, esc(p.name), esc(p.ct))
	}
	ct.WriteString("</Types>")
	put("/[Content_Types].xml", []byte(ct.String()))
	for _, p := range parts {
		put(p.name, p.data)
	}
	bySrc := map[string][]rawRel{}
	var srcs []string
	for _, r := range rels {
		if _, ok := bySrc[r.src]; !ok {
			srcs = append(srcs, r.src)
		}
		bySrc[r.src] = append(bySrc[r.src], r)
	}
	for _, s := range srcs {
		var b strings.Builder
		b.WriteString(xml.Header + `<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">`)
		for i, r := range bySrc[s] {
			id := r.id
			if id == "" {
				id = fmt.Sprintf("rel%d", i)
			}
			fmt.Fprintf(&b, `<Relationship Id="%s" Type="%s" Target="%s"/>`, esc(id), esc(r.typ), esc(r.target))
		}
		b.WriteString("</Relationships>")
		put(relsName(s), []byte(b.String()))
	}
	if err := z.Close(); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

// modelPackage is a package with the given model parts, the first being the root.
func modelPackage(names []string, docs [][]byte) []byte {
	var parts []rawPart
	rels := []rawRel{{"/", relModel, names[0], ""}}
	for i, n := range names {
		parts = append(parts, rawPart{n, ctModel, docs[i]})
		if i > 0 {
			rels = append(rels, rawRel{names[0], relModel, n, ""})
		}
	}
	return buildPackage(parts, rels, false)
}

// readPackage reads a package on its own, without the library: parts with content types and all relationships.
type outPackage struct {
	parts []rawPart
	rels  []rawRel
	errs  []string
}

func (o *outPackage) bad(f string, a ...interface{}) { o.errs = append(o.errs, fmt.Sprintf(f, a...)) }

func (o *outPackage) part(name string) *rawPart {
	for i := range o.parts {
		if o.parts[i].name == name {
			return &o.parts[i]
		}
	}
	return nil
}

func readPackage(data []byte) *outPackage {
	o := &outPackage{}
	z, err := zip.NewReader(bytes.NewReader(data), int64(len(data)))
	if err != nil {
		o.bad("zip: %v", err)
		return o
	}
	over, def := map[string]string{}, map[string]string{}
	hasTypes := false
	type file struct {
		name string
		data []byte
	}
	var files []file
	seen := map[string]bool{}
	for _, f := range z.File {
		name := "/" + f.Name
		if seen[strings.ToLower(name)] {
			o.bad("two entries %s", name)
		}
		seen[strings.ToLower(name)] = true
		r, err := f.Open()
		if err != nil {
			o.bad("entry %s: %v", name, err)
			continue
		}
		b, err := io.ReadAll(r)
		if err != nil {
			o.bad("entry %s: %v", name, err)
		}
		r.Close()
		if f.Name == "[Content_Types].xml" {
			hasTypes = true
			var t struct {
				Default  []struct{ Extension, ContentType string } `xml:"-"`
				Defaults []struct {
					E string `xml:"Extension,attr"`
					C string `xml:"ContentType,attr"`
				} `xml:"Default"`
				Overrides []struct {
					P string `xml:"PartName,attr"`
					C string `xml:"ContentType,attr"`
				} `xml:"Override"`
			}
			if err := xml.Unmarshal(b, &t); err != nil {
				o.bad("content types: %v", err)
			}
			for _, d := range t.Defaults {
				def[strings.ToLower(d.E)] = d.C
			}
			for _, d := range t.Overrides {
				over[strings.ToLower(d.P)] = d.C
			}
			continue
		}
		files = append(files, file{name, b})
	}
	if !hasTypes {
		o.bad("no content types")
	}
	for _, f := range files {
		ct, ok := over[strings.ToLower(f.name)]
		if !ok {
			ct, ok = def[strings.ToLower(strings.TrimPrefix(path.Ext(f.name), "."))]
		}
		if !ok {
			o.bad("no content type for %s", f.name)
		}
		dir, base := path.Split(f.name)
		if strings.HasSuffix(dir, "_rels/") && strings.HasSuffix(base, ".rels") {
			src := strings.TrimSuffix(dir, "_rels/") + strings.TrimSuffix(base, ".rels")
			var t struct {
				R []struct {
					ID     string `xml:"Id,attr"`
					Type   string `xml:"Type,attr"`
					Target string `xml:"Target,attr"`
					Mode   string `xml:"TargetMode,attr"`
				} `xml:"Relationship"`
			}
			if err := xml.Unmarshal(f.data, &t); err != nil {
				o.bad("relationships of %s: %v", src, err)
			}
			ids := map[string]bool{}
			for _, r := range t.R {
				if r.ID == "" || ids[r.ID] {
					o.bad("relationship id %q of %s", r.ID, src)
				}
				ids[r.ID] = true
				o.rels = append(o.rels, rawRel{src, r.Type, r.Target, r.ID})
			}
			if ct != ctRels {
				o.bad("content type of %s", f.name)
			}
			continue
		}
		o.parts = append(o.parts, rawPart{f.name, ct, f.data})
	}
	sort.SliceStable(o.parts, func(i, j int) bool { return o.parts[i].name < o.parts[j].name })
	return o
}

// resolve resolves the target of a relationship against the name of its source part.
func resolve(src, target string) string {
	if strings.HasPrefix(target, "/") {
		return path.Clean(target)
	}
	return path.Join(path.Dir(src), target)
}
