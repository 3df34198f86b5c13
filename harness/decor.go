package main

import (
	"encoding/xml"
	"fmt"
	"math/rand"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

// decorate adds to a model what an operation must not care about: names, properties, metadata,
// unknown content and that of extensions. With types objects get any type.
// Production attributes are left to the case.
func decorate(m *go3mf.Model, seed int, types bool) {
	if seed == 0 {
		return
	}
	r := rand.New(rand.NewSource(int64(seed)))
	p := func(f float64) bool { return r.Float64() < f }
	u := func() uint32 { return []uint32{0, 1, 2, 3, 7, 1<<32 - 1}[r.Intn(6)] }
	text := func() string { return []string{"", "", "a", "x & y", "/3D/a.model", "1"}[r.Intn(6)] }
	attrs := func(old spec.AnyAttr, more ...spec.AttrGroup) spec.AnyAttr {
		all := append(append(spec.AnyAttr{}, old...), more...)
		for _, ns := range []string{"http://x.org/one", "http://x.org/two"} {
			if p(.4) {
				all = append(all, &spec.UnknownAttrs{Space: ns, Attr: []xml.Attr{{Name: xml.Name{Space: ns, Local: "path"}, Value: "/3D/none.model"}}})
			}
		}
		r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
		if len(all) == 0 {
			return nil
		}
		return all
	}
	meta := func() go3mf.MetadataGroup {
		var g go3mf.MetadataGroup
		for i := r.Intn(3); i > 0; i-- {
			g.Metadata = append(g.Metadata, go3mf.Metadata{Name: xml.Name{Local: text()}, Value: text()})
		}
		g.AnyAttr = attrs(nil)
		return g
	}
	token := func() *spec.UnknownTokens {
		n := xml.Name{Space: "http://x.org/one", Local: "thing"}
		return &spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: n}, xml.EndElement{Name: n}}}
	}
	part := func(rs *go3mf.Resources) {
		rs.AnyAttr = attrs(rs.AnyAttr)
		for _, o := range rs.Objects {
			o.Name, o.PartNumber, o.Thumbnail, o.PID, o.PIndex, o.Metadata = text(), text(), text(), u(), u(), meta()
			if types {
				o.Type = go3mf.ObjectType(r.Intn(5))
			}
			if p(.3) {
				o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: u(), MeshResolution: slices.MeshResolution(r.Intn(2))})
			}
			o.AnyAttr = attrs(o.AnyAttr)
			if o.Components != nil {
				o.Components.AnyAttr = attrs(o.Components.AnyAttr)
				for _, c := range o.Components.Component {
					c.AnyAttr = attrs(c.AnyAttr)
				}
			}
			if o.Mesh == nil {
				continue
			}
			me := o.Mesh
			me.AnyAttr, me.Vertices.AnyAttr, me.Triangles.AnyAttr = attrs(me.AnyAttr), attrs(me.Vertices.AnyAttr), attrs(me.Triangles.AnyAttr)
			for i := range me.Triangles.Triangle {
				t := &me.Triangles.Triangle[i]
				t.PID, t.P1, t.P2, t.P3, t.AnyAttr = u(), u(), u(), u(), attrs(nil)
			}
			if p(.3) {
				me.Any = append(me.Any, token())
			}
			if p(.3) {
				me.Any = append(me.Any, &beamlattice.BeamLattice{Radius: 1, ClippingMeshID: u(), Beams: beamlattice.Beams{Beam: []beamlattice.Beam{{Indices: [2]uint32{u(), u()}}}}})
			}
		}
	}
	part(&m.Resources)
	for _, path := range sortedKeys(m.Childs) {
		c := m.Childs[path]
		part(&c.Resources)
		if p(.3) {
			c.Any = append(c.Any, token())
		}
		if p(.3) {
			c.Relationships = append(c.Relationships, go3mf.Relationship{Path: text(), Type: text()})
		}
	}
	for _, i := range m.Build.Items {
		i.PartNumber, i.Metadata, i.AnyAttr = text(), meta(), attrs(i.AnyAttr)
	}
	m.Build.AnyAttr = attrs(m.Build.AnyAttr)
	m.Language, m.Units, m.Thumbnail, m.Metadata, m.AnyAttr = text(), go3mf.Units(r.Intn(6)), text(), meta().Metadata, attrs(m.AnyAttr)
	for i, ext := range []go3mf.Extension{materials.DefaultExtension, slices.DefaultExtension, beamlattice.DefaultExtension, production.DefaultExtension, {Namespace: "http://x.org/one", LocalName: "x"}} {
		if p(.5) {
			ext.IsRequired = p(.5)
			ext.LocalName = fmt.Sprintf("%s%d", ext.LocalName, i)
			m.Extensions = append(m.Extensions, ext)
		}
	}
	for i := r.Intn(3); i > 0; i-- {
		m.Relationships = append(m.Relationships, go3mf.Relationship{Path: text(), Type: text()})
		m.Attachments = append(m.Attachments, go3mf.Attachment{Path: text(), ContentType: text()})
	}
	if p(.3) {
		m.Any = append(m.Any, token())
	}
}
