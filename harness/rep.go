package main

import (
	"fmt"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
)

// rep makes large inputs of small ones: the first element of every list of some kind is repeated n more times. The
// specification says that nothing else changes (Tr_Dec, Tr_Enc), so that what comes out, with the repetitions taken
// away again where they all are there, is judged like the small one.
type rep struct {
	kind string
	n    int
}

type repKind struct {
	owner     reflect.Type // the type with the list in a model, and its field
	field     string
	ns, in    string // the elements that contain the list in a document
	child     string
	container string // the elements in which those are: of one mesh, of one slice, ...
}

var repKinds = map[string]repKind{
	"vertex":    {reflect.TypeOf(go3mf.Vertices{}), "Vertex", "core", "vertices", "vertex", "core:mesh"},
	"triangle":  {reflect.TypeOf(go3mf.Triangles{}), "Triangle", "core", "triangles", "triangle", "core:mesh"},
	"base":      {reflect.TypeOf(go3mf.BaseMaterials{}), "Materials", "core", "basematerials", "base", "core:resources"},
	"component": {reflect.TypeOf(go3mf.Components{}), "Component", "core", "components", "component", "core:object"},
	"item":      {reflect.TypeOf(go3mf.Build{}), "Items", "core", "build", "item", "core:model"},
	"object":    {reflect.TypeOf(go3mf.Resources{}), "Objects", "core", "resources", "object", "core:model"},
	"metadata":  {reflect.TypeOf(go3mf.Model{}), "Metadata", "core", "model", "metadata", ""},
	"group":     {reflect.TypeOf(go3mf.MetadataGroup{}), "Metadata", "core", "metadatagroup", "metadata", "core:object core:item"},
	"color":     {reflect.TypeOf(materials.ColorGroup{}), "Colors", "m", "colorgroup", "color", "core:resources core:model core:mesh"},
	"coord":     {reflect.TypeOf(materials.Texture2DGroup{}), "Coords", "m", "texture2dgroup", "tex2coord", "core:resources core:model core:mesh"},
	"composite": {reflect.TypeOf(materials.CompositeMaterials{}), "Composites", "m", "compositematerials", "composite", "core:resources core:model core:mesh"},
	"multi":     {reflect.TypeOf(materials.MultiProperties{}), "Multis", "m", "multiproperties", "multi", "core:resources core:model core:mesh"},
	"slice":     {reflect.TypeOf(slices.SliceStack{}), "Slices", "s", "slicestack", "slice", "core:resources core:model core:mesh"},
	"sliceref":  {reflect.TypeOf(slices.SliceStack{}), "Refs", "s", "slicestack", "sliceref", "core:resources core:model core:mesh"},
	"point":     {reflect.TypeOf(slices.Vertices{}), "Vertex", "s", "vertices", "vertex", "s:slice"},
	"polygon":   {reflect.TypeOf(slices.Slice{}), "Polygons", "s", "slice", "polygon", "s:slicestack"},
	"segment":   {reflect.TypeOf(slices.Polygon{}), "Segments", "s", "polygon", "segment", "s:slice"},
	"beam":      {reflect.TypeOf(beamlattice.Beams{}), "Beam", "b", "beams", "beam", "b:beamlattice"},
	"set":       {reflect.TypeOf(beamlattice.BeamSets{}), "BeamSet", "b", "beamsets", "beamset", "b:beamlattice"},
	"ref":       {reflect.TypeOf(beamlattice.BeamSet{}), "Refs", "b", "beamset", "ref", "b:beamsets"},
}

// Lists that accumulate over several containers of one parent.
var repMerged = map[string]bool{"vertices": true, "triangles": true, "resources": true, "build": true, "beams": true, "beamsets": true, "metadatagroup": true}

func newRep(c M) rep {
	r := toM(c["rep"])
	return rep{r.s("kind"), r.i("n")}
}

var structural = map[string]string{
	"core:resources": "core:model", "core:build": "core:model", "core:object": "core:resources", "core:item": "core:build", "core:mesh": "core:object",
	"core:components": "core:object", "s:slicestack": "*", "s:slice": "s:slicestack", "s:polygon": "s:slice", "b:beamlattice": "*", "b:beams": "b:beamlattice",
	"b:beamsets": "b:beamlattice", "b:beamset": "b:beamsets",
}

func key(n M) string { return n.s("ns") + ":" + n.s("n") }

// lists calls f with every list of the kind in a document: the children of the container from the first matching one.
func (r rep) lists(n M, parent string, f func(container M, first int)) {
	k := repKinds[r.kind]
	name := key(n)
	if n.s("t") != "S" {
		return
	}
	if parent == "" && name != "core:model" {
		return
	}
	first := func(c M) int {
		for i, x := range c.ms("c") {
			if x.s("t") == "S" && x.s("ns") == k.ns && x.s("n") == k.child {
				return i
			}
		}
		return -1
	}
	visit := func(c M) bool {
		if i := first(c); i >= 0 {
			f(c, i)
			return true
		}
		return false
	}
	if k.in == "model" && parent == "" {
		visit(n)
		return
	}
	inside := false
	for _, w := range split(k.container) {
		inside = inside || w == name
	}
	done := false
	for _, c := range n.ms("c") {
		if c.s("t") != "S" {
			continue
		}
		if inside && c.s("ns") == k.ns && c.s("n") == k.in {
			if !done && visit(c) {
				done = repMerged[k.in]
			}
		}
		if p, ok := structural[key(c)]; ok && (p == name || p == "*" && (name == "core:model" || name == "core:mesh" || name == "core:resources" && key(c) == "s:slicestack")) {
			r.lists(c, name, f)
		}
	}
}

func split(s string) []string {
	var r []string
	for len(s) > 0 {
		i := 0
		for i < len(s) && s[i] != ' ' {
			i++
		}
		r = append(r, s[:i])
		if i == len(s) {
			break
		}
		s = s[i+1:]
	}
	return r
}

// tree repeats in a document, which is changed.
func (r rep) tree(n M) M {
	if r.n == 0 {
		return n
	}
	n = round(n)
	r.lists(n, "", func(c M, first int) {
		cs := c.l("c")
		out := append([]interface{}{}, cs[:first+1]...)
		for i := 0; i < r.n; i++ {
			out = append(out, cs[first])
		}
		c["c"] = append(out, cs[first+1:]...)
	})
	return n
}

// untree takes the repetitions away.
func (r rep) untree(n M) M {
	if r.n == 0 {
		return n
	}
	n = round(n)
	unordered(n)
	r.lists(n, "", func(c M, first int) {
		cs := c.l("c")
		if len(cs) <= first+r.n {
			return
		}
		for i := 1; i <= r.n; i++ {
			if !reflect.DeepEqual(cs[first], cs[first+i]) {
				return
			}
		}
		c["c"] = append(append([]interface{}{}, cs[:first+1]...), cs[first+1+r.n:]...)
	})
	return n
}

func unordered(n M) {
	delete(n, "o")
	for _, c := range n.ms("c") {
		unordered(c)
	}
}

// model repeats in a model, which is changed.
func (r rep) model(m *go3mf.Model) *go3mf.Model {
	if r.n > 0 {
		r.walk(reflect.ValueOf(m), func(l reflect.Value) {
			if l.Len() > 0 {
				out := reflect.MakeSlice(l.Type(), 0, l.Len()+r.n)
				for i := 0; i <= r.n; i++ {
					out = reflect.Append(out, l.Index(0))
				}
				l.Set(reflect.AppendSlice(out, l.Slice(1, l.Len())))
			}
		}, map[interface{}]bool{})
	}
	return m
}

// unmodel takes the repetitions away. What is left of a list that is not as it should be is cut, for it might be long.
func (r rep) unmodel(m *go3mf.Model) *go3mf.Model {
	if r.n > 0 {
		r.walk(reflect.ValueOf(m), func(l reflect.Value) {
			n := l.Len()
			if n <= r.n {
				if n > 100 {
					l.Set(l.Slice(0, 100))
				}
				return
			}
			for i := 1; i <= r.n; i++ {
				if !reflect.DeepEqual(l.Index(0).Interface(), l.Index(i).Interface()) {
					to := i + 3 // these show
					if to > n {
						to = n
					}
					l.Set(l.Slice(i-1, to))
					return
				}
			}
			out := reflect.MakeSlice(l.Type(), 0, n-r.n)
			out = reflect.Append(out, l.Index(0))
			l.Set(reflect.AppendSlice(out, l.Slice(r.n+1, n)))
		}, map[interface{}]bool{})
	}
	return m
}

func (r rep) walk(v reflect.Value, f func(reflect.Value), seen map[interface{}]bool) {
	k := repKinds[r.kind]
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || seen[v.Interface()] {
			return
		}
		seen[v.Interface()] = true
		r.walk(v.Elem(), f, seen)
	case reflect.Interface:
		if !v.IsNil() {
			r.walk(v.Elem(), f, seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			r.walk(v.Field(i), f, seen)
		}
		if v.Type() == k.owner && v.CanSet() {
			f(v.FieldByName(k.field))
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Ptr, reflect.Interface, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				r.walk(v.Index(i), f, seen)
			}
		}
	case reflect.Map:
		for _, x := range v.MapKeys() {
			r.walk(v.MapIndex(x), f, seen)
		}
	}
}

var repIndex = regexp.MustCompile(`/(\w+)\[(\d+)\]`)

// errs gives the errors the positions that they have without the repetitions, and those of the first element of a list,
// which come again for each repetition, once.
func (r rep) errs(es L, strict bool) L {
	if r.n == 0 {
		return es
	}
	k := repKinds[r.kind]
	out := L{}
	more := map[string]int{} // how many errors of the repetitions are missing
	for _, e := range es {
		e := e.(M)
		x := M{}
		for k, v := range e {
			x[k] = v
		}
		s, at := e.s("x"), -1
		for _, p := range repIndex.FindAllStringSubmatchIndex(s, -1) {
			before := s[:p[0]]
			if s[p[2]:p[3]] != k.child || r.kind == "vertex" && !strings.HasSuffix(before, "/mesh/vertices") || r.kind == "point" && !strings.HasSuffix(before, "]/vertices") {
				continue
			}
			at, _ = strconv.Atoi(s[p[4]:p[5]])
			i := 0
			if at > r.n {
				i = at - r.n
			}
			s = s[:p[4]] + strconv.Itoa(i) + s[p[5]:]
			break
		}
		x["x"] = s
		if at == 0 {
			more[fmt.Sprint(x)] += r.n
		}
		if at > 0 && at <= r.n {
			more[fmt.Sprint(x)]--
			continue
		}
		out = append(out, x)
	}
	if strict { // which has only one
		return out
	}
	for s, n := range more {
		if n != 0 {
			out = append(out, M{"x": "repeated " + s, "p": "", "c": strconv.Itoa(n)})
		}
	}
	if len(out) > 200 {
		out = out[:200]
	}
	return out
}
