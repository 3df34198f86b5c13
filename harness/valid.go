package main

import (
	"reflect"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/production"
)

func init() {
	ops["validate"] = opValidate
	ops["fillids"] = opFillIDs
	ops["decval"] = opDecVal
}

// strNums turns the numbers of a model into the texts that bModel takes; 2000000000 stands for the largest number.
func strNums(v interface{}) interface{} {
	switch v := v.(type) {
	case float64:
		if v == 2000000000 {
			return "4294967295"
		}
		return strconv.FormatFloat(v, 'f', -1, 64)
	case map[string]interface{}:
		r := map[string]interface{}{}
		for k, x := range v {
			r[k] = strNums(x)
		}
		return r
	case []interface{}:
		r := make([]interface{}, len(v))
		for i, x := range v {
			r[i] = strNums(x)
		}
		return r
	}
	return v
}

func intModel(c M) *go3mf.Model {
	return bModel(M(strNums(map[string]interface{}(c.m("m"))).(map[string]interface{})))
}

// opValidate reports the violations of a model; with box, its bounding box is computed too.
func opValidate(c M) M {
	m := intModel(c)
	err := m.Validate()
	if c.b("box") {
		m.BoundingBox()
	}
	return M{"errs": flatten(err), "nil": err == nil}
}

// ids lists the identifiers of everything in a model.
func ids(m *go3mf.Model) M {
	one := func(ok bool, s string) L {
		if !ok {
			return L{}
		}
		return L{s}
	}
	b := production.GetBuildAttr(&m.Build)
	r := M{"build": L{}, "items": L{}, "parts": L{}}
	if b != nil {
		r["build"] = one(true, b.UUID)
	}
	items := L{}
	for _, i := range m.Build.Items {
		if a := production.GetItemAttr(i); a != nil {
			items = append(items, M{"id": one(true, a.UUID), "path": a.Path})
		} else {
			items = append(items, M{"id": L{}, "path": ""})
		}
	}
	r["items"] = items
	parts := L{}
	part := func(res *go3mf.Resources) {
		objs := L{}
		for _, o := range res.Objects {
			x := M{"id": L{}, "comps": L{}}
			if a := production.GetObjectAttr(o); a != nil {
				x["id"] = one(true, a.UUID)
			}
			comps := L{}
			if o.Components != nil {
				for _, k := range o.Components.Component {
					if a := production.GetComponentAttr(k); a != nil {
						comps = append(comps, M{"id": one(true, a.UUID), "path": a.Path})
					} else {
						comps = append(comps, M{"id": L{}, "path": ""})
					}
				}
			}
			x["comps"] = comps
			objs = append(objs, x)
		}
		parts = append(parts, objs)
	}
	part(&m.Resources)
	for _, p := range sortedKeys(m.Childs) {
		part(&m.Childs[p].Resources)
	}
	r["parts"] = parts
	return r
}

// opFillIDs fills in the missing identifiers as many times as asked.
func opFillIDs(c M) M {
	m := intModel(c)
	stages := L{}
	for i := 0; i < toInt(c["times"]); i++ {
		production.SetMissingUUIDs(m)
		stages = append(stages, ids(m))
	}
	errs := L{}
	for _, e := range flatten(m.Validate()) {
		if k := e.(M).s("c"); k == "UUID" || k == "missing:UUID" {
			errs = append(errs, e)
		}
	}
	before, after := proj{prec: -1}.model(intModel(c)), proj{prec: -1}.model(m)
	return M{"stages": stages, "errs": errs, "same": reflect.DeepEqual(withoutIDs(before), withoutIDs(after)), "before": ids(intModel(c))}
}

// withoutIDs removes the identifiers from a projected model.
func withoutIDs(v interface{}) interface{} {
	switch v := v.(type) {
	case M:
		r := map[string]interface{}{}
		for k, x := range v {
			r[k] = withoutIDs(x)
		}
		return r
	case L:
		r := []interface{}{}
		for _, x := range v {
			if g, ok := x.(M); ok {
				switch g.s("k") {
				case "pbuild", "pobj":
					continue
				case "pitem", "pcomp":
					if g.s("path") == "" {
						continue
					}
					x = M{"k": g["k"], "path": g["path"]}
				}
			}
			r = append(r, withoutIDs(x))
		}
		return r
	}
	return v
}

// opDecVal decodes a document and validates what came out.
func opDecVal(c M) M {
	var m go3mf.Model
	if err := go3mf.UnmarshalModel([]byte(c.s("doc")), &m); err != nil {
		return M{"fail": "harness", "msg": err.Error()}
	}
	return M{"errs": flatten(m.Validate())}
}
