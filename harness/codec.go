package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"reflect"
	"time"

	"github.com/hpinc/go3mf"
)

func init() {
	ops["dec"] = opDec
	ops["enc"] = opEnc
	ops["rt"] = opRT
	ops["raw"] = opRaw
}

// strip removes what the reader must not depend on: text that is not part of a metadata value or of unknown content.
func strip(n M, keep bool) M {
	if n["t"] == "T" {
		return n
	}
	keep = keep || !nsKnown(n.s("ns"))
	cs := L{}
	for _, c := range n["c"].(L) {
		c := c.(M)
		if c["t"] == "T" && !keep && n.s("n") != "metadata" {
			continue
		}
		cs = append(cs, strip(c, keep))
	}
	r := M{}
	for k, v := range n {
		r[k] = v
	}
	r["c"] = cs
	return r
}

func decodePackage(ctx context.Context, data []byte, strict bool) (*go3mf.Model, error) {
	return decodeWith(ctx, go3mf.NewDecoder(bytes.NewReader(data), int64(len(data))), strict)
}

func decodeWith(ctx context.Context, d *go3mf.Decoder, strict bool) (*go3mf.Model, error) {
	if !strict { // which is how decoders are made
		d.Strict = false
	}
	m := new(go3mf.Model)
	err := d.DecodeContext(ctx, m)
	return m, err
}

// decodeBytes decodes a package in memory, or in a file if so asked.
func decodeBytes(data []byte, strict, file bool) (*go3mf.Model, error) {
	if !file {
		return decodePackage(context.Background(), data, strict)
	}
	name := scratchFile(data)
	defer os.Remove(name)
	r, err := go3mf.OpenReader(name)
	if err != nil {
		return new(go3mf.Model), fmt.Errorf("OpenReader: %v", err)
	}
	m, err := decodeWith(context.Background(), &r.Decoder, strict)
	if cerr := r.Close(); cerr != nil {
		return m, fmt.Errorf("Close: %v", cerr)
	}
	if r.Decode(new(go3mf.Model)) == nil {
		return m, errors.New("a file that has been closed can be read")
	}
	os.Remove(name)
	if _, err := go3mf.OpenReader(name); !os.IsNotExist(err) {
		return m, fmt.Errorf("a file that is not there is opened: %v", err)
	}
	return m, err
}

// encodeBytes encodes in memory, or to a file with some other content if so asked.
func encodeBytes(m *go3mf.Model, prec int, file bool) ([]byte, error) {
	set := func(e *go3mf.Encoder) {
		if prec != 4 { // which is how encoders are made
			e.FloatPrecision = prec
		}
	}
	if !file {
		var buf bytes.Buffer
		e := go3mf.NewEncoder(&buf)
		set(e)
		err := e.Encode(m)
		return buf.Bytes(), err
	}
	name := scratchFile(bytes.Repeat([]byte("what was there before "), 4000))
	defer os.Remove(name)
	w, err := go3mf.CreateWriter(name)
	if err != nil {
		return nil, fmt.Errorf("CreateWriter: %v", err)
	}
	set(&w.Encoder)
	err = w.Encode(m)
	if cerr := w.Close(); cerr != nil {
		return nil, fmt.Errorf("Close: %v", cerr)
	}
	if err != nil {
		return nil, err
	}
	if cerr := w.Close(); cerr == nil {
		return nil, errors.New("a file is closed twice")
	}
	if _, err := go3mf.CreateWriter(name + "/there.3mf"); err == nil {
		return nil, errors.New("a file is created in a file")
	}
	return ioutil.ReadFile(name)
}

// scratchFile writes a file that the caller removes.
func scratchFile(data []byte) string {
	f, err := ioutil.TempFile("", "h3-*.3mf")
	if err != nil {
		panic(harnessError{err})
	}
	defer f.Close()
	if _, err := f.Write(data); err != nil {
		panic(harnessError{err})
	}
	return f.Name()
}

// opDec decodes lexical variants of documents given as trees.
//
//	case: parts [{path, tree}] (the first is the root), seeds, strict
//	out:  trees with views, outs [{seed, model, errs}], the different answers only
func opDec(c M) M {
	exact := proj{prec: -1}
	var names []string
	var trees L
	parts := c.ms("parts")
	rp := newRep(c)
	var big []M
	for _, p := range parts {
		order := 0
		names = append(names, p.s("path"))
		trees = append(trees, addViews(p.m("tree"), &order))
		big = append(big, rp.tree(p.m("tree")))
	}
	outs := L{}
	var got []M
	variants := []interface{}{float64(0)}
	variants = append(variants, c.l("seeds")...)
	for _, sd := range variants {
		seed := int64(sd.(float64))
		var docs [][]byte
		for i := range parts {
			b, err := serialize(big[i], seed)
			if err != nil {
				return M{"fail": "harness", "msg": err.Error()}
			}
			t, err := readTree(b)
			if err != nil {
				return M{"fail": "harness", "msg": "variant: " + err.Error(), "doc": string(b)}
			}
			want := trees[i].(M)
			if rp.n > 0 {
				order := 0
				want = addViews(big[i], &order)
			}
			if !reflect.DeepEqual(strip(t, false), strip(want, false)) {
				return M{"fail": "harness", "msg": "variant differs", "doc": string(b)}
			}
			docs = append(docs, b)
		}
		m, err := decodePackage(context.Background(), modelPackage(names, docs), c.b("strict"))
		o := M{"model": exact.model(rp.unmodel(m)), "errs": rp.errs(flatten(err), c.b("strict"))}
		if len(parts) == 1 && !c.b("strict") {
			um := new(go3mf.Model)
			uerr := go3mf.UnmarshalModel(docs[0], um)
			o["um"] = L{exact.content(rp.unmodel(um)), rp.errs(flatten(uerr), false)}
		} else {
			o["um"] = L{}
		}
		same := false
		for _, g := range got {
			same = same || reflect.DeepEqual(g, o)
		}
		if !same {
			got = append(got, o)
			outs = append(outs, M{"seed": sd, "model": o["model"], "errs": o["errs"], "um": o["um"]})
		}
	}
	return M{"parts": trees, "outs": outs}
}

// opEnc encodes a model and reads what was written, on its own and with the library.
//
//	case: model, prec, marshal
//	out:  in (the model with numbers rounded as they are written), err, parts [{path, tree}], bad, dec, errs, marshal
func opEnc(c M) M {
	return encoded(func() *go3mf.Model { return bModel(c.m("model")) }, c.i("prec"), c.b("marshal"), c.b("file"), newRep(c))
}

func encoded(mk func() *go3mf.Model, prec int, marshal, file bool, rp rep) M {
	m := mk()
	res := M{"in": proj{prec: prec, written: true}.model(m), "err": "", "parts": L{}, "bad": L{}, "marshal": L{}, "dec": M{}, "errs": L{}}
	data, err := encodeBytes(rp.model(m), prec, file)
	if err != nil {
		res["err"] = err.Error()
		return res
	}
	o := readPackage(data)
	bad, parts := L{}, L{}
	for _, s := range o.errs {
		bad = append(bad, s)
	}
	order := 0
	for _, p := range o.parts {
		if p.ct != ctModel {
			continue
		}
		t, err := readTree(p.data)
		if err != nil {
			bad = append(bad, p.name+": "+err.Error())
			continue
		}
		parts = append(parts, M{"path": p.name, "tree": addViews(rp.untree(t), &order)})
	}
	res["parts"] = parts
	dm, err := decodeBytes(data, true, file)
	res["dec"] = proj{prec: -1}.model(rp.unmodel(dm))
	res["errs"] = flatten(err)
	// The root on its own, with the default precision.
	if prec == 4 && marshal {
		b, err := go3mf.MarshalModel(rp.model(mk()))
		if err != nil {
			bad = append(bad, "MarshalModel: "+err.Error())
		} else if t, err := readTree(b); err != nil {
			bad = append(bad, "MarshalModel: "+err.Error())
		} else {
			um := new(go3mf.Model)
			uerr := go3mf.UnmarshalModel(b, um)
			res["marshal"] = L{addViews(rp.untree(t), &order), proj{prec: -1}.content(rp.unmodel(um)), flatten(uerr)}
		}
	}
	res["bad"] = bad
	return res
}

// opRT decodes documents and encodes the model.
//
//	case: parts [{path, tree}], prec, seed
//	out:  orig (trees), model (decoded), and those of opEnc
func opRT(c M) M {
	var names []string
	var docs [][]byte
	orig := L{}
	order := 0
	for _, p := range c.ms("parts") {
		names = append(names, p.s("path"))
		orig = append(orig, addViews(p.m("tree"), &order))
		b, err := serialize(p.m("tree"), int64(c.i("seed")))
		if err != nil {
			return M{"fail": "harness", "msg": err.Error()}
		}
		docs = append(docs, b)
	}
	pkg := modelPackage(names, docs)
	mk := func() *go3mf.Model {
		m, _ := decodePackage(context.Background(), pkg, false)
		return m
	}
	r := encoded(mk, c.i("prec"), true, c.b("file"), rep{})
	r["orig"] = orig
	r["model"] = proj{prec: -1}.model(mk())
	return r
}

// opRaw decodes bytes that are not produced from a tree and reports how the decoder ends.
//
//	case: doc (text), hex or rep (texts to repeat), strict, child (the document is that of a child part), prefixes
//	out:  err: "", "content" or "other"; um, the same for UnmarshalModel; accepted: lengths of the prefixes taken
func opRaw(c M) M {
	doc := []byte(c.s("doc"))
	if c.has("hex") {
		doc = nil
		s := c.s("hex")
		for i := 0; i+1 < len(s); i += 2 {
			doc = append(doc, unhex(s[i])<<4|unhex(s[i+1]))
		}
	}
	for _, v := range c.l("rep") {
		r := v.([]interface{})
		doc = append(doc, bytes.Repeat([]byte(r[0].(string)), int(r[1].(float64)))...)
	}
	class := func(err error) string {
		if err == nil {
			return ""
		}
		for _, e := range flatten(err) {
			if e.(M)["x"] == "" {
				return "other"
			}
		}
		return "content"
	}
	names, docs := []string{"/3D/3dmodel.model"}, [][]byte{doc}
	if c.b("child") {
		root := []byte(`<model xmlns="` + go3mf.Namespace + `"><resources/><build/></model>`)
		names, docs = append(names, "/3D/child.model"), [][]byte{root, doc}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	m, err := decodePackage(ctx, modelPackage(names, docs), c.b("strict"))
	r := M{"err": class(err), "um": "", "accepted": L{}}
	if c.b("prefixes") {
		acc := L{}
		for i := 0; i < len(doc); i++ {
			if class(go3mf.UnmarshalModel(doc[:i], new(go3mf.Model))) != "other" {
				acc = append(acc, i)
			}
		}
		r["accepted"] = acc
	}
	if !c.b("child") {
		r["um"] = class(go3mf.UnmarshalModel(doc, new(go3mf.Model)))
	}
	if c.b("model") {
		r["model"] = proj{prec: -1}.model(m)
	}
	// What the decoder leaves behind can be used.
	m.Validate()
	m.ValidateCoherency()
	m.BoundingBox()
	return r
}

func init() {
	ops["ser"] = func(c M) M {
		b, err := serialize(c.m("tree"), int64(c.i("seed")))
		if err != nil {
			return M{"fail": "harness", "msg": err.Error()}
		}
		return M{"doc": string(b)}
	}
	ops["scramble"] = opScramble
}

// opScramble decodes packages whose bytes, or the bytes of whose parts, were changed at random.
//
//	case: docs (texts of model parts), seed, n (how many), store
//	out:  n, and how many were decoded without error
func opScramble(c M) M {
	rng := rand.New(rand.NewSource(int64(c.i("seed"))))
	var docs [][]byte
	var names []string
	for i, d := range c.l("docs") {
		docs = append(docs, []byte(d.(string)))
		names = append(names, fmt.Sprintf("/3D/m%d.model", i))
	}
	mutate := func(b []byte) []byte {
		b = append([]byte{}, b...)
		for k := 1 + rng.Intn(3); k > 0 && len(b) > 0; k-- {
			i := rng.Intn(len(b))
			switch rng.Intn(5) {
			case 0:
				b[i] ^= 1 << uint(rng.Intn(8))
			case 1:
				b[i] = byte(rng.Intn(256))
			case 2:
				b = b[:i]
			case 3:
				j := i + rng.Intn(len(b)-i)
				b = append(b[:i], b[j:]...)
			case 4:
				j := i + rng.Intn(len(b)-i)
				b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
			}
		}
		return b
	}
	accepted := 0
	for n := 0; n < c.i("n"); n++ {
		ds := append([][]byte{}, docs...)
		where := rng.Intn(2)
		if where == 0 {
			i := rng.Intn(len(ds))
			ds[i] = mutate(ds[i])
		}
		b := modelPackage(names, ds)
		if c.b("store") {
			var parts []rawPart
			rels := []rawRel{{"/", relModel, names[0], ""}}
			for i, d := range ds {
				parts = append(parts, rawPart{names[i], ctModel, d})
				if i > 0 {
					rels = append(rels, rawRel{names[0], relModel, names[i], ""})
				}
			}
			b = buildPackage(parts, rels, true)
		}
		if where == 1 {
			b = mutate(b)
		}
		if m, err := decodePackage(context.Background(), b, n%2 == 0); err == nil {
			accepted++
			m.Validate()
			m.BoundingBox()
		}
	}
	return M{"n": c.i("n"), "accepted": accepted}
}
