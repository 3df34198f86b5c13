package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"math/rand"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- views of attribute values

// Attributes whose structured views are needed by the specification.
func views(a M) M {
	s := a["s"].(string)
	r := M{"ns": a["ns"], "n": a["n"], "s": s, "u": "!", "f": "!"}
	if v, err := strconv.ParseUint(s, 10, 32); err == nil {
		r["u"] = strconv.FormatUint(v, 10)
	}
	if v, err := strconv.ParseFloat(s, 32); err == nil {
		r["f"] = fs(float32(v))
	}
	fields := strings.Fields(s)
	switch a["n"] {
	case "transform", "matindices", "values", "pids", "pindices", "blendmethods", "UUID", "color", "displaycolor", "preserve", "requiredextensions", "name":
	default:
		return r
	}
	x := M{}
	us, fl, ws, m := L{}, L{}, L{}, L{}
	okM := len(fields) == 12
	for _, w := range fields {
		ws = append(ws, w)
		if v, err := strconv.ParseUint(w, 10, 32); err == nil {
			us = append(us, strconv.FormatUint(v, 10))
		} else {
			us = append(us, "!")
		}
		if v, err := strconv.ParseFloat(w, 32); err == nil {
			fl = append(fl, fs(float32(v)))
		} else {
			fl = append(fl, "!")
			okM = false
		}
	}
	if okM {
		m = fl
	}
	x["us"], x["fs"], x["ws"], x["m"] = us, fl, ws, m
	x["c"] = colorView(s)
	x["uu"] = uuidOK(s)
	b, err := strconv.ParseBool(s)
	x["b"] = b && err == nil
	if i := strings.IndexByte(s, ':'); i >= 0 {
		x["colon"], x["pre"], x["loc"] = true, s[:i], s[i+1:]
	} else {
		x["colon"], x["pre"], x["loc"] = false, "", s
	}
	r["x"] = x
	return r
}

func colorView(s string) string {
	if len(s) == 7 {
		s += "ff"
	}
	if len(s) != 9 || s[0] != '#' {
		return "!"
	}
	s = strings.ToLower(s[1:])
	for i := 0; i < len(s); i++ {
		if !strings.ContainsRune("0123456789abcdef", rune(s[i])) {
			return "!"
		}
	}
	return s
}

func hexRun(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func uuidOK(s string) bool {
	switch {
	case len(s) == 32:
		return hexRun(s)
	case len(s) == 45 && strings.EqualFold(s[:9], "urn:uuid:"):
		s = s[9:]
	case len(s) == 38 && s[0] == '{' && s[37] == '}':
		s = s[1:37]
	}
	if len(s) != 36 {
		return false
	}
	p := strings.Split(s, "-")
	if len(p) != 5 || len(p[0]) != 8 || len(p[1]) != 4 || len(p[2]) != 4 || len(p[3]) != 4 || len(p[4]) != 12 {
		return false
	}
	return hexRun(strings.Join(p, ""))
}

// addViews returns the tree with views, the document order of the elements and without empty or split text.
func addViews(n M, order *int) M {
	if n.s("t") == "T" {
		return M{"t": "T", "s": n.s("s")}
	}
	*order++
	r := M{"t": "S", "ns": n.s("ns"), "n": n.s("n"), "o": *order}
	as, cs := L{}, L{}
	for _, a := range n.ms("a") {
		as = append(as, views(a))
	}
	for _, c := range n.ms("c") {
		if c.s("t") == "T" {
			if c.s("s") == "" {
				continue
			}
			if k := len(cs); k > 0 && cs[k-1].(M)["t"] == "T" {
				cs[k-1] = M{"t": "T", "s": cs[k-1].(M)["s"].(string) + c.s("s")}
				continue
			}
		}
		cs = append(cs, addViews(c, order))
	}
	r["a"], r["c"] = as, cs
	return r
}

// ---------------------------------------------------------------- independent reader

// readTree parses a document with encoding/xml, resolving name spaces itself and checking
// that the document is well formed with regard to name spaces too.
func readTree(data []byte) (M, error) {
	d := xml.NewDecoder(bytes.NewReader(data))
	type scope map[string]string
	type node struct {
		m     M
		kids  L
		raw   xml.Name
		scope scope
	}
	base := scope{"xml": "http://www.w3.org/XML/1998/namespace", "": ""}
	var stk []*node
	var root M
	order := 0
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch t := t.(type) {
		case xml.StartElement:
			if root != nil {
				return nil, fmt.Errorf("two roots")
			}
			sc := base
			if len(stk) > 0 {
				sc = stk[len(stk)-1].scope
			}
			ns := scope{}
			for k, v := range sc {
				ns[k] = v
			}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return nil, fmt.Errorf("prefix %s without name space", a.Name.Local)
					}
					ns[a.Name.Local] = a.Value
				} else if a.Name.Space == "" && a.Name.Local == "xmlns" {
					ns[""] = a.Value
				}
			}
			u, ok := ns[t.Name.Space]
			if !ok {
				return nil, fmt.Errorf("undeclared prefix %s", t.Name.Space)
			}
			order++
			as := L{}
			seen := map[string]bool{}
			for _, a := range t.Attr {
				au := ""
				if a.Name.Space == "xmlns" {
					au = "xmlns"
				} else if a.Name.Space != "" {
					if au, ok = ns[a.Name.Space]; !ok {
						return nil, fmt.Errorf("undeclared prefix %s", a.Name.Space)
					}
				}
				if seen[au+"\x00"+a.Name.Local] {
					return nil, fmt.Errorf("repeated attribute %s", a.Name.Local)
				}
				seen[au+"\x00"+a.Name.Local] = true
				as = append(as, views(M{"ns": alias(au), "n": a.Name.Local, "s": a.Value}))
			}
			stk = append(stk, &node{m: M{"t": "S", "ns": alias(u), "n": t.Name.Local, "a": as, "o": order}, kids: L{}, raw: t.Name, scope: ns})
		case xml.EndElement:
			if len(stk) == 0 || stk[len(stk)-1].raw != t.Name {
				return nil, fmt.Errorf("unbalanced %s", t.Name.Local)
			}
			n := stk[len(stk)-1]
			stk = stk[:len(stk)-1]
			n.m["c"] = n.kids
			if len(stk) == 0 {
				root = n.m
			} else {
				stk[len(stk)-1].kids = append(stk[len(stk)-1].kids, n.m)
			}
		case xml.CharData:
			if len(stk) == 0 {
				if strings.TrimSpace(string(t)) != "" {
					return nil, fmt.Errorf("text outside the root")
				}
				continue
			}
			up := stk[len(stk)-1]
			if k := len(up.kids); k > 0 && up.kids[k-1].(M)["t"] == "T" {
				up.kids[k-1] = M{"t": "T", "s": up.kids[k-1].(M)["s"].(string) + string(t)}
			} else if len(t) > 0 {
				up.kids = append(up.kids, M{"t": "T", "s": string(t)})
			}
		}
	}
	if root == nil {
		return nil, fmt.Errorf("not closed")
	}
	return root, nil
}

// ---------------------------------------------------------------- serializer with lexical variants

type writer struct {
	b   bytes.Buffer
	r   *rand.Rand // nil: the plain form
	err error
}

func (w *writer) pick(n int) int {
	if w.r == nil || n <= 1 {
		return 0
	}
	return w.r.Intn(n)
}

func (w *writer) ws() {
	if w.r == nil {
		return
	}
	w.b.WriteString([]string{"", "", "", " ", "\n", "\t", "  \r\n "}[w.pick(7)])
}

func (w *writer) escape(s string, quote byte) {
	for _, c := range s {
		switch {
		case c == '&':
			w.b.WriteString([]string{"&amp;", "&#38;", "&#x26;"}[w.pick(3)])
		case c == '<':
			w.b.WriteString([]string{"&lt;", "&#60;", "&#x3C;"}[w.pick(3)])
		case c == '>' && (quote == 0 || w.pick(2) == 0):
			w.b.WriteString([]string{"&gt;", "&#62;"}[w.pick(2)])
		case c == '"' && (quote == '"' || w.pick(3) == 1):
			w.b.WriteString([]string{"&quot;", "&#34;"}[w.pick(2)])
		case c == '\'' && (quote == '\'' || w.pick(3) == 1):
			w.b.WriteString([]string{"&apos;", "&#39;"}[w.pick(2)])
		case c == '\n' || c == '\t' || c == '\r':
			if quote == 0 && c != '\r' && w.pick(2) == 0 {
				w.b.WriteRune(c)
			} else {
				fmt.Fprintf(&w.b, "&#x%X;", c)
			}
		case w.r != nil && w.pick(12) == 0:
			if w.pick(2) == 0 {
				fmt.Fprintf(&w.b, "&#%d;", c)
			} else {
				fmt.Fprintf(&w.b, "&#x%x;", c)
			}
		default:
			w.b.WriteRune(c)
		}
	}
}

type decl struct{ p, ns string }

// prefix picks a prefix in scope for the name space.
func (w *writer) prefix(scope []decl, ns string, attr bool) string {
	if ns == "http://www.w3.org/XML/1998/namespace" {
		return "xml"
	}
	var opts []string
	hasDefault := false
	for i := len(scope) - 1; i >= 0; i-- {
		d := scope[i]
		shadowed := false
		for _, e := range scope[i+1:] {
			shadowed = shadowed || e.p == d.p
		}
		if shadowed {
			continue
		}
		if d.p == "" {
			hasDefault = true
		}
		if d.ns == ns && !(attr && d.p == "") {
			opts = append(opts, d.p)
		}
	}
	if ns == "" && (attr || !hasDefault) {
		return ""
	}
	if len(opts) == 0 {
		if ns == "" {
			w.err = fmt.Errorf("cannot write a name without name space")
			return ""
		}
		if strings.Contains(ns, ":") {
			w.err = fmt.Errorf("no prefix for %s", ns)
		}
		return ns // undeclared prefix
	}
	return opts[w.pick(len(opts))]
}

func (w *writer) misc(inText bool) {
	if w.r == nil {
		return
	}
	switch w.pick(12) {
	case 0:
		w.b.WriteString("<?pi some <data> ?>")
	case 1:
		w.b.WriteString("<!-- a <comment/> & more -->")
	}
}

func (w *writer) text(s string) {
	if w.r != nil && w.pick(5) == 0 && !strings.Contains(s, "]]>") && !strings.Contains(s, "\r") {
		w.b.WriteString("<![CDATA[" + s + "]]>")
		return
	}
	rs := []rune(s)
	cut := len(rs)
	if w.r != nil && len(rs) > 1 && w.pick(4) == 0 {
		cut = 1 + w.pick(len(rs)-1)
	}
	w.escape(string(rs[:cut]), 0)
	if cut < len(rs) {
		w.b.WriteString([]string{"<?split?>", "<!--split-->"}[w.pick(2)])
		w.escape(string(rs[cut:]), 0)
	}
}

// mixed tells whether white space can be added among the children, which is when nobody keeps it.
func mixed(n M, keep bool) bool {
	return keep || (n.s("ns") == "core" && n.s("n") == "metadata")
}

func (w *writer) element(n M, scope []decl, keep bool) {
	for _, a := range n.ms("a") {
		if a.s("ns") == "xmlns" {
			scope = append(scope[:len(scope):len(scope)], decl{a.s("n"), a.s("s")})
		} else if a.s("ns") == "" && a.s("n") == "xmlns" {
			scope = append(scope[:len(scope):len(scope)], decl{"", a.s("s")})
		}
	}
	q := func(ns, local string, attr bool) string {
		if p := w.prefix(scope, unalias(ns), attr); p != "" {
			return p + ":" + local
		}
		return local
	}
	name := q(n.s("ns"), n.s("n"), false)
	w.b.WriteString("<" + name)
	for _, a := range n.ms("a") {
		w.b.WriteString(" ")
		w.ws()
		switch {
		case a.s("ns") == "xmlns":
			w.b.WriteString("xmlns:" + a.s("n"))
		default:
			w.b.WriteString(q(a.s("ns"), a.s("n"), true))
		}
		w.ws()
		w.b.WriteByte('=')
		w.ws()
		quote := "\"'"[w.pick(2)]
		w.b.WriteByte(quote)
		w.escape(a.s("s"), quote)
		w.b.WriteByte(quote)
	}
	w.ws()
	kids := n.ms("c")
	if len(kids) == 0 && w.pick(2) == 0 {
		w.b.WriteString("/>")
		return
	}
	w.b.WriteByte('>')
	// Unknown content keeps every character.
	keep = keep || !nsKnown(n.s("ns"))
	m := mixed(n, keep)
	for _, c := range kids {
		if !m {
			w.ws()
		}
		w.misc(m)
		if c.s("t") == "T" {
			w.text(c.s("s"))
		} else {
			w.element(c, scope, keep)
		}
	}
	if !m {
		w.ws()
	}
	w.misc(m)
	w.b.WriteString("</" + name)
	w.ws()
	w.b.WriteByte('>')
}

func nsKnown(ns string) bool {
	switch ns {
	case "core", "m", "s", "b", "p":
		return true
	}
	return false
}

// serialize writes the tree as XML, in the lexical form chosen by seed (0 is the plain form).
func serialize(n M, seed int64) ([]byte, error) {
	w := &writer{}
	if seed != 0 {
		w.r = rand.New(rand.NewSource(seed))
	}
	w.b.WriteString(xml.Header)
	w.misc(false)
	w.element(n, nil, false)
	if w.r != nil {
		w.ws()
		w.misc(false)
	}
	return w.b.Bytes(), w.err
}
