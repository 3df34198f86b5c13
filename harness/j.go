package main

import (
	"encoding/json"
	"math"
	"strconv"
)

// M and L are the JSON values exchanged with the specification. Lists are never nil, so that
// they always become TLA+ sequences.
type M map[string]interface{}
type L []interface{}

func (m M) s(k string) string {
	v, _ := m[k].(string)
	return v
}
func (m M) b(k string) bool {
	v, _ := m[k].(bool)
	return v
}
func (m M) i(k string) int {
	v, _ := m[k].(float64)
	return int(v)
}
func (m M) l(k string) []interface{} {
	if v, ok := m[k].(L); ok {
		return v
	}
	v, _ := m[k].([]interface{})
	return v
}
func (m M) has(k string) bool { _, ok := m[k]; return ok }
func (m M) m(k string) M      { return toM(m[k]) }
func (m M) ms(k string) []M {
	var r []M
	for _, v := range m.l(k) {
		r = append(r, toM(v))
	}
	return r
}
func toM(v interface{}) M {
	switch v := v.(type) {
	case M:
		return v
	case map[string]interface{}:
		return M(v)
	}
	return M{}
}
func (m M) u(k string) uint32  { return pu(m.s(k)) }
func (m M) f(k string) float32 { return pf(m.s(k)) }

func pu(s string) uint32 {
	v, _ := strconv.ParseUint(s, 10, 32)
	return uint32(v)
}
func pf(s string) float32 {
	v, _ := strconv.ParseFloat(s, 32)
	return float32(v)
}
func strs(v interface{}) []string {
	l, _ := v.([]interface{})
	var r []string
	for _, x := range l {
		s, _ := x.(string)
		r = append(r, s)
	}
	return r
}

func us(v uint32) string { return strconv.FormatUint(uint64(v), 10) }

// fs is the canonical text of a float32.
func fs(v float32) string {
	if v == 0 {
		return "0"
	}
	if math.IsNaN(float64(v)) {
		return "NaN"
	}
	return strconv.FormatFloat(float64(v), 'g', -1, 32)
}

// fround is the canonical text of v after it has been written with prec decimals.
func fround(v float32, prec int) string {
	x, err := strconv.ParseFloat(strconv.FormatFloat(float64(v), 'f', prec, 32), 32)
	if err != nil {
		return "!"
	}
	return fs(float32(x))
}

// round passes a value through JSON, as if it came from a case.
func round(m M) M {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	var r map[string]interface{}
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return M(r)
}
