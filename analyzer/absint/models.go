package absint

import (
	"go/types"
	"strings"
)

func fresh(c *CallCtx, tag string) []Ret {
	return []Ret{{c.St, c.St.freshResult(c.Sig, tag)}}
}

// Sign gives the result a fact that it isn't nil.
func nonNil(st *State, v Val) Val {
	if r, ok := v.(VRef); ok {
		f := st.facts[r.S]
		f.Nil = 2
		st.setFact(r.S, f)
	}
	return v
}

// symOf returns the symbol of an opaque value, following pointers to cells that hold one.
func symOf(st *State, v Val) (Sym, bool) {
	switch v := v.(type) {
	case VRef:
		return v.S, v.S != 0
	}
	return 0, false
}

// pure is a model of a function of which the result only depends on the receiver.
func pure(name string) Model {
	return func(c *CallCtx) []Ret {
		s, ok := symOf(c.St, c.Args[0])
		if !ok {
			return fresh(c, "call:"+name)
		}
		if v, ok := c.St.Attr(s, name); ok {
			return []Ret{{c.St, v}}
		}
		tag := c.St.facts[s].Tag
		v := c.St.freshResult(c.Sig, name+"("+tag+")")
		if l, ok := v.(VInt); ok && name == "Len" {
			c.St.assertLeq(VInt{}, l, 0)
		}
		c.St.SetAttr(s, name, v)
		return []Ret{{c.St, v}}
	}
}

// derived is a model of a function of which the result isn't nil and comes from the receiver.
func derived(name string) Model {
	return func(c *CallCtx) []Ret {
		tag := c.St.Tag(c.Args[0])
		return []Ret{{c.St, nonNil(c.St, c.St.freshResult(c.Sig, name+"("+tag+")"))}}
	}
}

// nothing is a model of a function without effects.
func nothing(c *CallCtx) []Ret {
	tag := "call:"
	if c.Fn != nil {
		tag += c.Fn.FullName()
	}
	if len(c.Args) > 0 {
		if t := c.St.Tag(c.Args[0]); t != "" {
			tag += "(" + t + ")"
		}
	}
	return fresh(c, tag)
}

// appendTok is a model of a function that appends a token to its first argument.
func appendTok(tok *Content, min, max int64) Model {
	return func(c *CallCtx) []Ret {
		l := c.St.FreshLen()
		c.St.assertLeq(VInt{K: min}, l, 0)
		c.St.assertLeq(l, VInt{K: max}, 0)
		y := VSlice{S: c.St.FreshSym(Fact{Nil: 2}), Len: l, C: tok}
		return []Ret{{c.St, c.Act.appendTo(c.St, c.Instr, c.Args[0], y)}}
	}
}

var models map[string]Model

func init() {
	models = map[string]Model{
		"strconv.AppendInt":   appendTok(Tok("number"), 1, 65),
		"strconv.AppendUint":  appendTok(Tok("number"), 1, 64),
		"strconv.AppendFloat": appendTok(Tok("number"), 1, 400),
		"strconv.FormatFloat": strTok("number"),
		"strconv.FormatInt":   strTok("number"),
		"strconv.Itoa":        strTok("number"),
		"strconv.FormatUint":  strTok("number"),
		"encoding/json.Marshal": func(c *CallCtx) []Ret {
			bad := c.St.clone()
			good := c.St
			l := good.FreshLen()
			good.assertLeq(VInt{K: 1}, l, 0)
			t := c.Sig.Results()
			gv := VTuple{E: []Val{VSlice{S: good.FreshSym(Fact{Nil: 2, Tag: "call:encoding/json.Marshal"}), Len: l, C: Tok("value")}, VNil{}}}
			bv := VTuple{E: []Val{VNil{}, nonNil(bad, bad.Fresh(t.At(1).Type(), "call:encoding/json.Marshal#1"))}}
			return []Ret{{good, gv}, {bad, bv}}
		},
		"(time.Time).AppendFormat": func(c *CallCtx) []Ret {
			layout, ok := c.Args[2].(VStr)
			var content *Content
			if ok && layout.C != nil && layout.C.K == CConst {
				content = Bytes(SetOf(layout.C.Str).Or(SetOf("0123456789-+.:")).Or(RangeSet('A', 'Z')).Or(RangeSet('a', 'z')))
			}
			l := c.St.FreshLen()
			y := VSlice{S: c.St.FreshSym(Fact{Nil: 2}), Len: l, C: content}
			return []Ret{{c.St, c.Act.appendTo(c.St, c.Instr, c.Args[1], y)}}
		},
		"errors.New": func(c *CallCtx) []Ret {
			tag := "call:errors.New(" + c.St.Tag(c.Args[0]) + ")"
			return []Ret{{c.St, nonNil(c.St, c.St.freshResult(c.Sig, tag))}}
		},
		"fmt.Errorf":      func(c *CallCtx) []Ret { return []Ret{{c.St, nonNil(c.St, c.St.freshResult(c.Sig, "call:fmt.Errorf"))}} },
		"fmt.Sprintf":     nothing,
		"fmt.Println":     nothing,
		"fmt.Sprint":      nothing,
		"reflect.ValueOf": derived("reflect.ValueOf"),
		"reflect.New":     derived("reflect.New"),
		"reflect.TypeOf":  derived("reflect.TypeOf"),

		"bytes.Equal": func(c *CallCtx) []Ret {
			x, y := c.Act.asSlice(c.St, c.Args[0]), c.Act.asSlice(c.St, c.Args[1])
			var out []Ret
			t := c.St.clone()
			if t.assertLeq(x.Len, y.Len, 0) && t.assertLeq(y.Len, x.Len, 0) {
				out = append(out, Ret{t, VBool{Known: true, B: true}})
			}
			return append(out, Ret{c.St, VBool{Known: true, B: false}})
		},
		"unicode/utf8.EncodeRune": func(c *CallCtx) []Ret {
			// writes 1..4 bytes into the buffer
			c.St.Havoc(c.Args[0])
			l := c.St.FreshLen()
			c.St.assertLeq(VInt{K: 1}, l, 0)
			c.St.assertLeq(l, VInt{K: 4}, 0)
			return []Ret{{c.St, l}}
		},
		"unicode/utf8.DecodeRuneInString": func(c *CallCtx) []Ret {
			r := c.St.freshResult(c.Sig, "rune").(VTuple)
			size := c.St.FreshLen()
			s, ok := c.Args[0].(VStr)
			if ok {
				c.St.assertLeq(size, s.Len, 0)
				c.St.assertLeq(size, VInt{K: 4}, 0)
				if lo, _ := c.St.Range(s.Len); lo > 0 {
					c.St.assertLeq(VInt{K: 1}, size, 0)
				}
			}
			r.E[1] = size
			return []Ret{{c.St, r}}
		},
		"unicode/utf16.Decode": func(c *CallCtx) []Ret {
			// one or more runes for one or more units
			x := c.Act.asSlice(c.St, c.Args[0])
			l := c.St.FreshLen()
			if lo, _ := c.St.Range(x.Len); lo > 0 {
				c.St.assertLeq(VInt{K: 1}, l, 0)
			}
			c.St.assertLeq(l, x.Len, 0)
			return []Ret{{c.St, VSlice{S: c.St.FreshSym(Fact{Nil: 2, Tag: "runes"}), Len: l}}}
		},
	}
	for _, m := range []string{"Kind", "Len", "IsNil", "IsValid", "CanSet", "NumField", "Int", "Uint", "Float", "Bool", "String", "Pointer"} {
		models["(reflect.Value)."+m] = pure(m)
	}
	for _, m := range []string{"Elem", "Field", "Index", "Method", "Interface", "Type", "Addr", "MapIndex", "Convert"} {
		models["(reflect.Value)."+m] = derived(m)
	}
	for _, m := range []string{"Kind", "NumField", "NumMethod", "NumIn", "NumOut", "Len", "Name", "PkgPath", "String", "IsVariadic"} {
		models["(reflect.Type)."+m] = pure(m)
	}
	for _, m := range []string{"Elem"} {
		models["(reflect.Type)."+m] = derived(m)
	}
	// interfaces can be nil
	models["(reflect.Value).Interface"] = func(c *CallCtx) []Ret {
		return fresh(c, "Interface("+c.St.Tag(c.Args[0])+")")
	}
	models["(reflect.Value).Call"] = func(c *CallCtx) []Ret { return fresh(c, "call:(reflect.Value).Call") }
	for _, m := range []string{"Set", "SetInt", "SetUint", "SetFloat", "SetString", "SetBool", "OverflowInt", "OverflowUint"} {
		models["(reflect.Value)."+m] = nothing
	}
	for _, n := range []string{
		"reflect.MakeSlice", "reflect.Append", "reflect.Zero", "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi", "strconv.ParseFloat", "strconv.ParseBool",
		"time.Now", "time.Since", "time.Parse", "(time.Time).Sub", "(time.Time).UTC", "(time.Duration).Nanoseconds", "(time.Time).Format",
		"math.IsInf", "math.IsNaN", "math.Abs", "(reflect.Kind).String",
		"(*github.com/valyala/fastjson.Value).Type", "(*github.com/valyala/fastjson.Value).GetStringBytes", "(*github.com/valyala/fastjson.Value).GetFloat64",
		"(*github.com/valyala/fastjson.Value).Int64", "(*github.com/valyala/fastjson.Value).GetObject", "(*github.com/valyala/fastjson.Value).GetArray",
		"(*github.com/valyala/fastjson.Value).Get", "(*github.com/valyala/fastjson.Parser).Parse", "(github.com/valyala/fastjson.Type).String",
		"(*github.com/valyala/fastjson.Parser).ParseBytes", "(*github.com/valyala/fastjson.Value).StringBytes", "(*github.com/valyala/fastjson.Value).MarshalTo",
		"hash/fnv.New32", "strings.HasPrefix", "strings.HasSuffix", "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Contains", "strings.Split", "strings.SplitN", "strings.Cut", "strings.Index", "strings.IndexByte",
	} {
		if _, ok := models[n]; !ok {
			models[n] = nothing
		}
	}
	bufferModels(models)
	models["(*github.com/valyala/fastjson.Value).Type"] = pure("Type")
	_ = types.Typ
	_ = strings.TrimSpace
}

func strTok(tok string) Model {
	return func(c *CallCtx) []Ret {
		l := c.St.FreshLen()
		c.St.assertLeq(VInt{K: 1}, l, 0)
		return []Ret{{c.St, VStr{S: c.St.FreshSym(Fact{Tag: "call:" + c.Fn.FullName()}), Len: l, C: Tok(tok)}}}
	}
}
