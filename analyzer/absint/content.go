package absint

import (
	"fmt"
	"strings"
)

// ContentKind is the kind of a Content.
type ContentKind uint8

// The kinds of content.
const (
	CBytes ContentKind = iota // every byte is in Set
	CConst                    // exactly Str
	CSeq                      // one byte of every set in Seq
	CTok                      // a token: "value" (a JSON value), "number" (a JSON number), "elems" (one or more JSON values divided by commas)
	CRun                      // the state of the JSON automaton after reading it
)

// Content describes the bytes of a string or slice, nil means unknown.
type Content struct {
	K   ContentKind
	Set Set
	Str string
	Seq []Set
	Run *Run
}

// Run is the state of the JSON automaton after reading bytes from a start point.
//
// Frames has a byte for every open array ('A') or object ('O'), the lowest
// is what the run started in: 'D' a document, 'P' a list of path elements
// that all start with a comma, or, after a cut at the entry of a function,
// the frame the function was called in.
type Run struct {
	Base   byte
	Frames string
	Cut    Sym  // not 0 if there are unknown frames below Frames
	Mode   byte // see below
	Rest   string
	Elems  int // path elements since the start, or the cut
	Many   bool
	At     int  // number of frames at the cut
	Below  bool // there are unknown frames below Frames
}

// Modes:
//
//	v  expects a value
//	f  after [ : expects a value or ]
//	k  after { : expects a key or }
//	K  after , in an object : expects a key
//	c  after a key : expects :
//	e  after a value : expects , or the end of the container
//	s  inside a string value        S  inside a key
//	t  after \ in a string value    T  after \ in a key
//	u  in \u of a value (Rest = digits left)  U the same in a key
//	n  inside a number
//	l  inside a literal (Rest = what is left)
//	!  not JSON
func (r *Run) String() string {
	if r == nil {
		return "?"
	}
	c := ""
	if r.Cut != 0 {
		c = fmt.Sprintf("~%d", r.Cut)
	}
	m := ""
	if r.Many {
		m = "+"
	}
	if r.Below {
		c += "_"
	}
	return fmt.Sprintf("%c%s%s@%d|%c%s|%d%s", r.Base, c, r.Frames, r.At, r.Mode, r.Rest, r.Elems, m)
}

func (c *Content) String() string {
	if c == nil {
		return "?"
	}
	switch c.K {
	case CBytes:
		return "b" + c.Set.String()
	case CConst:
		return fmt.Sprintf("%q", c.Str)
	case CSeq:
		s := "q"
		for _, e := range c.Seq {
			s += e.String()
		}
		return s
	case CTok:
		return "t:" + c.Str
	}
	return "R(" + c.Run.String() + ")"
}

// Const returns a constant content.
func Const(s string) *Content { return &Content{K: CConst, Str: s} }

// Bytes returns a content of bytes in a set.
func Bytes(s Set) *Content { return &Content{K: CBytes, Set: s} }

// Tok returns a token.
func Tok(s string) *Content { return &Content{K: CTok, Str: s} }

// DocRun returns the content of an empty document.
func DocRun() *Content { return &Content{K: CRun, Run: &Run{Base: 'D', Mode: 'v'}} }

// PathRun returns the content of an empty path.
func PathRun() *Content {
	return &Content{K: CRun, Run: &Run{Base: 'P', Frames: "A", Mode: 'e'}}
}

var (
	jsonWS      = SetOf(" \t\r\n")
	strSafe     = FullSet.Minus(RangeSet(0, 31)).Minus(SetOf("\"\\"))
	hexDigits   = SetOf("0123456789abcdefABCDEF")
	digits      = SetOf("0123456789")
	escapeChars = SetOf("\"\\/bfnrt")
)

// StrSafe is the set of the bytes that stand for themselves in a JSON string.
func StrSafe() Set { return strSafe }

func (r *Run) top() byte {
	if len(r.Frames) == 0 {
		return 'D'
	}
	return r.Frames[len(r.Frames)-1]
}

func (r Run) with(mode byte) *Run { r.Mode = mode; r.Rest = ""; return &r }

func (r Run) count() *Run {
	if r.Elems >= 6 {
		r.Many = true
	} else {
		r.Elems++
	}
	return &r
}

func deadRun(r *Run) *Run { return &Run{Base: r.Base, Mode: '!'} }

// stepSet reads one byte of a set, the bytes must all have the same effect.
func (r *Run) stepSet(set Set) *Run {
	if set.Empty() {
		return deadRun(r)
	}
	in := func(o Set) bool { return set.Sub(o) }
	is := func(c byte) bool { return set.Count() == 1 && set.Has(int(c)) }
	switch r.Mode {
	case 's', 'S':
		if in(strSafe) {
			return r
		}
		if is('"') {
			if r.Mode == 'S' {
				return r.with('c')
			}
			return r.with('e')
		}
		if is('\\') {
			return r.with(r.Mode + 1)
		}
	case 't', 'T':
		if in(escapeChars) {
			return r.with(r.Mode - 1)
		}
		if is('u') {
			n := r.with(r.Mode + 1)
			n.Rest = "4"
			return n
		}
	case 'u', 'U':
		if in(hexDigits) {
			n := *r
			n.Rest = string(r.Rest[0] - 1)
			if n.Rest == "0" {
				return r.with(r.Mode - 2)
			}
			return &n
		}
	case 'l':
		if len(r.Rest) > 0 && is(r.Rest[0]) {
			n := *r
			n.Rest = r.Rest[1:]
			if n.Rest == "" {
				n.Mode = 'e'
			}
			return &n
		}
	case 'n':
		// Numbers are only precise enough to tell apart where they end
		if in(SetOf("0123456789.eE+-")) {
			return r
		}
		e := r.with('e')
		return e.stepSet(set)
	case 'v', 'f':
		if in(jsonWS) {
			return r
		}
		switch {
		case is('"'):
			return r.element().with('s')
		case is('{'):
			n := r.element().with('k')
			n.Frames += "O"
			return n
		case is('['):
			n := r.element().with('f')
			n.Frames += "A"
			return n
		case is('t'):
			n := r.element().with('l')
			n.Rest = "rue"
			return n
		case is('f'):
			n := r.element().with('l')
			n.Rest = "alse"
			return n
		case is('n'):
			n := r.element().with('l')
			n.Rest = "ull"
			return n
		case is('-') || in(digits):
			return r.element().with('n')
		case is(']') && r.Mode == 'f':
			return r.close()
		}
	case 'k', 'K':
		if in(jsonWS) {
			return r
		}
		if is('"') {
			return r.with('S')
		}
		if is('}') && r.Mode == 'k' {
			return r.close()
		}
	case 'c':
		if in(jsonWS) {
			return r
		}
		if is(':') {
			return r.with('v')
		}
	case 'e':
		if in(jsonWS) {
			return r
		}
		switch {
		case is(','):
			switch r.top() {
			case 'O':
				return r.with('K')
			case 'A':
				return r.with('v')
			}
		case is('}') && r.top() == 'O' || is(']') && r.top() == 'A':
			return r.close()
		}
	}
	return deadRun(r)
}

// element is called at the start of a value.
func (r *Run) element() *Run {
	if r.Base == 'P' && len(r.Frames) == 1 {
		return r.count()
	}
	n := *r
	return &n
}

func (r *Run) close() *Run {
	if r.Base == 'P' && len(r.Frames) <= 1 {
		return deadRun(r)
	}
	if len(r.Frames) == 0 || (len(r.Frames) == 1 && r.Below) {
		return deadRun(r)
	}
	n := r.with('e')
	n.Frames = r.Frames[:len(r.Frames)-1]
	return n
}

func (r *Run) stepString(s string) *Run {
	for i := 0; i < len(s) && r.Mode != '!'; i++ {
		var set Set
		set.Add(int(s[i]))
		r = r.stepSet(set)
	}
	return r
}

// Append returns the run after reading a content.
func (r *Run) Append(c *Content) *Run {
	if r.Mode == '!' {
		return r
	}
	if c == nil {
		return deadRun(r)
	}
	switch c.K {
	case CConst:
		return r.stepString(c.Str)
	case CSeq:
		for _, s := range c.Seq {
			r = r.stepSet(s)
		}
		return r
	case CBytes:
		// zero or more bytes
		if (r.Mode == 's' || r.Mode == 'S') && c.Set.Sub(strSafe) {
			return r
		}
		if r.Mode == 'n' && c.Set.Sub(SetOf("0123456789.eE+-")) {
			return r
		}
		if c.Set.Empty() {
			return r
		}
	case CTok:
		switch c.Str {
		case "value":
			if r.Mode == 'v' || r.Mode == 'f' {
				return r.element().with('e')
			}
		case "number":
			if r.Mode == 'v' || r.Mode == 'f' {
				return r.element().with('n')
			}
			if r.Mode == 's' || r.Mode == 'S' {
				return r
			}
		case "string":
			if r.Mode == 'v' || r.Mode == 'f' {
				return r.element().with('e')
			}
			if r.Mode == 'k' || r.Mode == 'K' {
				return r.with('c')
			}
		case "elems":
			if (r.Mode == 'v' || r.Mode == 'f') && r.top() == 'A' {
				return r.element().with('e')
			}
		}
	case CRun:
		q := c.Run
		if q.Base == 'D' && q.Cut == 0 && len(q.Frames) == 0 && (q.Mode == 'e' || q.Mode == 'n') {
			if r.Mode == 'v' || r.Mode == 'f' {
				return r.element().with('e')
			}
		}
		if q.Base == 'P' && q.Mode == 'e' && len(q.Frames) == 1 && r.Mode == 'e' && r.top() == 'A' {
			return r
		}
	}
	return deadRun(r)
}

// Complete tells if the run is one complete JSON document.
func (r *Run) Complete() bool {
	return r.Base == 'D' && r.Cut == 0 && len(r.Frames) == 0 && (r.Mode == 'e' || r.Mode == 'n')
}

// concat returns the content of a followed by b.
func concat(a, b *Content) *Content {
	if a != nil && a.K == CRun {
		if b != nil && b.K == CConst && b.Str == "" {
			return a
		}
		return &Content{K: CRun, Run: a.Run.Append(b)}
	}
	if a != nil && a.K == CConst && a.Str == "" {
		return b
	}
	if b != nil && b.K == CConst && b.Str == "" {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	if a.K == CConst && b.K == CConst && len(a.Str)+len(b.Str) < 300 {
		return Const(a.Str + b.Str)
	}
	if a.K == CConst && startsDoc(a.Str) {
		// a document in the making
		return &Content{K: CRun, Run: (&Run{Base: 'D', Mode: 'v'}).stepString(a.Str).Append(b)}
	}
	sa, oka := a.bytes()
	sb, okb := b.bytes()
	if oka && okb {
		return Bytes(sa.Or(sb))
	}
	return nil
}

func startsDoc(s string) bool {
	s = strings.TrimSpace(s)
	return len(s) > 0 && (s[0] == '[' || s[0] == '{' || s[0] == '"')
}

// bytes returns a set that has every byte of the content.
func (c *Content) bytes() (Set, bool) {
	switch c.K {
	case CBytes:
		return c.Set, true
	case CConst:
		return SetOf(c.Str), true
	case CSeq:
		var s Set
		for _, e := range c.Seq {
			s = s.Or(e)
		}
		return s, true
	case CTok:
		if c.Str == "number" {
			return SetOf("0123456789.eE+-"), true
		}
	}
	return Set{}, false
}

// dropFirst returns the content without its first byte, which must exist.
func dropFirst(c *Content) *Content {
	if c == nil {
		return nil
	}
	switch c.K {
	case CConst:
		if len(c.Str) > 0 {
			return Const(c.Str[1:])
		}
	case CSeq:
		if len(c.Seq) > 0 {
			return &Content{K: CSeq, Seq: c.Seq[1:]}
		}
	case CBytes:
		return c
	case CRun:
		if c.Run.Base == 'P' && c.Run.Mode == 'e' && len(c.Run.Frames) == 1 {
			return Tok("elems")
		}
	}
	return nil
}

func joinContent(a, b *Content) *Content {
	if a == nil || b == nil {
		return nil
	}
	if a.String() == b.String() {
		return a
	}
	sa, oka := a.bytes()
	sb, okb := b.bytes()
	if oka && okb {
		return Bytes(sa.Or(sb))
	}
	return nil
}

// widenText replaces a text that's known exactly by the bytes that are in it.
func widenText(v Val) Val {
	w := func(c *Content) *Content {
		if c == nil || c.K != CConst && c.K != CSeq {
			return c
		}
		if set, ok := c.bytes(); ok {
			return Bytes(set)
		}
		return nil
	}
	switch v := v.(type) {
	case VStr:
		if v.C != nil && v.C.K == CConst && v.S == 0 {
			return v
		}
		v.C = w(v.C)
		return v
	case VSlice:
		v.C = w(v.C)
		v.Hist = nil
		return v
	}
	return v
}

// minLen returns the lowest number of bytes a content can have.
func minLen(c *Content) int64 {
	if c == nil {
		return 0
	}
	switch c.K {
	case CConst:
		return int64(len(c.Str))
	case CSeq:
		return int64(len(c.Seq))
	case CTok:
		if c.Str == "string" {
			return 2
		}
		return 1
	case CRun:
		if c.Run.Base == 'D' && c.Run.Cut == 0 && c.Run.Mode != 'v' && c.Run.Mode != '!' {
			return 1
		}
	}
	return 0
}

// Complete tells if the content is one complete JSON document.
func (c *Content) Complete() bool {
	if c == nil {
		return false
	}
	switch c.K {
	case CRun:
		return c.Run.Complete()
	case CConst:
		return (&Run{Base: 'D', Mode: 'v'}).stepString(c.Str).Complete()
	case CTok:
		return c.Str != "elems"
	}
	return false
}
