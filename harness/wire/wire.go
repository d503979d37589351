// Package wire is an implementation of the STOMP frame encoding written from
// the protocol specification. It shares no code with the module under test and
// serves as its oracle and as the raw protocol peer of the harness.
package wire

import (
	"bytes"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// Str is a byte string that survives JSON (invalid UTF-8 included).
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	plain := true
	for i := 0; i < len(s); i++ {
		if s[i] < 0x20 || s[i] > 0x7e || s[i] == '"' || s[i] == '\\' {
			plain = false
			break
		}
	}
	if plain {
		return json.Marshal(string(s))
	}
	var b strings.Builder
	b.WriteString("\x01") // never needed by a plain string
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c < 0x20 || c > 0x7e || c == '%' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return json.Marshal(b.String())
}

func (s *Str) UnmarshalJSON(d []byte) error {
	var x string
	if err := json.Unmarshal(d, &x); err != nil {
		return err
	}
	if !strings.HasPrefix(x, "\x01") {
		*s = Str(x)
		return nil
	}
	x = x[1:]
	var b []byte
	for i := 0; i < len(x); i++ {
		if x[i] == '%' && i+2 < len(x) {
			v, err := strconv.ParseUint(x[i+1:i+3], 16, 8)
			if err != nil {
				return err
			}
			b = append(b, byte(v))
			i += 2
		} else {
			b = append(b, x[i])
		}
	}
	*s = Str(b)
	return nil
}

// Body is a compact description of a payload: a literal followed by N
// pseudo-random bytes.
type Body struct {
	Lit  Str    `json:"lit,omitempty"`
	N    int    `json:"n,omitempty"`
	Seed uint32 `json:"seed,omitempty"`
}

func (b Body) Bytes() []byte {
	out := make([]byte, 0, len(b.Lit)+b.N)
	out = append(out, b.Lit...)
	x := uint64(b.Seed)*2862933555777941757 + 3037000493
	for i := 0; i < b.N; i++ {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out = append(out, byte(x>>24))
	}
	return out
}

func (b Body) Len() int { return len(b.Lit) + b.N }

// HasNul reports whether the payload contains a NUL.
func (b Body) HasNul() bool { return bytes.IndexByte(b.Bytes(), 0) >= 0 }

// KV is a header entry.
type KV struct {
	K Str `json:"k"`
	V Str `json:"v"`
}

// Frame is a decoded frame; a heart-beat is a Frame with an empty Cmd.
type Frame struct {
	Cmd  string
	H    []KV
	Body []byte
}

// F builds a frame from alternating names and values.
func F(cmd string, kv ...string) Frame {
	f := Frame{Cmd: cmd}
	for i := 0; i+1 < len(kv); i += 2 {
		f.H = append(f.H, KV{Str(kv[i]), Str(kv[i+1])})
	}
	return f
}

func (f Frame) With(k, v string) Frame {
	f.H = append(append([]KV(nil), f.H...), KV{Str(k), Str(v)})
	return f
}

func (f Frame) WithBody(b []byte) Frame { f.Body = b; return f }

// Get returns the value of the first entry named k.
func (f Frame) Get(k string) string { v, _ := f.Lookup(k); return v }

func (f Frame) Lookup(k string) (string, bool) {
	for _, e := range f.H {
		if string(e.K) == k {
			return string(e.V), true
		}
	}
	return "", false
}

func (f Frame) All(k string) []string {
	var r []string
	for _, e := range f.H {
		if string(e.K) == k {
			r = append(r, string(e.V))
		}
	}
	return r
}

func (f Frame) String() string {
	if f.Cmd == "" {
		return "<heart-beat>"
	}
	var b strings.Builder
	b.WriteString(f.Cmd)
	for _, e := range f.H {
		fmt.Fprintf(&b, " %q:%q", clip(string(e.K)), clip(string(e.V)))
	}
	fmt.Fprintf(&b, " body(%d)=%q", len(f.Body), clip(string(f.Body)))
	return b.String()
}

func clip(s string) string {
	if len(s) > 60 {
		return s[:50] + "..." + s[len(s)-5:]
	}
	return s
}

// Equal compares two frames exactly.
func Equal(a, b Frame) bool {
	if a.Cmd != b.Cmd || len(a.H) != len(b.H) || !bytes.Equal(a.Body, b.Body) {
		return false
	}
	for i := range a.H {
		if a.H[i] != b.H[i] {
			return false
		}
	}
	return true
}

func escape(out []byte, s Str) []byte {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			out = append(out, '\\', '\\')
		case '\r':
			out = append(out, '\\', 'r')
		case '\n':
			out = append(out, '\\', 'n')
		case ':':
			out = append(out, '\\', 'c')
		default:
			out = append(out, s[i])
		}
	}
	return out
}

// Encode gives the canonical encoding (LF line ends, every special escaped).
func Encode(f Frame) []byte {
	if f.Cmd == "" {
		return []byte{'\n'}
	}
	out := append([]byte(f.Cmd), '\n')
	for _, e := range f.H {
		out = escape(out, e.K)
		out = append(out, ':')
		out = escape(out, e.V)
		out = append(out, '\n')
	}
	out = append(out, '\n')
	out = append(out, f.Body...)
	return append(out, 0)
}

// Commands of STOMP 1.0 to 1.2.
var Commands = []string{"CONNECT", "STOMP", "CONNECTED", "SEND", "SUBSCRIBE", "UNSUBSCRIBE", "ACK", "NACK",
	"BEGIN", "COMMIT", "ABORT", "DISCONNECT", "MESSAGE", "RECEIPT", "ERROR"}

func known(cmd string) bool {
	for _, c := range Commands {
		if c == cmd {
			return true
		}
	}
	return false
}

// Status of one parsing step.
type Status int

const (
	OK          Status = iota
	Incomplete         // needs more bytes
	Malformed          // violates the grammar
	Unspecified        // the grammar leaves it open (undefined escape, raw CR)
)

// Next parses one element at the front of b. n is its length.
func Next(b []byte) (f Frame, n int, st Status) {
	line, p, ok := takeLine(b, 0)
	if !ok {
		return f, 0, Incomplete
	}
	if len(line) == 0 {
		return Frame{}, p, OK
	}
	if !known(string(line)) {
		return f, 0, Malformed
	}
	f.Cmd = string(line)
	open := false
	for {
		line, p, ok = takeLine(b, p)
		if !ok {
			return f, 0, Incomplete
		}
		if len(line) == 0 {
			break
		}
		i := bytes.IndexByte(line, ':')
		if i <= 0 {
			return f, 0, Malformed
		}
		k, o1 := unescape(line[:i])
		v, o2 := unescape(line[i+1:])
		open = open || o1 || o2
		f.H = append(f.H, KV{Str(k), Str(v)})
	}
	if open {
		return f, 0, Unspecified
	}
	if cl, has := f.Lookup("content-length"); has {
		n, ok := Decimal32(cl)
		if !ok {
			return f, 0, Malformed
		}
		if uint64(len(b)-p) < n {
			return f, 0, Incomplete
		}
		f.Body = append([]byte{}, b[p:p+int(n)]...)
		p += int(n)
		if p >= len(b) {
			return f, 0, Incomplete
		}
		if b[p] != 0 {
			return f, 0, Malformed
		}
		return f, p + 1, OK
	}
	i := bytes.IndexByte(b[p:], 0)
	if i < 0 {
		return f, 0, Incomplete
	}
	f.Body = append([]byte{}, b[p:p+i]...)
	return f, p + i + 1, OK
}

func takeLine(b []byte, p int) ([]byte, int, bool) {
	i := bytes.IndexByte(b[p:], '\n')
	if i < 0 {
		return nil, p, false
	}
	line := b[p : p+i]
	if n := len(line); n > 0 && line[n-1] == '\r' {
		line = line[:n-1]
	}
	return line, p + i + 1, true
}

func unescape(s []byte) (string, bool) {
	var out []byte
	open := false
	for i := 0; i < len(s); i++ {
		if s[i] == '\r' {
			open = true
		}
		if s[i] != '\\' {
			out = append(out, s[i])
			continue
		}
		if i+1 >= len(s) {
			return string(out), true
		}
		i++
		switch s[i] {
		case '\\':
			out = append(out, '\\')
		case 'c':
			out = append(out, ':')
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		default:
			open = true
			out = append(out, '\\', s[i])
		}
	}
	return string(out), open
}

// Decimal32 parses an unsigned decimal number below 2^32 (digits only).
func Decimal32(s string) (uint64, bool) {
	if s == "" {
		return 0, false
	}
	var n uint64
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + uint64(s[i]-'0')
		if n >= 1<<32 {
			return 0, false
		}
	}
	return n, true
}

// ParseAll splits a complete stream; rest is what could not be parsed.
func ParseAll(b []byte) (fs []Frame, rest []byte, st Status) {
	for len(b) > 0 {
		f, n, st := Next(b)
		if st != OK {
			return fs, b, st
		}
		fs = append(fs, f)
		b = b[n:]
	}
	return fs, nil, OK
}

// Decoder parses incrementally.
type Decoder struct{ buf []byte }

// Feed appends bytes and returns the elements completed by them.
func (d *Decoder) Feed(b []byte) (fs []Frame, st Status) {
	d.buf = append(d.buf, b...)
	for len(d.buf) > 0 {
		f, n, st := Next(d.buf)
		if st == Incomplete {
			return fs, OK
		}
		if st != OK {
			return fs, st
		}
		fs = append(fs, f)
		d.buf = d.buf[n:]
	}
	return fs, OK
}

// Pending tells how many unparsed bytes are buffered.
func (d *Decoder) Pending() int { return len(d.buf) }
