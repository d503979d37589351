package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/wire"
)

// ---------------------------------------------------------------- shared

// chunkReader delivers data in the given pieces.
type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	endErr error // error at the end; io.EOF by default
	glue   bool  // last data comes together with the error
}

func (r *chunkReader) Read(p []byte) (int, error) {
	end := r.endErr
	if end == nil {
		end = io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.data) == 0 {
		return 0, end
	}
	n := len(p)
	if n > len(r.data) {
		n = len(r.data)
	}
	if len(r.chunks) > 0 {
		if m := r.chunks[r.i%len(r.chunks)]; m > 0 && n > m {
			n = m
		}
		r.i++
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.glue && len(r.data) == 0 {
		return n, end
	}
	return n, nil
}

// El is a frame or (Cmd == "") a heart-beat.
type El struct {
	Cmd  string `json:"cmd,omitempty"`
	H    []KV   `json:"h,omitempty"`
	Body Body   `json:"body"`
	CL   int    `json:"cl,omitempty"`    // 0: no content-length unless needed; n: inserted at position n-1
	NilH bool   `json:"nil_h,omitempty"` // nil header pointer
	Dup  bool   `json:"dup,omitempty"`   // a second, ignored content-length entry
}

func (e El) frame() wire.Frame {
	if e.Cmd == "" {
		return wire.Frame{}
	}
	f := wire.Frame{Cmd: e.Cmd, Body: e.Body.Bytes()}
	if e.NilH && !e.Body.HasNul() {
		return f
	}
	f.H = append(f.H, e.H...)
	if e.CL > 0 || e.Body.HasNul() {
		i := (e.CL - 1)
		if i < 0 || i > len(f.H) {
			i = len(f.H)
		}
		h := append([]KV{}, f.H[:i]...)
		h = append(h, KV{"content-length", Str(itoa(e.Body.Len()))})
		f.H = append(h, f.H[i:]...)
		if e.Dup {
			f.H = append(f.H, KV{"content-length", "bogus"})
		}
	}
	return f
}

func genHeaders(t *rapid.T, nasty bool) []KV {
	max := 6
	if chance(t, "many-headers", 3) {
		max = 300
	}
	n := rng(t, "nh", 0, max)
	var h []KV
	for i := 0; i < n; i++ {
		var k, v Str
		if max > 6 {
			k, v = Str("k"+itoa(i)), Str("value "+itoa(i))
		} else {
			if nasty && chance(t, "nasty-key", 40) {
				k = strNasty(t, "key", 1)
			} else {
				k = Str(rapid.SampledFrom([]string{"destination", "id", "a", "b", "receipt", "Content-Length", "content-type", "foo-bar", "message-id"}).Draw(t, "key"))
			}
			if k == "" || k == "content-length" {
				k = "k"
			}
			if nasty {
				v = strNasty(t, "val", 0)
			} else {
				v = Str(rapid.StringMatching("[a-z/:0-9]{0,10}").Draw(t, "val"))
			}
		}
		h = append(h, KV{k, v})
	}
	return h
}

func genEl(t *rapid.T) El {
	if chance(t, "hb", 20) {
		return El{}
	}
	e := El{Cmd: rapid.SampledFrom(wire.Commands).Draw(t, "cmd"), H: genHeaders(t, true), Body: genBody(t, "body", 140000)}
	e.CL = rng(t, "cl", 0, len(e.H)+1)
	e.NilH = chance(t, "nilh", 3)
	e.Dup = chance(t, "dup", 5)
	return e
}

func toReal(f wire.Frame, nilH bool) *frame.Frame {
	if f.Cmd == "" {
		return nil
	}
	r := &frame.Frame{Command: f.Cmd, Body: f.Body}
	if nilH && len(f.H) == 0 {
		return r
	}
	r.Header = &frame.Header{}
	for _, e := range f.H {
		r.Header.Add(string(e.K), string(e.V))
	}
	return r
}

func fromReal(f *frame.Frame) wire.Frame {
	if f == nil {
		return wire.Frame{}
	}
	w := wire.Frame{Cmd: f.Command, Body: f.Body}
	if f.Header != nil {
		for i := 0; i < f.Header.Len(); i++ {
			k, v := f.Header.GetAt(i)
			w.H = append(w.H, KV{Str(k), Str(v)})
		}
	}
	return w
}

func genBuf(t *rapid.T, label string) int {
	return rapid.SampledFrom([]int{0, 0, 1, 16, 17, 64, 100, 4096, 65536}).Draw(t, label)
}

func newReader(r io.Reader, size int) *frame.Reader {
	if size == 0 {
		return frame.NewReader(r)
	}
	return frame.NewReaderSize(r, size)
}

func newWriter(w io.Writer, size int) *frame.Writer {
	if size == 0 {
		return frame.NewWriter(w)
	}
	return frame.NewWriterSize(w, size)
}

// ---------------------------------------------------------------- F01

type planF01 struct {
	Els    []El  `json:"els"`
	WBuf   int   `json:"wbuf"`
	RBuf   int   `json:"rbuf"`
	Chunks []int `json:"chunks"`
	Glue   bool  `json:"glue"`
}

func init() {
	core.Register("F01", core.Check[planF01]{
		Name: "roundtrip", Pure: true, Cases: [2]int{250000, 8000000},
		Rule: "at least two frames, one of them with a header byte that needs escaping, a NUL in the body, or a size above one read chunk or buffer",
		Gen: func(t *rapid.T) planF01 {
			return planF01{
				Els:  rapid.SliceOfN(rapid.Custom(genEl), 1, 5).Draw(t, "els"),
				WBuf: genBuf(t, "wbuf"), RBuf: genBuf(t, "rbuf"), Chunks: genChunks(t, "chunks"), Glue: rapid.Bool().Draw(t, "glue"),
			}
		},
		Exec: func(x *core.Ctx, p planF01) core.Result {
			var res core.Result
			var buf bytes.Buffer
			w := newWriter(&buf, p.WBuf)
			var want []wire.Frame
			frames, hard := 0, false
			for i, e := range p.Els {
				f := e.frame()
				want = append(want, f)
				if f.Cmd != "" {
					frames++
				}
				for _, h := range f.H {
					if strings.ContainsAny(string(h.K)+string(h.V), "\r\n:\\") {
						hard = true
						res.Labels = append(res.Labels, "escaped-header")
						break
					}
				}
				if e.Body.HasNul() {
					hard = true
					res.Labels = append(res.Labels, "nul-body")
				}
				if len(f.Body) > 4096 {
					hard = true
					res.Labels = append(res.Labels, "big-body")
				}
				if err := w.Write(toReal(f, e.NilH)); err != nil {
					return core.Result{Fail: fmt.Sprintf("element %d: write to a buffer failed: %v", i, err)}
				}
			}
			r := newReader(&chunkReader{data: buf.Bytes(), chunks: p.Chunks, glue: p.Glue}, p.RBuf)
			var got []*frame.Frame
			for i := range want {
				f, err := r.Read()
				if err != nil {
					return core.Result{Fail: fmt.Sprintf("element %d (%v): read failed: %v", i, want[i], err)}
				}
				got = append(got, f)
			}
			if f, err := r.Read(); f != nil || err == nil {
				return core.Result{Fail: fmt.Sprintf("after the last element: got frame %v, error %v; want end of stream", fromReal(f), err)}
			}
			for i := range want { // compared at the end: later reads must not disturb earlier frames
				if g := fromReal(got[i]); (got[i] == nil) != (want[i].Cmd == "") || !wire.Equal(g, want[i]) {
					return core.Result{Fail: fmt.Sprintf("element %d: wrote %v, read %v", i, want[i], g)}
				}
			}
			if frames != len(want) {
				res.Labels = append(res.Labels, "heart-beat")
			}
			res.NonTrivial = frames >= 2 && hard
			return res
		},
	})
}

// ---------------------------------------------------------------- F02

type planF02 struct {
	Data   Str   `json:"data"`
	Chunks []int `json:"chunks"`
	RBuf   int   `json:"rbuf"`
	Glue   bool  `json:"glue"`
	EndErr bool  `json:"end_err"`
}

var f02Tokens = []string{"\n", "\n", "\r\n", "\r", "\x00", "\x00", ":", "\\", "\\n", "\\r", "\\c", "\\\\", "\\t", "SEND", "MESSAGE", "CONNECT", "CONNECTED", "ACK",
	"STOMP", "ERROR", "RECEIPT", "SENDX", "send", " SEND", "content-length:", "content-length:3", "content-length:0", "content-length:-1", "content-length:+2",
	"content-length: 2", "content-length:2 ", "content-length:1\n", "content-length:4294967296", "content-length:99999999999999999999", "content-length:0x3",
	"content-length:1_0", "content-length:007", "Content-Length:9", "destination:", "a:b", "a:b:c", ":v", "novalue", "abc", "\n\n", "\n\x00", "\n\nabc\x00", "\xff", "content-length:12\ncontent-length:x"}

func genStream(t *rapid.T) Str {
	var b []byte
	n := rng(t, "parts", 1, 5)
	for i := 0; i < n; i++ {
		switch pick(t, "part", 6, 2, 3) {
		case 0: // a valid frame in one of its many spellings
			e := genEl(t)
			if e.Body.N > 6000 {
				e.Body.N = 6000
			}
			f := e.frame()
			if f.Cmd == "" {
				b = append(b, rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "hb")...)
				continue
			}
			eol := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "eol")
			raw := rapid.Bool().Draw(t, "rawcolon")
			b = append(append(b, f.Cmd...), eol...)
			for _, h := range f.H {
				v := strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r", ":", "\\c")
				v2 := strings.NewReplacer("\\", "\\\\", "\n", "\\n", "\r", "\\r")
				b = append(b, v.Replace(string(h.K))...)
				b = append(b, ':')
				if raw {
					b = append(b, v2.Replace(string(h.V))...)
				} else {
					b = append(b, v.Replace(string(h.V))...)
				}
				b = append(b, eol...)
			}
			b = append(b, eol...)
			b = append(b, f.Body...)
			b = append(b, 0)
		case 1:
			b = append(b, rapid.SampledFrom([]string{"\n", "\r\n", "\n\n"}).Draw(t, "hb")...)
		default: // token soup, usually opened by a command
			if chance(t, "soup-cmd", 70) {
				b = append(b, "SEND\n"...)
			}
			k := rng(t, "soup", 1, 8)
			for j := 0; j < k; j++ {
				b = append(b, rapid.SampledFrom(f02Tokens).Draw(t, "tok")...)
				if chance(t, "nl", 35) {
					b = append(b, '\n')
				}
			}
		}
	}
	m := pick(t, "mutations", 5, 3, 1, 1)
	for i := 0; i < m && len(b) > 0; i++ {
		p := rng(t, "pos", 0, len(b)-1)
		switch pick(t, "mut", 3, 2, 2, 2) {
		case 0:
			b = b[:p]
		case 1:
			b[p] = rapid.Byte().Draw(t, "byte")
		case 2:
			tok := rapid.SampledFrom(f02Tokens).Draw(t, "ins")
			b = append(b[:p:p], append([]byte(tok), b[p:]...)...)
		case 3:
			q := p + rng(t, "del", 1, 4)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		}
	}
	return Str(b)
}

type readStep struct {
	f   *frame.Frame
	err error
}

func readAll(data []byte, chunks []int, rbuf int, glue bool, end error, max int) []readStep {
	r := newReader(&chunkReader{data: data, chunks: chunks, glue: glue, endErr: end}, rbuf)
	var steps []readStep
	for i := 0; i < max; i++ {
		f, err := r.Read()
		steps = append(steps, readStep{f, err})
		if err != nil {
			break
		}
	}
	return steps
}

func init() {
	core.Register("F02", core.Check[planF02]{
		Name: "grammar", Pure: true, Cases: [2]int{350000, 10000000},
		Rule: "the reference parser finds at least one complete frame, or a malformed or truncated element after at least one header line",
		Gen: func(t *rapid.T) planF02 {
			return planF02{Data: genStream(t), Chunks: genChunks(t, "chunks"), RBuf: genBuf(t, "rbuf"),
				Glue: rapid.Bool().Draw(t, "glue"), EndErr: chance(t, "enderr", 15)}
		},
		Exec: execF02,
	})
}

var errUnder = errors.New("underlying stream failed")

func execF02(x *core.Ctx, p planF02) core.Result {
	var res core.Result
	data := []byte(p.Data)
	// the reference reading
	var want []wire.Frame
	b := data
	st := wire.OK
	for len(b) > 0 {
		f, n, s := wire.Next(b)
		if s != wire.OK {
			st = s
			if cl, ok := wire.Decimal32(f.Get("content-length")); ok && cl > 1<<22 {
				// the reader allocates what the header announces; keep the harness small
				return core.Result{Labels: []string{"skipped: announces more than 4 MiB"}}
			}
			if len(f.H) > 0 {
				res.NonTrivial = true
			}
			break
		}
		if f.Cmd != "" {
			res.NonTrivial = true
			res.Labels = append(res.Labels, "frame")
		}
		want = append(want, f)
		b = b[n:]
	}
	res.Labels = append(res.Labels, []string{"ends clean", "truncated", "malformed", "unspecified"}[st])
	var end error
	if p.EndErr {
		end = errUnder
	}
	got := readAll(data, p.Chunks, p.RBuf, p.Glue, end, len(want)+3)
	ref := readAll(data, nil, 0, false, end, len(want)+3)
	// independence from splitting and buffer size
	for i := 0; i < len(got) || i < len(ref); i++ {
		if i >= len(got) || i >= len(ref) || (got[i].err == nil) != (ref[i].err == nil) || (got[i].f == nil) != (ref[i].f == nil) ||
			!wire.Equal(fromReal(got[i].f), fromReal(ref[i].f)) {
			return core.Result{Fail: fmt.Sprintf("result %d depends on how the stream is split or buffered (chunks %v, buffer %d)", i, p.Chunks, p.RBuf)}
		}
	}
	for i, s := range got {
		if s.err != nil && s.f != nil {
			return core.Result{Fail: fmt.Sprintf("result %d: error %v together with frame %v", i, s.err, fromReal(s.f))}
		}
		if i < len(want) {
			if s.err != nil {
				return core.Result{Fail: fmt.Sprintf("element %d (%v) was rejected: %v", i, want[i], s.err)}
			}
			if (s.f == nil) != (want[i].Cmd == "") || !wire.Equal(fromReal(s.f), want[i]) {
				return core.Result{Fail: fmt.Sprintf("element %d: want %v, got %v", i, want[i], fromReal(s.f))}
			}
			continue
		}
		if st == wire.Unspecified {
			return res
		}
		if s.err == nil {
			return core.Result{Fail: fmt.Sprintf("after %d elements the stream is %s, but the reader returned %v", len(want),
				[]string{"at its end", "truncated", "malformed"}[st], fromReal(s.f))}
		}
		return res
	}
	if len(got) < len(want)+1 {
		return core.Result{Fail: fmt.Sprintf("only %d of %d elements were read", len(got), len(want))}
	}
	return res
}

// ---------------------------------------------------------------- F03

type planF03 struct {
	Els    []El `json:"els"`
	WBuf   int  `json:"wbuf"`
	FailAt int  `json:"fail_at"` // -1: never; otherwise permille of the total stream, mapped to a byte offset
	Mode   int  `json:"mode"`    // 0: partial write with error, 1: nothing of the write with error
}

type faultyWriter struct {
	out    []byte
	failAt int // -1: never
	mode   int
	failed bool
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.failed {
		return 0, errUnder
	}
	if w.failAt >= 0 && len(w.out)+len(p) > w.failAt {
		w.failed = true
		n := w.failAt - len(w.out)
		switch w.mode {
		case 0:
			w.out = append(w.out, p[:n]...)
			return n, errUnder
		default:
			return 0, errUnder
		}
	}
	w.out = append(w.out, p...)
	return len(p), nil
}

func init() {
	core.Register("F03", core.Check[planF03]{
		Name: "writer", Pure: true, Cases: [2]int{250000, 8000000},
		Rule: "a write failure was injected inside the stream, or a header needed escaping, or a frame exceeded the buffer",
		Gen: func(t *rapid.T) planF03 {
			p := planF03{Els: rapid.SliceOfN(rapid.Custom(genEl), 1, 4).Draw(t, "els"), WBuf: genBuf(t, "wbuf"), FailAt: -1}
			if chance(t, "fail", 60) {
				p.FailAt = rng(t, "failat", 0, 1000)
				p.Mode = rng(t, "mode", 0, 1)
			}
			return p
		},
		Exec: func(x *core.Ctx, p planF03) core.Result {
			var res core.Result
			total := 0
			var encs [][]byte
			for _, e := range p.Els {
				f := e.frame()
				enc := wire.Encode(f)
				total += len(enc)
				encs = append(encs, enc)
				for _, h := range f.H {
					if strings.ContainsAny(string(h.K)+string(h.V), "\r\n:\\") {
						res.NonTrivial = true
						res.Labels = append(res.Labels, "escaped-header")
						break
					}
				}
				if len(enc) > 4096 {
					res.NonTrivial = true
					res.Labels = append(res.Labels, "over-buffer")
				}
			}
			u := &faultyWriter{failAt: -1, mode: p.Mode}
			if p.FailAt >= 0 {
				u.failAt = total * p.FailAt / 1001
				res.NonTrivial = true
				res.Labels = append(res.Labels, "write-failure mode "+itoa(p.Mode))
			}
			w := newWriter(u, p.WBuf)
			var want []byte
			for i, e := range p.Els {
				f := e.frame()
				real := toReal(f, e.NilH)
				before := fromReal(real)
				before.Body = append([]byte(nil), before.Body...)
				want = append(want, encs[i]...)
				err := w.Write(real)
				if !wire.Equal(before, fromReal(real)) {
					return core.Result{Fail: fmt.Sprintf("element %d: writing changed the frame itself", i)}
				}
				if err == nil {
					if !bytes.Equal(u.out, want) {
						return core.Result{Fail: fmt.Sprintf("element %d (%v): write succeeded, but the stream holds %d bytes that differ from the %d correct ones (first difference at %d)",
							i, f, len(u.out), len(want), diffAt(u.out, want))}
					}
					continue
				}
				if u.failAt < 0 || !u.failed {
					return core.Result{Fail: fmt.Sprintf("element %d: error %v although the stream accepted everything", i, err)}
				}
				if !bytes.HasPrefix(want, u.out) {
					return core.Result{Fail: fmt.Sprintf("element %d: after a failed write the stream is not a prefix of the correct bytes (first difference at %d)", i, diffAt(u.out, want))}
				}
				return res
			}
			if u.failed {
				return core.Result{Fail: "the stream failed but every write reported success"}
			}
			return res
		},
	})
}

func diffAt(a, b []byte) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return i
		}
	}
	return min(len(a), len(b))
}

// ---------------------------------------------------------------- F04

type opF04 struct {
	Op  string `json:"op"` // new add addall set del clone fclone body
	H   int    `json:"h"`
	G   int    `json:"g,omitempty"` // addall source, -1 = nil
	K   Str    `json:"k,omitempty"`
	V   Str    `json:"v,omitempty"`
	Ent []Str  `json:"ent,omitempty"`
}

type planF04 struct {
	Ops []opF04 `json:"ops"`
}

func init() {
	keys := []string{"a", "b", "c", "A", "", "aa", "content-length"}
	genKey := func(t *rapid.T) Str {
		if chance(t, "oddkey", 10) {
			return strNasty(t, "key", 0)
		}
		return Str(rapid.SampledFrom(keys).Draw(t, "key"))
	}
	genOp := func(t *rapid.T) opF04 {
		o := opF04{H: rng(t, "h", 0, 3)}
		switch pick(t, "op", 4, 2, 3, 3, 2, 2, 1, 1) {
		case 0:
			o.Op, o.K, o.V = "add", genKey(t), Str(rapid.StringMatching("[a-d]{0,3}").Draw(t, "v"))
		case 1:
			o.Op, o.G = "addall", rng(t, "g", -1, 3)
		case 2:
			o.Op, o.K, o.V = "set", genKey(t), Str(rapid.StringMatching("[a-d]{0,3}").Draw(t, "v"))
		case 3:
			o.Op, o.K = "del", genKey(t)
		case 4:
			o.Op = "clone"
		case 5:
			o.Op = "fclone"
		case 6:
			o.Op = "new"
			n := rng(t, "n", 0, 7)
			for i := 0; i < n; i++ {
				o.Ent = append(o.Ent, genKey(t))
			}
		case 7:
			o.Op, o.G = "body", rng(t, "pos", 0, 9)
		}
		return o
	}
	type mframe struct {
		h    []KV
		body []byte
	}
	core.Register("F04", core.Check[planF04]{
		Name: "model", Pure: true, Cases: [2]int{250000, 8000000},
		Rule: "a delete or set hit a key with several entries, or a clone was followed by a change of either copy",
		Gen: func(t *rapid.T) planF04 {
			return planF04{Ops: rapid.SliceOfN(rapid.Custom(genOp), 1, 40).Draw(t, "ops")}
		},
		Exec: func(x *core.Ctx, p planF04) core.Result {
			var res core.Result
			real := []*frame.Frame{frame.New("SEND", "a", "1", "b", "2", "a", "3")}
			model := []*mframe{{h: []KV{{"a", "1"}, {"b", "2"}, {"a", "3"}}}}
			cloned := false
			check := func(i int, op string) string {
				m, r := model[i], real[i]
				if r.Header.Len() != len(m.h) {
					return fmt.Sprintf("after %s: header %d has %d entries, want %d", op, i, r.Header.Len(), len(m.h))
				}
				ks := map[Str]bool{"zz": true, "a": true, "b": true, "": true}
				for j, e := range m.h {
					k, v := r.Header.GetAt(j)
					if k != string(e.K) || v != string(e.V) {
						return fmt.Sprintf("after %s: header %d entry %d is %q:%q, want %q:%q", op, i, j, k, v, e.K, e.V)
					}
					ks[e.K] = true
				}
				for k := range ks {
					all := wire.Frame{H: m.h}.All(string(k))
					w := wire.Frame{H: m.h}.Get(string(k))
					v, ok := r.Header.Contains(string(k))
					if v != w || ok != (len(all) > 0) {
						return fmt.Sprintf("after %s: header %d Contains(%q) = %q,%v, want %q,%v", op, i, k, v, ok, w, len(all) > 0)
					}
					if g := r.Header.Get(string(k)); g != w {
						return fmt.Sprintf("after %s: header %d Get(%q) = %q, want %q", op, i, k, g, w)
					}
					if g := r.Header.GetAll(string(k)); strings.Join(g, "\x00") != strings.Join(all, "\x00") || len(g) != len(all) {
						return fmt.Sprintf("after %s: header %d GetAll(%q) = %q, want %q", op, i, k, g, all)
					}
				}
				if !bytes.Equal(r.Body, m.body) {
					return fmt.Sprintf("after %s: body of frame %d is %q, want %q", op, i, r.Body, m.body)
				}
				return ""
			}
			for n, o := range p.Ops {
				i := o.H % len(real)
				r, m := real[i], model[i]
				hits := len(wire.Frame{H: m.h}.All(string(o.K)))
				if hits > 1 && (o.Op == "set" || o.Op == "del") || cloned && o.Op != "clone" && o.Op != "fclone" && len(real) > 1 {
					res.NonTrivial = true
				}
				res.Labels = append(res.Labels, o.Op)
				switch o.Op {
				case "new":
					var ss []string
					mm := &mframe{}
					for j := 0; j < len(o.Ent); j += 2 {
						v := Str("")
						if j+1 < len(o.Ent) {
							v = o.Ent[j+1]
						}
						mm.h = append(mm.h, KV{o.Ent[j], v})
					}
					for _, s := range o.Ent {
						ss = append(ss, string(s))
					}
					h := frame.NewHeader(ss...)
					for j := range ss {
						ss[j] = "clobbered" // the header must not share the caller's slice
					}
					real[i] = &frame.Frame{Command: "SEND", Header: h}
					model[i] = mm
				case "add":
					r.Header.Add(string(o.K), string(o.V))
					m.h = append(m.h, KV{o.K, o.V})
				case "addall":
					if len(m.h) > 4000 {
						continue
					}
					if o.G < 0 {
						r.Header.AddHeader(nil)
					} else {
						g := o.G % len(real)
						r.Header.AddHeader(real[g].Header)
						m.h = append(m.h, append([]KV{}, model[g].h...)...)
					}
				case "set":
					r.Header.Set(string(o.K), string(o.V))
					done := false
					for j := range m.h {
						if m.h[j].K == o.K {
							m.h[j].V = o.V
							done = true
							break
						}
					}
					if !done {
						m.h = append(m.h, KV{o.K, o.V})
					}
				case "del":
					r.Header.Del(string(o.K))
					var h []KV
					for _, e := range m.h {
						if e.K != o.K {
							h = append(h, e)
						}
					}
					m.h = h
				case "clone":
					if len(real) < 5 {
						real = append(real, &frame.Frame{Command: "SEND", Header: r.Header.Clone()})
						model = append(model, &mframe{h: append([]KV{}, m.h...)})
						cloned = true
					}
				case "fclone":
					if len(real) < 5 {
						c := r.Clone()
						if c.Command != r.Command {
							return core.Result{Fail: "clone has another command: " + c.Command}
						}
						real = append(real, c)
						model = append(model, &mframe{h: append([]KV{}, m.h...), body: append([]byte{}, m.body...)})
						cloned = true
					}
				case "body":
					if len(m.body) == 0 {
						r.Body = []byte("0123456789")
						m.body = []byte("0123456789")
					} else {
						r.Body[o.G%len(r.Body)]++
						m.body[o.G%len(m.body)]++
					}
				}
				for j := range real {
					if s := check(j, fmt.Sprintf("op %d %s(%d,%q)", n, o.Op, i, o.K)); s != "" {
						return core.Result{Fail: s}
					}
				}
			}
			return res
		},
	})
}

// ---------------------------------------------------------------- F05

type planF05 struct {
	S  Str   `json:"s"`
	CL []Str `json:"cl"` // content-length entries
}

func genNum(t *rapid.T) Str {
	switch pick(t, "num", 4, 3, 3, 2, 3, 2) {
	case 0:
		return Str(itoa(rng(t, "n", 0, 100000)))
	case 1:
		base := rapid.SampledFrom([]string{"4294967296", "9223372036854", "9223372036855", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551616", "1844674407370955161600"}).Draw(t, "edge")
		b, _ := new(big.Int).SetString(base, 10)
		b.Add(b, big.NewInt(int64(rng(t, "d", -2, 2))))
		return Str(b.String())
	case 2:
		return Str(strings.Repeat("0", rng(t, "zeros", 1, 30))) + Str(itoa(rng(t, "n", 0, 99)))
	case 3:
		return Str(rapid.StringMatching("[0-9]{1,25}").Draw(t, "digits"))
	case 4:
		return Str(rapid.SampledFrom([]string{"", "+1", "-1", " 1", "1 ", "0x10", "1e3", "1_0", "1.0", "١", "\n1", "1\n", "0b1", "0o7", "１", "1\x00", "NaN", "1,1", "٣"}).Draw(t, "odd"))
	default:
		return strNasty(t, "s", 0)
	}
}

func digits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return s != ""
}

func init() {
	core.Register("F05", core.Check[planF05]{
		Name: "numbers", Pure: true, Cases: [2]int{800000, 24000000},
		Rule: "the heart-beat value has a comma or the content-length value contains a digit",
		Gen: func(t *rapid.T) planF05 {
			var p planF05
			switch pick(t, "shape", 6, 1, 1, 1) {
			case 0:
				p.S = genNum(t) + "," + genNum(t)
			case 1:
				p.S = genNum(t)
			case 2:
				p.S = genNum(t) + Str(rapid.SampledFrom([]string{", ", " ,", ",,", ";", "\n,", ",\n", "\r,"}).Draw(t, "sep")) + genNum(t)
			default:
				p.S = genNum(t) + "," + genNum(t) + Str(rapid.SampledFrom([]string{"\n", " ", ",", ",1", "\x00", "\r\n", "x"}).Draw(t, "tail"))
			}
			n := pick(t, "ncl", 2, 6, 2)
			for i := 0; i < n; i++ {
				p.CL = append(p.CL, genNum(t))
			}
			return p
		},
		Exec: func(x *core.Ctx, p planF05) core.Result {
			var res core.Result
			// heart-beat
			var w1, w2 time.Duration
			valid := false
			if a := strings.Split(string(p.S), ","); len(a) == 2 && digits(a[0]) && digits(a[1]) {
				res.NonTrivial = true
				n1, _ := new(big.Int).SetString(a[0], 10)
				n2, _ := new(big.Int).SetString(a[1], 10)
				lim := big.NewInt(maxMs)
				if n1.Cmp(lim) <= 0 && n2.Cmp(lim) <= 0 {
					valid = true
					w1, w2 = time.Duration(n1.Int64())*time.Millisecond, time.Duration(n2.Int64())*time.Millisecond
				}
			}
			g1, g2, err := frame.ParseHeartBeat(string(p.S))
			if valid {
				res.Labels = append(res.Labels, "heart-beat valid")
				if err != nil || g1 != w1 || g2 != w2 {
					return core.Result{Fail: fmt.Sprintf("ParseHeartBeat(%q) = %v, %v, %v; want %v, %v", p.S, g1, g2, err, w1, w2)}
				}
			} else {
				res.Labels = append(res.Labels, "heart-beat invalid")
				if !errors.Is(err, frame.ErrInvalidHeartBeat) {
					return core.Result{Fail: fmt.Sprintf("ParseHeartBeat(%q) = %v, %v, %v; want the heart-beat error", p.S, g1, g2, err)}
				}
			}
			// content-length
			h := frame.NewHeader("content-lengthx", "7", "Content-Length", "8")
			for _, s := range p.CL {
				h.Add("content-length", string(s))
				if strings.ContainsAny(string(s), "0123456789") {
					res.NonTrivial = true
				}
			}
			n, ok, err := h.ContentLength()
			switch {
			case len(p.CL) == 0:
				res.Labels = append(res.Labels, "content-length absent")
				if ok || err != nil {
					return core.Result{Fail: fmt.Sprintf("ContentLength without the header = %v, %v, %v", n, ok, err)}
				}
			default:
				if v, good := wire.Decimal32(string(p.CL[0])); good {
					res.Labels = append(res.Labels, "content-length valid")
					if err != nil || !ok || uint64(n) != v {
						return core.Result{Fail: fmt.Sprintf("content-length %q = %v, %v, %v; want %v", p.CL[0], n, ok, err, v)}
					}
				} else {
					res.Labels = append(res.Labels, "content-length invalid")
					if err == nil {
						return core.Result{Fail: fmt.Sprintf("content-length %q = %v, %v, nil; want an error", p.CL[0], n, ok)}
					}
				}
			}
			return res
		},
	})
}
