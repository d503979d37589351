// Package props holds the executable properties.
package props

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	"verif.local/harness/core"
	"verif.local/harness/wire"
)

type (
	Str  = wire.Str
	Body = wire.Body
	KV   = wire.KV
)

// uni draws from [0,n) almost uniformly. (rapid's integer generators prefer small
// values strongly; its floats with equal exponents do not, but for the minimum.)
func uni(t *rapid.T, label string, n int) int {
	const base = 1 << 52
	return int(rapid.Float64Range(base, base+float64(n-1)).Draw(t, label) - base)
}

// pick draws an index according to integer weights.
func pick(t *rapid.T, label string, weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := uni(t, label, sum)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

func chance(t *rapid.T, label string, percent int) bool {
	// shrinks towards false
	return uni(t, label, 100) >= 100-percent
}

func rng(t *rapid.T, label string, lo, hi int) int { return rapid.IntRange(lo, hi).Draw(t, label) }

var specials = []string{"\n", "\r", ":", "\\", "\\n", "\\c", "\\r", "\\\\", "\r\n", "\n\n", "\x00", "\t", " ", "é", "\xff", "\xc3", ",", "=", ";", "a:b", "\\:", "\\t", "%", "\x01", "\"", "x"}

// strNasty draws byte strings rich in bytes that matter to the encoding.
func strNasty(t *rapid.T, label string, min int) Str {
	switch pick(t, label+"-kind", 4, 5, 2, 1) {
	case 0:
		return Str(rapid.StringMatching("[a-z][a-z0-9-]{0,8}").Draw(t, label))
	case 1:
		n := rng(t, label+"-n", min, 8)
		s := ""
		for i := 0; i < n; i++ {
			s += rapid.SampledFrom(specials).Draw(t, label)
		}
		return Str(s)
	case 2:
		return Str(rapid.SliceOfN(rapid.Byte(), min, 12).Draw(t, label))
	default:
		return Str(Body{N: sizeNear(t, label, 9000), Seed: 7}.Bytes()) + "e"
	}
}

// sizeNear draws sizes with emphasis on powers of two and buffer sizes.
func sizeNear(t *rapid.T, label string, max int) int {
	switch pick(t, label+"-size", 5, 3, 2) {
	case 0:
		return rng(t, label+"-n", 0, min(20, max))
	case 1:
		b := rapid.SampledFrom([]int{16, 64, 100, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072}).Draw(t, label+"-base")
		b += rng(t, label+"-off", -3, 3)
		if b > max {
			b = max
		}
		return b
	default:
		return rng(t, label+"-n", 0, max)
	}
}

// genBody draws a payload description.
func genBody(t *rapid.T, label string, max int) Body {
	switch pick(t, label+"-kind", 2, 4, 3, 2) {
	case 0:
		return Body{}
	case 1:
		return Body{Lit: Str(rapid.StringMatching("[ -~]{0,20}").Draw(t, label))}
	case 2:
		return Body{Lit: strNasty(t, label, 0)}
	default:
		return Body{N: sizeNear(t, label, max), Seed: uint32(rng(t, label+"-seed", 1, 1000))}
	}
}

func genChunks(t *rapid.T, label string) []int {
	switch pick(t, label+"-kind", 3, 2, 3) {
	case 0:
		return nil
	case 1:
		return []int{rapid.SampledFrom([]int{1, 2, 3, 7, 100, 4095, 4096, 4097}).Draw(t, label)}
	default:
		return rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 5, 8, 30, 200, 4096}), 1, 6).Draw(t, label)
	}
}

// genSched draws a schedule perturbation.
func genSched(t *rapid.T) core.Sched {
	k := pick(t, "sched", 2, 8)
	if k == 0 {
		return core.Sched{}
	}
	return core.Sched{
		Seed:  uint64(rapid.Uint32().Draw(t, "sched-seed")),
		OneIn: rapid.SampledFrom([]int{1, 2, 3, 5, 10, 30, 100}).Draw(t, "sched-onein"),
		MaxNs: rapid.SampledFrom([]int{1, 3, 10, 100, 1000, 20000}).Draw(t, "sched-max"),
	}
}

func itoa(n int) string { return strconv.Itoa(n) }

const maxMs = math.MaxInt64 / 1000000

// genDests returns nq different names of queues and nt of topics: sometimes
// names that only differ in what a careless implementation might disregard.
func genDests(t *rapid.T, nq, nt int) (ds []Str) {
	qs := []Str{"/queue/a", "/queue/b", "/queuec", "/queue", "/queue/a/b"}
	ts := []Str{"/topic/a", "/topic/b", "queue/a", "/QUEUE/a", "x:y\\z"}
	if chance(t, "alike", 45) {
		qs = rapid.Permutation([]Str{"/queue/a", "/queue/a/", "/queue/A", "/queue//a", "/queue/a/a", "/queue/a ", "/queue/aa", "/queue", "/queue/", "/queue/./a", "/queues/a", "/queue/a?b", "/queue/%61", "/queue/\u00e1", "/queue/0", "/queue/00", "/queue/a:b", "/queue/a\\b", "/queue/*", "/queue/>"}).Draw(t, "qs")
		ts = rapid.Permutation([]Str{"/topic/a", "/topic/a/", "/topic/A", "/Topic/a", "/topic//a", "topic/a", "/topic/a ", "/topic/aa", "/topic", "/QUEUE/a", "/Queue/a", " /queue/a", "//queue/a", "queue/a", "/topic/queue/a", "/topic/*", "/topic/>", "/topic/%61", "/", "/queu"}).Draw(t, "ts")
	}
	if chance(t, "long-names", 12) { // that only differ at the end
		pad := longPad(t)
		for i := range qs {
			qs[i] = "/queue/" + pad + Str(itoa(i))
		}
		for i := range ts {
			ts[i] = "/topic/" + pad + Str(itoa(i))
		}
	}
	return append(append(ds, qs[:nq]...), ts[:nt]...)
}

func longPad(t *rapid.T) Str {
	return Str(strings.Repeat("p", rapid.SampledFrom([]int{25, 60, 130, 260, 1030, 4100}).Draw(t, "long-pad")))
}
