package props

import (
	"fmt"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server/queue"
	"pgregory.net/rapid"

	"verif.local/harness/core"
)

func (w *sWorld) result(fail, label string, rich bool, labels ...string) Result {
	if label != "" {
		labels = append(labels, label)
	}
	return Result{Fail: fail, NonTrivial: rich && label == "", Labels: labels}
}

func stepCheck(g sGen, hook func(*sWorld), rich func(*sWorld) bool, labels func(*sWorld) []string, cats ...string) (func(t *rapid.T) SPlan, func(x *core.Ctx, p SPlan) Result) {
	return func(t *rapid.T) SPlan { return genSPlan(t, g) },
		func(x *core.Ctx, p SPlan) Result {
			w := runServer(x, p, hook)
			fail, label := w.verdict(cats...)
			return w.result(fail, label, rich(w), append(labels(w), fmt.Sprintf("clients:%d", len(p.Vers)))...)
		}
}

func regStep(id, name string, g sGen, cases [2]int, rule string, hook func(*sWorld), rich func(*sWorld) bool, labels func(*sWorld) []string, cats ...string) {
	gen, exec := stepCheck(g, hook, rich, labels, cats...)
	core.Register(id, core.Check[SPlan]{Name: name, Gen: gen, Exec: exec, Cases: cases, Rule: rule})
}

func init() {
	nodes := func(w *sWorld) []string { return []string{sizeLabel("deliveries", w.deliveries)} }
	softEnds := map[string]int{"": 92, "close": 3, "reset": 2, "half": 2, "trunc": 1}

	regStep("S02", "steps", sGen{
		clients: [2]int{1, 4}, steps: [2]int{4, 30}, queues: [2]int{1, 3}, topics: [2]int{0, 0},
		acks: []int{0, 0, 0, 3, 1, 2},
		ops:  map[string]int{"send": 60, "sub": 25, "unsub": 8, "begin": 2, "commit": 2, "beat": 1}, tx: 10,
		ends: softEnds, receipts: 15, burst: 50, big: 2, pre: 50, restart: 1,
	}, [2]int{14000, 300000}, "at least three queue messages were delivered", nil,
		func(w *sWorld) bool { return w.deliveries >= 3 }, nodes,
		"content", "order", "dup", "lost", "scope")

	regStep("S03", "steps", sGen{
		clients: [2]int{1, 4}, steps: [2]int{6, 40}, queues: [2]int{1, 2}, topics: [2]int{0, 1},
		acks: []int{1, 1, 2, 2, 0},
		ops:  map[string]int{"send": 40, "sub": 20, "unsub": 6, "ack": 30, "nack": 14}, bogus: 8, pre: 80, restart: 1,
		ends: map[string]int{"": 90, "close": 4, "reset": 2, "half": 2, "trunc": 1, "garbage": 1}, receipts: 10, burst: 40,
	}, [2]int{14000, 300000}, "at least three deliveries, one of them a redelivery", nil,
		func(w *sWorld) bool { return w.deliveries >= 3 && w.redeliv > 0 },
		func(w *sWorld) []string { return []string{sizeLabel("redelivered", w.redeliv)} },
		"content", "order", "dup", "lost", "scope", "ack")

	regStep("S04", "steps", sGen{
		clients: [2]int{1, 5}, steps: [2]int{6, 36}, queues: [2]int{0, 1}, topics: [2]int{1, 3},
		acks: []int{0, 0, 3, 1, 2},
		ops:  map[string]int{"send": 50, "sub": 35, "unsub": 12, "beat": 2},
		ends: softEnds, receipts: 10, burst: 50, big: 2, pre: 50,
	}, [2]int{14000, 300000}, "at least three topic messages were delivered", nil,
		func(w *sWorld) bool { return w.topicN >= 3 },
		func(w *sWorld) []string { return []string{sizeLabel("topic", w.topicN)} },
		"content", "topic", "scope")

	regStep("S05", "steps", sGen{
		clients: [2]int{1, 4}, steps: [2]int{6, 36}, queues: [2]int{1, 2}, topics: [2]int{0, 1},
		acks: []int{0, 0, 1, 2},
		ops:  map[string]int{"send": 40, "sub": 14, "unsub": 2, "begin": 30, "commit": 22, "abort": 6, "ack": 10, "nack": 5, "bad": 2, "disc": 1}, tx: 85, bogus: 5, pre: 80,
		bads: []int{10, 11, 12, 13, 14, 15, 16, 17, 24},
		ends: map[string]int{"": 93, "close": 2, "reset": 1, "half": 2, "trunc": 1, "garbage": 1}, receipts: 15, burst: 60,
	}, [2]int{14000, 300000}, "a transaction with content was committed and something was delivered", nil,
		func(w *sWorld) bool { return w.commits > 0 && w.deliveries > 0 },
		func(w *sWorld) []string { return []string{sizeLabel("commits", w.commits)} },
		"content", "order", "dup", "lost", "scope", "topic", "error", "close", "ack")

	regStep("S06", "steps", sGen{
		clients: [2]int{1, 4}, steps: [2]int{4, 30}, queues: [2]int{1, 2}, topics: [2]int{1, 2},
		acks: []int{0, 1, 2, 3},
		ops:  map[string]int{"send": 25, "sub": 20, "unsub": 10, "begin": 10, "commit": 8, "abort": 4, "ack": 10, "nack": 6, "bad": 16, "disc": 3, "beat": 2}, tx: 40, bogus: 20,
		ends: map[string]int{"": 96, "close": 1, "half": 1, "trunc": 1, "garbage": 1}, receipts: 60, burst: 60,
	}, [2]int{14000, 300000}, "a receipt arrived and a frame was rejected", nil,
		func(w *sWorld) bool { return w.receipts > 0 && w.errs > 0 },
		func(w *sWorld) []string {
			return []string{sizeLabel("receipts", w.receipts), sizeLabel("rejected", w.errs)}
		},
		"receipt", "error", "close")

	regStep("S10", "steps", sGen{
		clients: [2]int{1, 4}, steps: [2]int{6, 36}, queues: [2]int{1, 3}, topics: [2]int{0, 1},
		acks: []int{0, 0, 1, 2},
		ops:  map[string]int{"send": 50, "sub": 16, "unsub": 8, "ack": 12, "nack": 10, "begin": 4, "commit": 4, "disc": 2}, tx: 15, pre: 50, restart: 4,
		ends: softEnds, receipts: 5, burst: 40,
	}, [2]int{14000, 300000}, "the storage was used and something was delivered", func(w *sWorld) { w.storage() },
		func(w *sWorld) bool { return w.deliveries > 0 && w.st != nil && w.st.calls > 2 },
		func(w *sWorld) []string {
			return []string{fmt.Sprintf("default-storage:%v", w.st == nil), sizeLabel("restarts", w.restarts)}
		},
		"storage", "dup", "lost", "order")

	regStep("S11", "steps", sGen{
		clients: [2]int{2, 4}, steps: [2]int{6, 30}, queues: [2]int{1, 2}, topics: [2]int{1, 2},
		acks: []int{0, 1, 2, 3},
		ops:  map[string]int{"send": 40, "sub": 25, "unsub": 3, "begin": 5, "commit": 3, "ack": 6, "nack": 2, "disc": 14}, tx: 30, pre: 70,
		ends: map[string]int{"": 97, "half": 2, "trunc": 1}, receipts: 40, burst: 65,
	}, [2]int{14000, 300000}, "a client with something delivered disconnected", nil,
		func(w *sWorld) bool { return w.ends > 0 && w.deliveries > 1 },
		func(w *sWorld) []string { return []string{sizeLabel("ended", w.ends)} },
		"afterdisc", "close", "lost", "dup", "topic", "scope", "order", "receipt")

	regStep("S12", "steps", sGen{
		clients: [2]int{1, 3}, steps: [2]int{6, 36}, queues: [2]int{1, 3}, topics: [2]int{0, 2},
		acks: []int{0, 0, 1, 2},
		ops:  map[string]int{"send": 40, "sub": 35, "unsub": 30, "ack": 6, "nack": 3, "bad": 1},
		bads: []int{4, 5, 25}, pre: 50,
		ends: map[string]int{"": 97, "close": 1, "half": 2}, receipts: 20, burst: 70,
	}, [2]int{14000, 300000}, "a subscription id was used again and something was delivered", nil,
		func(w *sWorld) bool { return w.reuse > 0 && w.deliveries > 1 },
		func(w *sWorld) []string {
			return []string{sizeLabel("reused", w.reuse), sizeLabel("unsubscribed-busy", w.inflight)}
		},
		"scope", "dup", "lost", "topic", "content", "error", "close")
}

// ---------------------------------------------------------------- in-memory storage

type memOp struct {
	K string `json:"k"` // enq, req, deq
	Q int    `json:"q"`
}

func init() {
	type plan struct {
		Names []Str   `json:"names"`
		Ops   []memOp `json:"ops"`
	}
	core.Register("S10", core.Check[plan]{
		Name: "memory", Cases: [2]int{20000, 500000},
		Rule: "frames were put into and taken from at least two queues",
		Gen: func(t *rapid.T) (p plan) {
			for i, n := 0, 1+uni(t, "queues", 4); i < n; i++ {
				p.Names = append(p.Names, rapid.SampledFrom([]Str{"", "/queue/a", "/queue/A", "/queue/a/", "/queue/aa", "q", strNasty(t, "name", 0)}).Draw(t, "q"))
			}
			deep := chance(t, "deep", 30) // mostly putting
			for i, n := 0, 1+uni(t, "n", 60); i < n; i++ {
				w := []int{6, 4, 6}
				if deep && i < n/2 {
					w = []int{8, 4, 1}
				}
				p.Ops = append(p.Ops, memOp{[]string{"enq", "req", "deq"}[pick(t, "op", w...)], uni(t, "qi", len(p.Names))})
			}
			return
		},
		Exec: func(x *core.Ctx, p plan) (res Result) {
			st := queue.NewMemoryQueueStorage()
			st.Start()
			model := map[Str][]*frame.Frame{}
			used := map[Str]bool{}
			for i, o := range p.Ops {
				q := p.Names[o.Q]
				var err error
				switch o.K {
				case "enq", "req":
					f := frame.New("MESSAGE", "n", itoa(i))
					if o.K == "enq" {
						err = st.Enqueue(string(q), f)
						model[q] = append(model[q], f)
					} else {
						err = st.Requeue(string(q), f)
						model[q] = append([]*frame.Frame{f}, model[q]...)
					}
				case "deq":
					var f, want *frame.Frame
					f, err = st.Dequeue(string(q))
					if m := model[q]; len(m) > 0 {
						want, model[q] = m[0], m[1:]
						used[q] = true
					}
					if (f == nil) != (want == nil) || f != nil && f.Header.Get("n") != want.Header.Get("n") {
						res.Fail = fmt.Sprintf("operation %d: Dequeue(%q) = %v, and %v is in front", i, q, f, want)
						return
					}
				}
				if err != nil {
					res.Fail = fmt.Sprintf("operation %d: %s: %v", i, o.K, err)
					return
				}
			}
			for q, m := range model {
				for _, want := range append(m, nil) {
					f, err := st.Dequeue(string(q))
					if err != nil || (f == nil) != (want == nil) || f != nil && f.Header.Get("n") != want.Header.Get("n") {
						res.Fail = fmt.Sprintf("at the end: Dequeue(%q) = %v, %v, and %v is in front", q, f, err, want)
						return
					}
				}
			}
			res.NonTrivial = len(used) >= 2
			return
		},
	})
}
