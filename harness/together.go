package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync"

	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/txbuilder"
)

// runTogether makes histories from several goroutines at once, each with builders of its own, then
// makes the same calls one history after the other and again at once, and records for every call
// whether the outcome was the same each time.
func runTogether(profile string, n, first int, seed int64, out string) {
	workers := runtime.NumCPU()
	if workers < 4 {
		workers = 4
	}
	worlds := make([]*World, workers)
	for k := range worlds {
		worlds[k] = newWorld(newUniverse(), nil)
	}
	f, err := os.Create(out)
	must(err)
	for start := 0; start < n && !hung.Load(); start += workers {
		count := workers
		if n-start < count {
			count = n - start
		}
		ops := make([][]Op, count)
		events := make([][][]*Event, count)
		make1 := func(i int, calls func(w *World)) {
			w := worlds[i]
			w.reset(first + start + i)
			w.rng = rand.New(rand.NewSource(seed*1000003 + int64(start+i)*7919))
			calls(w)
			events[i] = append(events[i], w.events)
			if ops[i] == nil {
				ops[i] = w.ops
			}
			if w.dead {
				worlds[i] = newWorld(newUniverse(), nil)
			}
		}
		atOnce := func(calls func(i int, w *World)) {
			var ready, wg sync.WaitGroup
			ready.Add(count)
			wg.Add(count)
			for i := 0; i < count; i++ {
				go func(i int) {
					defer wg.Done()
					make1(i, func(w *World) {
						ready.Done()
						ready.Wait()
						calls(i, w)
					})
				}(i)
			}
			wg.Wait()
		}
		again := func(i int, w *World) {
			for _, o := range ops[i] {
				if _, ok := w.do(o); !ok {
					break
				}
			}
		}

		atOnce(func(i int, w *World) {
			g := &gen{w: w, u: w.u, r: w.rng, b: "b1", extra: w.rng.Float64() < 0.3}
			g.run(profile)
		})
		for i := 0; i < count; i++ {
			make1(i, func(w *World) { again(i, w) })
		}
		atOnce(again)
		atOnce(again)

		for i := 0; i < count; i++ {
			chance := false
			for j, e := range events[i][1] {
				// What follows a random choice is only watched for races.
				chance = chance || strings.HasPrefix(e.Op, "break") || strings.HasPrefix(e.Op, "randomize")
				alone, err := json.Marshal(e)
				must(err)
				same := true
				for _, l := range events[i] {
					if j >= len(l) {
						same = false
						continue
					}
					b, err := json.Marshal(l[j])
					must(err)
					same = same && string(b) == string(alone)
				}
				if !chance {
					e.R["conc"] = same
				}
				b, err := json.Marshal(e)
				must(err)
				_, err = f.Write(append(b, '\n'))
				must(err)
			}
		}
	}
	must(f.Close())
}

// together reads everything there is to read from one builder, alone and from several goroutines at
// once.
func (w *World) together(b *txbuilder.TxBuilder, r Result) {
	read := func() string {
		q, err := json.Marshal(w.queries(b))
		must(err)
		ser, serr := b.Serialize()
		s := fmt.Sprintf("%s %x %s %s %s", q, ser, errClass(serr), b.TxID(), b.String(bitcoin.MainNet))
		for i := range b.MsgTx.TxIn {
			c := &txbuilder.SigHashCache{}
			h, err := txbuilder.SignatureHash(b.MsgTx, i, b.Inputs[i].LockingScript, b.Inputs[i].Value, 0x41, c)
			s += fmt.Sprintf(" %x %s", h, errClass(err))
			in, err := b.InputOutput(i)
			s += fmt.Sprintf(" %v %s", in, errClass(err))
		}
		c := b.Copy()
		return s + c.String(bitcoin.TestNet)
	}
	want := read()
	results := make([]string, 4)
	var wg sync.WaitGroup
	for k := range results {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					results[k] = fmt.Sprint(x)
				}
			}()
			results[k] = read()
		}(k)
	}
	wg.Wait()
	r["e"] = "ok"
	r["same"] = true
	for _, x := range results {
		if x != want {
			r["same"] = false
		}
	}
}
