package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
)

// Random generation of traces. Amounts are chosen around the thresholds at which behaviour changes.

type gen struct {
	w     *World
	u     *Universe
	r     *rand.Rand
	b     string
	next  int
	extra bool   // unusual scripts
	emb   bool   // embedded unlocking data
	last  []UTXO // offered last
}

func (g *gen) chance(p float64) bool     { return g.r.Float64() < p }
func (g *gen) pick(xs ...int) int        { return xs[g.r.Intn(len(xs))] }
func (g *gen) of(xs []int) int           { return xs[g.r.Intn(len(xs))] }
func (g *gen) pickS(xs ...string) string { return xs[g.r.Intn(len(xs))] }

func vi(n int) int {
	if n < 253 {
		return 1
	}
	if n <= 65535 {
		return 3
	}
	return 5
}

func (g *gen) outSize(l int) int {
	n := 0
	if l > 0 {
		n = g.u.Scripts[l-1].Len
	}
	return 8 + vi(n) + n
}

func unlockSize(kind string, req, tot int) int {
	switch kind {
	case "p2pkh":
		return 108
	case "p2pk":
		return 74
	case "multi":
		return tot - req + req*109
	}
	return -1
}

func (g *gen) inSize(l int) int {
	if l <= 0 {
		return -1
	}
	s := g.u.Scripts[l-1]
	n := unlockSize(s.Kind, s.Req, s.Tot)
	if s.Kind == "agent" {
		n = s.Base + unlockSize(s.Sub, s.Req, s.Tot)
	}
	if n < 0 {
		return -1
	}
	return 40 + vi(n) + n
}

func (g *gen) fee(size int, fr int) int64 {
	return int64(math.Ceil(float64(size) * float64(g.u.rates[fr-1])))
}

func (g *gen) inFee(l, fr int) int64 {
	n := g.inSize(l)
	if n < 0 {
		return 0
	}
	return g.fee(n, fr)
}

func (g *gen) outFee(l, fr int) int64 { return g.fee(g.outSize(l), fr) }

func (g *gen) dust(l, dr int) int64 {
	d := float32((g.outSize(l)+148)*3) * g.u.rates[dr-1]
	if d < 1 {
		return 1
	}
	return int64(d)
}

func (g *gen) cost(l, fr int) int64 { return g.outFee(l, fr) + g.inFee(l, fr) }

func (g *gen) estSize(s *State) int {
	n := 8 + vi(len(s.Ins)) + vi(len(s.Outs))
	for _, in := range s.Ins {
		if in.L == 0 && in.U.C == "d" {
			n += 40 + vi(in.U.Z) + in.U.Z
		} else if z := g.inSize(in.L); z >= 0 {
			n += z
		} else {
			n += 149
		}
	}
	for _, o := range s.Outs {
		n += g.outSize(o.L)
	}
	return n
}

func (g *gen) actualFee(s *State) int64 {
	v := int64(0)
	for _, in := range s.Ins {
		if in.V == (Amt{}) && in.U.C == "d" {
			v += in.U.Y.i64()
		} else {
			v += in.V.i64()
		}
	}
	for _, o := range s.Outs {
		v -= o.V.i64()
	}
	return v
}

// needed is what the inputs lack to pay for outputs and fee.
func (g *gen) needed(s *State) int64 { return g.fee(g.estSize(s), s.Fr) - g.actualFee(s) }

func (g *gen) state() *State {
	if len(g.w.events) == 0 {
		return nil
	}
	return g.w.events[len(g.w.events)-1].S[g.b]
}

func firstRem(s *State) int {
	for i, o := range s.Outs {
		if o.R {
			return i
		}
	}
	return -1
}

const maxValue = int64(2100000000000000)

func clamp(v int64) int64 {
	if v < 0 {
		return 0
	}
	if v > maxValue {
		return maxValue
	}
	return v
}

func (g *gen) amount() int64 {
	switch g.r.Intn(12) {
	case 0:
		return int64(g.r.Intn(3))
	case 1:
		return int64(g.r.Intn(100))
	case 2, 3:
		return int64(g.r.Intn(2000))
	case 4, 5, 6:
		return int64(1000 + g.r.Intn(100000))
	case 7:
		return int64(999999990 + g.r.Intn(20))
	case 8:
		return int64(g.r.Int63n(100000000000))
	case 9:
		if g.chance(0.2) {
			return maxValue - int64(g.r.Intn(3))
		}
		return int64(g.r.Intn(1000000))
	default:
		return int64(g.r.Intn(10000000))
	}
}

func (g *gen) wiggle() int64 {
	switch g.r.Intn(6) {
	case 0:
		return -1
	case 1:
		return 1
	case 2:
		return int64(g.r.Intn(7) - 3)
	}
	return 0
}

func (g *gen) spendScript() int {
	if g.extra && g.chance(0.12) {
		return g.of(g.u.odd)
	}
	if g.chance(0.5) {
		return g.of(g.u.p2pkh)
	}
	return g.of(g.u.spend)
}

func (g *gen) signableScript() int {
	if g.chance(0.4) {
		return g.of(g.u.p2pkh)
	}
	return g.of(g.u.signable)
}

func (g *gen) payScript() int {
	if g.extra && g.chance(0.05) {
		return g.of(g.u.odd)
	}
	if g.chance(0.5) {
		return g.of(g.u.p2pkh)
	}
	return g.of(g.u.payable)
}

func (g *gen) keyID() string {
	if g.chance(0.4) {
		return ""
	}
	return g.pickS("key0", "key1", "key2", "key3", "key4", "key5", "k", "an-identifier-longer-than-most:m/44/0/17")
}

func (g *gen) spent(o string) bool {
	s := g.state()
	if s == nil {
		return false
	}
	for _, in := range s.Ins {
		if in.O == o {
			return true
		}
	}
	return false
}

func (g *gen) anyOutpoint() string {
	h := g.pickS("1", "13", "14", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "t1", "t2")
	if g.chance(0.02) {
		h = "0"
	}
	i := g.pickS("0", "1", "0", "1", "2", "3", "256", "65536", "16777216", "4294967295")
	return h + ":" + i
}

func (g *gen) freshOutpoint(used map[string]bool) string {
	for n := 0; n < 20; n++ {
		o := g.anyOutpoint()
		if !g.spent(o) && !used[o] {
			used[o] = true
			return o
		}
	}
	for {
		g.next++
		o := fmt.Sprintf("x%d:%d", g.next/3, g.next%3)
		if !g.spent(o) && !used[o] {
			used[o] = true
			return o
		}
	}
}

// changeScript is the script change would go to, 0 if there is none.
func (g *gen) changeScript(s *State) int {
	if i := firstRem(s); i >= 0 {
		return s.Outs[i].L
	}
	return s.Chg
}

// surplus returns an amount around one of the thresholds for change paying to l.
func (g *gen) surplus(s *State, l int) int64 {
	of, in, du := int64(0), int64(0), int64(0)
	if l > 0 {
		of, in, du = g.fee(g.outSize(l)+vi(len(s.Outs)+1)-vi(len(s.Outs)), s.Fr), g.inFee(l, s.Fr), g.dust(l, s.Dr)
	} else {
		of, in, du = g.fee(34, s.Fr), g.fee(149, s.Fr), g.dust(1, s.Dr)
	}
	ts := []int64{0, 0, 0, 1, du, du + of, 2 * of, of, of + in, 2*of + in, of + du + in, 3 * of, 2*of + 2*in, 3*of + 2*in, 4*of + 2*in, of*2 + du}
	if g.chance(0.25) {
		return g.amount()
	}
	return ts[g.r.Intn(len(ts))] + g.wiggle()
}

func (g *gen) utxo(l int, v int64, used map[string]bool) UTXO {
	return UTXO{O: g.freshOutpoint(used), L: l, V: amt(uint64(clamp(v))), K: g.keyID()}
}

func (g *gen) anyUTXO(s *State) UTXO {
	l := g.spendScript()
	v := g.amount()
	if g.chance(0.4) {
		v = g.needed(s) + g.inFee(l, s.Fr) + g.surplus(s, g.changeScript(s))
	}
	u := g.utxo(l, v, map[string]bool{})
	if g.chance(0.25) {
		u.O = g.anyOutpoint() // may be spent already
	}
	if len(s.Ins) > 0 && g.chance(0.12) {
		u.O = s.Ins[g.r.Intn(len(s.Ins))].O
	}
	return u
}

// offers returns unspent outputs that cover needed at one of them, with some surplus for change paying to l.
func (g *gen) offers(s *State, needed int64, l int) []UTXO {
	if len(s.Ins) > 0 && g.chance(0.04) {
		// nothing new
		d := UTXO{O: s.Ins[g.r.Intn(len(s.Ins))].O, L: g.spendScript(), V: amt(uint64(clamp(needed + g.amount()))), K: g.keyID()}
		if g.chance(0.5) {
			return []UTXO{d}
		}
		return []UTXO{d, d}
	}
	if len(g.last) > 0 && g.chance(0.04) {
		return append([]UTXO{}, g.last...)
	}
	n := 1 + g.r.Intn(4)
	if g.chance(0.05) {
		n = 5 + g.r.Intn(6)
	}
	if g.chance(0.06) {
		n = 0
	}
	at := n - 1
	if n > 0 && g.chance(0.5) {
		at = g.r.Intn(n)
	}
	if g.chance(0.1) {
		at = n // never
	}
	used := map[string]bool{}
	us := []UTXO{}
	count := len(s.Ins)
	if needed < 0 {
		needed = 0
	}
	for i := 0; i < n; i++ {
		if g.chance(0.08) {
			// already spent or offered before
			d := UTXO{L: g.spendScript(), V: amt(uint64(g.amount())), K: g.keyID()}
			if len(us) > 0 && (g.chance(0.5) || len(s.Ins) == 0) {
				d.O = us[g.r.Intn(len(us))].O
				us = append(us, d)
			} else if len(s.Ins) > 0 {
				d.O = s.Ins[g.r.Intn(len(s.Ins))].O
				us = append(us, d)
			}
		}
		sl := g.spendScript()
		needed += g.inFee(sl, s.Fr) + g.fee(vi(count+1)-vi(count), s.Fr)
		count++
		v := g.amount()
		if i == at {
			v = needed + g.surplus(s, l)
		} else if i < at && needed > 1 {
			switch g.r.Intn(3) {
			case 0:
				v = g.inFee(sl, s.Fr) + g.wiggle()
			case 1:
				v = needed / int64(at-i+1)
			default:
				v = g.r.Int63n(needed)
			}
			if g.chance(0.15) {
				v = needed - 1
			}
			if v >= needed {
				v = needed - 1
			}
		}
		v = clamp(v)
		needed -= v
		if needed < 0 {
			needed = 0
		}
		us = append(us, g.utxo(sl, v, used))
	}
	g.last = us
	return us
}

func (g *gen) addrList() []Addr {
	n := 1 + g.r.Intn(6)
	if g.chance(0.06) {
		n = 7 + g.r.Intn(g.pick(4, 14))
	}
	as := []Addr{}
	for i := 0; i < n; i++ {
		l := g.of(g.u.p2pkh)
		if g.chance(0.35) {
			l = g.of(g.u.addressable)
		}
		as = append(as, Addr{L: l, K: g.keyID()})
	}
	return as
}

func (g *gen) breakAmount() int64 {
	switch g.r.Intn(6) {
	case 0:
		return int64(1 + g.r.Intn(12))
	case 1:
		return int64(1 + g.r.Intn(1000))
	case 2:
		return 10000
	case 3:
		return int64(1 + g.r.Intn(1000000))
	case 4:
		return 500
	}
	return 1000
}

func (g *gen) index(n int) int {
	if n == 0 || g.chance(0.08) {
		return n + g.pick(0, 0, 1, 5)
	}
	return g.r.Intn(n)
}

func (g *gen) rates() (int, int) {
	if g.chance(0.5) {
		return g.pick(2, 3, 4), g.pick(1, 1, 4, 5)
	}
	return 1 + g.r.Intn(len(g.u.rates)), 1 + g.r.Intn(len(g.u.rates))
}

// neededKeys returns the keys that complete all inputs.
func (g *gen) neededKeys(s *State) []int {
	m := map[int]bool{}
	for _, in := range s.Ins {
		if in.L <= 0 {
			continue
		}
		info := g.u.Scripts[in.L-1]
		ks := append([]int{}, info.Keys...)
		g.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
		n := info.Req + g.pick(0, 0, 0, 1, 2)
		for i, k := range ks {
			if i < n {
				m[k] = true
			}
		}
	}
	var r []int
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

func (g *gen) signKeys(s *State) []int {
	ks := g.neededKeys(s)
	switch g.r.Intn(10) {
	case 0: // drop one
		if len(ks) > 0 {
			i := g.r.Intn(len(ks))
			ks = append(ks[:i], ks[i+1:]...)
		}
	case 1: // random subset
		var r []int
		for _, k := range ks {
			if g.chance(0.5) {
				r = append(r, k)
			}
		}
		ks = r
	case 2: // everything
		ks = nil
		for i := 1; i <= keyCount; i++ {
			ks = append(ks, i)
		}
	case 3: // repeated
		ks = append(ks, ks...)
	}
	if g.chance(0.3) {
		ks = append(ks, 1+g.r.Intn(keyCount))
	}
	g.r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	if ks == nil {
		ks = []int{}
	}
	return ks
}

// args fills in the arguments of an operation for the current state, false if it makes no sense now.
func (g *gen) args(op string) (Arg, bool) {
	a := Arg{}
	s := g.state()
	switch op {
	case "addInputUTXO":
		a.U = g.anyUTXO(s)
	case "addInput":
		a.U = g.anyUTXO(s)
		a.U.K = ""
	case "insertInput":
		a.U = g.anyUTXO(s)
		a.I = g.index(len(s.Ins) + 1)
	case "updateInput":
		a.U = g.anyUTXO(s)
		a.I = g.index(len(s.Ins))
		if a.I < len(s.Ins) && g.chance(0.3) {
			a.U.O = s.Ins[a.I].O
		}
	case "removeInput":
		a.I = g.index(len(s.Ins))
	case "addOutput", "insertOutput", "addPayment":
		a.L = g.payScript()
		a.V = amt(uint64(g.amount()))
		if g.chance(0.35) {
			a.V = amt(uint64(clamp(g.outFee(a.L, s.Fr) + g.wiggle())))
		}
		a.R, a.D = g.chance(0.2), g.chance(0.15)
		if op == "insertOutput" {
			a.I = g.index(len(s.Outs) + 1)
		}
		if op == "addPayment" {
			a.L = g.of(g.u.addressable)
			if g.chance(0.05) {
				a.L = g.of(g.u.data)
			}
		}
		if s.Chg > 0 && g.chance(0.06) {
			a.L = s.Chg
		}
	case "addDust":
		a.L = g.of(g.u.addressable)
		if g.chance(0.1) {
			a.L = g.of(g.u.data)
		}
		a.R = g.chance(0.2)
	case "addMax":
		a.L = g.of(g.u.addressable)
		if g.chance(0.1) {
			a.L = g.of(g.u.data)
		}
	case "addMaxScript":
		a.L = g.payScript()
	case "removeOutput", "setDust":
		a.I = g.index(len(s.Outs))
	case "addValue":
		a.I = g.index(len(s.Outs))
		a.V = amt(uint64(g.amount()))
		if a.I < len(s.Outs) && g.chance(0.4) {
			a.V = amt(uint64(clamp(g.dust(s.Outs[a.I].L, s.Dr) + g.wiggle())))
		}
	case "subValue":
		a.I = g.index(len(s.Outs))
		a.V = amt(uint64(g.amount()))
		if a.I < len(s.Outs) {
			v := s.Outs[a.I].V.i64()
			switch g.r.Intn(4) {
			case 0:
				a.V = amt(uint64(clamp(v - g.dust(s.Outs[a.I].L, s.Dr) + g.wiggle())))
			case 1:
				a.V = amt(uint64(clamp(v + g.wiggle())))
			case 2:
				if v > 0 {
					a.V = amt(uint64(g.r.Int63n(v)))
				}
			}
		}
	case "updateOutput":
		a.I = g.index(len(s.Outs))
		a.L = g.payScript()
	case "addOutputs":
		n := g.r.Intn(4)
		a.Outs = []Out{}
		for i := 0; i < n; i++ {
			a.Outs = append(a.Outs, Out{L: g.payScript(), V: amt(uint64(g.amount())), R: g.chance(0.2), D: g.chance(0.1), K: g.keyID()})
		}
	case "setChangeAddr", "setChangeScript":
		a.L = g.of(g.u.change)
		if len(s.Outs) > 0 && g.chance(0.25) {
			a.L = s.Outs[g.r.Intn(len(s.Outs))].L
		}
		if a.L <= 0 {
			return a, false
		}
		a.K = g.keyID()
	case "addFunding":
		a.Us = g.offers(s, g.needed(s), g.changeScript(s))
	case "breakFund":
		a.Addrs = g.addrList()
		if g.chance(0.03) {
			a.Addrs = []Addr{}
		}
		if len(a.Addrs) > 0 && len(s.Outs) > 0 && g.chance(0.05) {
			if l := s.Outs[g.r.Intn(len(s.Outs))].L; l > 0 && g.u.Scripts[l-1].Adr {
				a.Addrs[0].L = l
			}
		}
		if len(a.Addrs) > 0 && g.chance(0.03) {
			a.Addrs[g.r.Intn(len(a.Addrs))].L = 0
		}
		a.Bv = amt(uint64(g.breakAmount()))
		l := g.changeScript(s)
		n := g.needed(s)
		if firstRem(s) < 0 && len(a.Addrs) > 0 {
			l = a.Addrs[0].L
			n = g.fee(g.estSize(s)+g.outSize(l)+vi(len(s.Outs)+1)-vi(len(s.Outs)), s.Fr) - g.actualFee(s)
		}
		a.Us = g.offers(s, n, l)
		if g.chance(0.4) && len(a.Us) > 0 {
			// plenty of change
			i := len(a.Us) - 1
			a.Us[i].V = amt(uint64(clamp(a.Us[i].V.i64() + a.Bv.i64()*int64(g.pick(1, 2, 3, 5, 10, 20, 50, 100, 1000)))))
		}
	case "adjustFee":
		v := int64(g.r.Intn(2000) - 1000)
		if i := firstRem(s); i >= 0 && g.chance(0.7) {
			o := s.Outs[i]
			c := g.cost(o.L, s.Fr)
			switch g.r.Intn(5) {
			case 0:
				v = o.V.i64() - c + g.wiggle()
			case 1:
				v = o.V.i64() + g.wiggle()
			case 2:
				v = c + g.wiggle()
			case 3:
				v = -(c + g.wiggle())
			default:
				v = -g.amount()
			}
		} else if g.chance(0.6) {
			v = -g.surplus(s, s.Chg)
		}
		a.V = samt(v)
	case "calcFee", "zeroFee", "randomize", "query", "text":
	case "randomizeAfter":
		a.I = g.index(len(s.Outs))
	case "oob":
		a.I = g.pick(0, 1, 7)
	case "sign", "signOnly":
		a.Keys = g.signKeys(s)
		if g.w.lastSign == g.b && op == "sign" && g.chance(0.5) {
			// again with the same keys or more
			a.Keys = append([]int{}, g.w.lastKeys...)
			if g.w.lastErr == "missingkey" {
				for i := 1; i <= keyCount; i++ {
					a.Keys = append(a.Keys, i)
				}
			}
			g.r.Shuffle(len(a.Keys), func(i, j int) { a.Keys[i], a.Keys[j] = a.Keys[j], a.Keys[i] })
		}
	case "signP2PKH":
		a.I = g.index(len(s.Ins))
		a.Keys = []int{1 + g.r.Intn(keyCount)}
		if a.I < len(s.Ins) && s.Ins[a.I].L > 0 && g.chance(0.8) {
			if ks := g.u.Scripts[s.Ins[a.I].L-1].Keys; len(ks) > 0 {
				a.Keys = []int{ks[0]}
			}
		}
	case "helper":
		if len(s.Ins) == 0 {
			return a, false
		}
		a.I = g.r.Intn(len(s.Ins))
		l := s.Ins[a.I].L
		if l <= 0 {
			return a, false
		}
		info := g.u.Scripts[l-1]
		if info.Kind != "p2pkh" && info.Kind != "p2pk" && info.Kind != "multi" {
			return a, false
		}
		a.Keys = append([]int{}, info.Keys...)
		g.r.Shuffle(len(a.Keys), func(i, j int) { a.Keys[i], a.Keys[j] = a.Keys[j], a.Keys[i] })
		m := map[int]bool{}
		n := 0
		var use []int
		for _, k := range a.Keys {
			if !m[k] {
				m[k] = true
				use = append(use, k)
			}
			n++
			if n >= info.Req && g.chance(0.8) {
				break
			}
		}
		a.Keys = use
		a.T = g.pick(0x41, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3)
	case "direct":
		return g.directArgs(s)
	case "sighash":
		a.I = g.index(len(s.Ins))
		if g.chance(0.9) && len(s.Ins) > 0 {
			a.I = g.r.Intn(len(s.Ins))
		}
		a.L = g.of(g.u.signable)
		if g.chance(0.4) {
			a.L = g.of(g.u.sep)
		}
		if a.I < len(s.Ins) && s.Ins[a.I].L > 0 && g.chance(0.5) {
			a.L = s.Ins[a.I].L
		}
		if g.chance(0.03) {
			a.L = g.of(g.u.odd)
		}
		a.V = amt(uint64(g.amount()))
		if a.I < len(s.Ins) && g.chance(0.6) {
			a.V = s.Ins[a.I].V
		}
		a.T = g.pick(0x41, 0x41, 0x42, 0x43, 0xc1, 0xc2, 0xc3, 0x01, 0x02, 0x03, 0x81, 0x82, 0x83)
		if g.chance(0.06) {
			a.T = g.pick(0x00, 0x40, 0x44, 0x61, 0x62, 0x63, 0x80, 0xc0, 0xe3)
		}
		a.C = g.pickS("", "c1", "c1", "c2")
	case "cacheHash":
		a.F = g.pickS("P", "S", "O")
		a.C = g.pickS("", "c1", "c1", "c2")
	case "cacheClear", "cacheClearOut":
		a.C = g.pickS("c1", "c1", "c2")
	case "feestx":
		a.Fr = 1 + g.r.Intn(len(g.u.rates))
		a.Unl = []int{}
		a.I = -1
		if g.chance(0.1) && len(s.Ins) > 0 {
			a.Unl = append(a.Unl, s.Ins[g.r.Intn(len(s.Ins))].L)
		}
		if g.chance(0.05) && len(s.Ins) > 0 {
			a.I = g.r.Intn(len(s.Ins))
		}
	case "fn":
		a.F = fnNames[g.r.Intn(len(fnNames))]
		a.L = 1 + g.r.Intn(len(g.u.scripts))
		if g.chance(0.02) {
			a.L = 0
		}
		a.Fr, a.Dr = 1+g.r.Intn(len(g.u.rates)), 1+g.r.Intn(len(g.u.rates))
		a.N = g.pick(0, 1, 34, 74, 107, 108, 148, 149, 251, 252, 253, 254, 1000, 65534, 65535, 65536, 70000, g.r.Intn(80000), g.r.Intn(2000))
		vs := []int64{0, 1, 252, 253, 254, 65535, 65536, 4294967295, 4294967296, 4294967297, 1000, maxValue}
		a.V = amt(uint64(vs[g.r.Intn(len(vs))]))
	case "break":
		a.F = g.pickS("addresses", "scripts")
		a.Addrs = g.addrList()
		if a.F == "scripts" {
			for i := range a.Addrs {
				a.Addrs[i].K = ""
				if g.chance(0.1) {
					a.Addrs[i].L = g.of(g.u.payable)
				}
			}
		}
		if a.F == "addresses" && g.chance(0.04) {
			a.Addrs[g.r.Intn(len(a.Addrs))].L = 0
		}
		a.Fr, a.Dr = g.rates()
		a.Bv = amt(uint64(g.breakAmount()))
		a.Last, a.Sub = g.chance(0.5), g.chance(0.5)
		bv := a.Bv.i64()
		l := a.Addrs[g.r.Intn(len(a.Addrs))].L
		vs := []int64{0, 1, bv, bv + g.outFee(l, a.Fr), g.outFee(l, a.Fr), g.inFee(l, a.Fr), g.cost(l, a.Fr), g.cost(l, a.Fr) + bv,
			2*bv + g.cost(l, a.Fr), bv * 3, bv * 5, bv * 10, bv * int64(len(a.Addrs)), bv * 50, bv * 500, bv * 5000, bv * 7000, bv * 40000, g.amount(), g.amount(), g.amount(),
			2 * g.cost(l, a.Fr), 2*g.cost(l, a.Fr) + bv}
		a.V = amt(uint64(clamp(vs[g.r.Intn(len(vs))] + g.wiggle())))
		if len(a.Addrs) > 1 && g.chance(0.15) {
			a.V = amt(uint64(clamp(g.powerLimit(len(a.Addrs), bv))))
		}
	case "breakQ":
		a.N = g.pick(1, 1, 2, 2, 3, 5, 10, 30)
		a.Bv = amt(uint64(g.breakAmount()))
		bv := a.Bv.i64()
		vs := []int64{0, 1, bv, bv * 2, bv * 5, bv * 10, bv * 50, bv * 500, bv * 5000, bv * 7000, bv * 40000, bv * int64(a.N), g.amount(), g.amount()}
		a.V = amt(uint64(clamp(vs[g.r.Intn(len(vs))] + g.wiggle())))
		if a.N > 1 && g.chance(0.15) {
			a.V = amt(uint64(clamp(g.powerLimit(a.N, bv))))
		}
	case "breakKinds":
		a.F = g.pickS("addresses", "scripts")
		a.N = g.pick(2, 3, 6, 8, 8)
		a.Bv = amt(uint64(g.pick(500, 1000, 1237, 20000)))
		a.V = amt(uint64(a.Bv.i64() * int64(g.pick(3, 8, 30, 60, 300, 700, 3000, 9000))))
		if g.chance(0.7) {
			a.V = amt(uint64(g.powerLimit(a.N, a.Bv.i64())))
		}
	case "breakOrders":
		a.F = g.pickS("addresses", "scripts")
		a.N = g.pick(1, 2, 3, 3)
	case "perms":
		a.N = g.pick(1, 2, 3, 3, 3)
		a.I = g.pick(-1, -1, 0)
		if a.I == 0 {
			a.N = g.pick(2, 3, 4)
		}
	case "together":
	default:
		panic("args " + op)
	}
	return a, true
}

// powerLimit returns a value to break into n pieces that just allows, or doesn't, another power of ten.
func (g *gen) powerLimit(n int, bv int64) int64 {
	each := (bv*int64(g.pick(5, 50, 500)) + 1) / 2
	return int64(n-1) * (each - int64(g.r.Intn(2)))
}

func (g *gen) directArgs(s *State) (Arg, bool) {
	a := Arg{}
	kinds := []string{"lock", "ver", "rate", "dustrate", "chgkey"}
	if len(s.Ins) > 0 {
		kinds = append(kinds, "seq", "seq", "unsign", "inval")
		if g.emb {
			kinds = append(kinds, "embed", "embed", "embed", "embed", "junk", "falsereturn")
		} else {
			kinds = append(kinds, "junk")
		}
		a.I = g.r.Intn(len(s.Ins))
	}
	if len(s.Outs) > 0 {
		kinds = append(kinds, "outkey", "outval")
	}
	a.F = g.pickS(kinds...)
	switch a.F {
	case "seq":
		a.N = g.pick(0, 1, -1, -2, 2147483647)
	case "lock":
		a.N = g.pick(0, 1, 500000, 1700000000, -1)
	case "ver":
		a.N = g.pick(1, 2, -1, 0)
	case "rate", "dustrate":
		a.N = 1 + g.r.Intn(len(g.u.rates))
	case "embed":
		a.N = g.pick(0, 1, 74, 107, 252, 253, 5000)
		if g.chance(0.08) {
			a.N = g.pick(65535, 65536)
		}
		a.V = amt(uint64(g.amount()))
		if g.chance(0.4) {
			a.V = amt(uint64(clamp(g.needed(s) + g.surplus(s, g.changeScript(s)))))
		}
	case "junk", "falsereturn":
		a.N = g.pick(1, 5, 100, 252, 253, 300)
	case "chgkey":
		a.N = g.r.Intn(5)
	case "outkey":
		a.I = g.r.Intn(len(s.Outs))
		a.N = g.r.Intn(5)
	case "outval":
		a.I = g.r.Intn(len(s.Outs))
		a.V = amt(uint64(g.amount()))
	case "inval":
		a.V = amt(uint64(clamp(s.Ins[a.I].V.i64() + g.needed(s) + g.surplus(s, g.changeScript(s)))))
	}
	return a, true
}

func (g *gen) do(op string) string {
	a, ok := g.args(op)
	if !ok {
		return ""
	}
	e, _ := g.w.do(Op{Op: op, B: g.b, A: a})
	return e
}

func (g *gen) exec(op string, a Arg) string {
	e, _ := g.w.do(Op{Op: op, B: g.b, A: a})
	return e
}

// embeddedInputs adds inputs with unlocking data embedded in them.
func (g *gen) embeddedInputs() {
	for i := 1 + g.r.Intn(3); i > 0; i-- {
		u := g.utxo(0, 0, map[string]bool{})
		if g.chance(0.25) {
			u.L = g.spendScript()
		}
		if g.chance(0.25) {
			u.V = amt(uint64(g.amount()))
		}
		g.exec("addInputUTXO", Arg{U: u})
		s := g.state()
		if len(s.Ins) == 0 {
			continue
		}
		a, _ := g.directArgs(s)
		for n := 0; a.F != "embed" && n < 100; n++ {
			a, _ = g.directArgs(s)
		}
		a.I = len(s.Ins) - 1
		g.exec("direct", a)
	}
}

// run makes the calls of a history. Choosing the next call depends on the states the builders get
// into; if that fails because a state isn't a sensible one then the history ends there.
func (g *gen) run(profile string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "history ended:", r, string(debug.Stack()))
		}
	}()
	profiles[profile](g)
}

func (g *gen) newBuilder() {
	fr, dr := g.rates()
	g.exec("new", Arg{Fr: fr, Dr: dr})
}

type weight struct {
	op string
	n  int
}

func (g *gen) steps(n int, ws []weight) {
	total := 0
	for _, w := range ws {
		total += w.n
	}
	for i := 0; i < n && !g.w.dead; i++ {
		x := g.r.Intn(total)
		for _, w := range ws {
			if x < w.n {
				g.do(w.op)
				break
			}
			x -= w.n
		}
	}
}

// outputs adds a few outputs.
func (g *gen) outputs(max int) {
	n := g.r.Intn(max + 1)
	for i := 0; i < n; i++ {
		g.do(g.pickS("addOutput", "addOutput", "addPayment", "addDust", "insertOutput"))
	}
	if g.chance(0.05) {
		g.many()
	}
}

// many adds more inputs or outputs than most transactions have.
func (g *gen) many() {
	if g.state() == nil || g.w.dead {
		return
	}
	if g.chance(0.6) {
		n := 8 + g.r.Intn(g.pick(4, 12, 40))
		outs := []Out{}
		for i := 0; i < n; i++ {
			outs = append(outs, Out{L: g.payScript(), V: amt(uint64(g.amount())), R: g.chance(0.03), D: g.chance(0.1), K: g.keyID()})
		}
		g.exec("addOutputs", Arg{Outs: outs})
		return
	}
	n := 8 + g.r.Intn(g.pick(4, 12))
	used := map[string]bool{}
	for i := 0; i < n && !g.w.dead; i++ {
		v := g.amount()
		if g.chance(0.8) {
			v = g.r.Int63n(2000)
		}
		g.exec("addInputUTXO", Arg{U: g.utxo(g.signableScript(), v, used)})
	}
}

func (g *gen) maybeChange(p float64) {
	if g.chance(p) {
		g.do(g.pickS("setChangeAddr", "setChangeScript"))
	}
}

var editOps = []weight{{"addInputUTXO", 6}, {"addInput", 4}, {"insertInput", 5}, {"updateInput", 4}, {"removeInput", 4},
	{"addOutput", 6}, {"insertOutput", 5}, {"addPayment", 3}, {"addDust", 3}, {"addMax", 1}, {"addMaxScript", 1},
	{"removeOutput", 4}, {"addValue", 4}, {"subValue", 4}, {"setDust", 3}, {"updateOutput", 3}, {"addOutputs", 3},
	{"setChangeAddr", 2}, {"setChangeScript", 2}}

var feeOps = []weight{{"adjustFee", 8}, {"calcFee", 4}, {"zeroFee", 3}, {"addInputUTXO", 2}, {"removeOutput", 1},
	{"subValue", 1}, {"setChangeAddr", 1}}

func mix(lists ...[]weight) []weight {
	var r []weight
	for _, l := range lists {
		r = append(r, l...)
	}
	return r
}

var (
	fundOps  = []weight{{"addFunding", 12}}
	breakOps = []weight{{"breakFund", 12}}
	signOps  = []weight{{"sign", 10}, {"signOnly", 4}, {"signP2PKH", 2}}
	direct   = []weight{{"direct", 4}}
	// calls that return something the caller keeps
	resultOps = []weight{{"sighash", 8}, {"cacheHash", 4}, {"helper", 4}, {"text", 8}, {"break", 2}, {"breakQ", 2}}
	shuffle   = []weight{{"randomize", 3}, {"randomizeAfter", 3}}
)

// signable adds inputs that can be signed, giving about the needed value.
func (g *gen) signableInputs() {
	s := g.state()
	n := 1 + g.r.Intn(4)
	if g.chance(0.05) {
		n = 8
	}
	used := map[string]bool{}
	for i := 0; i < n && !g.w.dead; i++ {
		s = g.state()
		l := g.signableScript()
		v := g.amount()
		if i == n-1 {
			v = g.needed(s) + g.inFee(l, s.Fr) + g.surplus(s, g.changeScript(s))
		}
		g.exec(g.pickS("addInputUTXO", "addInputUTXO", "insertInput"), Arg{U: g.utxo(l, v, used)})
	}
}

func (g *gen) importArgs() Arg {
	a := Arg{Tx: &TxDesc{Ver: g.pickS("1", "2"), Lt: g.pickS("0", "500000", "4294967295"), Ins: []In{}, Outs: []Out{}}}
	a.Fr, a.Dr = g.rates()
	a.F = g.pickS("wire", "utxos", "two")
	n := g.r.Intn(5)
	if g.chance(0.04) {
		n = 8 + g.r.Intn(5)
	}
	used := map[string]bool{}
	a.Data = []UTXO{}
	for i := 0; i < n; i++ {
		in := In{Q: g.pickS("ffffffff", "00000000", "fffffffe", "00000007"), U: Unl{C: "n", Ks: []int{}}}
		in.O = g.freshOutpoint(used)
		if a.F == "wire" {
			in.O = fmt.Sprintf("t%d:%d", 1+g.r.Intn(4), g.r.Intn(4))
			if g.chance(0.08) {
				in.O = "t1:4" // index too large
			}
			for used[in.O] {
				in.O = fmt.Sprintf("t%d:%d", 1+g.r.Intn(4), g.r.Intn(4))
			}
			used[in.O] = true
		} else if !g.chance(0.1) {
			a.Data = append(a.Data, UTXO{O: in.O, L: g.signableScript(), V: amt(uint64(g.amount())), K: g.keyID()})
		}
		if a.F == "two" && g.chance(0.1) {
			in.O = fmt.Sprintf("0:%d", 7+i)
			used[in.O] = true
		}
		switch g.r.Intn(6) {
		case 0:
			in.U = Unl{C: "d", Z: g.pick(0, 74, 107, 300), Y: amt(uint64(g.amount())), Ks: []int{}}
		case 1:
			in.U = Unl{C: "s", N: g.pick(1, 80, 255), Ks: []int{}}
		}
		a.Tx.Ins = append(a.Tx.Ins, in)
	}
	for i := g.r.Intn(4); i > 0; i-- {
		a.Tx.Outs = append(a.Tx.Outs, Out{L: g.payScript(), V: amt(uint64(g.amount()))})
	}
	// unrelated data and any order
	if a.F == "utxos" {
		for i := g.r.Intn(3); i > 0; i-- {
			a.Data = append(a.Data, UTXO{O: g.freshOutpoint(used), L: g.signableScript(), V: amt(uint64(g.amount())), K: g.keyID()})
		}
		// same transaction, other index and the other way round
		for _, in := range a.Tx.Ins {
			if g.chance(0.3) {
				h, i := splitOutpoint(in.O)
				o := fmt.Sprintf("%s:%d", h, i^uint32(g.pick(1, 4)))
				if used[o] {
					continue
				}
				used[o] = true
				a.Data = append(a.Data, UTXO{O: o, L: g.signableScript(), V: amt(77), K: "other"})
			}
		}
	}
	if a.F == "wire" {
		a.Txs = []string{"t1", "t2", "t3", "t4"}
		g.r.Shuffle(4, func(i, j int) { a.Txs[i], a.Txs[j] = a.Txs[j], a.Txs[i] })
		a.Txs = a.Txs[:4-g.pick(0, 0, 0, 1, 2)]
	}
	g.r.Shuffle(len(a.Data), func(i, j int) { a.Data[i], a.Data[j] = a.Data[j], a.Data[i] })
	return a
}

var deterministic = mix(editOps, feeOps, feeOps, fundOps, signOps)

// profiles

var profiles = map[string]func(g *gen){
	// edits of all kinds
	"edit": func(g *gen) {
		g.newBuilder()
		g.steps(14+g.r.Intn(12), mix(editOps, editOps, editOps, feeOps, []weight{{"oob", 4}, {"signP2PKH", 6}, {"direct", 2}, {"addFunding", 4}, {"sign", 3}}))
	},
	// inputs over few outpoints
	"inputs": func(g *gen) {
		g.newBuilder()
		g.steps(16, []weight{{"addInputUTXO", 6}, {"addInput", 6}, {"insertInput", 6}, {"updateInput", 8}, {"removeInput", 5}, {"addFunding", 3}, {"breakFund", 2}, {"addOutput", 2}})
	},
	"fund": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.3)
		g.outputs(4)
		g.maybeChange(0.3)
		if g.chance(0.3) {
			g.do("addInputUTXO")
		}
		if g.chance(0.08) {
			g.do("addMax")
		}
		g.do("addFunding")
		g.steps(3+g.r.Intn(5), mix(fundOps, fundOps, feeOps, editOps))
	},
	"breakfund": func(g *gen) {
		g.newBuilder()
		g.outputs(3)
		g.maybeChange(0.2)
		if g.chance(0.3) {
			g.do("addInputUTXO")
		}
		if g.chance(0.05) {
			g.do("addMax")
		}
		g.do("breakFund")
		g.steps(1+g.r.Intn(3), mix(breakOps, breakOps, feeOps, []weight{{"addOutput", 6}, {"removeOutput", 6}, {"randomize", 2}}))
	},
	"fee": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.6)
		g.outputs(3)
		g.do("addInputUTXO")
		g.steps(12, mix(feeOps, feeOps, feeOps, feeOps, editOps))
	},
	"sendmax": func(g *gen) {
		g.newBuilder()
		g.outputs(2)
		g.maybeChange(0.2)
		if g.chance(0.4) {
			g.do("addInputUTXO")
		}
		g.do(g.pickS("addMax", "addMaxScript"))
		if g.chance(0.3) {
			g.do("addOutput")
		}
		if g.chance(0.3) {
			g.do("randomize")
		}
		g.do("addFunding")
		g.steps(3, mix(fundOps, feeOps, []weight{{"sign", 4}, {"addInputUTXO", 2}}))
	},
	"sign": func(g *gen) {
		g.extra = g.chance(0.1)
		g.newBuilder()
		g.maybeChange(0.6)
		g.outputs(3)
		g.maybeChange(0.3)
		if g.chance(0.5) {
			g.signableInputs()
		} else {
			g.do("addFunding")
		}
		g.do("sign")
		g.steps(3+g.r.Intn(5), mix(signOps, signOps, []weight{{"addOutput", 2}, {"removeOutput", 1}, {"removeInput", 1}, {"adjustFee", 2}, {"direct", 2}, {"addInputUTXO", 1}, {"helper", 3}, {"addFunding", 2}, {"setChangeAddr", 1}, {"sign", 6}}))
	},
	// signing replaces embedded unlocking data and the value it stands for
	"resign": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.5)
		g.outputs(2)
		l := g.changeScript(g.state())
		if g.chance(0.7) {
			l = g.of(g.u.p2pkh)
			g.exec("addOutput", Arg{L: l, V: amt(uint64(clamp(g.cost(l, g.state().Fr) + g.amount()))), R: true})
		}
		if g.w.dead {
			return
		}
		g.exec("addInputUTXO", Arg{U: g.utxo(g.signableScript(), 0, map[string]bool{})})
		s := g.state()
		if len(s.Ins) != 1 {
			return
		}
		// what is left after signing is around the amounts that matter
		left := int64(g.pick(0, 0, 0, 1, 5, 50)) * g.r.Int63n(1000)
		if f := firstRem(s); f >= 0 {
			left = s.Outs[f].V.i64() - g.cost(s.Outs[f].L, s.Fr) + g.wiggle()
			if g.chance(0.5) {
				left = g.r.Int63n(2*s.Outs[f].V.i64() + 1)
			}
		}
		g.exec("direct", Arg{F: "embed", I: 0, N: g.pick(0, 107, 253), V: amt(uint64(clamp(left)))})
		s = g.state()
		in := g.signableScript()
		more := g.surplus(s, l)
		if firstRem(s) < 0 && l > 0 && g.chance(0.6) {
			// the change that signing adds doesn't outlive it
			c := g.cost(l, s.Fr)
			more = g.fee(g.outSize(l), s.Fr) + g.wiggle() + left + g.r.Int63n(c+1)
		}
		u := g.utxo(in, g.needed(s)+g.inFee(in, s.Fr)+more, map[string]bool{s.Ins[0].O: true})
		g.exec(g.pickS("addInputUTXO", "insertInput"), Arg{U: u})
		g.do("sign")
		g.steps(2, []weight{{"sign", 8}, {"adjustFee", 1}, {"calcFee", 1}, {"setChangeAddr", 1}})
	},
	"signonly": func(g *gen) {
		g.newBuilder()
		g.outputs(3)
		g.signableInputs()
		g.emb = g.chance(0.3)
		g.steps(7, []weight{{"signOnly", 8}, {"signP2PKH", 6}, {"helper", 5}, {"direct", 3}, {"addOutput", 2}, {"addInputUTXO", 2}, {"insertInput", 2}, {"removeInput", 1}, {"query", 1}})
	},
	"copy": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.5)
		g.outputs(3)
		g.steps(2+g.r.Intn(6), mix(editOps, feeOps, fundOps, signOps, direct))
		if g.w.dead {
			return
		}
		names := []string{"b1"}
		src := "b1"
		g.b = "b2"
		g.exec("copy", Arg{Src: src})
		names = append(names, "b2")
		if g.chance(0.5) {
			// the same calls on both
			n := 4 + g.r.Intn(5)
			for i := 0; i < n && !g.w.dead; i++ {
				x, y := "b1", "b2"
				if g.chance(0.5) {
					x, y = y, x
				}
				g.b = x
				op := ""
				z := g.r.Intn(60)
				for _, w := range deterministic {
					if z < w.n {
						op = w.op
						break
					}
					z -= w.n
				}
				if op == "" {
					op = g.pickS("adjustFee", "adjustFee", "calcFee", "addFunding")
				}
				a, ok := g.args(op)
				if !ok {
					continue
				}
				g.exec(op, a)
				g.b = y
				a.Twin = true
				g.exec(op, a)
			}
			return
		}
		for i := 0; i < 10 && !g.w.dead; i++ {
			g.b = names[g.r.Intn(len(names))]
			if g.chance(0.12) && len(names) < 4 {
				s := g.b
				g.b = fmt.Sprintf("b%d", len(names)+1)
				names = append(names, g.b)
				g.exec("copy", Arg{Src: s})
				continue
			}
			g.steps(1, mix(editOps, editOps, feeOps, fundOps, breakOps, signOps, signOps, direct, shuffle))
		}
	},
	// several builders sharing what the caller passes in
	"several": func(g *gen) {
		for i := 1; i <= 2; i++ {
			g.b = fmt.Sprintf("b%d", i)
			g.newBuilder()
			if g.chance(0.04) {
				g.many()
			}
		}
		for i := 0; i < 14 && !g.w.dead; i++ {
			g.b = fmt.Sprintf("b%d", 1+g.r.Intn(2))
			g.steps(1, mix(editOps, editOps, feeOps, fundOps, breakOps, signOps, direct, shuffle, resultOps))
		}
	},
	"shuffle": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.7)
		g.outputs(5)
		g.do("addOutputs")
		g.do("addInputUTXO")
		if g.chance(0.5) {
			g.do("addFunding")
		}
		if g.chance(0.15) {
			g.do("perms")
		}
		g.steps(8, mix(shuffle, shuffle, shuffle, feeOps, []weight{{"adjustFee", 6}, {"addOutput", 4}, {"removeOutput", 3}, {"sign", 1}, {"calcFee", 3}}))
	},
	"import": func(g *gen) {
		g.exec("import", g.importArgs())
		if _, ok := g.w.b[g.b]; !ok || g.w.dead {
			return
		}
		g.maybeChange(0.6)
		g.steps(4, mix(editOps, feeOps, fundOps, fundOps, signOps, breakOps, []weight{{"feestx", 4}}))
		if g.w.dead {
			return
		}
		src := g.b
		g.b = "b2"
		fr, dr := g.rates()
		g.exec("reimport", Arg{Src: src, Fr: fr, Dr: dr})
		if _, ok := g.w.b[g.b]; !ok || g.w.dead {
			return
		}
		g.steps(3, mix(editOps, feeOps, fundOps, signOps))
	},
	"embedded": func(g *gen) {
		g.emb = true
		g.newBuilder()
		g.maybeChange(0.6)
		g.outputs(3)
		g.embeddedInputs()
		g.steps(6, mix(fundOps, breakOps, feeOps, []weight{{"direct", 8}, {"feestx", 5}, {"addInputUTXO", 2}, {"addOutput", 3}, {"sign", 2}, {"signOnly", 2}}))
	},
	"together": func(g *gen) {
		g.emb = g.chance(0.2)
		g.newBuilder()
		g.maybeChange(0.6)
		g.outputs(4)
		if g.chance(0.5) {
			g.signableInputs()
		}
		g.steps(10, mix(editOps, feeOps, fundOps, signOps, []weight{{"together", 20}, {"sighash", 8}, {"fn", 8}, {"feestx", 8}, {"text", 8}}))
	},
	"fees": func(g *gen) {
		g.emb = true
		g.newBuilder()
		g.outputs(4)
		if g.chance(0.5) {
			g.embeddedInputs()
		}
		g.steps(12, []weight{{"addInputUTXO", 5}, {"direct", 8}, {"addOutput", 3}, {"feestx", 12}, {"removeInput", 1}})
	},
	"fn": func(g *gen) {
		g.newBuilder()
		g.steps(40, []weight{{"fn", 1}})
	},
	"break": func(g *gen) {
		g.newBuilder()
		g.steps(20, []weight{{"break", 1}})
		if g.chance(0.03) {
			g.do("breakOrders")
			g.do("breakKinds")
		}
	},
	"breakq": func(g *gen) {
		g.newBuilder()
		g.steps(20, []weight{{"breakQ", 1}})
		if g.chance(0.03) {
			g.exec("breakOrders", Arg{F: "quantity", N: g.pick(1, 2, 3, 3)})
			a, _ := g.args("breakKinds")
			a.F = "quantity"
			g.exec("breakKinds", a)
		}
	},
	"sighash": func(g *gen) {
		g.newBuilder()
		g.outputs(4)
		for i := g.r.Intn(4); i >= 0; i-- {
			g.do("addInputUTXO")
		}
		for i := 0; i < 6 && !g.w.dead; i++ {
			g.steps(1+g.r.Intn(4), []weight{{"sighash", 8}, {"cacheHash", 1}})
			switch g.r.Intn(6) {
			case 0, 1:
				g.steps(1, []weight{{"addOutput", 2}, {"addValue", 2}, {"removeOutput", 1}, {"randomize", 1}, {"updateOutput", 1}})
				g.do(g.pickS("cacheClearOut", "cacheClearOut", "cacheClear"))
			case 2:
				g.steps(1, []weight{{"addInputUTXO", 2}, {"removeInput", 1}, {"updateInput", 1}, {"direct", 2}})
				g.do("cacheClear")
			case 3:
				g.do("direct")
			}
		}
	},
	// reported values after anything
	"report": func(g *gen) {
		g.emb = g.chance(0.5)
		g.newBuilder()
		g.maybeChange(0.5)
		g.steps(16, mix(editOps, editOps, feeOps, fundOps, breakOps, signOps, direct, direct, shuffle))
	},
	"text": func(g *gen) {
		g.emb = g.chance(0.5)
		g.newBuilder()
		g.maybeChange(0.5)
		g.outputs(3)
		if g.emb {
			g.embeddedInputs()
			g.do("text")
		}
		g.steps(10, mix(editOps, feeOps, fundOps, signOps, direct, direct, []weight{{"text", 40}}))
		g.do("text")
	},
	// numbers of inputs and outputs around the length of the serialized counts
	"big": func(g *gen) {
		g.newBuilder()
		g.maybeChange(0.8)
		g.outputs(1)
		s := g.state()
		if s == nil || g.w.dead {
			return
		}
		kind := g.r.Intn(3)
		if kind != 1 {
			n := g.pick(248, 250, 251, 251, 252, 252, 252, 253) - len(s.Outs)
			l := g.of(g.u.p2pkh)
			g.exec("direct", Arg{F: "bulkout", N: n, L: l, V: amt(uint64(g.outFee(l, s.Fr) + int64(g.r.Intn(50))))})
		}
		if kind != 0 {
			n := g.pick(248, 249, 250, 251, 251, 252, 252, 253)
			l := g.of(g.u.p2pkh)
			g.exec("direct", Arg{F: "bulkin", N: n, L: l, V: amt(uint64(clamp(g.inFee(l, s.Fr) + g.wiggle() + 1)))})
		}
		g.do(g.pickS("addFunding", "addFunding", "breakFund", "breakFund", "adjustFee", "addInputUTXO"))
		g.steps(4, []weight{{"addFunding", 4}, {"breakFund", 2}, {"adjustFee", 4}, {"calcFee", 3}, {"addOutput", 3}, {"addInputUTXO", 2}, {"zeroFee", 1}, {"removeOutput", 1}, {"sign", 1}, {"feestx", 1}})
	},
}
