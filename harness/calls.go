package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/pkg/errors"
	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/expanded_tx"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
	"github.com/tokenized/txbuilder/fees"
)

// Calls other than edits of a builder.

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

func le32(v uint32) []byte {
	b := make([]byte, 4)
	binary.LittleEndian.PutUint32(b, v)
	return b
}

func le64(v uint64) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, v)
	return b
}

func varint(n int) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return []byte{0xfd, byte(n), byte(n >> 8)}
	}
	return append([]byte{0xfe}, le32(uint32(n))...)
}

// Independent serialization

func putOutpoint(b []byte, o wire.OutPoint) []byte {
	b = append(b, o.Hash[:]...)
	return append(b, le32(o.Index)...)
}

func putOut(b []byte, o *wire.TxOut) []byte {
	b = append(b, le64(o.Value)...)
	b = append(b, varint(len(o.LockingScript))...)
	return append(b, o.LockingScript...)
}

func amtBytes(b []byte) Amt { return amt(binary.LittleEndian.Uint64(b)) }

// sighash

type decoded struct {
	Ver string   `json:"ver"`
	Hp  []string `json:"hp"`
	Hs  []string `json:"hs"`
	O   string   `json:"o"`
	Off int      `json:"off"`
	V   Amt      `json:"v"`
	Q   string   `json:"q"`
	Ho  []string `json:"ho"`
	Lt  string   `json:"lt"`
	T   string   `json:"t"`
}

// cache returns the named cache, or a new one.
func (w *World) cache(name string) *txbuilder.SigHashCache {
	if c, ok := w.caches[name]; ok {
		return c
	}
	c := &txbuilder.SigHashCache{}
	if name != "" {
		w.caches[name] = c
	}
	return c
}

// cacheHash calls one of the methods of the cache.
func (w *World) cacheHash(b *txbuilder.TxBuilder, a Arg, r Result) {
	cache := w.cache(a.C)
	var got, data []byte
	switch a.F {
	case "P":
		got = cache.HashPrevOuts(b.MsgTx)
		for _, in := range b.MsgTx.TxIn {
			data = putOutpoint(data, in.PreviousOutPoint)
		}
	case "S":
		got = cache.HashSequence(b.MsgTx)
		for _, in := range b.MsgTx.TxIn {
			data = append(data, le32(in.Sequence)...)
		}
	case "O":
		got = cache.HashOutputs(b.MsgTx)
		for _, o := range b.MsgTx.TxOut {
			data = putOut(data, o)
		}
	}
	w.keepBytes(got)
	r["e"] = "ok"
	r["same"] = bytes.Equal(got, dsha(data))
}

func (w *World) sighash(b *txbuilder.TxBuilder, a Arg, r Result) {
	cache := w.cache(a.C)
	script := w.u.script(a.L)
	t := txbuilder.SigHashType(a.T)
	r["p"] = decoded{Hp: []string{}, Hs: []string{}, Ho: []string{}}
	r["same"], r["dsha"], r["h"] = false, false, ""

	pre, err := txbuilder.SignatureHashPreimageBytes(b.MsgTx, a.I, script, a.V.u64(), t, cache)
	r["e"] = errClass(err)
	if err != nil {
		_, err2 := txbuilder.SignatureHash(b.MsgTx, a.I, script, a.V.u64(), t, cache)
		_, err3 := txbuilder.SignaturePreimage(b.MsgTx, a.I, script, a.V.u64(), t, cache)
		r["same"] = err2 != nil && err3 != nil
		return
	}
	pre2, err := txbuilder.SignaturePreimage(b.MsgTx, a.I, script, a.V.u64(), t, cache)
	if err != nil {
		r["e"] = errClass(err)
		return
	}
	h, err := txbuilder.SignatureHash(b.MsgTx, a.I, script, a.V.u64(), t, cache)
	if err != nil {
		r["e"] = errClass(err)
		return
	}
	w.keepBytes(pre)
	w.keepBytes(pre2)
	w.keepBytes(h[:])
	r["same"] = bytes.Equal(pre, pre2)
	r["dsha"] = bytes.Equal(h[:], dsha(pre))
	r["h"] = hex.EncodeToString(h[:10])

	d := decoded{Hp: []string{}, Hs: []string{}, Ho: []string{}, Off: -9}
	r["p"] = &d
	if len(pre) < 4+32+32+36+1+8+4+32+4+4 {
		return
	}
	zero := make([]byte, 32)
	match := func(x []byte, cands map[string][]byte) []string {
		var names []string
		for n, c := range cands {
			if bytes.Equal(x, c) {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		if names == nil {
			return []string{}
		}
		return names
	}
	var prevs, seqs, outs []byte
	for _, in := range b.MsgTx.TxIn {
		prevs = putOutpoint(prevs, in.PreviousOutPoint)
		seqs = append(seqs, le32(in.Sequence)...)
	}
	single := map[string][]byte{"Z": zero}
	for i, o := range b.MsgTx.TxOut {
		outs = putOut(outs, o)
		single[fmt.Sprintf("o%d", i)] = dsha(putOut(nil, o))
	}
	single["O"] = dsha(outs)

	d.Ver = strconv.Itoa(int(int32(binary.LittleEndian.Uint32(pre))))
	pre = pre[4:]
	d.Hp = match(pre[:32], map[string][]byte{"Z": zero, "P": dsha(prevs)})
	d.Hs = match(pre[32:64], map[string][]byte{"Z": zero, "S": dsha(seqs)})
	pre = pre[64:]
	var hash bitcoin.Hash32
	copy(hash[:], pre)
	d.O = w.u.outpointName(hash, binary.LittleEndian.Uint32(pre[32:]))
	pre = pre[36:]
	// script code
	n := int(pre[0])
	pre = pre[1:]
	switch n {
	case 0xfd:
		n = int(binary.LittleEndian.Uint16(pre))
		pre = pre[2:]
	case 0xfe:
		n = int(binary.LittleEndian.Uint32(pre))
		pre = pre[4:]
	case 0xff:
		n = -1
	}
	if n < 0 || len(pre) != n+8+4+32+4+4 {
		return
	}
	if n <= len(script) && bytes.Equal(pre[:n], script[len(script)-n:]) {
		d.Off = len(script) - n
	}
	pre = pre[n:]
	d.V = amtBytes(pre)
	d.Q = fmt.Sprintf("%08x", binary.LittleEndian.Uint32(pre[8:]))
	pre = pre[12:]
	d.Ho = match(pre[:32], single)
	d.Lt = strconv.FormatUint(uint64(binary.LittleEndian.Uint32(pre[32:])), 10)
	d.T = fmt.Sprintf("%x", binary.LittleEndian.Uint32(pre[36:]))
}

// helper sets the unlocking script of an input with the stand-alone unlocking script functions.
func (w *World) helper(b *txbuilder.TxBuilder, a Arg) error {
	cache := &txbuilder.SigHashCache{}
	script := b.Inputs[a.I].LockingScript
	value := b.Inputs[a.I].Value
	info := w.u.Scripts[w.u.scriptID(script)-1]
	t := txbuilder.SigHashType(a.T)
	var us []byte
	var err error
	switch info.Kind {
	case "p2pkh":
		us, err = txbuilder.P2PKHUnlockingScript(w.u.keys[a.Keys[0]-1], b.MsgTx, a.I, script, value, t, cache)
	case "p2pk":
		us, err = txbuilder.P2PKUnlockingScript(w.u.keys[a.Keys[0]-1], b.MsgTx, a.I, script, value, t, cache)
	case "multi":
		var pubs, sigs [][]byte
		use := map[int]bool{}
		for _, k := range a.Keys {
			use[k] = true
		}
		count := 0
		for _, k := range info.Keys {
			key := w.u.keys[k-1]
			pubs = append(pubs, key.PublicKey().Bytes())
			if use[k] && count < info.Req {
				sig, err := txbuilder.InputSignature(key, b.MsgTx, a.I, script, value, t, cache)
				if err != nil {
					return err
				}
				w.keepBytes(sig)
				sigs = append(sigs, sig)
				count++
			} else {
				sigs = append(sigs, nil)
			}
		}
		us, err = txbuilder.P2MultiPKHUnlockingScript(uint16(info.Req), pubs, sigs)
	default:
		return errors.New("kind")
	}
	if err != nil {
		return err
	}
	b.MsgTx.TxIn[a.I].UnlockingScript = us
	return nil
}

// breaking

func (w *World) breakValue(a Arg, r Result) bool {
	as := w.addrs(a.Addrs)
	before := digestAddrs(as)
	var outs []*txbuilder.Output
	var err error
	modified := false
	if a.F == "addresses" {
		outs, err = txbuilder.BreakValue(a.V.u64(), a.Bv.u64(), as, w.u.rates[a.Dr-1], w.u.rates[a.Fr-1], a.Last, a.Sub)
		modified = before != digestAddrs(as)
	} else {
		var scripts []bitcoin.Script
		for _, x := range a.Addrs {
			scripts = append(scripts, w.u.script(x.L))
		}
		outs, err = txbuilder.BreakValueLockingScripts(a.V.u64(), a.Bv.u64(), scripts, w.u.rates[a.Dr-1], w.u.rates[a.Fr-1], a.Last, a.Sub)
		for i, x := range a.Addrs {
			if !bytes.Equal(scripts[i], w.u.script(x.L)) {
				modified = true
			}
		}
	}
	r["e"] = errClass(err)
	w.keep(func() string {
		s := ""
		for _, o := range outs {
			s += fmt.Sprint(o.TxOut.Value, o.TxOut.LockingScript, o.Supplement)
		}
		return s
	})
	list := []Out{}
	for _, o := range outs {
		list = append(list, Out{L: w.u.scriptID(o.TxOut.LockingScript), V: amt(o.TxOut.Value), R: o.Supplement.IsRemainder,
			D: o.Supplement.IsDust, K: o.Supplement.KeyID})
	}
	r["outs"] = list
	return modified
}

// perms shuffles n distinct outputs many times and returns all the orders seen.
func (w *World) perms(a Arg, r Result) {
	seen := map[string][]int{}
	for round := 0; round < 250; round++ {
		b := txbuilder.NewTxBuilder(0, 0)
		for i := 0; i < a.N; i++ {
			if err := b.AddOutput(w.u.script(1), uint64(1000+i), false, false); err != nil {
				r["e"] = errClass(err)
				r["orders"] = [][]int{}
				return
			}
		}
		if a.I < 0 {
			b.RandomizeOutputs()
		} else {
			b.RandomizeOutputsAfter(a.I)
		}
		var order []int
		for _, o := range b.MsgTx.TxOut {
			order = append(order, int(o.Value)-1000)
		}
		seen[fmt.Sprint(order)] = order
	}
	r["e"] = "ok"
	r["orders"] = sortOrders(seen)
}

func sortOrders(seen map[string][]int) [][]int {
	orders := [][]int{}
	var keys []string
	for k := range seen {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		orders = append(orders, seen[k])
	}
	return orders
}

// breakOrders breaks a large value over n addresses or scripts many times and returns all the orders
// they are paid in, or the positions of the rest when breaking a quantity.
func (w *World) breakOrders(a Arg, r Result) {
	const value, breakValue = 1000000000, 10
	r["orders"] = [][]int{}
	var addrs []txbuilder.AddressKeyID
	var scripts []bitcoin.Script
	position := map[string]int{}
	for i := 0; i < a.N; i++ {
		addrs = append(addrs, txbuilder.AddressKeyID{Address: w.u.addr(i + 1)})
		scripts = append(scripts, w.u.script(i+1))
		position[string(w.u.script(i+1))] = i
	}
	seen := map[string][]int{}
	for round := 0; round < 300; round++ {
		order := []int{}
		var err error
		if a.F == "quantity" {
			var vs []uint64
			vs, err = txbuilder.BreakQuantity(value, breakValue, a.N)
			for i, v := range vs {
				if v > value/2 {
					order = append(order, i)
				}
			}
		} else {
			var outs []*txbuilder.Output
			if a.F == "addresses" {
				outs, err = txbuilder.BreakValue(value, breakValue, addrs, 0, 0, true, false)
			} else {
				outs, err = txbuilder.BreakValueLockingScripts(value, breakValue, scripts, 0, 0, true, false)
			}
			for _, o := range outs {
				order = append(order, position[string(o.TxOut.LockingScript)])
			}
		}
		if err != nil {
			r["e"] = errClass(err)
			return
		}
		seen[fmt.Sprint(order)] = order
	}
	r["e"] = "ok"
	r["orders"] = sortOrders(seen)
}

// breakKinds breaks a value many times and returns the multiples of the break value seen, as they are
// and varied.
func (w *World) breakKinds(a Arg, r Result) {
	r["plain"], r["varied"] = []int{}, []int{}
	var addrs []txbuilder.AddressKeyID
	var scripts []bitcoin.Script
	for i := 0; i < a.N; i++ {
		addrs = append(addrs, txbuilder.AddressKeyID{Address: w.u.addr(i + 1)})
		scripts = append(scripts, w.u.script(i+1))
	}
	value, breakValue := a.V.u64(), a.Bv.u64()
	plain, varied := map[int]bool{}, map[int]bool{}
	for round := 0; round < 1000; round++ {
		var vs []uint64
		var outs []*txbuilder.Output
		var err error
		switch a.F {
		case "quantity":
			vs, err = txbuilder.BreakQuantity(value, breakValue, a.N)
		case "addresses":
			outs, err = txbuilder.BreakValue(value, breakValue, addrs, 0, 0, true, false)
		default:
			outs, err = txbuilder.BreakValueLockingScripts(value, breakValue, scripts, 0, 0, true, false)
		}
		if err != nil {
			r["e"] = errClass(err)
			return
		}
		for _, o := range outs {
			vs = append(vs, o.TxOut.Value)
		}
		for _, v := range vs {
			for _, m := range multiples {
				base := breakValue * uint64(m)
				if v == base {
					plain[m] = true
				} else if v >= base-base/10 && v <= base+base/10 {
					varied[m] = true
				}
			}
		}
	}
	p, q := []int{}, []int{}
	for _, m := range multiples {
		if plain[m] {
			p = append(p, m)
		}
		if varied[m] {
			q = append(q, m)
		}
	}
	r["e"] = "ok"
	r["plain"], r["varied"] = p, q
}

var multiples = []int{1, 2, 5, 10, 20, 50, 100, 200, 500, 1000, 2000, 5000}

// stand-alone functions

func (w *World) function(a Arg, r Result) {
	script := w.u.script(a.L)
	fr, dr := float32(0), float32(0)
	if a.Fr > 0 {
		fr = w.u.rates[a.Fr-1]
	}
	if a.Dr > 0 {
		dr = w.u.rates[a.Dr-1]
	}
	out := &wire.TxOut{LockingScript: script, Value: 5}
	utxo := bitcoin.UTXO{LockingScript: script, Value: 7}
	ra := w.u.addr(a.L)
	r["e"] = "ok"
	r["x"] = []Amt{}
	n := func(x ...int) {
		l := []Amt{}
		for _, v := range x {
			l = append(l, samt(int64(v)))
		}
		r["x"] = l
	}
	u := func(x ...uint64) {
		l := []Amt{}
		for _, v := range x {
			l = append(l, amt(v))
		}
		r["x"] = l
	}
	e := func(err error) { r["e"] = errClass(err) }
	f64, d64 := float64(fr), float64(dr)

	switch a.F {
	case "UnlockingScriptSize":
		x, err := txbuilder.UnlockingScriptSize(script)
		n(x)
		e(err)
	case "InputSize":
		x, err := txbuilder.InputSize(script)
		n(x)
		e(err)
	case "OutputSize":
		n(txbuilder.OutputSize(script))
	case "VarInt":
		n(txbuilder.VarIntSerializeSize(a.V.u64()))
	case "FeeValue":
		u(txbuilder.EstimatedFeeValue(uint64(a.N), f64))
	case "FeeValueDown":
		u(txbuilder.EstimatedFeeValueDown(uint64(a.N), f64))
	case "DustLimit":
		u(txbuilder.DustLimit(a.N, dr))
	case "DustForOutput":
		u(txbuilder.DustLimitForOutput(out, dr))
	case "DustForAddress":
		x, err := txbuilder.DustLimitForAddress(ra, dr)
		u(x)
		e(err)
	case "DustForScript":
		u(txbuilder.DustLimitForLockingScript(script, dr))
	case "OutFeeDust":
		u(txbuilder.OutputFeeAndDustForLockingScript(script, dr, fr))
	case "OutFeeDustAddr":
		x, y, err := txbuilder.OutputFeeAndDustForAddress(ra, dr, fr)
		u(x, y)
		e(err)
	case "TotalCost":
		x, y, err := txbuilder.OutputTotalCost(script, fr)
		u(x, y)
		e(err)
	case "UTXOFee":
		x, err := txbuilder.UTXOFee(utxo, fr)
		u(x)
		e(err)
	case "UTXOSizeFee":
		x, y, err := txbuilder.UTXOInputSizeAndFee(utxo, fr)
		u(uint64(x), y)
		e(err)
	case "InFee":
		x, err := txbuilder.LockingScriptInputFee(script, fr)
		u(x)
		e(err)
	case "AddrOutFee":
		x, err := txbuilder.AddressOutputFee(ra, fr)
		u(x)
		e(err)
	case "OutFee":
		u(txbuilder.LockingScriptOutputFee(script, fr))
	case "f.FeeValue":
		u(fees.EstimateFeeValue(a.N, f64))
	case "f.UnlockingSize":
		x, err := fees.EstimateUnlockingSize(script)
		n(x)
		e(err)
	case "f.TotalCost":
		x, y, err := fees.OutputTotalCost(script, f64)
		u(x, y)
		e(err)
	case "f.InputSizeFor":
		n(fees.InputSizeForUnlockingScriptSize(a.N))
	case "f.OutputSize":
		n(fees.OutputSize(script))
	case "f.OutputSizeFor":
		n(fees.OutputSizeForLockingScriptSize(a.N))
	case "f.DustLimit":
		u(fees.DustLimit(a.N, d64))
	case "f.DustForOutput":
		u(fees.DustLimitForOutput(out, d64))
	case "f.DustForScript":
		u(fees.DustLimitForLockingScript(script, d64))
	case "f.DustForSize":
		u(fees.DustLimitForLockingScriptSize(a.N, d64))
	case "f.OutFee":
		u(fees.OutputFeeForLockingScript(script, f64))
	case "f.OutFeeDust":
		u(fees.OutputFeeAndDustForLockingScript(script, d64, f64))
	case "f.OutSizeDust":
		x, y := fees.OutputSizeAndDustForLockingScript(script, d64)
		u(uint64(x), y)
	default:
		panic("fn " + a.F)
	}
}

var fnNames = []string{"UnlockingScriptSize", "InputSize", "OutputSize", "VarInt", "FeeValue", "FeeValueDown", "DustLimit",
	"DustForOutput", "DustForAddress", "DustForScript", "OutFeeDust", "OutFeeDustAddr", "TotalCost", "UTXOFee",
	"UTXOSizeFee", "InFee", "AddrOutFee", "OutFee", "f.FeeValue", "f.UnlockingSize", "f.TotalCost", "f.InputSizeFor",
	"f.OutputSize", "f.OutputSizeFor", "f.DustLimit", "f.DustForOutput", "f.DustForScript", "f.DustForSize", "f.OutFee",
	"f.OutFeeDust", "f.OutSizeDust"}

// fees package on a whole transaction

type fakeTx struct {
	tx   *wire.MsgTx
	outs []*wire.TxOut // nil entries are unknown
}

func (f *fakeTx) GetMsgTx() *wire.MsgTx    { return f.tx }
func (f *fakeTx) TxID() bitcoin.Hash32     { return *f.tx.TxHash() }
func (f *fakeTx) InputCount() int          { return len(f.tx.TxIn) }
func (f *fakeTx) Input(i int) *wire.TxIn   { return f.tx.TxIn[i] }
func (f *fakeTx) OutputCount() int         { return len(f.tx.TxOut) }
func (f *fakeTx) Output(i int) *wire.TxOut { return f.tx.TxOut[i] }
func (f *fakeTx) InputOutput(i int) (*wire.TxOut, error) {
	if i >= len(f.outs) || f.outs[i] == nil {
		return nil, errors.New("unknown output")
	}
	return f.outs[i], nil
}

// fakeUnlocker has a size for every script that is a function of its length and number.
type fakeUnlocker struct {
	bitcoin_interpreter.Unlocker
	u   *Universe
	bad map[int]bool
}

func (f *fakeUnlocker) UnlockingSize(s bitcoin.Script) (int, error) {
	id := f.u.scriptID(s)
	if id <= 0 || f.bad[id] {
		return 0, errors.New("can't unlock")
	}
	return 3*len(s) + id, nil
}

func (w *World) feesTx(b *txbuilder.TxBuilder, a Arg, r Result) {
	f := &fakeTx{tx: b.MsgTx}
	for _, in := range b.Inputs {
		f.outs = append(f.outs, &wire.TxOut{LockingScript: in.LockingScript, Value: in.Value})
	}
	unlocker := &fakeUnlocker{u: w.u, bad: map[int]bool{}}
	for _, l := range a.Unl {
		unlocker.bad[l] = true
	}
	if a.I >= 0 && a.I < len(f.outs) {
		f.outs[a.I] = nil
	}
	rate := float64(w.u.rates[a.Fr-1])
	res := func(v Amt, err error) map[string]interface{} {
		if err != nil {
			return map[string]interface{}{"e": "err", "x": Amt{}}
		}
		return map[string]interface{}{"e": "ok", "x": v}
	}
	size, err := fees.EstimateSize(f, unlocker)
	r["size"] = res(samt(int64(size)), err)
	fee, err := fees.EstimateFee(f, unlocker, rate)
	r["est"] = res(amt(fee), err)
	iv, err := fees.InputsValue(f)
	r["in"] = res(amt(iv), err)
	r["out"] = amt(fees.OutputsValue(f))
	af, err := fees.Fee(f)
	r["fee"] = res(samt(af), err)
	sizes, values := []interface{}{}, []interface{}{}
	for i, in := range b.MsgTx.TxIn {
		o := &wire.TxOut{LockingScript: b.Inputs[i].LockingScript, Value: b.Inputs[i].Value}
		n, err := fees.EstimateInputSize(in, o.LockingScript, unlocker)
		sizes = append(sizes, res(samt(int64(n)), err))
		v, err := fees.InputValue(in, o)
		values = append(values, res(amt(v), err))
	}
	r["sizes"], r["values"] = sizes, values
	r["e"] = "ok"
}

// imports

func (w *World) msgTx(d *TxDesc) *wire.MsgTx {
	ver, err := strconv.ParseInt(d.Ver, 10, 32)
	must(err)
	lt, err := strconv.ParseUint(d.Lt, 10, 32)
	must(err)
	tx := wire.NewMsgTx(int32(ver))
	tx.LockTime = uint32(lt)
	for _, in := range d.Ins {
		seq, err := strconv.ParseUint(in.Q, 16, 32)
		must(err)
		x := &wire.TxIn{PreviousOutPoint: w.u.outpoint(in.O), Sequence: uint32(seq)}
		switch in.U.C {
		case "d":
			x.UnlockingScript = embed(uint64(in.U.Z), in.U.Y.u64())
		case "s":
			x.UnlockingScript = bytes.Repeat([]byte{bitcoin.OP_1}, in.U.N)
		}
		tx.AddTxIn(x)
	}
	for _, o := range d.Outs {
		tx.AddTxOut(&wire.TxOut{Value: o.V.u64(), LockingScript: w.u.script(o.L)})
	}
	return tx
}

func (w *World) importTx(o Op, r Result) {
	a := o.A
	fr, dr := w.u.rates[a.Fr-1], w.u.rates[a.Dr-1]
	var b *txbuilder.TxBuilder
	var err error
	if o.Op == "reimport" {
		c := w.b[a.Src].Copy()
		b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(fr, dr, &c)
	} else {
		tx := w.msgTx(a.Tx)
		switch a.F {
		case "wire":
			var srcs []*wire.MsgTx
			for _, name := range a.Txs {
				c := w.u.srcs[name].Copy()
				srcs = append(srcs, &c)
			}
			b, err = txbuilder.NewTxBuilderFromWire(fr, dr, tx, srcs)
		case "utxos":
			b, err = txbuilder.NewTxBuilderFromWireUTXOs(fr, dr, tx, w.utxos(a.Data))
		case "two":
			f := &fakeTx{tx: tx}
			for _, in := range a.Tx.Ins {
				var out *wire.TxOut
				for _, d := range a.Data {
					if d.O == in.O {
						out = &wire.TxOut{Value: d.V.u64(), LockingScript: w.u.script(d.L)}
						break
					}
				}
				f.outs = append(f.outs, out)
			}
			b, err = txbuilder.NewTxBuilderFromTransactionWithOutputs(fr, dr, f)
		default:
			panic("import " + a.F)
		}
	}
	r["e"] = errClass(err)
	r["nil"] = b == nil
	if b != nil && (err == nil || errors.Is(err, txbuilder.ErrMissingInputData)) {
		w.b[o.B] = b
	}
}

// printed and serialized forms

type reader struct {
	b   []byte
	bad bool
}

func (r *reader) take(n int) []byte {
	if r.bad || n < 0 || n > len(r.b) {
		r.bad = true
		return make([]byte, 36)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *reader) count() int {
	c := r.take(1)
	switch c[0] {
	case 0xfd:
		return int(binary.LittleEndian.Uint16(r.take(2)))
	case 0xfe:
		return int(binary.LittleEndian.Uint32(r.take(4)))
	case 0xff:
		r.bad = true
		return 0
	}
	return int(c[0])
}

func (w *World) decodeTx(r *reader, extended bool) (*TxDesc, []*wire.TxOut, [][]byte) {
	d := &TxDesc{Ins: []In{}, Outs: []Out{}}
	d.Ver = strconv.Itoa(int(int32(binary.LittleEndian.Uint32(r.take(4)))))
	if extended {
		if !bytes.Equal(r.take(6), []byte{0, 0, 0, 0, 0, 0xef}) {
			r.bad = true
		}
	}
	var spent []*wire.TxOut
	var unlocks [][]byte
	n := r.count()
	for i := 0; i < n && !r.bad; i++ {
		o := r.take(36)
		var hash bitcoin.Hash32
		copy(hash[:], o)
		in := In{O: w.u.outpointName(hash, binary.LittleEndian.Uint32(o[32:]))}
		us := r.take(r.count())
		in.U = w.unlock(us)
		unlocks = append(unlocks, us)
		in.Q = fmt.Sprintf("%08x", binary.LittleEndian.Uint32(r.take(4)))
		if extended {
			v := binary.LittleEndian.Uint64(r.take(8))
			ls := r.take(r.count())
			spent = append(spent, &wire.TxOut{Value: v, LockingScript: ls})
			in.V = amt(v)
			in.L = w.u.scriptID(ls)
		}
		d.Ins = append(d.Ins, in)
	}
	n = r.count()
	for i := 0; i < n && !r.bad; i++ {
		v := amtBytes(r.take(8))
		d.Outs = append(d.Outs, Out{V: v, L: w.u.scriptID(r.take(r.count()))})
	}
	d.Lt = strconv.FormatUint(uint64(binary.LittleEndian.Uint32(r.take(4))), 10)
	return d, spent, unlocks
}

func reverseHex(b []byte) string {
	c := make([]byte, len(b))
	for i := range b {
		c[len(b)-1-i] = b[i]
	}
	return hex.EncodeToString(c)
}

var (
	reHead  = regexp.MustCompile(`^TxId: ([0-9a-f]{64}) \((\d+) bytes\) \((\d+) estimated / (\d+) fee\)$`)
	reValue = regexp.MustCompile(`^(\d+)\.(\d{8})$`)
	reFee   = regexp.MustCompile(`^(Fee|Negative fee): -?(\d+) \(inputs (\d+), outputs (\d+)\)$`)
)

type printed struct {
	O   string `json:"o"`
	Q   string `json:"q"`
	V   Amt    `json:"v"`
	K   string `json:"k"`
	R   bool   `json:"r"`
	D   bool   `json:"d"`
	Us  bool   `json:"us"`
	Ls  bool   `json:"ls"`
	Adr bool   `json:"adr"`
	Any bool   `json:"any"` // an address is printed
	Est int    `json:"est"`
	Y   Amt    `json:"y"`
	Z   int    `json:"z"`
}

func pu(s string) uint64 { v, _ := strconv.ParseUint(s, 10, 64); return v }

func (w *World) text(b *txbuilder.TxBuilder, r Result) {
	r["e"] = "ok"
	// serialized
	raw, err := b.Serialize()
	if err != nil {
		r["e"] = "other"
		raw = nil
	}
	w.keepBytes(raw)
	rd := &reader{b: raw}
	d, _, _ := w.decodeTx(rd, false)
	r["dec"] = d
	r["exact"] = !rd.bad && len(rd.b) == 0
	id := reverseHex(dsha(raw))
	r["id"] = b.TxID().String() == id
	r["len"] = len(raw)

	// String
	net := bitcoin.MainNet
	if len(raw)%2 == 1 {
		net = bitcoin.TestNet
	}
	s := b.String(net)
	p := Result{"id": false, "ser": -1, "est": -1, "fee": Amt{-1, 0}, "ver": "", "lt": ""}
	ins, outs := []*printed{}, []*printed{}
	var cur *printed
	section := 0
	address := func(ls bitcoin.Script) string {
		ra, err := bitcoin.RawAddressFromLockingScript(ls)
		if err != nil {
			return ""
		}
		return bitcoin.NewAddressFromRawAddress(ra, net).String()
	}
	for i, line := range strings.Split(s, "\n") {
		if i == 0 {
			if m := reHead.FindStringSubmatch(line); m != nil {
				p["id"] = m[1] == id
				p["ser"], p["est"] = int(pu(m[2])), int(pu(m[3]))
				p["fee"] = amt(pu(m[4]))
			}
			continue
		}
		t := strings.TrimSpace(line)
		key, val := t, ""
		if j := strings.Index(t, ":"); j >= 0 {
			key, val = strings.TrimSpace(t[:j]), strings.TrimSpace(t[j+1:])
		}
		switch key {
		case "Version":
			p["ver"] = val
		case "LockTime":
			p["lt"] = val
		case "Inputs":
			section = 1
		case "Outputs":
			section = 2
		case "Outpoint":
			cur = &printed{}
			ins = append(ins, cur)
			f := strings.Split(val, " - ")
			if len(f) == 2 {
				if h, err := bitcoin.NewHash32FromStr(f[1]); err == nil {
					cur.O = w.u.outpointName(*h, uint32(pu(f[0])))
				}
			}
		case "UnlockingScript":
			if len(ins) <= len(b.MsgTx.TxIn) && cur != nil {
				cur.Us = val == strings.TrimSpace(b.MsgTx.TxIn[len(ins)-1].UnlockingScript.String())
			}
		case "Sequence":
			if v, err := strconv.ParseUint(val, 16, 64); err == nil {
				cur.Q = fmt.Sprintf("%08x", v)
			}
		case "Value":
			if section == 2 {
				cur = &printed{}
				outs = append(outs, cur)
				if m := reValue.FindStringSubmatch(val); m != nil {
					cur.V = amt(pu(m[1])*100000000 + pu(m[2]))
				} else {
					cur.V = Amt{-1, 0}
				}
			} else {
				cur.V = amt(pu(val))
			}
		case "LockingScript":
			if section == 1 && len(ins) <= len(b.Inputs) {
				cur.Ls = val == strings.TrimSpace(b.Inputs[len(ins)-1].LockingScript.String())
			} else if section == 2 && len(outs) <= len(b.MsgTx.TxOut) {
				cur.Ls = val == strings.TrimSpace(b.MsgTx.TxOut[len(outs)-1].LockingScript.String())
			}
		case "Address":
			cur.Any = true
			if section == 1 && len(ins) <= len(b.Inputs) {
				cur.Adr = val != "" && val == address(b.Inputs[len(ins)-1].LockingScript)
			} else if section == 2 && len(outs) <= len(b.MsgTx.TxOut) {
				cur.Adr = val != "" && val == address(b.MsgTx.TxOut[len(outs)-1].LockingScript)
			}
		case "KeyID":
			cur.K = val
		case "IsRemainder":
			cur.R = true
		case "IsDust":
			cur.D = true
		}
	}
	p["ins"], p["outs"] = ins, outs
	r["str"] = p

	// TxString
	r["two"] = w.txString(b, b, id)
	r["bare"] = w.txString(b, bare{b}, id)

	r["js"] = w.jsonForm(b)
}

// jsonForm reads the data that accompanies a transaction from its JSON form.
func (w *World) jsonForm(b *txbuilder.TxBuilder) Result {
	type input struct {
		L int    `json:"l"`
		V Amt    `json:"v"`
		K string `json:"k"`
	}
	type output struct {
		R bool   `json:"r"`
		D bool   `json:"d"`
		K string `json:"k"`
	}
	read := func(v, back interface{}) map[string]interface{} {
		j, err := json.Marshal(v)
		must(err)
		m := map[string]interface{}{}
		d := json.NewDecoder(bytes.NewReader(j))
		d.UseNumber()
		if d.Decode(&m) != nil || json.Unmarshal(j, back) != nil {
			return map[string]interface{}{}
		}
		return m
	}
	str := func(v interface{}) string {
		s, _ := v.(string)
		return s
	}
	flag := func(v interface{}) bool {
		f, ok := v.(bool)
		return ok && f
	}
	ins, outs := []input{}, []output{}
	back := true
	for _, in := range b.Inputs {
		var c txbuilder.InputSupplement
		m := read(in, &c)
		x := input{L: -1, V: Amt{-1, 0}, K: str(m["key_id"])}
		if ls, err := hex.DecodeString(str(m["locking_script"])); err == nil {
			x.L = w.u.scriptID(ls)
		}
		if n, ok := m["value"].(json.Number); ok {
			if v, err := strconv.ParseUint(n.String(), 10, 64); err == nil {
				x.V = amt(v)
			}
		}
		ins = append(ins, x)
		back = back && c.LockingScript.Equal(in.LockingScript) && c.Value == in.Value && c.KeyID == in.KeyID
	}
	for _, o := range b.Outputs {
		var c txbuilder.OutputSupplement
		m := read(o, &c)
		outs = append(outs, output{R: flag(m["is_remainder"]), D: flag(m["is_dust"]), K: str(m["key_id"])})
		back = back && c.IsRemainder == o.IsRemainder && c.IsDust == o.IsDust && c.KeyID == o.KeyID
	}
	return Result{"ins": ins, "outs": outs, "back": back}
}

// bare is a transaction for which the outputs spent by inputs with embedded data are not known.
type bare struct {
	*txbuilder.TxBuilder
}

func (t bare) InputOutput(i int) (*wire.TxOut, error) {
	msg, _, err := channels.NewProtocols(unlocking_data.NewProtocol()).Parse(t.MsgTx.TxIn[i].UnlockingScript)
	if _, ok := msg.(*unlocking_data.UnlockingData); err == nil && ok && len(t.Inputs[i].LockingScript) == 0 {
		return nil, errors.New("unknown")
	}
	return t.TxBuilder.InputOutput(i)
}

func (w *World) txString(b *txbuilder.TxBuilder, tx expanded_tx.TransactionWithOutputs, id string) Result {
	s := txbuilder.TxString(tx)
	p := Result{"id": false, "ni": -1, "no": -1, "lt": "", "raw": -1, "est": -1, "kind": "none", "fee": Amt{}, "in": Amt{},
		"out": Amt{}, "rate": "none"}
	ins, outs := []*printed{}, []*printed{}
	var cur *printed
	section := 0
	embedded := false
	for _, line := range strings.Split(s, "\n") {
		t := strings.TrimSpace(line)
		if m := reFee.FindStringSubmatch(t); m != nil {
			p["kind"] = "fee"
			if m[1] != "Fee" {
				p["kind"] = "neg"
			}
			p["fee"], p["in"], p["out"] = amt(pu(m[2])), amt(pu(m[3])), amt(pu(m[4]))
			continue
		}
		key, val := t, ""
		if j := strings.Index(t, ":"); j >= 0 {
			key, val = strings.TrimSpace(t[:j]), strings.TrimSpace(t[j+1:])
		}
		switch {
		case key == "TxID":
			p["id"] = val == id
		case strings.HasPrefix(key, "Inputs "):
			section = 1
			p["ni"] = int(pu(key[7:]))
		case strings.HasPrefix(key, "Outputs "):
			section = 2
			p["no"] = int(pu(key[8:]))
		case key == "Outpoint":
			cur = &printed{Est: -1, Z: -1, V: Amt{-1, 0}, Y: Amt{-1, 0}}
			embedded = false
			ins = append(ins, cur)
			if f := strings.Split(val, ":"); len(f) == 2 {
				if h, err := bitcoin.NewHash32FromStr(f[0]); err == nil {
					cur.O = w.u.outpointName(*h, uint32(pu(f[1])))
				}
			}
		case key == "Unlocking script":
			if len(ins) <= len(b.MsgTx.TxIn) {
				cur.Us = val == strings.TrimSpace(b.MsgTx.TxIn[len(ins)-1].UnlockingScript.String())
			}
		case key == "Sequence":
			if v, err := strconv.ParseUint(strings.TrimPrefix(val, "0x"), 16, 64); err == nil {
				cur.Q = fmt.Sprintf("%08x", v)
			}
		case key == "Estimated unlocking script size":
			cur.Est = int(pu(val))
		case key == "Embedded unlocking data":
			embedded = true
		case key == "Size" && embedded:
			cur.Z = int(pu(val))
		case key == "Locking script":
			if section == 1 && len(ins) <= len(b.Inputs) {
				cur.Ls = val == strings.TrimSpace(b.Inputs[len(ins)-1].LockingScript.String())
			} else if section == 2 {
				cur = &printed{V: Amt{-1, 0}, Y: Amt{-1, 0}}
				outs = append(outs, cur)
				if len(outs) <= len(b.MsgTx.TxOut) {
					cur.Ls = val == strings.TrimSpace(b.MsgTx.TxOut[len(outs)-1].LockingScript.String())
				}
			}
		case key == "Value":
			if embedded && section == 1 {
				cur.Y = amt(pu(val))
			} else {
				cur.V = amt(pu(val))
			}
		case key == "Locktime":
			p["lt"] = val
		case key == "Raw size":
			p["raw"] = int(pu(strings.TrimSuffix(val, " bytes")))
		case key == "Estimated tx size":
			p["est"] = int(pu(strings.TrimSuffix(val, " bytes")))
		case key == "Fee rate":
			p["rate"] = "bad"
			x, ok := new(big.Rat).SetString(strings.TrimSuffix(val, " sat/byte"))
			est := p["est"].(int)
			if ok && est > 0 {
				fee := new(big.Rat).SetInt64(p["fee"].(Amt).i64())
				want := new(big.Rat).Quo(fee, new(big.Rat).SetInt64(int64(est)))
				diff := new(big.Rat).Sub(x, want)
				diff.Abs(diff)
				// rounding of the printed digits and of single precision arithmetic
				tol := new(big.Rat).Add(big.NewRat(1, 19000), new(big.Rat).Mul(want, big.NewRat(1, 4000000)))
				if diff.Cmp(tol) <= 0 {
					p["rate"] = "ok"
				}
			}
		}
	}
	p["ins"], p["outs"] = ins, outs
	return p
}
