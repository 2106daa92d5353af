package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"github.com/pkg/errors"
	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/channels"
	"github.com/tokenized/channels/unlocking_data"
	"github.com/tokenized/envelope/pkg/golang/envelope/v1"
	"github.com/tokenized/logger"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
	"github.com/tokenized/txbuilder"
)

// Recorded forms

type UTXO struct {
	O string `json:"o"`
	L int    `json:"l"`
	V Amt    `json:"v"`
	K string `json:"k"`
}

type Out struct {
	L int    `json:"l"`
	V Amt    `json:"v"`
	R bool   `json:"r"`
	D bool   `json:"d"`
	K string `json:"k"`
}

type Addr struct {
	L int    `json:"l"`
	K string `json:"k"`
}

type Unl struct {
	C  string `json:"c"`
	N  int    `json:"n"`
	Z  int    `json:"z"`
	Y  Amt    `json:"y"`
	H  string `json:"h"`
	Ks []int  `json:"ks"`
}

type In struct {
	O string `json:"o"`
	Q string `json:"q"`
	L int    `json:"l"`
	V Amt    `json:"v"`
	K string `json:"k"`
	U Unl    `json:"u"`
}

type State struct {
	Ver  string  `json:"ver"`
	Lt   string  `json:"lt"`
	Ins  []In    `json:"ins"`
	Outs []Out   `json:"outs"`
	Si   int     `json:"si"`
	So   int     `json:"so"`
	Chg  int     `json:"chg"`
	Ck   string  `json:"ck"`
	Sm   bool    `json:"sm"`
	Fr   int     `json:"fr"`
	Dr   int     `json:"dr"`
	Ok   []int   `json:"ok"`
	Sf   [][]int `json:"sf"`
}

type TxDesc struct {
	Ver  string `json:"ver"`
	Lt   string `json:"lt"`
	Ins  []In   `json:"ins"`
	Outs []Out  `json:"outs"`
}

// Arg holds the arguments of any operation; which ones are recorded depends on the operation.
type Arg struct {
	U     UTXO     `json:"u"`
	Us    []UTXO   `json:"us"`
	I     int      `json:"i"`
	L     int      `json:"l"`
	V     Amt      `json:"v"`
	R     bool     `json:"r"`
	D     bool     `json:"d"`
	K     string   `json:"k"`
	Outs  []Out    `json:"outs"`
	Addrs []Addr   `json:"addrs"`
	Bv    Amt      `json:"bv"`
	Keys  []int    `json:"keys"`
	Again string   `json:"again"`
	Fr    int      `json:"fr"`
	Dr    int      `json:"dr"`
	Src   string   `json:"src"`
	F     string   `json:"f"`
	N     int      `json:"n"`
	T     int      `json:"t"`
	C     string   `json:"c"`
	Tx    *TxDesc  `json:"tx"`
	Data  []UTXO   `json:"data"`
	Txs   []string `json:"txs"`
	Last  bool     `json:"last"`
	Sub   bool     `json:"sub"`
	Unl   []int    `json:"unl"`
	Twin  bool     `json:"twin"`
	Zero  []bool   `json:"zero"`
}

var argFields = map[string]string{
	"new": "fr dr", "addInputUTXO": "u", "addInput": "u", "insertInput": "i u", "updateInput": "i u",
	"removeInput": "i", "addOutput": "l v r d", "insertOutput": "i l v r d", "addPayment": "l v r",
	"addDust": "l r", "addMax": "l", "addMaxScript": "l", "removeOutput": "i", "addValue": "i v",
	"subValue": "i v", "setDust": "i", "updateOutput": "i l", "addOutputs": "outs",
	"setChangeAddr": "l k", "setChangeScript": "l k", "addFunding": "us", "breakFund": "us bv addrs",
	"adjustFee": "v", "calcFee": "", "zeroFee": "", "sign": "keys again", "signOnly": "keys",
	"signP2PKH": "i keys", "randomize": "", "randomizeAfter": "i", "copy": "src", "direct": "f i n",
	"oob": "i", "fn": "f l fr dr n v", "import": "f tx data zero fr dr", "sighash": "i l v t c",
	"cacheClear": "c", "cacheHash": "f c", "cacheClearOut": "c", "break": "f v bv addrs fr dr last sub",
	"breakQ": "v bv n", "breakOrders": "f n", "breakKinds": "f v bv n", "perms": "n i", "text": "", "together": "", "feestx": "fr unl i", "helper": "i keys t",
	"reimport": "src zero fr dr", "query": "",
}

// Op is a step of a script.
type Op struct {
	Op string `json:"op"`
	B  string `json:"b"`
	A  Arg    `json:"a"`
}

type Result map[string]interface{}

// Event is a recorded step.
type Event struct {
	T  int                    `json:"t"`
	F  bool                   `json:"f"`
	Op string                 `json:"op"`
	B  string                 `json:"b"`
	A  map[string]interface{} `json:"a"`
	R  Result                 `json:"r"`
	S  map[string]*State      `json:"s"`
	Q  Result                 `json:"q"`
	M  bool                   `json:"m"` // arguments were modified
	W  bool                   `json:"w"` // twin of the event before
}

// World runs operations against the real builder.
type World struct {
	u        *Universe
	b        map[string]*txbuilder.TxBuilder
	order    []string
	caches   map[string]*txbuilder.SigHashCache
	events   []*Event
	ops      []Op
	trace    int
	verify   bool
	query    bool
	dead     bool
	memo     map[[32]byte]int
	given    []givenOutput
	kept     []keptResult
	lastSign string
	lastKeys []int
	lastErr  string
	rng      *rand.Rand
	ctx      context.Context
}

type givenOutput struct {
	p    *txbuilder.Output
	copy txbuilder.Output
}

// keptResult is something a call returned.
type keptResult struct {
	get  func() string
	want string
}

// keep remembers what a call returned. No later call may change it.
func (w *World) keep(get func() string) {
	w.kept = append(w.kept, keptResult{get, get()})
}

func (w *World) keepBytes(b []byte) {
	w.keep(func() string { return string(b) })
}

func newWorld(u *Universe, rng *rand.Rand) *World {
	return &World{u: u, b: map[string]*txbuilder.TxBuilder{}, caches: map[string]*txbuilder.SigHashCache{},
		memo: map[[32]byte]int{}, rng: rng, ctx: logger.ContextWithNoLogger(context.Background())}
}

func (w *World) reset(trace int) {
	w.b = map[string]*txbuilder.TxBuilder{}
	w.order = nil
	w.caches = map[string]*txbuilder.SigHashCache{}
	w.events = nil
	w.ops = nil
	w.trace = trace
	w.dead = false
	w.given = nil
	w.kept = nil
	w.lastSign = ""
	if len(w.memo) > 200000 {
		w.memo = map[[32]byte]int{}
	}
}

func (w *World) names() []string {
	var r []string
	for n := range w.b {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// errClasses are the errors callers can tell apart, however they are wrapped.
var errClasses = []struct {
	err  error
	name string
}{
	{txbuilder.ErrInsufficientValue, "insufficient"},
	{txbuilder.ErrChangeAddressNeeded, "change"},
	{txbuilder.ErrDuplicateInput, "dup"},
	{txbuilder.ErrBelowDustValue, "below"},
	{txbuilder.ErrMissingPrivateKey, "missingkey"},
	{txbuilder.ErrWrongPrivateKey, "wrongkey"},
	{txbuilder.ErrWrongScriptTemplate, "template"},
	{txbuilder.ErrMissingInputData, "missinginput"},
	{bitcoin.ErrUnknownScriptTemplate, "unknown"},
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	for _, class := range errClasses {
		if errors.Is(err, class.err) {
			return class.name
		}
	}
	return "other"
}

func (w *World) utxo(x UTXO) bitcoin.UTXO {
	o := w.u.outpoint(x.O)
	return bitcoin.UTXO{Hash: o.Hash, Index: o.Index, Value: x.V.u64(), LockingScript: w.u.script(x.L), KeyID: x.K}
}

func (w *World) utxos(x []UTXO) []bitcoin.UTXO {
	r := make([]bitcoin.UTXO, len(x))
	for i := range x {
		r[i] = w.utxo(x[i])
	}
	return r
}

func (w *World) keys(ids []int) []bitcoin.Key {
	r := make([]bitcoin.Key, 0, len(ids))
	for _, id := range ids {
		r = append(r, w.u.keys[id-1])
	}
	return r
}

func (w *World) keyIDs(keys []bitcoin.Key) []int {
	r := []int{}
	for _, k := range keys {
		id, ok := w.u.keyIDs[string(k.PublicKey().Bytes())]
		if !ok {
			id = -1
		}
		r = append(r, id)
	}
	return r
}

// embed returns an unlocking script with embedded unlocking data.
func embed(size, value uint64) bitcoin.Script {
	d, err := (&unlocking_data.UnlockingData{Size: size, Value: value}).Write()
	must(err)
	s, err := append(bitcoin.ScriptItems{}, v1.Wrap(d)...).Script()
	must(err)
	return s
}

func (w *World) unlock(s bitcoin.Script) Unl {
	r := Unl{C: "n", N: len(s), Ks: []int{}}
	if len(s) == 0 {
		return r
	}
	h := sha256.Sum256(s)
	r.H = hex.EncodeToString(h[:6])
	r.C = "s"
	if s.IsFalseOpReturn() {
		protocols := channels.NewProtocols(unlocking_data.NewProtocol())
		if msg, _, err := protocols.Parse(s); err == nil {
			if d, ok := msg.(*unlocking_data.UnlockingData); ok {
				r.C = "d"
				r.Z = int(d.Size)
				r.Y = amt(d.Value)
			}
		}
		return r
	}
	// pushes of known public keys
	items, err := bitcoin.ParseScriptItems(bytes.NewReader(s), -1)
	if err == nil {
		for _, item := range items {
			if item.Type == bitcoin.ScriptItemTypePushData {
				if id, ok := w.u.keyIDs[string(item.Data)]; ok {
					r.Ks = append(r.Ks, id)
				}
			}
		}
	}
	return r
}

func (w *World) state(b *txbuilder.TxBuilder) *State {
	s := &State{Ver: strconv.Itoa(int(b.MsgTx.Version)), Lt: strconv.FormatUint(uint64(b.MsgTx.LockTime), 10),
		Ins: []In{}, Outs: []Out{}, Si: len(b.Inputs), So: len(b.Outputs), Chg: w.u.scriptID(b.ChangeScript),
		Ck: b.ChangeKeyID, Sm: b.SendMax, Fr: w.u.rateID(b.FeeRate), Dr: w.u.rateID(b.DustFeeRate), Ok: []int{}, Sf: [][]int{}}
	for i, in := range b.MsgTx.TxIn {
		x := In{O: w.u.outpointName(in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index),
			Q: fmt.Sprintf("%08x", in.Sequence), U: w.unlock(in.UnlockingScript), L: -9}
		if i < len(b.Inputs) && b.Inputs[i] != nil {
			x.L = w.u.scriptID(b.Inputs[i].LockingScript)
			x.V = amt(b.Inputs[i].Value)
			x.K = b.Inputs[i].KeyID
		}
		s.Ins = append(s.Ins, x)
		s.Ok = append(s.Ok, w.valid(b, i))
		if w.verify {
			s.Sf = append(s.Sf, form(in.UnlockingScript))
		}
	}
	for i, out := range b.MsgTx.TxOut {
		x := Out{L: w.u.scriptID(out.LockingScript), V: amt(out.Value)}
		if i < len(b.Outputs) && b.Outputs[i] != nil {
			x.R = b.Outputs[i].IsRemainder
			x.D = b.Outputs[i].IsDust
			x.K = b.Outputs[i].KeyID
		} else {
			x.L = -9
		}
		s.Outs = append(s.Outs, x)
	}
	return s
}

// What an item of an unlocking script is. Signatures are the value of their hash type.
const (
	formKey = 1000 + iota
	formData
	formTrue
	formFalse
	formOther
)

// form lists what the items of an unlocking script are.
func form(s bitcoin.Script) []int {
	r := []int{}
	items, err := bitcoin.ParseScriptItems(bytes.NewReader(s), -1)
	if err != nil {
		return append(r, formOther)
	}
	for _, item := range items {
		switch {
		case item.Type == bitcoin.ScriptItemTypePushData && len(item.Data) == 33:
			r = append(r, formKey)
		case item.Type == bitcoin.ScriptItemTypePushData && len(item.Data) >= 60 && len(item.Data) <= 73:
			r = append(r, int(item.Data[len(item.Data)-1]))
		case item.Type == bitcoin.ScriptItemTypePushData:
			r = append(r, formData)
		case item.OpCode == bitcoin.OP_1:
			r = append(r, formTrue)
		case item.OpCode == bitcoin.OP_0:
			r = append(r, formFalse)
		default:
			r = append(r, formOther)
		}
	}
	return r
}

// valid evaluates the scripts of an input: 1 valid, 0 invalid, 2 not evaluated.
func (w *World) valid(b *txbuilder.TxBuilder, i int) int {
	if !w.verify || i >= len(b.Inputs) || b.Inputs[i] == nil || len(b.MsgTx.TxIn[i].UnlockingScript) == 0 ||
		len(b.Inputs[i].LockingScript) == 0 {
		return 2
	}
	in := b.MsgTx.TxIn[i]
	if in.UnlockingScript.IsFalseOpReturn() {
		return 0
	}
	var buf bytes.Buffer
	binary.Write(&buf, binary.LittleEndian, b.MsgTx.Version)
	binary.Write(&buf, binary.LittleEndian, b.MsgTx.LockTime)
	binary.Write(&buf, binary.LittleEndian, uint64(i))
	binary.Write(&buf, binary.LittleEndian, b.Inputs[i].Value)
	for _, x := range b.MsgTx.TxIn {
		x.PreviousOutPoint.Serialize(&buf)
		binary.Write(&buf, binary.LittleEndian, x.Sequence)
	}
	for _, x := range b.MsgTx.TxOut {
		x.Serialize(&buf, 0, 0)
	}
	buf.Write(in.UnlockingScript)
	binary.Write(&buf, binary.LittleEndian, uint64(len(in.UnlockingScript)))
	buf.Write(b.Inputs[i].LockingScript)
	key := sha256.Sum256(buf.Bytes())
	if r, ok := w.memo[key]; ok {
		return r
	}
	r := 0
	func() {
		defer func() { recover() }()
		it := bitcoin_interpreter.NewInterpreter()
		cache := &bitcoin_interpreter.SigHashCache{}
		tx := b.MsgTx.Copy()
		if err := it.Execute(w.ctx, in.UnlockingScript.Copy(), &tx, i, b.Inputs[i].Value, cache); err != nil {
			return
		}
		if err := it.Execute(w.ctx, b.Inputs[i].LockingScript.Copy(), &tx, i, b.Inputs[i].Value, cache); err != nil {
			return
		}
		if it.IsUnlocked() {
			r = 1
		}
	}()
	w.memo[key] = r
	return r
}

func (w *World) snapshot() map[string]*State {
	r := map[string]*State{}
	for n, b := range w.b {
		r[n] = w.state(b)
	}
	return r
}

func (a *Arg) record(op string) map[string]interface{} {
	j, err := json.Marshal(a)
	must(err)
	all := map[string]json.RawMessage{}
	must(json.Unmarshal(j, &all))
	r := map[string]interface{}{}
	for _, f := range strings.Fields(argFields[op]) {
		v := all[f]
		if string(v) == "null" {
			v = json.RawMessage("[]")
		}
		r[f] = v
	}
	return r
}

// hung is set when a call doesn't return. The call keeps using time and memory, so nothing more is
// recorded then.
var hung atomic.Bool

// wait waits for a call and returns false if it doesn't seem to return.
func wait(done chan struct{}) bool {
	for n := 0; n < 400; n++ {
		select {
		case <-done:
			return true
		case <-time.After(100 * time.Millisecond):
			var m runtime.MemStats
			if runtime.ReadMemStats(&m); m.HeapAlloc > 3<<30 {
				return false
			}
		}
	}
	return false
}

// do executes an operation and records it. It returns false when the trace has to end.
func (w *World) do(o Op) (string, bool) {
	if w.dead {
		return "", false
	}
	if _, ok := argFields[o.Op]; !ok {
		panic("unknown op " + o.Op)
	}
	w.ops = append(w.ops, o)

	if o.Op == "sign" {
		o.A.Again = ""
		if w.lastSign == o.B {
			if sameSet(w.lastKeys, o.A.Keys) {
				o.A.Again = "same:" + w.lastErr
			} else if subset(w.lastKeys, o.A.Keys) {
				o.A.Again = "fewer:" + w.lastErr
			}
		}
	}

	zero := func(h bitcoin.Hash32) bool { return h == bitcoin.Hash32{} }
	if o.Op == "import" {
		o.A.Zero = []bool{}
		tx := w.msgTx(o.A.Tx)
		for i, in := range tx.TxIn {
			o.A.Tx.Ins[i].U = w.unlock(in.UnlockingScript)
			o.A.Zero = append(o.A.Zero, zero(in.PreviousOutPoint.Hash))
		}
		if o.A.F == "wire" {
			o.A.Data = []UTXO{}
			for _, name := range o.A.Txs {
				for i, out := range w.u.srcs[name].TxOut {
					o.A.Data = append(o.A.Data, UTXO{O: fmt.Sprintf("%s:%d", name, i), L: w.u.scriptID(out.LockingScript), V: amt(out.Value)})
				}
			}
		}
	}
	if o.Op == "reimport" {
		o.A.Zero = []bool{}
		for _, in := range w.b[o.A.Src].MsgTx.TxIn {
			o.A.Zero = append(o.A.Zero, zero(in.PreviousOutPoint.Hash))
		}
	}

	ev := &Event{T: w.trace, F: len(w.events) == 0, Op: o.Op, B: o.B, A: o.A.record(o.Op), R: Result{}, Q: Result{}, W: o.A.Twin}

	done := make(chan struct{})
	result := Result{}
	modified := false
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				result["e"] = "panic"
				result["msg"] = fmt.Sprint(r)
			}
		}()
		modified = w.exec(o, result)
	}()
	if wait(done) {
		ev.R = result
	} else {
		ev.R = Result{"e": "hang"}
		w.dead = true
		hung.Store(true)
		// The builder is still in use by the call, so report the state before it.
		if len(w.events) > 0 {
			ev.S = w.events[len(w.events)-1].S
		} else {
			ev.S = map[string]*State{}
		}
		w.complete(ev)
		w.events = append(w.events, ev)
		return "hang", false
	}
	if ev.R["e"] == "panic" {
		w.dead = true
	}
	w.complete(ev)

	if o.Op == "sign" {
		w.lastSign, w.lastKeys, w.lastErr = o.B, o.A.Keys, ev.R["e"].(string)
	} else if o.Op != "query" && o.Op != "text" && o.Op != "oob" {
		w.lastSign = ""
	}

	func() {
		defer func() {
			if r := recover(); r != nil {
				// state can't be read any more
				ev.R["e"] = "panic"
				ev.R["msg"] = fmt.Sprint(r)
				ev.R["read"] = true
				w.dead = true
				if ev.S == nil {
					ev.S = map[string]*State{}
					if len(w.events) > 0 {
						ev.S = w.events[len(w.events)-1].S
					}
				}
			}
		}()
		ev.S = w.snapshot()
		if w.query && !w.dead && o.Op != "break" && o.Op != "fn" {
			if b, ok := w.b[o.B]; ok {
				ev.Q = w.queries(b)
				before, _ := json.Marshal(ev.S[o.B])
				after, _ := json.Marshal(w.state(b))
				ev.Q["same"] = bytes.Equal(before, after)
			}
		}
	}()
	for _, g := range w.given {
		if g.p.TxOut.Value != g.copy.TxOut.Value || !bytes.Equal(g.p.TxOut.LockingScript, g.copy.TxOut.LockingScript) ||
			g.p.Supplement != g.copy.Supplement {
			modified = true
		}
	}
	for _, k := range w.kept {
		if k.get() != k.want {
			modified = true
		}
	}
	ev.M = modified
	w.events = append(w.events, ev)
	e, _ := ev.R["e"].(string)
	return e, !w.dead
}

func (w *World) complete(ev *Event) {
	switch ev.Op {
	case "sign", "signOnly":
		if _, ok := ev.R["ks"]; !ok {
			ev.R["ks"] = []int{}
		}
		if _, ok := ev.R["est"]; !ok {
			ev.R["est"], ev.R["ser"] = 0, 0
		}
	case "adjustFee":
		if _, ok := ev.R["d"]; !ok {
			ev.R["d"] = false
		}
	}
}

func sameSet(a, b []int) bool { return subset(a, b) && subset(b, a) }

func subset(a, b []int) bool {
	m := map[int]bool{}
	for _, x := range b {
		m[x] = true
	}
	for _, x := range a {
		if !m[x] {
			return false
		}
	}
	return true
}

func (w *World) outputs(x []Out) []*txbuilder.Output {
	var r []*txbuilder.Output
	for _, o := range x {
		r = append(r, &txbuilder.Output{TxOut: wire.TxOut{Value: o.V.u64(), LockingScript: w.u.script(o.L)},
			Supplement: txbuilder.OutputSupplement{IsRemainder: o.R, IsDust: o.D, KeyID: o.K}})
	}
	return r
}

func (w *World) addrs(x []Addr) []txbuilder.AddressKeyID {
	r := make([]txbuilder.AddressKeyID, len(x))
	for i, a := range x {
		r[i] = txbuilder.AddressKeyID{Address: w.u.addr(a.L), KeyID: a.K}
	}
	return r
}

func digest(x interface{}) string { return fmt.Sprintf("%#v", x) }

func digestUTXOs(x []bitcoin.UTXO) string {
	s := ""
	for _, u := range x {
		s += fmt.Sprintf("%s %d %d %x %s;", u.Hash, u.Index, u.Value, []byte(u.LockingScript), u.KeyID)
	}
	return s
}

func digestAddrs(x []txbuilder.AddressKeyID) string {
	s := ""
	for _, a := range x {
		s += fmt.Sprintf("%x %s;", a.Address.Bytes(), a.KeyID)
	}
	return s
}

// exec runs the operation and returns true if it modified the caller's arguments.
func (w *World) exec(o Op, r Result) (modified bool) {
	a := o.A
	b := w.b[o.B]
	set := func(err error) { r["e"] = errClass(err) }
	script := func(l int) bitcoin.Script { return w.u.script(l) }

	switch o.Op {
	case "new":
		w.b[o.B] = txbuilder.NewTxBuilder(w.u.rates[a.Fr-1], w.u.rates[a.Dr-1])
		r["e"] = "ok"
	case "copy":
		c := w.b[a.Src].Copy()
		w.b[o.B] = &c
		r["e"] = "ok"
	case "addInputUTXO":
		set(b.AddInputUTXO(w.utxo(a.U)))
	case "addInput":
		set(b.AddInput(w.u.outpoint(a.U.O), script(a.U.L), a.U.V.u64()))
	case "insertInput":
		set(b.InsertInput(a.I, w.utxo(a.U)))
	case "updateInput":
		set(b.UpdateInputUTXO(a.I, w.utxo(a.U)))
	case "removeInput":
		set(b.RemoveInput(a.I))
	case "addOutput":
		set(b.AddOutput(script(a.L), a.V.u64(), a.R, a.D))
	case "insertOutput":
		set(b.InsertOutput(a.I, script(a.L), a.V.u64(), a.R, a.D))
	case "addPayment":
		set(b.AddPaymentOutput(w.u.addr(a.L), a.V.u64(), a.R))
	case "addDust":
		set(b.AddDustOutput(w.u.addr(a.L), a.R))
	case "addMax":
		set(b.AddMaxOutput(w.u.addr(a.L)))
	case "addMaxScript":
		set(b.AddMaxScriptOutput(script(a.L)))
	case "removeOutput":
		set(b.RemoveOutput(a.I))
	case "addValue":
		set(b.AddValueToOutput(uint32(a.I), a.V.u64()))
	case "subValue":
		set(b.SubtractValueFromOutput(uint32(a.I), a.V.u64()))
	case "setDust":
		set(b.SetOutputToDust(uint32(a.I)))
	case "updateOutput":
		set(b.UpdateOutput(uint32(a.I), script(a.L)))
	case "addOutputs":
		outs := w.outputs(a.Outs)
		for _, x := range outs {
			w.given = append(w.given, givenOutput{x, *x})
		}
		b.AddOutputs(outs)
		r["e"] = "ok"
	case "setChangeAddr":
		set(b.SetChangeAddress(w.u.addr(a.L), a.K))
	case "setChangeScript":
		set(b.SetChangeLockingScript(script(a.L), a.K))
	case "addFunding":
		us := w.utxos(a.Us)
		before := digestUTXOs(us)
		set(b.AddFunding(us))
		modified = before != digestUTXOs(us)
	case "breakFund":
		us := w.utxos(a.Us)
		as := w.addrs(a.Addrs)
		before := digestUTXOs(us) + digestAddrs(as)
		set(b.AddFundingBreakChange(us, a.Bv.u64(), as))
		modified = before != digestUTXOs(us)+digestAddrs(as)
	case "adjustFee":
		d, err := b.AdjustFee(a.V.i64())
		r["d"] = d
		set(err)
	case "calcFee":
		set(b.CalculateFee())
	case "zeroFee":
		set(b.ZeroizeFee())
	case "sign", "signOnly":
		keys := w.keys(a.Keys)
		before := fmt.Sprint(w.keyIDs(keys))
		est := b.EstimatedSize()
		var used []bitcoin.Key
		var err error
		if o.Op == "sign" {
			used, err = b.Sign(keys)
			est = b.EstimatedSize()
		} else {
			used, err = b.SignOnly(keys)
		}
		set(err)
		w.keep(func() string { return fmt.Sprint(w.keyIDs(used)) })
		r["ks"] = w.keyIDs(used)
		r["est"] = est
		r["ser"] = b.MsgTx.SerializeSize()
		modified = before != fmt.Sprint(w.keyIDs(keys))
	case "signP2PKH":
		set(b.SignP2PKHInput(a.I, w.u.keys[a.Keys[0]-1], &txbuilder.SigHashCache{}))
	case "randomize":
		b.RandomizeOutputs()
		r["e"] = "ok"
	case "randomizeAfter":
		b.RandomizeOutputsAfter(a.I)
		r["e"] = "ok"
	case "direct":
		w.direct(b, a)
		r["e"] = "ok"
	case "oob":
		set(w.outOfBounds(b, a.I))
	case "query":
		r["e"] = "ok"
	case "fn":
		w.function(a, r)
	case "import", "reimport":
		w.importTx(o, r)
	case "sighash":
		w.sighash(b, a, r)
	case "cacheHash":
		w.cacheHash(b, a, r)
	case "cacheClear":
		if c, ok := w.caches[a.C]; ok {
			c.Clear()
		}
		r["e"] = "ok"
	case "cacheClearOut":
		if c, ok := w.caches[a.C]; ok {
			c.ClearOutputs()
		}
		r["e"] = "ok"
	case "break":
		modified = w.breakValue(a, r)
	case "breakQ":
		vs, err := txbuilder.BreakQuantity(a.V.u64(), a.Bv.u64(), a.N)
		set(err)
		w.keep(func() string { return fmt.Sprint(vs) })
		out := []Amt{}
		for _, v := range vs {
			out = append(out, amt(v))
		}
		r["vs"] = out
	case "breakKinds":
		w.breakKinds(a, r)
	case "breakOrders":
		w.breakOrders(a, r)
	case "perms":
		w.perms(a, r)
	case "together":
		w.together(b, r)
	case "text":
		w.text(b, r)
	case "feestx":
		w.feesTx(b, a, r)
	case "helper":
		set(w.helper(b, a))
	default:
		panic("op " + o.Op)
	}
	return
}

// direct changes fields the way a caller of the package can.
func (w *World) direct(b *txbuilder.TxBuilder, a Arg) {
	switch a.F {
	case "seq":
		b.MsgTx.TxIn[a.I].Sequence = uint32(a.N)
	case "lock":
		b.MsgTx.LockTime = uint32(a.N)
	case "ver":
		b.MsgTx.Version = int32(a.N)
	case "embed":
		b.MsgTx.TxIn[a.I].UnlockingScript = embed(uint64(a.N), a.V.u64())
	case "junk":
		s := make(bitcoin.Script, a.N)
		for i := range s {
			s[i] = bitcoin.OP_1
		}
		b.MsgTx.TxIn[a.I].UnlockingScript = s
	case "falsereturn":
		s := make(bitcoin.Script, a.N+2)
		s[1] = bitcoin.OP_RETURN
		for i := 2; i < len(s); i++ {
			s[i] = bitcoin.OP_1
		}
		b.MsgTx.TxIn[a.I].UnlockingScript = s
	case "unsign":
		b.MsgTx.TxIn[a.I].UnlockingScript = nil
	case "chgkey":
		b.ChangeKeyID = fmt.Sprintf("ck%d", a.N)
	case "outkey":
		b.Outputs[a.I].KeyID = fmt.Sprintf("ok%d", a.N)
	case "outval":
		b.MsgTx.TxOut[a.I].Value = a.V.u64()
	case "inval":
		b.Inputs[a.I].Value = a.V.u64()
	case "sendmax":
		b.SendMax = a.N == 1
	case "rate":
		b.FeeRate = w.u.rates[a.N-1]
	case "dustrate":
		b.DustFeeRate = w.u.rates[a.N-1]
	case "bulkout":
		for i := 0; i < a.N; i++ {
			b.MsgTx.TxOut = append(b.MsgTx.TxOut, &wire.TxOut{Value: a.V.u64(), LockingScript: w.u.script(a.L)})
			b.Outputs = append(b.Outputs, &txbuilder.OutputSupplement{})
		}
	case "bulkin":
		for i := 0; i < a.N; i++ {
			o := w.u.outpoint(fmt.Sprintf("bulk:%d", i+a.I))
			b.MsgTx.TxIn = append(b.MsgTx.TxIn, &wire.TxIn{PreviousOutPoint: o, Sequence: wire.MaxTxInSequenceNum})
			b.Inputs = append(b.Inputs, &txbuilder.InputSupplement{LockingScript: w.u.script(a.L), Value: a.V.u64()})
		}
	default:
		panic("direct " + a.F)
	}
}

var errAccepted = errors.New("out of range index accepted")

// outOfBounds calls the reading methods with an index past the end.
func (w *World) outOfBounds(b *txbuilder.TxBuilder, n int) error {
	i := len(b.MsgTx.TxIn) + n
	j := len(b.MsgTx.TxOut) + n
	if _, err := b.InputAddress(i); err == nil {
		return errAccepted
	}
	if _, err := b.OutputAddress(j); err == nil {
		return errAccepted
	}
	if _, err := b.InputOutput(i); err == nil {
		return errAccepted
	}
	if b.InputIsSigned(i) {
		return errAccepted
	}
	if _, err := txbuilder.P2MultiPKHUnlockingScript(1, [][]byte{{1}, {2}, {3}}, make([][]byte, 3-1-n%2)); err == nil {
		return errAccepted
	}
	if _, err := txbuilder.SignatureHash(b.MsgTx, i, w.u.script(1), 1, 0x41, &txbuilder.SigHashCache{}); err == nil {
		return errAccepted
	}
	return nil
}

// queries reads everything that is reported about a builder.
func (w *World) queries(b *txbuilder.TxBuilder) Result {
	q := Result{
		"in": amt(b.InputValue()), "out": amt(b.OutputValue(true)), "onc": amt(b.OutputValue(false)),
		"fee": amt(b.Fee()), "af": samt(b.ActualFee()), "rem": amt(b.Remainder()), "es": b.EstimatedSize(),
		"ef": amt(b.EstimatedFee()), "ni": b.InputCount(), "no": b.OutputCount(), "all": b.AllInputsAreSigned(),
		"ser": b.MsgTx.SerializeSize(),
	}
	sg := []bool{}
	io := []UTXO{}
	ia := []int{}
	oa := []int{}
	addrID := func(ra bitcoin.RawAddress, err error) int {
		if err != nil {
			return 0
		}
		s, err := ra.LockingScript()
		if err != nil {
			return -2
		}
		return w.u.scriptID(s)
	}
	for i := range b.MsgTx.TxIn {
		sg = append(sg, b.InputIsSigned(i))
		x := UTXO{O: w.u.outpointName(b.Input(i).PreviousOutPoint.Hash, b.Input(i).PreviousOutPoint.Index), L: -7}
		if o, err := b.InputOutput(i); err == nil {
			x.L = w.u.scriptID(o.LockingScript)
			x.V = amt(o.Value)
		}
		io = append(io, x)
		ia = append(ia, addrID(b.InputAddress(i)))
	}
	oo := []Out{}
	for i := range b.MsgTx.TxOut {
		o := b.Output(i)
		oo = append(oo, Out{L: w.u.scriptID(o.LockingScript), V: amt(o.Value)})
		oa = append(oa, addrID(b.OutputAddress(i)))
	}
	q["sg"], q["io"], q["oo"], q["ia"], q["oa"] = sg, io, oo, ia, oa
	q["msg"] = b.GetMsgTx() == b.MsgTx
	return q
}
