package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/tokenized/bitcoin_interpreter/agent_bitcoin_transfer"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// The universe is the fixed set of keys, locking scripts, rates and transaction hashes that traces
// refer to by small identifiers. It doesn't depend on the code under test.

const keyCount = 20

// ScriptInfo is what the specification knows about a locking script.
type ScriptInfo struct {
	Kind string `json:"kind"` // p2pkh p2pk multi agent data other empty
	Len  int    `json:"len"`
	Req  int    `json:"req"`
	Tot  int    `json:"tot"`
	Keys []int  `json:"keys"` // keys in script order
	Un   bool   `json:"un"`   // provably unspendable
	Adr  bool   `json:"adr"`  // can be expressed as an address
	Base int    `json:"base"` // agent: bytes needed in addition to the agent's unlocking script
	Sub  string `json:"sub"`  // agent: kind of the agent's script
	Sep  []int  `json:"sep"`  // offset after the last OP_CODESEPARATOR, empty if none
	Pars bool   `json:"pars"` // can be parsed
	Code string `json:"code"` // identifies the bytes after the last code separator
}

// Rate is an exact float32 rate, M / 2^K.
type Rate struct {
	M int `json:"m"`
	K int `json:"k"`
}

type Universe struct {
	Scripts []ScriptInfo `json:"scripts"`
	Rates   []Rate       `json:"rates"`

	keys    []bitcoin.Key
	scripts []bitcoin.Script
	addrs   []bitcoin.RawAddress
	rates   []float32
	ids     map[string]int
	keyIDs  map[string]int
	hashes  map[bitcoin.Hash32]string
	names   map[string]bitcoin.Hash32
	srcs    map[string]*wire.MsgTx
	rateIDs map[float32]int

	// script groups
	spend, p2pkh, signable, payable, addressable, data, change, odd, sep []int
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// lastSeparator returns the offset after the last OP_CODESEPARATOR that isn't within push data.
func lastSeparator(s []byte) []int {
	result := []int{}
	for i := 0; i < len(s); {
		op, n := s[i], 0
		i++
		le := func(size int) {
			for j := size - 1; j >= 0; j-- {
				n = n<<8 | int(s[i+j])
			}
			i += size
		}
		switch {
		case op > 0 && op < bitcoin.OP_PUSH_DATA_1:
			n = int(op)
		case op == bitcoin.OP_PUSH_DATA_1:
			le(1)
		case op == bitcoin.OP_PUSH_DATA_2:
			le(2)
		case op == bitcoin.OP_PUSH_DATA_4:
			le(4)
		case op == bitcoin.OP_CODESEPARATOR:
			result = []int{i}
		}
		i += n
	}
	return result
}

func newUniverse() *Universe {
	u := &Universe{ids: map[string]int{}, keyIDs: map[string]int{}, hashes: map[bitcoin.Hash32]string{},
		names: map[string]bitcoin.Hash32{}, srcs: map[string]*wire.MsgTx{}, rateIDs: map[float32]int{}}
	for i := 1; i <= keyCount; i++ {
		h := sha256.Sum256([]byte(fmt.Sprintf("verification key %d", i)))
		k, err := bitcoin.KeyFromNumber(h[:], bitcoin.MainNet)
		must(err)
		u.keys = append(u.keys, k)
		u.keyIDs[string(k.PublicKey().Bytes())] = i
	}

	add := func(info ScriptInfo, s bitcoin.Script, groups ...*[]int) int {
		info.Len = len(s)
		info.Un = len(s) > 0 && (s[0] == bitcoin.OP_RETURN || (len(s) > 1 && s[0] == 0 && s[1] == bitcoin.OP_RETURN))
		info.Pars = true
		if info.Keys == nil {
			info.Keys = []int{}
		}
		if info.Sep == nil {
			info.Sep = lastSeparator(s)
		}
		code := s
		if len(info.Sep) > 0 {
			code = s[info.Sep[0]:]
		}
		h := sha256.Sum256(code)
		info.Code = hex.EncodeToString(h[:8])
		u.scripts = append(u.scripts, s)
		id := len(u.scripts)
		if _, exists := u.ids[string(s)]; exists {
			panic("duplicate script")
		}
		u.ids[string(s)] = id
		ra, err := bitcoin.RawAddressFromLockingScript(s)
		if err == nil {
			if back, err := ra.LockingScript(); err == nil && bytes.Equal(back, s) {
				info.Adr = true
				u.addressable = append(u.addressable, id)
			}
		}
		u.addrs = append(u.addrs, ra)
		u.Scripts = append(u.Scripts, info)
		for _, g := range groups {
			*g = append(*g, id)
		}
		return id
	}

	pkh := func(i int) []byte { return bitcoin.Hash160(u.keys[i-1].PublicKey().Bytes()) }

	for i := 1; i <= 8; i++ {
		s, err := u.keys[i-1].LockingScript()
		must(err)
		add(ScriptInfo{Kind: "p2pkh", Req: 1, Tot: 1, Keys: []int{i}}, s, &u.spend, &u.p2pkh, &u.signable, &u.payable, &u.change)
	}
	for _, i := range []int{1, 2, 9} {
		ra, err := bitcoin.NewRawAddressPublicKey(u.keys[i-1].PublicKey())
		must(err)
		s, err := ra.LockingScript()
		must(err)
		add(ScriptInfo{Kind: "p2pk", Req: 1, Tot: 1, Keys: []int{i}}, s, &u.spend, &u.signable, &u.payable, &u.change)
	}
	seq := func(a, b int) []int {
		var r []int
		for i := a; i <= b; i++ {
			r = append(r, i)
		}
		return r
	}
	multis := []struct {
		req  int
		keys []int
	}{
		{1, []int{1, 2}}, {2, []int{1, 2, 3}}, {2, []int{5, 4}}, {3, []int{6, 2, 8, 1, 10}}, {1, []int{6}},
		{2, []int{3, 3, 7}}, {2, seq(1, 18)}, {17, seq(1, 20)}, {5, seq(3, 12)},
	}
	for i, m := range multis {
		var pkhs [][]byte
		for _, k := range m.keys {
			pkhs = append(pkhs, pkh(k))
		}
		ra, err := bitcoin.NewRawAddressMultiPKH(m.req, pkhs)
		must(err)
		s, err := ra.LockingScript()
		must(err)
		info := ScriptInfo{Kind: "multi", Req: m.req, Tot: len(m.keys), Keys: m.keys}
		if i < 6 {
			add(info, s, &u.spend, &u.signable, &u.payable, &u.change)
		} else {
			add(info, s, &u.spend, &u.signable)
		}
	}

	// Data outputs
	falseReturn := func(total int) bitcoin.Script {
		s := make(bitcoin.Script, total)
		s[1] = bitcoin.OP_RETURN
		for i := 2; i < total; i++ {
			s[i] = bitcoin.OP_1
		}
		return s
	}
	add(ScriptInfo{Kind: "data"}, bitcoin.Script{bitcoin.OP_RETURN, 0x51}, &u.payable, &u.data)
	for _, n := range []int{2, 12, 100, 252, 253, 1000} {
		add(ScriptInfo{Kind: "data"}, falseReturn(n), &u.payable, &u.data)
	}
	for _, n := range []int{65535, 65536} {
		add(ScriptInfo{Kind: "data"}, falseReturn(n), &u.odd)
	}

	// Other scripts that can't be signed by the builder
	ones := func(n int) bitcoin.Script {
		s := make(bitcoin.Script, n)
		for i := range s {
			s[i] = bitcoin.OP_1
		}
		return s
	}
	add(ScriptInfo{Kind: "other"}, ones(1), &u.payable, &u.odd)
	add(ScriptInfo{Kind: "other"}, ones(252), &u.odd)
	add(ScriptInfo{Kind: "other"}, ones(253), &u.odd)
	sh, err := bitcoin.NewRawAddressSH(pkh(11))
	must(err)
	s, err := sh.LockingScript()
	must(err)
	add(ScriptInfo{Kind: "other"}, s, &u.payable, &u.change, &u.odd)
	rph, err := bitcoin.NewRawAddressRPH(pkh(12))
	must(err)
	s, err = rph.LockingScript()
	must(err)
	add(ScriptInfo{Kind: "other"}, s, &u.payable, &u.change, &u.odd)
	// P2PKH followed by something else is not P2PKH
	add(ScriptInfo{Kind: "other"}, append(u.scripts[0].Copy(), bitcoin.OP_NOP), &u.odd)

	// Agent bitcoin transfers
	base := agent_bitcoin_transfer.ApproveUnlockingSize(0)
	for _, a := range []struct {
		sub  int
		name string
	}{{1, "p2pkh"}, {9, "p2pk"}, {13, "multi"}} {
		s, err := agent_bitcoin_transfer.CreateScript(u.scripts[a.sub-1], u.scripts[1], u.scripts[2],
			100000, u.scripts[3], 1700000000)
		must(err)
		sub := u.Scripts[a.sub-1]
		add(ScriptInfo{Kind: "agent", Base: base, Sub: a.name, Req: sub.Req, Tot: sub.Tot}, s, &u.spend, &u.odd)
	}

	// Scripts with OP_CODESEPARATOR for signature hashes
	push := func(op []byte, n int) []byte {
		return append(append([]byte{}, op...), bytes.Repeat([]byte{0xab}, n)...)
	}
	cat := func(parts ...[]byte) bitcoin.Script { return bitcoin.Script(bytes.Join(parts, nil)) }
	op := func(b ...byte) []byte { return b }
	sepScript := func(off int, s bitcoin.Script) {
		add(ScriptInfo{Kind: "other", Sep: []int{off}}, s, &u.sep)
	}
	p := []byte(u.scripts[0])
	sepScript(1, cat(op(0xab), p))
	sepScript(2, cat(op(0x51, 0xab), p))
	sepScript(len(p)+1, cat(p, op(0xab)))
	sepScript(3, cat(op(0xab, 0x51, 0xab), p))
	sepScript(1, cat(op(0xab), push(op(0x4c, 20), 20), op(0x75), p))            // non-minimal push
	sepScript(1, cat(op(0xab), push(op(0x4c, 255), 255), op(0x75), p))          // 255 byte push
	sepScript(1, cat(op(0xab), push(op(0x4d, 3, 0), 3), op(0x75), p))           // non-minimal push
	sepScript(5, cat(push(op(0x02), 2), op(0x75, 0xab), p))                     // 0xab inside push data before
	sepScript(1, cat(op(0xab), push(op(0x02), 2), op(0x75), p))                 // 0xab inside push data after
	add(ScriptInfo{Kind: "other"}, cat(push(op(0x03), 3), op(0x75), p), &u.sep) // only inside push data
	id := add(ScriptInfo{Kind: "other"}, cat(op(0x4c, 5, 1)), &u.sep)           // can't be parsed
	u.Scripts[id-1].Pars = false

	for _, r := range []float32{0, 0.05, 0.5, 1, 0.25, 0.025, 0.1, 1.1, 2, 0.3333, 5, 10.7, 0.001, 0.75, 50, 0.6, 1.5, 3.3, 0.01, 0.0005} {
		u.addRate(r)
	}

	for i := 1; i <= 12; i++ {
		h := bitcoin.Hash32(sha256.Sum256([]byte(fmt.Sprintf("tx %d", i))))
		u.addHash(strconv.Itoa(i), h)
	}
	u.addHash("0", bitcoin.Hash32{})
	// Hashes that differ from another one in only the first or only the last byte.
	h := u.names["1"]
	h[31] ^= 1
	u.addHash("13", h)
	h = u.names["1"]
	h[0] ^= 0x80
	u.addHash("14", h)

	// Source transactions with several outputs each
	for n := 1; n <= 4; n++ {
		tx := wire.NewMsgTx(1)
		prev := u.names[strconv.Itoa(n)]
		tx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: prev, Index: uint32(n)}, bitcoin.Script{0x51}))
		for j := 0; j < 4; j++ {
			l := u.signable[(n*5+j*3)%len(u.signable)]
			tx.AddTxOut(&wire.TxOut{Value: uint64(n*1000000 + j*10007 + 5000), LockingScript: u.scripts[l-1]})
		}
		name := fmt.Sprintf("t%d", n)
		u.srcs[name] = tx
		u.addHash(name, *tx.TxHash())
	}
	return u
}

func (u *Universe) addRate(r float32) int {
	if id, ok := u.rateIDs[r]; ok {
		return id
	}
	m, k := 0, 0
	if r != 0 {
		frac, exp := math.Frexp(float64(r)) // r = frac * 2^exp
		m = int(frac * (1 << 24))
		k = 24 - exp
		for m%2 == 0 {
			m /= 2
			k--
		}
		for k < 0 {
			m *= 2
			k++
		}
		if float32(float64(m)/math.Pow(2, float64(k))) != r {
			panic("rate")
		}
	}
	u.rates = append(u.rates, r)
	u.Rates = append(u.Rates, Rate{m, k})
	u.rateIDs[r] = len(u.rates)
	return len(u.rates)
}

func (u *Universe) addHash(name string, h bitcoin.Hash32) {
	u.hashes[h] = name
	u.names[name] = h
}

func (u *Universe) script(id int) bitcoin.Script {
	if id <= 0 {
		return nil
	}
	return u.scripts[id-1].Copy()
}

func (u *Universe) addr(id int) bitcoin.RawAddress {
	if id <= 0 || !u.Scripts[id-1].Adr {
		return bitcoin.RawAddress{}
	}
	return u.addrs[id-1]
}

// scriptID returns 0 for an empty script and -1 for a script that isn't in the universe.
func (u *Universe) scriptID(s []byte) int {
	if len(s) == 0 {
		return 0
	}
	if id, ok := u.ids[string(s)]; ok {
		return id
	}
	return -1
}

func (u *Universe) rateID(r float32) int {
	if id, ok := u.rateIDs[r]; ok {
		return id
	}
	return -1
}

func (u *Universe) outpoint(o string) wire.OutPoint {
	parts := strings.Split(o, ":")
	h, ok := u.names[parts[0]]
	if !ok {
		n := sha256.Sum256([]byte("tx " + parts[0]))
		h = bitcoin.Hash32(n)
		u.addHash(parts[0], h)
	}
	i, err := strconv.ParseUint(parts[1], 10, 32)
	must(err)
	return wire.OutPoint{Hash: h, Index: uint32(i)}
}

func splitOutpoint(o string) (string, uint32) {
	parts := strings.Split(o, ":")
	i, err := strconv.ParseUint(parts[1], 10, 32)
	must(err)
	return parts[0], uint32(i)
}

func (u *Universe) outpointName(h bitcoin.Hash32, i uint32) string {
	n, ok := u.hashes[h]
	if !ok {
		n = "?" + hex.EncodeToString(h[:4])
	}
	return fmt.Sprintf("%s:%d", n, i)
}

// Amt is a satoshi amount in two limbs. Amounts that don't fit in the range the specification works
// with are mapped to a value no calculation of the specification can produce.
type Amt [2]int

func amt(v uint64) Amt {
	const limit = 90000000 // * 1e9
	if v/1000000000 >= limit {
		return Amt{limit, int(v % 1000000000)}
	}
	return Amt{int(v / 1000000000), int(v % 1000000000)}
}

func samt(v int64) Amt {
	if v >= 0 {
		return amt(uint64(v))
	}
	hi := v / 1000000000
	lo := v % 1000000000
	if lo < 0 {
		lo += 1000000000
		hi--
	}
	if hi < -90000000 {
		hi = -90000000
	}
	return Amt{int(hi), int(lo)}
}

func (a Amt) u64() uint64 { return uint64(int64(a[0])*1000000000 + int64(a[1])) }
func (a Amt) i64() int64  { return int64(a[0])*1000000000 + int64(a[1]) }
