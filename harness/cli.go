package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/tokenized/bitcoin_interpreter"
	"github.com/tokenized/pkg/bitcoin"
	"github.com/tokenized/pkg/wire"
)

// Runs the command line tool against a local service that answers like the one the tool uses, and
// records what it prints.

const serviceHost = "api.whatsonchain.com"

// service answers requests for transactions and unspent outputs.
type service struct {
	sync.Mutex
	replies map[string]string // path -> body
	ip      string
}

func newService(dir string) *service {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: serviceHost},
		DNSNames: []string{serviceHost}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "cert.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600))

	s := &service{replies: map[string]string{}}
	var l net.Listener
	for i := 0; i < 20; i++ {
		s.ip = fmt.Sprintf("127.%d.%d.%d", 1+os.Getpid()%250, 1+(os.Getpid()/250)%250, 1+i)
		if l, err = net.Listen("tcp", s.ip+":443"); err == nil {
			break
		}
	}
	must(err)
	server := &http.Server{Handler: s, ErrorLog: log.New(io.Discard, "", 0),
		TLSConfig: &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}}
	go server.ServeTLS(l, "", "")
	return s
}

func (s *service) set(path, body string) {
	s.Lock()
	s.replies[path] = body
	s.Unlock()
}

func (s *service) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.Lock()
	body, ok := s.replies[r.URL.Path]
	s.Unlock()
	switch {
	case !ok:
		w.WriteHeader(http.StatusNotFound)
		w.Write([]byte("Not Found"))
	case body == "error":
		w.WriteHeader(http.StatusInternalServerError)
	case body == "abort":
		panic(http.ErrAbortHandler)
	default:
		w.Write([]byte(body))
	}
}

type cliOut struct {
	O string `json:"o"`
	L int    `json:"l"`
	V Amt    `json:"v"`
	K string `json:"k"`
	S string `json:"s"` // ok, or why the service doesn't have it
}

type cliArg struct {
	Cmd string   `json:"cmd"`
	Key int      `json:"key"`
	To  int      `json:"to"`
	V   Amt      `json:"v"`
	N   int      `json:"n"`
	Us  []cliOut `json:"us"`
	Fr  int      `json:"fr"`
	Dr  int      `json:"dr"`
	Net string   `json:"net"`
	Def bool     `json:"def"` // default rates
	Bad bool     `json:"bad"` // an argument is invalid
}

type cliIn struct {
	O  string `json:"o"`
	Q  string `json:"q"`
	N  int    `json:"n"`
	Ok int    `json:"ok"`
}

type cliTx struct {
	Ver  string   `json:"ver"`
	Lt   string   `json:"lt"`
	Ins  []cliIn  `json:"ins"`
	Outs []Out    `json:"outs"`
	Ext  bool     `json:"ext"`  // printed in extended format
	Same bool     `json:"same"` // the extended format is of the same transaction
	Xs   []cliOut `json:"xs"`   // spent outputs of the extended format

	hash bitcoin.Hash32
}

type cliResult struct {
	E   string  `json:"e"`
	Txs []cliTx `json:"txs"`
	Cum string  `json:"cum"` // "" not printed, same, different
}

type cli struct {
	u      *Universe
	r      *rand.Rand
	g      *gen
	s      *service
	bin    string
	dir    string
	prefix string
	count  int
}

func (c *cli) hashName() string {
	c.count++
	return fmt.Sprintf("%s%d", c.prefix, c.count)
}

// source makes a transaction with the outputs.
func (c *cli) source(outs []*wire.TxOut) *wire.MsgTx {
	tx := wire.NewMsgTx(1)
	prev := sha256.Sum256([]byte(c.hashName()))
	tx.AddTxIn(wire.NewTxIn(&wire.OutPoint{Hash: prev, Index: uint32(c.r.Intn(3))}, bitcoin.Script{0x51}))
	for _, o := range outs {
		tx.AddTxOut(o)
	}
	h := *tx.TxHash()
	c.u.addHash(c.hashName(), h)
	return tx
}

func txHex(tx *wire.MsgTx) string {
	var buf bytes.Buffer
	must(tx.Serialize(&buf))
	return hex.EncodeToString(buf.Bytes())
}

func (a *cliArg) network() bitcoin.Network {
	if a.Net == "main" {
		return bitcoin.MainNet
	}
	return bitcoin.TestNet
}

func (a *cliArg) txPath(h bitcoin.Hash32) string {
	return "/v1/bsv/" + a.Net + "/tx/" + h.String() + "/hex"
}

// address returns the text of an address for a script.
func (c *cli) address(l int, net bitcoin.Network) (string, bool) {
	if !c.u.Scripts[l-1].Adr {
		return "", false
	}
	text := bitcoin.NewAddressFromRawAddress(c.u.addrs[l-1], net).String()
	ad, err := bitcoin.DecodeAddress(text)
	if err != nil {
		return "", false
	}
	ls, err := bitcoin.NewRawAddressFromAddress(ad).LockingScript()
	return text, err == nil && bytes.Equal(ls, c.u.scripts[l-1])
}

// recipient returns a text for a script.
func (c *cli) recipient(l int, net bitcoin.Network) ([]string, bool) {
	text := ""
	switch c.r.Intn(3) {
	case 0:
		var ok bool
		if text, ok = c.address(l, net); !ok {
			return nil, false
		}
	case 1:
		text = bitcoin.BIP0276Encode(net, bitcoin.BIP0276_ScriptPrefix, c.u.scripts[l-1])
	default:
		text = c.u.scripts[l-1].String()
	}
	s, err := bitcoin.DecodeToLockingScript(text, net)
	if err != nil || !bytes.Equal(s, c.u.scripts[l-1]) {
		return nil, false
	}
	return strings.Split(text, " "), true
}

// amounts chooses values of n inputs that add to about total.
func (c *cli) amounts(n int, total int64) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		if i == n-1 {
			r[i] = uint64(max64(total, 0))
			break
		}
		x := int64(0)
		if total > 0 {
			x = c.r.Int63n(total + 1)
		}
		r[i] = uint64(x)
		total -= x
	}
	c.r.Shuffle(n, func(i, j int) { r[i], r[j] = r[j], r[i] })
	return r
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// run makes one run of the tool.
func (c *cli) run(t int) map[string]interface{} {
	a := cliArg{Cmd: []string{"create_send", "create_sends", "consolidate"}[c.r.Intn(3)], Us: []cliOut{}}
	a.Key = 1 + c.r.Intn(8)
	a.Fr = c.g.pick(2, 2, 3, 4, 5, 6, 7, 8, 9, 1)
	a.Dr = c.g.pick(1, 1, 2, 3, 4)
	a.Net = c.g.pickS("main", "main", "main", "test")
	if c.g.chance(0.15) {
		a.Def, a.Fr, a.Dr = true, 2, 1
	}
	key, err := bitcoin.KeyFromNumber(c.u.keys[a.Key-1].Number(), a.network())
	must(err)
	n := 1 + c.r.Intn(4)
	switch {
	case c.g.chance(0.05):
		n = 0
	case c.g.chance(0.05):
		n = 5 + c.r.Intn(20)
	case c.g.chance(0.01):
		n = 252 + c.r.Intn(3)
	}

	// The total is near a point where the result changes or well above.
	locks := make([]int, n)
	size := 10
	for i := range locks {
		locks[i] = a.Key
		if a.Cmd != "consolidate" {
			if c.g.chance(0.1 / float64(n)) {
				locks[i] = c.g.of(c.u.spend)
			}
			switch {
			case a.Key == 1 && c.g.chance(0.2):
				locks[i] = c.g.pick(9, 12)
			case a.Key == 2 && c.g.chance(0.2):
				locks[i] = c.g.pick(10, 12)
			case a.Key == 6 && c.g.chance(0.2):
				locks[i] = 16
			}
		}
		if z := c.g.inSize(locks[i]); z > 0 {
			size += z
		} else {
			size += 149
		}
	}
	a.To = c.g.pick(a.Key, 1+c.r.Intn(8), c.g.of(c.u.payable), c.g.of(c.u.addressable))
	need := int64(0)
	var to []string
	switch a.Cmd {
	case "create_send":
		text, ok := c.address(a.To, a.network())
		if !ok {
			a.To = 1 + c.r.Intn(8)
			text, _ = c.address(a.To, a.network())
		}
		to = []string{text}
		v := c.g.outFee(a.To, a.Fr) + int64(c.g.pick(-2, -1, 0, 1, 5))
		if c.g.chance(0.7) {
			v = int64(c.r.Intn(100000))
		}
		v = max64(v, 0)
		if c.g.chance(0.1) {
			v = int64(c.r.Intn(1000000)) * 2000000
		}
		a.V = amt(uint64(v))
		if a.To != a.Key {
			need = v
			size += c.g.outSize(a.To)
		}
	case "create_sends":
		a.N = 1 + c.r.Intn(5)
		if c.g.chance(0.1) {
			a.N = 6 + c.r.Intn(15)
		}
		need = int64(a.N-1) * (c.g.fee(10+149+34, a.Fr) + int64(c.r.Intn(3)))
	case "consolidate":
		var ok bool
		if to, ok = c.recipient(a.To, a.network()); !ok {
			a.To = 1 + c.r.Intn(8)
			text, _ := c.address(a.To, a.network())
			to = []string{text}
		}
		need = c.g.dust(a.To, a.Dr)
		size += c.g.outSize(a.To)
	}
	total := need + c.g.fee(size, a.Fr)
	switch c.r.Intn(5) {
	case 0:
		total += int64(c.r.Intn(7) - 3)
	case 1:
		total += c.g.cost(a.Key, a.Fr) + c.g.outFee(a.Key, a.Fr) + int64(c.r.Intn(9)-4)
	case 2:
		total += c.g.dust(a.Key, a.Dr) + int64(c.r.Intn(9)-4)
	case 3:
		total += c.r.Int63n(1 + 2*c.g.cost(a.Key, a.Fr))
	default:
		total += int64(c.r.Intn(1000000))
	}
	values := c.amounts(n, total)

	var outpoints []string
	var unspent []map[string]interface{}
	for i := 0; i < n; i++ {
		l := locks[i]
		var outs []*wire.TxOut
		index := c.r.Intn(3)
		for j := 0; j < index; j++ {
			outs = append(outs, wire.NewTxOut(uint64(c.r.Intn(100000)), c.u.script(c.g.of(c.u.spend))))
		}
		outs = append(outs, wire.NewTxOut(values[i], c.u.script(l)))
		if c.g.chance(0.4) {
			outs = append(outs, wire.NewTxOut(uint64(c.r.Intn(100000)), c.u.script(c.g.of(c.u.spend))))
		}
		more := 0 // also spend the outputs after it
		for c.g.chance(0.15) && i+more+1 < n {
			more++
			outs = append(outs[:index+more], wire.NewTxOut(values[i+more], c.u.script(locks[i+more])))
		}
		tx := c.source(outs)
		h := *tx.TxHash()
		o := cliOut{O: c.u.outpointName(h, uint32(index)), L: l, V: amt(values[i]), S: "ok"}
		outpoint := fmt.Sprintf("%s:%d", h, index)
		body := txHex(tx)
		if a.Cmd != "consolidate" && more == 0 && c.g.chance(0.08/float64(n)) {
			o.S = []string{"missing", "error", "abort", "garbage", "short", "range"}[c.r.Intn(6)]
			switch o.S {
			case "missing":
				body = ""
			case "error", "abort":
				body = o.S
			case "garbage":
				body = body[1:]
			case "short":
				body = body[:len(body)-2-2*c.r.Intn(20)]
			case "range":
				outpoint = fmt.Sprintf("%s:%d", h, len(tx.TxOut)+c.r.Intn(2))
			}
		}
		if body != "" {
			c.s.set(a.txPath(h), body)
		}
		for j := 0; j <= more; j++ {
			if j > 0 {
				i++
				index++
				o = cliOut{O: c.u.outpointName(h, uint32(index)), L: locks[i], V: amt(values[i]), S: "ok"}
				outpoint = fmt.Sprintf("%s:%d", h, index)
			}
			a.Us = append(a.Us, o)
			outpoints = append(outpoints, outpoint)
			unspent = append(unspent, map[string]interface{}{"height": c.r.Intn(2) * c.r.Intn(800000), "tx_pos": index,
				"tx_hash": h.String(), "value": values[i]})
		}
	}
	if n > 0 && c.g.chance(0.05) {
		// spend one twice
		i := c.r.Intn(n)
		a.Us = append(a.Us, a.Us[i])
		outpoints = append(outpoints, outpoints[i])
		unspent = append(unspent, unspent[i])
	}

	wif := key.String()
	var args []string
	switch a.Cmd {
	case "create_send":
		amount := strconv.FormatUint(a.V.u64(), 10)
		if c.g.chance(0.1) {
			amount = []string{"-1", "-1", "-3", "-1000", "x", "", "-9223372036854775808", "9223372036854775807", "1.5"}[c.r.Intn(9)]
			a.Bad = a.To != a.Key || amount != "9223372036854775807"
		} else if c.g.chance(0.05) {
			amount = strings.Repeat("0", 1+c.r.Intn(3)) + amount
		}
		args = append([]string{wif, to[0], amount}, outpoints...)
	case "create_sends":
		count := strconv.Itoa(a.N)
		if c.g.chance(0.05) {
			count = "0" + count
		}
		args = append([]string{count, wif}, outpoints...)
	case "consolidate":
		args = append([]string{wif}, to...)
		ls := c.u.script(a.Key)
		b, err := json.Marshal(unspent)
		must(err)
		if unspent == nil {
			b = []byte("[]")
		}
		body := string(b)
		if c.g.chance(0.06) {
			a.Bad = true
			wrong := "[{\"value\":\"x\"}]"
			if len(unspent) > 0 {
				// one of them has a value that isn't a number
				wrong = strings.Replace(body, "\"value\":", "\"value\":\"\",\"was\":", 1)
			}
			body = []string{"error", "abort", "{}", "[{]", "", wrong, wrong}[c.r.Intn(7)]
		}
		path := "/v1/bsv/" + a.Net + "/script/" + bitcoin.Hash32(sha256.Sum256(ls)).String() + "/unspent"
		c.s.Lock()
		delete(c.s.replies, path)
		if body != "" {
			c.s.replies[path] = body
		}
		c.s.Unlock()
	}
	if c.g.chance(0.03) {
		a.Bad = true
		switch c.r.Intn(4) {
		case 3: // too few
			args = args[:c.r.Intn(map[string]int{"create_send": 4, "create_sends": 3, "consolidate": 2}[a.Cmd])]
		case 0: // key that isn't one
			for i, x := range args {
				if x == wif {
					args[i] = wif[:len(wif)-1] + map[bool]string{true: "2", false: "1"}[wif[len(wif)-1] == '1']
				}
			}
		case 1:
			if a.Cmd == "create_send" {
				args[1] = args[1][1:]
			} else if a.Cmd == "create_sends" {
				args[0] = "many"
			} else {
				args = args[:1]
			}
		default:
			if len(outpoints) > 0 && a.Cmd != "consolidate" {
				i := len(args) - 1
				args[i] = []string{"", ":", "0", strings.Replace(args[i], ":", ";", 1), args[i] + "x", args[i][1:]}[c.r.Intn(6)]
			} else {
				args = args[:1]
			}
		}
	}

	r := c.call(&a, args)
	return map[string]interface{}{"t": t, "f": true, "op": "cli", "b": "", "a": a, "r": r, "s": map[string]int{},
		"q": map[string]int{}, "m": false, "w": false, "args": append([]string{a.Cmd}, args...)}
}

// call runs the tool and reads what it prints.
func (c *cli) call(a *cliArg, args []string) cliResult {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.bin, append([]string{a.Cmd}, args...)...)
	cmd.Dir = c.dir
	rate := func(id int) string { return strconv.FormatFloat(float64(c.u.rates[id-1]), 'f', -1, 32) }
	cmd.Env = []string{"VERIF_SERVICE_IP=" + c.s.ip,
		"SSL_CERT_FILE=" + filepath.Join(c.dir, "cert.pem"), "SSL_CERT_DIR=" + c.dir, "HOME=" + c.dir, "PATH=/usr/bin:/bin",
		"TMPDIR=" + c.dir}
	if !a.Def {
		cmd.Env = append(cmd.Env, "FEE_RATE="+rate(a.Fr), "DUST_FEE_RATE="+rate(a.Dr))
	}
	if a.Net == "test" {
		cmd.Env = append(cmd.Env, "NETWORK=testnet")
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	err := cmd.Run()
	r := cliResult{E: "ok", Txs: []cliTx{}}
	if ctx.Err() != nil {
		r.E = "hang"
	} else if err != nil {
		r.E = "exit"
		if strings.Contains(stderr.String(), "goroutine ") || strings.Contains(stdout.String(), "goroutine ") {
			r.E = "panic"
		}
	}

	spent := map[string]cliOut{}
	for _, x := range a.Us {
		spent[x.O] = x
	}
	var exts []byte
	for _, line := range strings.Split(stdout.String(), "\n") {
		text := func(prefix string) ([]byte, bool) {
			if !strings.HasPrefix(line, prefix) {
				return nil, false
			}
			b, err := hex.DecodeString(strings.TrimSpace(line[len(prefix):]))
			if err != nil {
				b = []byte{}
			}
			return b, true
		}
		if b, ok := text("Tx Hex : "); ok {
			tx := &wire.MsgTx{}
			rd := bytes.NewReader(b)
			if err := tx.Deserialize(rd); err != nil || rd.Len() != 0 {
				r.E = "garbage"
				continue
			}
			x := cliTx{Ver: fmt.Sprint(tx.Version), Lt: fmt.Sprint(tx.LockTime), Ins: []cliIn{}, Outs: []Out{}, Xs: []cliOut{}}
			name := fmt.Sprintf("p%d", len(r.Txs)+1)
			for i, in := range tx.TxIn {
				y := cliIn{O: c.u.outpointName(in.PreviousOutPoint.Hash, in.PreviousOutPoint.Index),
					Q: fmt.Sprintf("%08x", in.Sequence), N: len(in.UnlockingScript)}
				if o, ok := spent[y.O]; ok && o.L > 0 {
					y.Ok = unlocks(tx, i, c.u.script(o.L), o.V.u64())
				}
				x.Ins = append(x.Ins, y)
			}
			x.hash = *tx.TxHash()
			c.u.hashes[x.hash] = name
			for i, out := range tx.TxOut {
				o := Out{L: c.u.scriptID(out.LockingScript), V: amt(out.Value)}
				x.Outs = append(x.Outs, o)
				spent[fmt.Sprintf("%s:%d", name, i)] = cliOut{L: o.L, V: o.V}
			}
			r.Txs = append(r.Txs, x)
		} else if b, ok := text("Extended Tx Hex : "); ok {
			exts = append(exts, b...)
			if len(r.Txs) == 0 {
				r.E = "garbage"
				continue
			}
			c.extended(&r.Txs[len(r.Txs)-1], b)
		} else if b, ok := text("Cumulative Extended Txs Hex : "); ok {
			r.Cum = "different"
			if bytes.Equal(b, exts) {
				r.Cum = "same"
			}
		}
	}
	return r
}

// extended reads the extended format, which has the spent output after each input.
func (c *cli) extended(x *cliTx, b []byte) {
	if x.Ext {
		x.Same = false
		return
	}
	x.Ext = true
	if len(b) < 10 || !bytes.Equal(b[4:10], []byte{0, 0, 0, 0, 0, 0xef}) {
		return
	}
	rd := bytes.NewReader(b[10:])
	tx := &wire.MsgTx{Version: int32(binary.LittleEndian.Uint32(b))}
	n, err := wire.ReadVarInt(rd, wire.ProtocolVersion)
	for i := uint64(0); err == nil && i < n; i++ {
		in, out := &wire.TxIn{}, &wire.TxOut{}
		if err = in.Deserialize(rd, wire.ProtocolVersion, 0); err == nil {
			err = out.Deserialize(rd, wire.ProtocolVersion, 0)
		}
		tx.AddTxIn(in)
		x.Xs = append(x.Xs, cliOut{L: c.u.scriptID(out.LockingScript), V: amt(out.Value)})
	}
	if err == nil {
		n, err = wire.ReadVarInt(rd, wire.ProtocolVersion)
	}
	for i := uint64(0); err == nil && i < n; i++ {
		out := &wire.TxOut{}
		err = out.Deserialize(rd, wire.ProtocolVersion, 0)
		tx.AddTxOut(out)
	}
	if err == nil {
		err = binary.Read(rd, binary.LittleEndian, &tx.LockTime)
	}
	if err != nil || rd.Len() != 0 {
		return
	}
	x.Same = *tx.TxHash() == x.hash
}

func unlocks(tx *wire.MsgTx, i int, ls bitcoin.Script, value uint64) (r int) {
	defer func() {
		if recover() != nil {
			r = 0
		}
	}()
	us := tx.TxIn[i].UnlockingScript
	if len(us) == 0 || us.IsFalseOpReturn() {
		return 0
	}
	it := bitcoin_interpreter.NewInterpreter()
	cache := &bitcoin_interpreter.SigHashCache{}
	t := tx.Copy()
	ctx := context.Background()
	if it.Execute(ctx, us.Copy(), &t, i, value, cache) != nil || it.Execute(ctx, ls, &t, i, value, cache) != nil {
		return 0
	}
	for _, x := range form(us) {
		if x < formKey && x != 0x41 {
			return 0
		}
	}
	if it.IsUnlocked() {
		return 1
	}
	return 0
}

func runCLI(bin, dir string, n, first int, seed int64, out string) {
	lines := make([][]byte, n)
	next := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < runtime.NumCPU(); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			d, err := os.MkdirTemp(dir, "cli")
			must(err)
			s := newService(d)
			for i := range next {
				u := newUniverse()
				r := rand.New(rand.NewSource(seed*1000003 + int64(i)*7919))
				c := &cli{u: u, r: r, s: s, bin: bin, dir: d, prefix: fmt.Sprintf("c%d.", first+i),
					g: &gen{u: u, r: r}}
				j, err := json.Marshal(c.run(first + i))
				must(err)
				lines[i] = append(j, '\n')
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	must(os.WriteFile(out, bytes.Join(lines, nil), 0600))
}
