package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/keyfuse/tokucore/xrpc"
)

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "a local HTTP server records every request of a client and answers with generated results (edge numbers, any strings, missing and extra fields, every whitespace and escape style), error objects, results of other types, malformed, cut and trailing JSON, wrong lengths, chunking, closed and silent connections; requests are compared with what the call must send and answers with the generated values; non-trivial: distinct answers",
		Kinds: []Kind{
			{Name: "answers", N: 250, TN: 5000, Run: c29answers},
			{Name: "large", N: 12, TN: 60, Run: c29large, Serial: true},
			{Name: "faults", N: 250, TN: 5000, Run: c29faults},
			{Name: "silent", N: 2, TN: 8, Run: c29silent},
			{Name: "parallel", N: 20, TN: 300, Run: c29parallel},
		},
	})
}

// rpcServer answers HTTP requests with raw bytes and records them.
type rpcServer struct {
	l      net.Listener
	mu     sync.Mutex
	reqs   []rpcReq
	answer func(i int, body []byte) (raw []byte, hang bool)
	conns  map[net.Conn]bool
}

type rpcReq struct {
	method, uri, auth, proto string
	body                     []byte
	n                        int
	err                      error
}

func newRPCServer(answer func(i int, body []byte) ([]byte, bool)) (*rpcServer, error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	s := &rpcServer{l: l, answer: answer, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s, nil
}

func (s *rpcServer) host() string { return s.l.Addr().String() }

func (s *rpcServer) close() {
	s.l.Close()
	s.mu.Lock()
	defer s.mu.Unlock()
	for c := range s.conns {
		c.Close()
	}
}

func (s *rpcServer) serve(c net.Conn) {
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	r := bufio.NewReader(c)
	for {
		q, err := http.ReadRequest(r)
		if err != nil {
			return
		}
		b, err := io.ReadAll(q.Body)
		s.mu.Lock()
		i := len(s.reqs)
		s.reqs = append(s.reqs, rpcReq{q.Method, q.RequestURI, q.Header.Get("Authorization"), q.Proto, b, len(q.Header["Authorization"]), err})
		answer := s.answer
		s.mu.Unlock()
		raw, hang := answer(i, b)
		if hang {
			io.Copy(io.Discard, c) // until the client goes
			return
		}
		// a negative answer length (nil) closes at once
		if raw == nil {
			return
		}
		if _, err := c.Write(raw); err != nil {
			return
		}
		if !bytes.HasPrefix(raw, []byte("HTTP/1.1 200 OK\r\nX-Keep: 1\r\n")) {
			return
		}
	}
}

// take returns the recorded requests and forgets them.
func (s *rpcServer) take() []rpcReq {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.reqs
	s.reqs = nil
	return r
}

func (s *rpcServer) set(answer func(i int, body []byte) ([]byte, bool)) {
	s.mu.Lock()
	s.answer = answer
	s.mu.Unlock()
}

// httpAnswer frames a body the way a node's server may.
func (r *Rand) httpAnswer(body []byte) []byte {
	var b bytes.Buffer
	b.WriteString("HTTP/1.1 200 OK\r\n")
	switch r.N(4) {
	case 0, 1:
		b.WriteString("X-Keep: 1\r\nContent-Type: application/json\r\nContent-Length: " + strconv.Itoa(len(body)) + "\r\n\r\n")
		b.Write(body)
	case 2: // chunks
		b.WriteString("X-Keep: 1\r\nTransfer-Encoding: chunked\r\n\r\n")
		rest := body
		for len(rest) > 0 {
			n := r.Range(1, len(rest))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, rest[:n])
			rest = rest[n:]
		}
		b.WriteString("0\r\n\r\n")
	case 3: // up to the end of the connection
		b.WriteString("Connection: close\r\n\r\n")
		b.Write(body)
	}
	return b.Bytes()
}

// ---- reference JSON: values written by an own encoder ----

type jfield struct {
	name string
	val  interface{}
}
type jobj []jfield
type jraw string

func (r *Rand) ws() string {
	if !r.P(6) {
		return ""
	}
	return []string{" ", "\n", "\t", "\r\n", "   "}[r.N(5)]
}

func (r *Rand) jstring(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch {
		case c == '"' || c == '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case c == '\n':
			b.WriteString([]string{`\n`, `\u000a`}[r.N(2)])
		case c == '/' && r.Bool():
			b.WriteString(`\/`)
		case c < 0x20:
			fmt.Fprintf(&b, `\u%04x`, c)
		case c > 0xffff && r.Bool():
			v := c - 0x10000
			fmt.Fprintf(&b, `\u%04x\u%04X`, 0xd800+v>>10, 0xdc00+v&0x3ff)
		case c <= 0xffff && r.P(12):
			fmt.Fprintf(&b, `\u%04x`, c)
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (r *Rand) jsonText(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case jraw:
		return string(x)
	case string:
		return r.jstring(x)
	case int64:
		return strconv.FormatInt(x, 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case float64:
		switch r.N(3) {
		case 0:
			return strconv.FormatFloat(x, 'e', -1, 64)
		case 1:
			if x > -1e15 && x < 1e15 {
				return strconv.FormatFloat(x, 'f', -1, 64)
			}
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	case []interface{}:
		var b strings.Builder
		b.WriteString("[" + r.ws())
		for i, e := range x {
			if i > 0 {
				b.WriteString("," + r.ws())
			}
			b.WriteString(r.jsonText(e) + r.ws())
		}
		b.WriteString("]")
		return b.String()
	case jobj:
		var b strings.Builder
		b.WriteString("{" + r.ws())
		for i, k := range r.order(len(x)) {
			f := x[k]
			if i > 0 {
				b.WriteString("," + r.ws())
			}
			b.WriteString(r.jstring2(f.name) + r.ws() + ":" + r.ws() + r.jsonText(f.val) + r.ws())
		}
		b.WriteString("}")
		return b.String()
	}
	panic(fmt.Sprintf("jsonText of %T", v))
}

// jstring2 writes a name without escapes.
func (r *Rand) jstring2(s string) string { return `"` + s + `"` }

// order is the written order or, sometimes, another.
func (r *Rand) order(n int) []int {
	if r.P(3) {
		return r.Perm(n)
	}
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	return o
}

func (r *Rand) jtext() string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return "\u00e9\u4e2d\U0001F600 \"quoted\" back\\slash /\n\t\u0001 <&>\u2028"
	case 2:
		return strings.Repeat("ab", r.N(3000))
	}
	return fmt.Sprintf("%x", r.Blob(r.Pick(32, 32, 4, 1, 20, 107)))
}

func (r *Rand) float() float64 {
	switch r.N(8) {
	case 0:
		return 0
	case 1:
		return float64(r.N(2100000000000000)) / 1e8
	case 2:
		return 108522647629298.2
	case 3:
		return 0.1 + float64(r.N(100))
	case 4:
		return 20999999.9769
	case 5:
		return 1e-8
	}
	for {
		f := math.Float64frombits(r.U64())
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func (r *Rand) int64e() int64 {
	switch r.N(6) {
	case 0:
		return math.MaxInt64
	case 1:
		return math.MinInt64
	case 2:
		return 1<<53 + 1
	case 3:
		return -1
	}
	return int64(r.Uint())
}

// rpcTypes: what the node's documentation calls the fields, and what they carry: s text, f a floating number,
// integers by sign and width, the name of another object, * before lists. It is independent of the tags and types
// of the library's models.
var rpcTypes = map[string][]rpcField{}

type rpcField struct{ goName, name, typ string }

func init() {
	for _, l := range []string{
		"BlockHeaderResult Hash=hash:s Confirmations=confirmations:i64 Height=height:i64 Version=version:i64 VersionHex=versionHex:s MerkleRoot=merkleroot:s Time=time:u64 MedianTime=mediantime:i64 Nonce=nonce:i64 Bits=bits:s Difficulty=difficulty:f ChainWork=chainwork:s PreviousBlockHash=previousblockhash:s NextBlockHash=nextblockhash:s",
		"BlockResult Hash=hash:s Confirmations=confirmations:i64 StrippedSize=strippedsize:i32 Size=size:i32 Weight=weight:i32 Height=height:i64 Version=version:i32 VersionHex=versionHex:s MerkleRoot=merkleroot:s Tx=tx:*TransactionResult NTx=nTx:u32 Time=time:i64 Nonce=nonce:u32 Bits=bits:s Difficulty=difficulty:f ChainWork=chainwork:s PreviousHash=previousblockhash:s NextHash=nextblockhash:s",
		"ScriptSig Asm=asm:s Hex=hex:s",
		"Vin Coinbase=coinbase:s Txid=txid:s Vout=vout:u32 ScriptSig=scriptSig:ScriptSig Sequence=sequence:u32",
		"ScriptPubKey Asm=asm:s Hex=hex:s ReqSigs=reqSigs:i32 Type=type:s Addresses=addresses:*s",
		"Vout Value=value:f N=n:u32 ScriptPubKey=scriptPubKey:ScriptPubKey",
		"TransactionResult Hex=hex:s Txid=txid:s Version=version:txversion Size=size:u32 Vsize=vsize:u32 Weight=weight:u32 LockTime=locktime:u32 Vin=vin:*Vin Vout=vout:*Vout",
	} {
		w := strings.Fields(l)
		for _, f := range w[1:] {
			k, v, _ := strings.Cut(f, "=")
			n, t, _ := strings.Cut(v, ":")
			rpcTypes[w[0]] = append(rpcTypes[w[0]], rpcField{k, n, t})
		}
	}
}

// fill makes a random object of the documented type, sets the fields of the model to its values (where they can hold
// them) and returns the JSON fields that carry it.
func (r *Rand) fill(v reflect.Value, typ string) jobj {
	var o jobj
	for _, d := range rpcTypes[typ] {
		if r.P(12) {
			continue // the node leaves the field out
		}
		var f reflect.Value
		if v.IsValid() && v.Kind() == reflect.Struct {
			f = v.FieldByName(d.goName)
		}
		o = append(o, jfield{d.name, r.fillValue(f, d.typ)})
	}
	if r.P(3) {
		o = append(o, jfield{"unknown_field", jraw([]string{`{"a":[1,2,{"b":null}]}`, "1e400", `"x"`, "[]", "null"}[r.N(5)])})
	}
	return o
}

// hold sets a field to a number if it can hold it.
func hold(f reflect.Value, n interface{}) {
	if !f.IsValid() {
		return
	}
	switch x := n.(type) {
	case int64:
		if f.CanInt() && !f.OverflowInt(x) {
			f.SetInt(x)
		} else if f.CanUint() && x >= 0 && !f.OverflowUint(uint64(x)) {
			f.SetUint(uint64(x))
		}
	case uint64:
		if f.CanUint() && !f.OverflowUint(x) {
			f.SetUint(x)
		} else if f.CanInt() && x <= math.MaxInt64 && !f.OverflowInt(int64(x)) {
			f.SetInt(int64(x))
		}
	case float64:
		if f.Kind() == reflect.Float64 {
			f.SetFloat(x)
		}
	case string:
		if f.Kind() == reflect.String {
			f.SetString(x)
		}
	}
}

func (r *Rand) fillValue(f reflect.Value, typ string) interface{} {
	var n interface{}
	switch typ {
	case "s":
		n = r.jtext()
	case "i64":
		n = r.int64e()
	case "i32":
		n = int64(int32(r.U32e()))
	case "u32":
		n = uint64(r.U32e())
	case "u64":
		n = r.Uint()
	case "txversion": // written with a sign by older nodes and without by newer ones
		n = int64(r.U32e())
		if r.Bool() {
			n = int64(int32(n.(int64)))
		}
	case "f":
		n = r.float()
	default:
		if typ[0] != '*' {
			return r.fill(f, typ)
		}
		k := r.N(4)
		l := []interface{}{}
		var s reflect.Value
		if f.IsValid() && f.Kind() == reflect.Slice {
			s = reflect.MakeSlice(f.Type(), k, k)
			f.Set(s)
		}
		for i := 0; i < k; i++ {
			var e reflect.Value
			if s.IsValid() {
				e = s.Index(i)
			}
			l = append(l, r.fillValue(e, typ[1:]))
		}
		return l
	}
	hold(f, n)
	return n
}

// rpcCall is one call with its request and its expected value.
type rpcCall struct {
	name   string
	method string
	params []interface{} // as decoded with numbers kept
	call   func(c *xrpc.Client) (interface{}, error)
	want   interface{}
	result interface{} // JSON of want
}

func (r *Rand) hashArg() string {
	if r.P(4) {
		return r.jtext()
	}
	return fmt.Sprintf("%x", r.Bytes(32))
}

func (r *Rand) rpcCall() *rpcCall {
	switch r.N(4) {
	case 0:
		h := int(r.int64e())
		if r.Bool() {
			h = r.N(1000000)
		}
		s := r.jtext()
		return &rpcCall{"GetBlockHash", "getblockhash", []interface{}{json.Number(strconv.Itoa(h))},
			func(c *xrpc.Client) (interface{}, error) { return c.GetBlockHash(h) }, s, s}
	case 1:
		n := r.int64e()
		return &rpcCall{"GetBlockCount", "getblockcount", []interface{}{},
			func(c *xrpc.Client) (interface{}, error) { return c.GetBlockCount() }, int(n), n}
	case 2:
		h := r.hashArg()
		w := &xrpc.BlockHeaderResult{}
		o := r.fill(reflect.ValueOf(w).Elem(), "BlockHeaderResult")
		return &rpcCall{"GetBlockHeader", "getblockheader", []interface{}{h},
			func(c *xrpc.Client) (interface{}, error) { return c.GetBlockHeader(h) }, w, o}
	}
	h := r.hashArg()
	w := &xrpc.BlockResult{}
	o := r.fill(reflect.ValueOf(w).Elem(), "BlockResult")
	return &rpcCall{"GetBlock", "getblock", []interface{}{h, json.Number("3")},
		func(c *xrpc.Client) (interface{}, error) { return c.GetBlock(h) }, w, o}
}

// envelope writes a JSON-RPC answer.
func (r *Rand) envelope(result, errv interface{}, withErr bool) string {
	o := jobj{{"result", result}}
	if withErr {
		o = append(o, jfield{"error", errv})
	}
	if !r.P(6) {
		o = append(o, jfield{"id", []interface{}{uint64(0), nil, uint64(1)}[r.N(2)]})
	}
	if r.P(4) {
		o = append(o, jfield{"jsonrpc", "2.0"})
	}
	return r.ws() + r.jsonText(o) + []string{"", "\n", " \r\n"}[r.N(3)]
}

func (r *Rand) credentials() (string, string) {
	user := []string{"user", "", "u ser", "\u00fcser", "a\"b\\"}[r.N(5)]
	pass := []string{"pass", "", "p:a:ss", "\u5bc6\u7801", strings.Repeat("x", 300)}[r.N(5)]
	return user, pass
}

// checkRequests: exactly one request, as the call must send it.
func checkRequests(c *Ctx, s *rpcServer, k *rpcCall, user, pass string) {
	reqs := s.take()
	c.Check(len(reqs) == 1, "requests", "%s sends %d requests", k.name, len(reqs))
	q := reqs[0]
	c.Check(q.err == nil && q.method == "POST" && q.uri == "/", "request-line", "%s sends %s %s (%v)", k.name, q.method, q.uri, q.err)
	want := "Basic " + base64.StdEncoding.EncodeToString([]byte(user+":"+pass))
	c.Check(q.auth == want && q.n == 1, "request-auth", "%s sends authorization %q, expected %q", k.name, q.auth, want)
	var m map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(q.body))
	d.UseNumber()
	err := d.Decode(&m)
	c.Check(err == nil, "request-json", "%s sends %q: %v", k.name, q.body, err)
	_, err = d.Token()
	c.Check(err == io.EOF, "request-json", "%s sends more after the request: %q", k.name, q.body)
	c.Check(m["method"] == k.method, "request-method", "%s sends method %v", k.name, m["method"])
	_, hasID := m["id"]
	c.Check(hasID, "request-id", "%s sends no id", k.name)
	p, _ := m["params"].([]interface{})
	if p == nil && m["params"] == nil {
		p = []interface{}{}
	}
	ok := len(p) == len(k.params)
	for i := 0; ok && i < len(p); i++ {
		ok = p[i] == k.params[i]
		if !ok && k.method == "getblock" && i == 1 {
			// any verbosity that gives transactions
			n, isNum := p[i].(json.Number)
			v, err := strconv.Atoi(string(n))
			ok = isNum && err == nil && v >= 2
		}
	}
	c.Check(ok, "request-params", "%s sends params %v, expected %v", k.name, m["params"], k.params)
}

// normalise makes nil and empty slices alike.
func sameValue(a, b interface{}) bool {
	return dumpValue(reflect.ValueOf(a)) == dumpValue(reflect.ValueOf(b))
}

func dumpValue(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + dumpValue(v.Elem())
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ":" + dumpValue(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += dumpValue(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.Float64:
		return strconv.FormatFloat(v.Float()+0, 'g', -1, 64)
	}
	return fmt.Sprintf("%#v", v.Interface())
}

func c29answers(c *Ctx) {
	s, err := newRPCServer(nil)
	if err != nil {
		return
	}
	defer s.close()
	user, pass := c.credentials()
	cl := xrpc.NewClient(s.host(), user, pass)
	for i := 0; i < 10; i++ {
		k := c.rpcCall()
		body := c.envelope(k.result, nil, c.Bool())
		raw := c.httpAnswer([]byte(body))
		s.set(func(int, []byte) ([]byte, bool) { return raw, false })
		c.Note(func() string { return k.name + " answered with " + short(body) })
		got, err := k.call(cl)
		c.Check(err == nil, "answer-error:"+k.name, "a well-formed answer gives error %v", err)
		c.Check(sameValue(got, k.want), "answer:"+k.name, "returned %s, sent %s", short(dumpValue(reflect.ValueOf(got))), short(dumpValue(reflect.ValueOf(k.want))))
		checkRequests(c, s, k, user, pass)
		c.NT(body)
		c.Count(k.name)
		c.Sample("%s(%v) -> %s", k.method, k.params, short(body))
	}
}

// otherType gives a result that is not of the call's type.
func (r *Rand) otherType(k *rpcCall) interface{} {
	all := []interface{}{true, false, jobj{}, jobj{{"hash", "x"}}, []interface{}{}, []interface{}{int64(1)}, "text", "", int64(0), int64(7), jraw("1.5"), jraw("1e30"), jraw("99999999999999999999"), jraw(`"12"`)}
	for {
		v := all[r.N(len(all))]
		switch x := v.(type) {
		case string:
			if k.method == "getblockhash" {
				continue
			}
		case int64:
			if k.method == "getblockcount" {
				continue
			}
		case jobj:
			if k.method == "getblock" || k.method == "getblockheader" {
				continue
			}
		case jraw:
			if k.method == "getblockhash" && x == `"12"` {
				continue
			}
		}
		return v
	}
}

// badField puts a value of another type into one field.
func (r *Rand) badField(k *rpcCall) (interface{}, bool) {
	o, ok := k.result.(jobj)
	if !ok || len(o) == 0 {
		return nil, false
	}
	n := append(jobj{}, o...)
	for try := 0; try < 20; try++ {
		i := r.N(len(n))
		var bad interface{}
		switch n[i].val.(type) {
		case string:
			bad = []interface{}{int64(1), true, jobj{}, []interface{}{}}[r.N(4)]
		case int64, uint64:
			bad = []interface{}{"1", jraw("1.5"), jraw("123456789012345678901"), jobj{}, true}[r.N(5)]
		case float64:
			bad = []interface{}{"1", jraw("1e400"), jobj{}, false}[r.N(4)]
		case []interface{}:
			bad = []interface{}{"1", int64(1), jobj{}, []interface{}{int64(1)}}[r.N(4)]
		default:
			continue
		}
		n[i].val = bad
		return n, true
	}
	return nil, false
}

func c29faults(c *Ctx) {
	s, err := newRPCServer(nil)
	if err != nil {
		return
	}
	defer s.close()
	user, pass := c.credentials()
	cl := xrpc.NewClient(s.host(), user, pass)
	for i := 0; i < 12; i++ {
		k := c.rpcCall()
		body := c.envelope(k.result, nil, c.Bool())
		raw := []byte(nil)
		fault := ""
		errObj := jobj{{"code", int64(int32(c.U32e()))}, {"message", c.jtext()}}
		if c.P(5) {
			errObj = errObj[:c.N(2)]
		}
		switch c.N(12) {
		case 0:
			fault = "error object"
			body = c.envelope(nil, errObj, true)
		case 1:
			fault = "error object and result"
			body = c.envelope(k.result, errObj, true)
		case 2:
			fault = "error of another type"
			body = c.envelope(k.result, []interface{}{"failed", int64(-1), []interface{}{int64(1)}, true}[c.N(4)], true)
		case 3:
			fault = "no result"
			body = []string{"{}", `{"result":null}`, `{"result":null,"error":null,"id":0}`, `{"id":0,"error":null}`, "null", `{"id":1}`, ` {} `}[c.N(7)]
		case 4:
			fault = "result of another type"
			body = c.envelope(c.otherType(k), nil, c.Bool())
		case 5:
			v, ok := c.badField(k)
			if !ok {
				continue
			}
			fault = "field of another type"
			body = c.envelope(v, nil, true)
		case 6:
			fault = "cut JSON"
			t := strings.TrimSpace(body)
			body = t[:c.N(len(t))]
		case 7:
			fault = "garbage"
			body = []string{"oops", "", "<html></html>", "[]", "1", `"text"`, "true", "{", "}", `{"result":}`, `{"result":1,}`, body + "}", body + "x", body + body, "\x00", "\xef\xbb\xbf" + body, "[" + body + "]", `{result:1}`, body + ",", "-", "nul"}[c.N(21)]
		case 8:
			fault = "cut transfer"
			r := c.httpAnswer([]byte(body))
			if bytes.Contains(r[:60], []byte("Connection: close")) {
				continue // the end of the connection is the end of the body
			}
			cut := c.N(len(r))
			if c.P(3) { // all of the answer, but not the end of the transfer
				cut = len(r) - c.Range(1, 6)
			}
			raw = r[:cut]
			if bytes.HasPrefix(r, []byte("HTTP/1.1 200 OK\r\nX-Keep: 1\r\n")) {
				// the connection is closed after it
				raw = append([]byte("HTTP/1.1 200 OK\r\n"), bytes.TrimPrefix(r, []byte("HTTP/1.1 200 OK\r\nX-Keep: 1\r\n"))...)
				raw = raw[:min(len(raw)-1, max(0, cut-len("X-Keep: 1\r\n")))]
			}
			if len(raw) == 0 {
				raw = nil
			}
		case 9:
			fault = "HTTP status with text"
			code := []string{"401 Unauthorized", "403 Forbidden", "404 Not Found", "405 Method Not Allowed", "500 Internal Server Error", "503 Service Unavailable"}[c.N(6)]
			t := []string{"", "oops", "<html>no</html>", "Work queue depth exceeded"}[c.N(4)]
			raw = []byte("HTTP/1.1 " + code + "\r\nConnection: close\r\nContent-Length: " + strconv.Itoa(len(t)) + "\r\n\r\n" + t)
		case 10:
			fault = "HTTP status with error object"
			t := c.envelope(nil, errObj, true)
			raw = []byte("HTTP/1.1 " + []string{"500 Internal Server Error", "404 Not Found", "400 Bad Request"}[c.N(3)] + "\r\nConnection: close\r\nContent-Length: " + strconv.Itoa(len(t)) + "\r\n\r\n" + t)
		case 11:
			fault = "no HTTP"
			raw = [][]byte{nil, []byte("hello\r\n\r\n"), []byte("HTTP/9.9 200 OK\r\n\r\n"), []byte("HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n{}"), []byte("\x16\x03\x01"), []byte("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n")}[c.N(6)]
		}
		if raw == nil && fault != "no HTTP" && fault != "cut transfer" {
			raw = c.httpAnswer([]byte(body))
		}
		s.set(func(int, []byte) ([]byte, bool) { return raw, false })
		c.Note(func() string { return k.name + " answered with " + fault + ": " + short(string(raw)) })
		got, err := k.call(cl)
		c.Check(err != nil, "fault:"+fault, "%s returns %s and no error", k.name, short(dumpValue(reflect.ValueOf(got))))
		reqs := s.take()
		c.Check(len(reqs) == 1 || (len(reqs) == 0 && raw == nil), "fault-requests", "%s sends %d requests when answered with %s", k.name, len(reqs), fault)
		c.NT(fault, raw)
		c.Count(fault)
		// the client works again
		k = c.rpcCall()
		body = c.envelope(k.result, nil, true)
		raw = c.httpAnswer([]byte(body))
		s.set(func(int, []byte) ([]byte, bool) { return raw, false })
		got, err = k.call(cl)
		c.Check(err == nil && sameValue(got, k.want), "after-fault:"+k.name, "after %s: %s, %v", fault, short(dumpValue(reflect.ValueOf(got))), err)
		checkRequests(c, s, k, user, pass)
	}
	s.close()
	k := c.rpcCall()
	got, err := k.call(cl)
	c.Check(err != nil, "fault:no server", "%s without a server: %v", k.name, got)
	c.Count("no server")
	// hosts no request can be made for
	for _, host := range []string{"", "bad host", "%zz", "127.0.0.1:port", "[::1", "127.0.0.1:99999", "\x7f", "127.0.0.1:-1", "a\nb", "::::"} {
		k := c.rpcCall()
		c.Note(func() string { return fmt.Sprintf("%s with host %q", k.name, host) })
		got, err := k.call(xrpc.NewClient(host, user, pass))
		c.Check(err != nil, "fault:host", "%s with host %q: %v", k.name, host, got)
	}
	c.Count("bad host")
}

// c29silent: a server that does not answer, or drips, is an error, not a hang.
func c29silent(c *Ctx) {
	s, err := newRPCServer(func(int, []byte) ([]byte, bool) { return nil, true })
	if err != nil {
		return
	}
	defer s.close()
	cl := xrpc.NewClient(s.host(), "u", "p")
	k := c.rpcCall()
	done := make(chan struct{})
	var callErr error
	go func() { _, callErr = k.call(cl); close(done) }()
	waitCh(c, done, "silent-hang", k.name+" of a silent server does not return")
	c.Check(callErr != nil, "silent", "%s of a silent server gives no error", k.name)
	// the same client asks again, of a server that now answers
	s.set(func(int, []byte) ([]byte, bool) {
		return c.httpAnswer([]byte(`{"result":"back","error":null,"id":0}`)), false
	})
	got, err := cl.GetBlockHash(7)
	c.Check(err == nil && got == "back", "silent-after", "the call after one that was not answered gives %q, %v", got, err)
	c.NT(k.name, c.Idx)
	c.Count("silent server")
}

// c29parallel: one client used by several goroutines, every caller gets its own answer.
func c29parallel(c *Ctx) {
	s, err := newRPCServer(nil)
	if err != nil {
		return
	}
	defer s.close()
	seed := c.U64()
	s.set(func(i int, body []byte) ([]byte, bool) {
		// the hash answered tells the height asked
		var q struct {
			Method string
			Params []json.Number
		}
		json.Unmarshal(body, &q)
		res := "null"
		if len(q.Params) == 1 {
			res = `"h` + string(q.Params[0]) + `"`
		}
		r := newRand(seedFor(seed, "p", string(body), 0))
		if r.P(3) {
			time.Sleep(time.Duration(r.N(300)) * time.Microsecond)
		}
		return r.httpAnswer([]byte(`{"result":` + res + `,"error":null}`)), false
	})
	cl := xrpc.NewClient(s.host(), "u", "p")
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < 20; i++ {
				h := g*1000 + i
				got, err := cl.GetBlockHash(h)
				if err != nil || got != "h"+strconv.Itoa(h) {
					select {
					case bad <- fmt.Sprintf("asked %d, got %q, %v", h, got, err):
					default:
					}
				}
			}
		}(g)
	}
	wg.Wait()
	select {
	case m := <-bad:
		c.Fail("parallel", "%s", m)
	default:
	}
	c.Check(len(s.take()) == 160, "parallel-requests", "not one request per call")
	c.NT("parallel", c.Idx)
	c.Eval(160)
}

// c29large: answers of many megabytes, as those of full blocks with all transactions are.
func c29large(c *Ctx) {
	s, err := newRPCServer(nil)
	if err != nil {
		return
	}
	defer s.close()
	cl := xrpc.NewClient(s.host(), "u", "p")
	total := []int{70 << 10, 1<<20 + 5, 3 << 20, 9 << 20, 18 << 20, 33 << 20}[c.Idx%6]
	var k *rpcCall
	var n int
	if c.Idx%12 >= 6 { // one long string
		hash := strings.Repeat(fmt.Sprintf("%x", c.Bytes(32)), total/64)
		k = &rpcCall{name: "GetBlockHash", want: hash, result: hash, call: func(c *xrpc.Client) (interface{}, error) { return c.GetBlockHash(1) }}
	} else {
		tx := xrpc.TransactionResult{Hex: fmt.Sprintf("%x", c.Bytes(200)), Txid: "ab", Vin: []xrpc.Vin{{Vout: 3}}, Vout: []xrpc.Vout{{Value: 0.25, N: 7}}}
		one := `{"hex":"` + tx.Hex + `","txid":"ab","version":0,"size":0,"vsize":0,"weight":0,"locktime":0,"vin":[{"vout":3}],"vout":[{"value":0.25,"n":7}]}`
		n = total / len(one)
		w := &xrpc.BlockResult{Hash: "cd", Height: 5, NTx: uint32(n)}
		for i := 0; i < n; i++ {
			w.Tx = append(w.Tx, tx)
		}
		list := strings.Repeat(one+",", n)
		k = &rpcCall{name: "GetBlock", want: w, call: func(c *xrpc.Client) (interface{}, error) { return c.GetBlock("cd") },
			result: jobj{{"hash", "cd"}, {"tx", jraw("[" + list[:len(list)-1] + "]")}, {"height", int64(5)}, {"nTx", uint64(n)}}}
	}
	body := c.envelope(k.result, nil, c.Bool())
	raw := c.httpAnswer([]byte(body))
	s.set(func(int, []byte) ([]byte, bool) { return raw, false })
	c.Note(func() string {
		return fmt.Sprintf("%s answered with %d bytes (%d transactions)", k.name, len(body), n)
	})
	t0 := time.Now()
	got, err := k.call(cl)
	if err != nil && time.Since(t0) > 4*time.Second {
		return // the machine was too slow for the client's time limit
	}
	c.Check(err == nil, "answer-error:"+k.name, "a well-formed answer gives error %v", err)
	c.Check(reflect.DeepEqual(got, k.want), "answer-large:"+k.name, "the value returned is not the one of the answer")
	c.NT(k.name, len(body))
	c.Count("answers of many megabytes")
	c.Sample("%s: %d bytes", k.name, len(body))
}
