package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"
)

func init() {
	register(&Prop{
		ID:   "C26",
		Rule: "messages of every kind with random and edge field values and counts across compact-size boundaries are encoded and compared with an independent codec, decoded into fresh and used objects (after good and failed decodes), cut at every length, and filled to and beyond the limits through every way of adding; non-trivial: distinct payloads",
		Kinds: []Kind{
			{Name: "codec", N: 30000, TN: 400000, Run: c26codec},
			{Name: "reuse", N: 20000, TN: 200000, Run: c26reuse},
			{Name: "truncate", N: 3000, TN: 40000, Run: c26truncate},
			{Name: "limits", N: 24, TN: 200, Run: c26limits},
			{Name: "hash", N: 6000, TN: 100000, Run: c26hash},
			{Name: "defaults", N: 50, TN: 100, Run: c26defaults},
		},
	})
	register(&Prop{
		ID:   "C27",
		Rule: "random message sequences are written to a recording transport (compared with reference frames) and read back through transports that fragment, delay, cut, fail or corrupt every header and payload position; deliveries are compared with what was sent up to the damaged frame, whose read must be an error; non-trivial: distinct streams",
		Kinds: []Kind{
			{Name: "stream", N: 5000, TN: 60000, Run: c27stream},
			{Name: "corrupt", N: 16000, TN: 200000, Run: c27corrupt},
			{Name: "cut", N: 10000, TN: 150000, Run: c27cut},
			{Name: "sweep", N: 80, TN: 600, Run: c27sweep},
			{Name: "long", N: 64, TN: 1000, Run: c27long},
			{Name: "writefault", N: 5000, TN: 60000, Run: c27writefault},
			{Name: "hostile", N: 60, TN: 600, Run: c27hostile, Serial: true},
			{Name: "big", N: 4, TN: 12, Run: c27big, Serial: true},
			{Name: "socket", N: 24, TN: 300, Run: c27socket},
		},
	})
	register(&Prop{
		ID:   "C28",
		Race: true,
		Rule: "pairs of connections over in-memory pipes and loopback sockets, with random fragmentation and delays on both directions, many senders on both ends at once, echoes from inside the receive callback, closes at random points; the recorded event log (calls, deliveries, raw bytes, disconnects) is checked offline for whole frames, exactly-once, sender order, arrival order and one disconnect, under the race detector; non-trivial: distinct arrival orders",
		Kinds: []Kind{
			{Name: "traffic", N: 500, TN: 1500, Run: c28traffic},
			{Name: "duplex", N: 150, TN: 400, Run: c28duplex},
			{Name: "close", N: 500, TN: 1500, Run: c28close},
			{Name: "shared", N: 150, TN: 500, Run: c28shared},
		},
	})
}

// ---- generated messages with their reference payloads ----

type genMsg struct {
	msg     xprotocol.Message
	cmd     string
	payload []byte
}

var msgKinds = []string{"version", "verack", "ping", "pong", "inv", "getdata", "getheaders", "headers", "tx", "reject"}

// count picks a number of elements, sometimes across the compact-size boundaries.
func (r *Rand) count(max int) int {
	n := 0
	switch r.N(12) {
	case 0:
		n = 0
	case 1:
		n = r.Range(250, 256)
	case 2:
		n = r.N(2100)
	default:
		n = r.N(12)
	}
	if n > max {
		n = max
	}
	return n
}

func (r *Rand) text() string {
	switch r.N(10) {
	case 0:
		return ""
	case 1:
		return string(r.Bytes(r.Range(250, 256)))
	case 2:
		if r.P(8) {
			return string(r.Bytes(r.Range(65530, 65540)))
		}
		return string(r.Bytes(r.Range(1, 2000)))
	}
	return string(r.Blob(r.N(60)))
}

func (r *Rand) invs(w *wbuf, n int) []*xprotocol.InvVect {
	w.varint(uint64(n))
	var l []*xprotocol.InvVect
	for i := 0; i < n; i++ {
		t, h := uint32(r.N(5)), r.Blob(32)
		if r.P(4) {
			t = r.U32e()
		}
		if i > 0 && r.P(8) { // the same again, or the same hash with another type
			o := l[r.Pick(i-1, r.N(i))]
			h = dup(o.Hash)
			if r.P(3) {
				w.u32(uint32(o.Type))
				w.raw(h)
				l = append(l, o)
				continue
			}
			if r.Bool() {
				t = uint32(o.Type)
			}
		}
		w.u32(t)
		w.raw(h)
		l = append(l, xprotocol.NewInvVect(xprotocol.InvType(t), h))
	}
	return l
}

func (r *Rand) blockHeader() (*xprotocol.BlockHeader, []byte) {
	h := &xprotocol.BlockHeader{Version: r.U32e(), PrevBlock: r.Blob(32), MerkleRoot: r.Blob(32), Timestamp: r.U32e(), Bits: r.U32e(), Nonce: r.U32e()}
	w := &wbuf{}
	w.u32(h.Version)
	w.raw(h.PrevBlock)
	w.raw(h.MerkleRoot)
	w.u32(h.Timestamp)
	w.u32(h.Bits)
	w.u32(h.Nonce)
	return h, w.b
}

// genMessage makes a message of a kind with the payload the protocol gives it.
func (r *Rand) genMessage(cmd string, small bool) genMsg {
	w := &wbuf{}
	cnt := func(max int) int {
		if small && max > 8 {
			max = 8
		}
		return r.count(max)
	}
	var m xprotocol.Message
	switch cmd {
	case "version":
		v := &xprotocol.MsgVersion{
			Version: r.U32e(), Services: r.Uint(), Timestamp: r.Uint(), ServicesYou: r.Uint(), AddressYou: r.Blob(16), PortYou: r.U32e() & 0xffff,
			ServicesMe: r.Uint(), AddressMe: r.Blob(16), PortMe: r.U32e() & 0xffff, Nonce: r.Uint(), UserAgent: r.text(), LastBlock: r.U32e(), Relay: byte(r.U32()),
		}
		if small && len(v.UserAgent) > 100 {
			v.UserAgent = v.UserAgent[:100]
		}
		w.u32(v.Version)
		w.u64(v.Services)
		w.u64(v.Timestamp)
		w.u64(v.ServicesYou)
		w.raw(v.AddressYou)
		w.raw([]byte{byte(v.PortYou >> 8), byte(v.PortYou)})
		w.u64(v.ServicesMe)
		w.raw(v.AddressMe)
		w.raw([]byte{byte(v.PortMe >> 8), byte(v.PortMe)})
		w.u64(v.Nonce)
		w.bytes([]byte(v.UserAgent))
		w.u32(v.LastBlock)
		w.u8(v.Relay)
		m = v
	case "verack":
		m = xprotocol.NewMsgVerAck()
	case "ping", "pong":
		n := r.Uint()
		w.u64(n)
		if cmd == "ping" {
			m = xprotocol.NewMsgPing(n)
		} else {
			m = xprotocol.NewMsgPong(n)
		}
	case "inv":
		x := xprotocol.NewMsgInv()
		l := r.invs(w, cnt(3000))
		if err := addSplit(r, l, func(p []*xprotocol.InvVect) error { return x.AddInvVect(p...) }); err != nil {
			panic(err)
		}
		m = x
	case "getdata":
		x := xprotocol.NewMsgGetData()
		l := r.invs(w, cnt(3000))
		if err := addSplit(r, l, func(p []*xprotocol.InvVect) error { return x.AddInvVect(p...) }); err != nil {
			panic(err)
		}
		m = x
	case "getheaders":
		net := netByName(r.netName())
		x := xprotocol.NewMsgGetHeaders(net)
		w.u32(70015)
		n := cnt(600)
		if n == 0 {
			// no locator is sent as the zero hash
			w.varint(1)
			w.raw(make([]byte, 32))
		} else {
			w.varint(uint64(n))
		}
		for i := 0; i < n; i++ {
			h := r.Blob(32)
			if i > 0 && r.P(8) {
				h = dup(w.b[len(w.b)-32:])
			}
			w.raw(h)
			if err := x.AddBlockLocatorHash(h); err != nil {
				panic(err)
			}
		}
		w.raw(make([]byte, 32))
		m = x
		if r.Bool() {
			// another version and stop hash come only from the wire
			p := w.b
			binary.LittleEndian.PutUint32(p, r.U32e())
			copy(p[len(p)-32:], r.Blob(32))
			if err := x.Decode(dup(p)); err != nil {
				panic(err)
			}
		}
	case "headers":
		x := xprotocol.NewMsgHeaders()
		n := cnt(2000)
		w.varint(uint64(n))
		var l []*xprotocol.BlockHeader
		for i := 0; i < n; i++ {
			h, b := r.blockHeader()
			if i > 0 && r.P(8) {
				h, b = l[i-1], dup(w.b[len(w.b)-81:len(w.b)-1])
			}
			w.raw(b)
			w.u8(0)
			l = append(l, h)
		}
		if err := addSplit(r, l, func(p []*xprotocol.BlockHeader) error { return x.AddBlockHeader(p...) }); err != nil {
			panic(err)
		}
		m = x
	case "tx":
		n := r.Len(5000)
		if small && n > 300 {
			n %= 300
		}
		d := r.Blob(n)
		w.raw(d)
		m = xprotocol.NewMsgTx(dup(d))
	case "reject":
		about := []string{"tx", "block", "version", "inv", r.text(), "", "TX", "tx\x00"}[r.N(8)]
		reason := r.text()
		if small && len(about)+len(reason) > 300 {
			about, reason = "tx", "r"
		}
		code := byte(r.U32())
		x := xprotocol.NewMsgReject(about, xprotocol.RejectCode(code), reason)
		w.bytes([]byte(about))
		w.u8(code)
		w.bytes([]byte(reason))
		if about == "tx" || about == "block" {
			if r.P(4) {
				// a reject made without a hash carries the zero hash
				w.raw(make([]byte, 32))
			} else {
				x.Hash = r.Blob(32)
				w.raw(x.Hash)
			}
		}
		m = x
	}
	return genMsg{m, cmd, w.b}
}

// addSplit adds elements in random pieces.
func addSplit[T any](r *Rand, l []T, add func([]T) error) error {
	if r.Bool() {
		return add(l)
	}
	for len(l) > 0 {
		n := r.Range(1, len(l))
		if err := add(l[:n:n]); err != nil {
			return err
		}
		l = l[n:]
	}
	return nil
}

func emptyMsg(cmd string) xprotocol.Message {
	switch cmd {
	case "version":
		return &xprotocol.MsgVersion{}
	case "verack":
		return &xprotocol.MsgVerAck{}
	case "ping":
		return &xprotocol.MsgPing{}
	case "pong":
		return &xprotocol.MsgPong{}
	case "inv":
		return &xprotocol.MsgInv{}
	case "getdata":
		return &xprotocol.MsgGetData{}
	case "getheaders":
		return &xprotocol.MsgGetHeaders{}
	case "headers":
		return &xprotocol.MsgHeaders{}
	case "tx":
		return &xprotocol.MsgTx{}
	case "reject":
		return &xprotocol.MsgReject{}
	}
	return nil
}

// fields prints the exported content of a message, nil and empty alike.
func fields(m xprotocol.Message) string {
	var b bytes.Buffer
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				b.WriteString("nil")
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			b.WriteByte('{')
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					b.WriteString(v.Type().Field(i).Name + ":")
					walk(v.Field(i))
					b.WriteByte(' ')
				}
			}
			b.WriteByte('}')
		case reflect.Slice:
			if v.Type().Elem().Kind() == reflect.Uint8 {
				fmt.Fprintf(&b, "%x", v.Bytes())
				return
			}
			b.WriteByte('[')
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
				b.WriteByte(' ')
			}
			b.WriteByte(']')
		case reflect.String:
			fmt.Fprintf(&b, "%q", v.String())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			fmt.Fprintf(&b, "%d", v.Uint())
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			fmt.Fprintf(&b, "%d", v.Int())
		case reflect.Bool:
			fmt.Fprintf(&b, "%v", v.Bool())
		default:
			fmt.Fprintf(&b, "?%v", v.Kind())
		}
	}
	walk(reflect.ValueOf(m))
	return b.String()
}

// sameContent compares a decoded message with the one it was encoded from.
func sameContent(a, b xprotocol.Message) bool {
	norm := func(m xprotocol.Message) xprotocol.Message {
		r, ok := m.(*xprotocol.MsgReject)
		if !ok || len(r.Hash) > 0 || (r.Cmd != "tx" && r.Cmd != "block") {
			return m
		}
		// no hash is the zero hash on the wire
		n := *r
		n.Hash = make([]byte, 32)
		return &n
	}
	a, b = norm(a), norm(b)
	return fields(a) == fields(b)
}

func short(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func judgeMsg(c *Ctx, what string, m xprotocol.Message, g genMsg) {
	got := m.Encode()
	c.Check(bytes.Equal(got, g.payload), "encode:"+g.cmd, "%s %s encodes to %s, reference %s", what, g.cmd, hx(got), hx(g.payload))
	c.Check(m.Size() == len(g.payload), "size:"+g.cmd, "%s %s: Size() %d, encoding %d bytes", what, g.cmd, m.Size(), len(g.payload))
	c.Check(m.Command() == g.cmd, "command", "%s %s has command %q", what, g.cmd, m.Command())
	c.Check(sameContent(g.msg, m), "content:"+g.cmd, "%s %s: %s, expected %s", what, g.cmd, short(fields(m)), short(fields(g.msg)))
}

func c26codec(c *Ctx) {
	g := c.genMessage(msgKinds[c.N(len(msgKinds))], false)
	c.Note(func() string { return g.cmd + " payload " + hx(g.payload) })
	judgeMsg(c, "made", g.msg, g)
	arg, gd := guarded(g.payload, c.N(2)*40)
	m := emptyMsg(g.cmd)
	err := m.Decode(arg)
	c.Check(err == nil, "decode:"+g.cmd, "%s does not decode: %v", g.cmd, err)
	judgeMsg(c, "decoded", m, g)
	c.Check(gd.ok(), "payload-written", "decoding wrote into the payload")
	judgeMsg(c, "made, again", g.msg, g)
	c.NT(g.cmd, g.payload)
	c.Count(g.cmd)
	c.Sample("%s %s", g.cmd, hx(g.payload))
}

// c26reuse decodes into an object that held other things before.
func c26reuse(c *Ctx) {
	cmd := msgKinds[c.N(len(msgKinds))]
	m := emptyMsg(cmd)
	hist := ""
	for i, n := 0, c.Range(1, 4); i < n; i++ {
		o := c.genMessage(cmd, true)
		p := o.payload
		switch {
		case c.P(3):
			p = p[:c.N(len(p)+1)]
			hist += " cut"
		case c.P(5):
			p = c.mutate(p)
			hist += " mutated"
		default:
			hist += " good"
		}
		m.Decode(dup(p))
		if c.Bool() {
			m.Encode()
			m.Size()
		}
	}
	g := c.genMessage(cmd, c.Bool())
	c.Note(func() string { return cmd + " after" + hist + ", payload " + hx(g.payload) })
	err := m.Decode(dup(g.payload))
	c.Check(err == nil, "decode:"+g.cmd, "%s does not decode into a used object: %v", g.cmd, err)
	judgeMsg(c, "decoded into a used object", m, g)
	c.NT(g.cmd, g.payload, hist)
}

func c26truncate(c *Ctx) {
	cmd := msgKinds[c.N(len(msgKinds))]
	if cmd == "tx" || cmd == "verack" {
		cmd = "version" // these have no structure of their own
	}
	g := c.genMessage(cmd, true)
	c.Note(func() string { return g.cmd + " payload " + hx(g.payload) })
	for n := 0; n < len(g.payload); n++ {
		m := emptyMsg(cmd)
		err := m.Decode(dup(g.payload[:n]))
		c.Check(err != nil, "truncated:"+cmd, "%s of %d bytes cut to %d decodes: %s", cmd, len(g.payload), n, short(fields(m)))
	}
	c.CountN("truncations", len(g.payload))
	c.NT(g.cmd, g.payload)
}

// c26limits fills messages to and beyond the limits.
func c26limits(c *Ctx) {
	kind := []string{"inv", "getdata", "headers"}[c.Idx%3]
	max := 50000
	if kind == "headers" {
		max = 2000
	}
	inv := xprotocol.NewInvVect(1, c.Bytes(32))
	hdr, hb := c.blockHeader()
	mi, md, mh := xprotocol.NewMsgInv(), xprotocol.NewMsgGetData(), xprotocol.NewMsgHeaders()
	have := 0
	count := func() int {
		switch kind {
		case "inv":
			return len(mi.Invs)
		case "getdata":
			return len(md.InvList)
		}
		return len(mh.Headers)
	}
	add := func(n int) error {
		invs := make([]*xprotocol.InvVect, n)
		hs := make([]*xprotocol.BlockHeader, n)
		for i := range invs {
			invs[i], hs[i] = inv, hdr
		}
		switch kind {
		case "inv":
			return mi.AddInvVect(invs...)
		case "getdata":
			return md.AddInvVect(invs...)
		}
		return mh.AddBlockHeader(hs...)
	}
	if c.Idx < 12 {
		// through Add, in pieces
		for tries := 0; tries < 60; tries++ {
			n := c.Pick(0, 1, 1, max, max+1, max-have, max-have+1, max-have-1, c.N(max), c.N(200))
			if n < 0 {
				n = 0
			}
			err := add(n)
			ok := have+n <= max
			c.Check((err == nil) == ok, "limit-add:"+kind, "adding %d to %d elements: %v (limit %d)", n, have, err, max)
			if ok {
				have += n
			}
			c.Check(count() == have, "limit-count:"+kind, "%d elements after adding, expected %d", count(), have)
			c.NT(kind, have, n, ok)
		}
		var m xprotocol.Message = mi
		elem := append([]byte{1, 0, 0, 0}, inv.Hash...)
		switch kind {
		case "getdata":
			m = md
		case "headers":
			m = mh
			elem = append(dup(hb), 0)
		}
		w := &wbuf{}
		w.varint(uint64(have))
		for i := 0; i < have; i++ {
			w.raw(elem)
		}
		c.Check(bytes.Equal(m.Encode(), w.b), "limit-encode:"+kind, "%d elements encode to %d bytes, reference %d", have, len(m.Encode()), len(w.b))
		c.Check(m.Size() == len(w.b), "limit-size:"+kind, "%d elements: Size() %d, reference %d", have, m.Size(), len(w.b))
		return
	}
	// received
	for _, n := range []int{max - 1, max, max + 1, max + c.Range(2, 300)} {
		w := &wbuf{}
		w.varint(uint64(n))
		elem := append([]byte{1, 0, 0, 0}, inv.Hash...)
		if kind == "headers" {
			elem = append(dup(hb), 0)
		}
		w.raw(bytes.Repeat(elem, n))
		m := emptyMsg(kind)
		err := m.Decode(w.b)
		c.Check((err == nil) == (n <= max), "limit-decode:"+kind, "%d elements received: %v (limit %d)", n, err, max)
		if err == nil {
			c.Check(bytes.Equal(m.Encode(), w.b) && m.Size() == len(w.b), "limit-encode:"+kind, "%d received elements encode differently", n)
		}
		c.NT(kind, n)
	}
	// and added to what was received
	w := &wbuf{}
	k := max - c.Range(0, 3)
	w.varint(uint64(k))
	elem := append([]byte{1, 0, 0, 0}, inv.Hash...)
	if kind == "headers" {
		elem = append(dup(hb), 0)
	}
	w.raw(bytes.Repeat(elem, k))
	switch kind {
	case "inv":
		c.Check(mi.Decode(w.b) == nil, "limit-decode:"+kind, "%d elements", k)
	case "getdata":
		c.Check(md.Decode(w.b) == nil, "limit-decode:"+kind, "%d elements", k)
	default:
		c.Check(mh.Decode(w.b) == nil, "limit-decode:"+kind, "%d elements", k)
	}
	for have = k; have < max; have++ {
		c.Check(add(1) == nil, "limit-add:"+kind, "adding to %d received elements", have)
	}
	c.Check(add(1) != nil && count() == max, "limit-add:"+kind, "adding to %d received elements works", max)
}

func c26hash(c *Ctx) {
	h, b := c.blockHeader()
	c.Check(len(b) == 80 && h.Size() == 80, "header-size", "Size() %d", h.Size())
	want := sha256d(b)
	c.Check(bytes.Equal(h.BlockHash(), want), "block-hash", "block hash %x, reference %x of %x", h.BlockHash(), want, b)
	c.Check(bytes.Equal(h.BlockHash(), want), "block-hash", "block hash differs the second time")
	iv := xprotocol.NewInvVect(xprotocol.InvType(c.N(6)), c.Bytes(32))
	c.Check(iv.Size() == 36, "inv-size", "Size() %d", iv.Size())
	names := map[int]string{0: "ERROR", 1: "MSG_TX", 2: "MSG_BLOCK", 3: "MSG_FILTERED_BLOCK"}
	if s, ok := names[int(iv.Type)]; ok {
		c.Check(iv.Type.String() == s, "inv-name", "type %d prints as %s", iv.Type, iv.Type.String())
	} else {
		c.Check(iv.Type.String() != "", "inv-name", "type %d prints as nothing", iv.Type)
	}
	c.NT(b)
}

func c26defaults(c *Ctx) {
	for _, k := range []struct {
		name      string
		got, want interface{}
	}{
		{"CommandVersion", xprotocol.CommandVersion, "version"}, {"CommandVersionAck", xprotocol.CommandVersionAck, "verack"},
		{"CommandInventory", xprotocol.CommandInventory, "inv"}, {"CommandPing", xprotocol.CommandPing, "ping"},
		{"CommandPong", xprotocol.CommandPong, "pong"}, {"CommandBlock", xprotocol.CommandBlock, "block"},
		{"CommandGetBlocks", xprotocol.CommandGetBlocks, "getblocks"}, {"CommandGetData", xprotocol.CommandGetData, "getdata"},
		{"CommandGetHeaders", xprotocol.CommandGetHeaders, "getheaders"}, {"CommandHeaders", xprotocol.CommandHeaders, "headers"},
		{"CommandTx", xprotocol.CommandTx, "tx"}, {"CommandReject", xprotocol.CommandReject, "reject"},
		{"RejectMalformed", int(xprotocol.RejectMalformed), 1}, {"RejectInvalid", int(xprotocol.RejectInvalid), 0x10},
		{"RejectObsolete", int(xprotocol.RejectObsolete), 0x11}, {"RejectDuplicate", int(xprotocol.RejectDuplicate), 0x12},
		{"RejectNonstandard", int(xprotocol.RejectNonstandard), 0x40}, {"RejectDust", int(xprotocol.RejectDust), 0x41},
		{"RejectInsufficientFee", int(xprotocol.RejectInsufficientFee), 0x42}, {"RejectCheckpoint", int(xprotocol.RejectCheckpoint), 0x43},
		{"InvTypeError", int(xprotocol.InvTypeError), 0}, {"InvTypeTx", int(xprotocol.InvTypeTx), 1},
		{"InvTypeBlock", int(xprotocol.InvTypeBlock), 2}, {"InvTypeFilteredBlock", int(xprotocol.InvTypeFilteredBlock), 3},
	} {
		c.Check(k.got == k.want, "protocol-constant", "%s is %v, in the protocol it is %v", k.name, k.got, k.want)
	}
	name := c.netName()
	n := netByName(name)
	t0 := uint64(time.Now().Unix())
	v := xprotocol.NewMsgVersion(n)
	t1 := uint64(time.Now().Unix())
	port := uint32(8333)
	if name == "test" {
		port = 18333
	}
	loop := append(append(make([]byte, 10), 0xff, 0xff), 127, 0, 0, 1)
	c.Check(v.Version == 70015 && v.PortMe == port && v.PortYou == port && v.UserAgent == "/tokucore:0.0.1/", "version-defaults", "%+v", v)
	c.Check(bytes.Equal(v.AddressMe, loop) && bytes.Equal(v.AddressYou, loop), "version-address", "%x %x", v.AddressMe, v.AddressYou)
	c.Check(v.Timestamp >= t0 && v.Timestamp <= t1, "version-time", "timestamp %d at %d", v.Timestamp, t0)
	c.Check(len(v.Encode()) == v.Size() && v.Size() == 4+8+8+26+26+8+1+16+4+1, "version-size", "%d %d", len(v.Encode()), v.Size())
	u := xprotocol.NewMsgUnhandle("block")
	c.Check(u.Command() == "block" && len(u.Encode()) == u.Size() && u.Decode(c.Bytes(5)) == nil, "unhandled", "%+v", u)
	c.NT(name, c.Idx)
}

// ---- framing ----

func refFrame(magic []byte, cmd string, payload []byte) []byte {
	b := dup(magic)
	cb := make([]byte, 12)
	copy(cb, cmd)
	b = append(b, cb...)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(payload)))
	b = append(b, sha256d(payload)[:4]...)
	return append(b, payload...)
}

// memConn is a transport whose reads come from a prepared stream in fragments, and whose writes are recorded.
type memConn struct {
	mu      sync.Mutex
	in      []byte
	frag    func(max int) int // size of the next read
	zero    func() bool       // return (0, nil) first
	eofWith bool              // the last bytes come together with the end
	out     []byte
	room    int // bytes taken before writes fail, -1 for no limit
	chunks  int
	skew    time.Duration // how far the transport's clock has run ahead
	rd, wd  time.Time     // deadlines by that clock
	idle    time.Duration // how much longer the coming transfers may take by that clock
	step    func() int    // per cent of that for the next one
}

// pass lets some of the idle time go by before a transfer.
func (m *memConn) pass() {
	if m.step != nil {
		d := m.idle / 100 * time.Duration(m.step())
		m.idle -= d
		m.skew += d
	}
}

// slow makes the transfers of the coming call take up to d by the transport's clock.
func (m *memConn) slow(d time.Duration, step func() int) {
	m.mu.Lock()
	m.idle, m.step = d, step
	m.mu.Unlock()
}

// late tells whether a deadline has passed by the transport's clock.
func (m *memConn) late(t time.Time) bool { return !t.IsZero() && time.Now().Add(m.skew).After(t) }

// setDeadlines notes deadlines as of the transport's clock.
func (m *memConn) setDeadlines(t time.Time, ds ...*time.Time) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !t.IsZero() {
		t = t.Add(m.skew)
	}
	for _, d := range ds {
		*d = t
	}
	return nil
}

// wait lets time pass for the transport only.
func (m *memConn) wait(d time.Duration) {
	m.mu.Lock()
	m.skew += d
	m.mu.Unlock()
}

func (m *memConn) Read(p []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.pass()
	if m.late(m.rd) {
		return 0, os.ErrDeadlineExceeded
	}
	if len(m.in) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 || (m.zero != nil && m.zero()) {
		return 0, nil
	}
	n := len(p)
	if m.frag != nil {
		n = m.frag(n)
	}
	if n > len(m.in) {
		n = len(m.in)
	}
	copy(p, m.in[:n])
	m.in = m.in[n:]
	m.chunks++
	if len(m.in) == 0 && m.eofWith {
		return n, io.EOF
	}
	return n, nil
}

var errNoRoom = errors.New("injected write fault")

func (m *memConn) Write(p []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.pass()
	if m.late(m.wd) {
		return 0, os.ErrDeadlineExceeded
	}
	n := len(p)
	if m.room >= 0 && n > m.room {
		n = m.room
	}
	m.out = append(m.out, p[:n]...)
	if m.room >= 0 {
		m.room -= n
		if n < len(p) {
			return n, errNoRoom
		}
	}
	return n, nil
}
func (m *memConn) Close() error                       { return nil }
func (m *memConn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (m *memConn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (m *memConn) SetDeadline(t time.Time) error      { return m.setDeadlines(t, &m.rd, &m.wd) }
func (m *memConn) SetReadDeadline(t time.Time) error  { return m.setDeadlines(t, &m.rd) }
func (m *memConn) SetWriteDeadline(t time.Time) error { return m.setDeadlines(t, &m.wd) }

func (c *Ctx) fragConn(in []byte) *memConn {
	m := &memConn{in: in, room: -1}
	switch c.N(5) {
	case 0:
		m.frag = func(int) int { return 1 }
	case 1:
		m.frag = func(max int) int { return c.Range(1, max) }
	case 2:
		m.frag = func(max int) int { return 1 + c.N(min(max, 30)) }
	case 3:
		// around the header boundaries
		m.frag = func(max int) int { return min(max, c.Pick(1, 3, 4, 12, 20, 23, 24, 25)) }
	}
	if c.P(4) {
		m.zero = func() bool { return c.P(3) }
	}
	m.eofWith = c.Bool()
	return m
}

func (c *Ctx) sequence(magic []byte, n int) (gs []genMsg, frames [][]byte) {
	for i := 0; i < n; i++ {
		g := c.genMessage(msgKinds[c.N(len(msgKinds))], !c.P(12))
		if i > 0 && c.P(6) { // the same again
			g = gs[c.Pick(i-1, c.N(i))]
			c.Count("same message again")
		}
		gs = append(gs, g)
		frames = append(frames, refFrame(magic, g.cmd, g.payload))
	}
	return
}

func cat(b [][]byte) []byte { return bytes.Join(b, nil) }

func readCheck(c *Ctx, s *xprotocol.Stream, i int, g genMsg) xprotocol.Message {
	m, err := s.ReadMessage()
	c.Check(err == nil && m != nil, "deliver", "message %d (%s) is not delivered: %v", i, g.cmd, err)
	c.Check(reflect.TypeOf(m) == reflect.TypeOf(g.msg), "deliver-type", "message %d (%s) arrives as %T", i, g.cmd, m)
	judgeMsg(c, fmt.Sprintf("message %d", i), m, g)
	c.Count("messages delivered")
	return m
}

// protocolNets: what the Bitcoin protocol fixes for the two networks.
var protocolNets = map[string]struct {
	magic [4]byte
	port  uint32
}{"main": {[4]byte{0xf9, 0xbe, 0xb4, 0xd9}, 8333}, "test": {[4]byte{0x0b, 0x11, 0x09, 0x07}, 18333}}

// wireNet gives one of the two networks, after comparing it with the protocol, or a private one with another magic.
func (c *Ctx) wireNet() *network.Network {
	name := c.netName()
	n := netByName(name)
	w := protocolNets[name]
	c.Check(bytes.Equal(n.Magic, w.magic[:]) && n.Port == w.port, "network", "%snet has magic %x and port %d", name, n.Magic, n.Port)
	if c.P(4) {
		own := *n
		magic := c.Blob(4)
		if c.Bool() {
			magic = dup(n.Magic)
			magic[c.N(4)] ^= byte(1 << uint(c.N(8)))
		}
		c.Check(own.SetMagic(magic).SetPort(uint32(c.N(65536))) == &own && bytes.Equal(own.Magic, magic) && bytes.Equal(n.Magic, w.magic[:]) && n.Port == w.port, "network-set", "setting another magic and port on a copy of %snet gives %x", name, own.Magic)
		c.Count("other magic")
		return &own
	}
	return n
}

func c27stream(c *Ctx) {
	n := c.wireNet()
	gs, frames := c.sequence(n.Magic, c.Range(1, 8))
	w := &memConn{room: -1}
	s := xprotocol.NewStream(w, n.Magic)
	aged := c.P(3) // hours pass between messages
	slow := c.P(3) // and seconds within one
	step := func() int { return c.Pick(0, 0, 1, 10, 50, 100) }
	for i, g := range gs {
		if aged {
			w.wait(time.Duration(c.N(5*3600)) * time.Second)
		}
		if slow {
			w.slow(5*time.Second, step)
		}
		before := len(w.out)
		err := s.WriteMessage(g.msg)
		c.Check(err == nil, "write", "WriteMessage of %s: %v", g.cmd, err)
		c.Check(bytes.Equal(w.out[before:], frames[i]), "frame", "%s is written as %s, reference %s", g.cmd, hx(w.out[before:]), hx(frames[i]))
	}
	if c.P(5) {
		// a message of a command the library does not know is delivered as such
		cmd := []string{"block", "addr", "sendheaders", "feefilter", "abcdefghijkl", "versionX", "\x00ping", "PING", "pin", "ping "}[c.N(10)]
		p := c.Blob(c.Len(300))
		m := &memConn{in: append(refFrame(n.Magic, cmd, p), frames[0]...), room: -1}
		s := xprotocol.NewStream(m, n.Magic)
		got, err := s.ReadMessage()
		c.Check(err == nil && got != nil && got.Command() == cmd, "unhandled", "message %q is read as %v, %v", cmd, got, err)
		readCheck(c, s, 1, gs[0])
	}
	m := c.fragConn(cat(frames))
	r := xprotocol.NewStream(m, n.Magic)
	var kept []xprotocol.Message
	for i, g := range gs {
		if aged {
			m.wait(time.Duration(c.N(5*3600)) * time.Second)
			c.Count("read after a long pause")
		}
		if slow {
			m.slow(10*time.Second, step)
			c.Count("read over seconds")
		}
		kept = append(kept, readCheck(c, r, i, g))
	}
	got, err := r.ReadMessage()
	c.Check(err != nil && got == nil, "end", "after the last message: %v, %v", got, err)
	// what was delivered is still there after everything else was read
	for i, g := range gs {
		judgeMsg(c, fmt.Sprintf("message %d of %d, looked at again at the end of the stream", i, len(gs)), kept[i], g)
	}
	c.CountN("fragments", m.chunks)
	c.NT(cat(frames))
	c.Sample("%d messages in %d fragments delivered as written, the first %s", len(gs), m.chunks, short(hx(frames[0])))
}

// c27long sends thousands of messages, many of them alike, through one stream, with a damaged or cut frame near the end.
func c27long(c *Ctx) {
	n := c.wireNet()
	pool, _ := c.sequence(n.Magic, 12)
	for i := range pool {
		for len(pool[i].payload) > 3000 {
			pool[i] = c.genMessage(msgKinds[c.N(len(msgKinds))], true)
		}
	}
	var gs []genMsg
	var all []byte
	w := &memConn{room: -1}
	s := xprotocol.NewStream(w, n.Magic)
	for i, cnt := 0, c.Pick(300, 1000, 2500, c.Range(200, 5000)); i < cnt; i++ {
		g := pool[c.N(len(pool))]
		if c.P(3) {
			g = pool[0]
		}
		gs = append(gs, g)
		f := refFrame(n.Magic, g.cmd, g.payload)
		all = append(all, f...)
		c.Check(s.WriteMessage(g.msg) == nil, "write", "WriteMessage %d of %s fails", i, g.cmd)
		c.Check(bytes.HasSuffix(w.out, f) && len(w.out) == len(all), "frame", "message %d (%s) makes %d bytes of %d", i, g.cmd, len(w.out), len(all))
	}
	c.Check(bytes.Equal(w.out, all), "frame", "%d messages are not written as their frames", len(gs))
	last := c.genMessage(msgKinds[c.N(len(msgKinds))], true)
	good := refFrame(n.Magic, last.cmd, last.payload)
	bad, how := c.damage(good, n.Magic)
	if c.Bool() || bytes.Equal(bad, good) {
		how = "cut"
		bad = bad[:c.N(len(bad))]
	}
	m := c.fragConn(append(all, bad...))
	m.frag = []func(int) int{nil, func(max int) int { return c.Range(1, max) }, func(max int) int { return 1 + c.N(min(max, 5000)) }}[c.N(3)]
	r := xprotocol.NewStream(m, n.Magic)
	for i, g := range gs {
		readCheck(c, r, i, g)
	}
	got, err := r.ReadMessage()
	c.Check(err != nil && got == nil, "corrupt:"+how, "after %d messages, a frame with a damaged %s is delivered as %T, %v", len(gs), how, got, err)
	c.NT(all, bad)
}

// damage changes one frame and tells whether its read must be an error.
func (c *Ctx) damage(f []byte, magic []byte) ([]byte, string) {
	f = dup(f)
	switch c.N(7) {
	case 0:
		f[c.N(4)] ^= 1 << c.N(8)
		return f, "magic"
	case 1: // another network's magic
		other := network.MainNet.Magic
		if bytes.Equal(magic, other) {
			other = network.TestNet.Magic
		}
		copy(f, other)
		return f, "other network"
	case 2:
		i := 16 + c.N(4)
		f[i] ^= 1 << c.N(8)
		return f, "length"
	case 3:
		binary.LittleEndian.PutUint32(f[16:], uint32(c.Pick(33554433, 0xffffffff, 0x80000000, 0x7fffffff, 33554432+c.N(1000)+1)))
		return f, "oversized length"
	case 4:
		f[20+c.N(4)] ^= 1 << c.N(8)
		return f, "checksum"
	case 5:
		if len(f) > 24 {
			f[24+c.N(len(f)-24)] ^= 1 << c.N(8)
			return f, "payload"
		}
		copy(f[20:], make([]byte, 4))
		return f, "zero checksum"
	}
	// checksum of something else
	switch c.N(3) {
	case 0:
		copy(f[20:24], rev(f[20:24]))
	case 1:
		copy(f[20:24], sha256b(f[24:])[:4])
	default:
		copy(f[20:24], sha256d(f[24:])[28:])
	}
	return f, "wrong checksum"
}

func c27corrupt(c *Ctx) {
	n := c.wireNet()
	gs, frames := c.sequence(n.Magic, c.Range(1, 5))
	k := c.N(len(gs))
	bad, how := c.damage(frames[k], n.Magic)
	if bytes.Equal(bad, frames[k]) {
		return
	}
	c.Note(func() string { return fmt.Sprintf("%s of message %d, frame %s", how, k, hx(bad)) })
	all := append(append(cat(frames[:k]), bad...), cat(frames[k+1:])...)
	r := xprotocol.NewStream(c.fragConn(all), n.Magic)
	for i := 0; i < k; i++ {
		readCheck(c, r, i, gs[i])
	}
	m, err := r.ReadMessage()
	c.Check(err != nil, "corrupt:"+how, "a frame with a damaged %s is delivered as %T", how, m)
	c.Check(m == nil, "corrupt-msg", "an error comes with a message %T", m)
	c.Count("damaged: " + how)
	c.NT(all)
}

func c27cut(c *Ctx) {
	n := c.wireNet()
	gs, frames := c.sequence(n.Magic, c.Range(1, 5))
	all := cat(frames)
	cut := c.N(len(all))
	c.Note(func() string { return fmt.Sprintf("stream of %d bytes cut to %d", len(all), cut) })
	r := xprotocol.NewStream(c.fragConn(all[:cut]), n.Magic)
	end := 0
	for i := range gs {
		end += len(frames[i])
		if end > cut {
			break
		}
		readCheck(c, r, i, gs[i])
	}
	m, err := r.ReadMessage()
	c.Check(err != nil && m == nil, "cut", "a cut frame is delivered as %T, %v", m, err)
	c.NT(all[:cut])
}

// c27sweep flips every bit and cuts at every length of one frame.
func c27sweep(c *Ctx) {
	n := c.wireNet()
	var g genMsg
	for {
		g = c.genMessage(msgKinds[(c.Idx)%len(msgKinds)], true)
		if len(g.payload) < 400 {
			break
		}
	}
	f := refFrame(n.Magic, g.cmd, g.payload)
	c.Note(func() string { return "frame " + hx(f) })
	for i := range f {
		for b := 0; b < 8; b++ {
			x := dup(f)
			x[i] ^= 1 << b
			r := xprotocol.NewStream(&memConn{in: x, room: -1}, n.Magic)
			m, err := r.ReadMessage()
			if i >= 4 && i < 16 {
				// the command is not covered by the checksum: another command's message or an error
				if err == nil {
					want := string(bytes.TrimRight(x[4:16], "\x00"))
					c.Check(m.Command() == want, "command", "a frame of %q arrives as %q", want, m.Command())
				}
				continue
			}
			c.Check(err != nil && m == nil, "corrupt-bit", "bit %d of byte %d flipped: delivered as %T, %v", b, i, m, err)
		}
		r := xprotocol.NewStream(&memConn{in: dup(f[:i]), room: -1}, n.Magic)
		m, err := r.ReadMessage()
		c.Check(err != nil && m == nil, "cut", "cut to %d of %d bytes: delivered as %T, %v", i, len(f), m, err)
	}
	c.CountN("bits flipped", len(f)*8)
	c.NT(f)
}

// c27writefault lets the transport fail in the middle.
func c27writefault(c *Ctx) {
	n := c.wireNet()
	gs, frames := c.sequence(n.Magic, c.Range(2, 6))
	all := cat(frames)
	room := c.N(len(all))
	w := &memConn{room: room}
	s := xprotocol.NewStream(w, n.Magic)
	end := 0
	c.Note(func() string { return fmt.Sprintf("transport fails after %d of %d bytes", room, len(all)) })
	failed := false
	for i, g := range gs {
		end += len(frames[i])
		err := s.WriteMessage(g.msg)
		if end <= room {
			c.Check(err == nil, "write", "message %d (%s): %v", i, g.cmd, err)
		} else if !failed {
			c.Check(err != nil, "write-fault", "message %d (%s) is not written completely, without an error", i, g.cmd)
			failed = true
			w.mu.Lock()
			w.room = -1 // the transport works again, but the stream is broken
			w.mu.Unlock()
		} else {
			c.Check(err != nil, "write-after-fault", "message %d (%s) is sent after a partly written frame", i, g.cmd)
		}
	}
	c.Check(bytes.Equal(w.out, all[:room]), "write-fault-bytes", "the transport got %d bytes, expected the first %d", len(w.out), room)
	c.NT(all, room)
}

// c27hostile sends headers with lengths far above what follows and watches the memory.
func c27hostile(c *Ctx) {
	n := c.wireNet()
	cmd := msgKinds[c.N(len(msgKinds))]
	size := uint32(c.Pick(33554432, 33554433, 0xffffffff, 0x7fffffff, 0x80000000, 1<<30, 1<<26, 20<<20))
	f := dup(n.Magic)
	cb := make([]byte, 12)
	copy(cb, cmd)
	f = append(f, cb...)
	f = binary.LittleEndian.AppendUint32(f, size)
	f = append(f, c.Bytes(4)...)
	f = append(f, c.Bytes(c.N(100))...)
	c.Note(func() string { return fmt.Sprintf("declared length %d", size) })
	r := xprotocol.NewStream(&memConn{in: f, room: -1}, n.Magic)
	var m xprotocol.Message
	var err error
	got := allocated(func() { m, err = r.ReadMessage() })
	c.Check(err != nil && m == nil, "hostile-length", "declared length %d: delivered %T, %v", size, m, err)
	limit := uint64(40 << 20)
	if size > 33554432 {
		limit = 1 << 20
	}
	c.Check(got < limit, "hostile-memory", "declared length %d: %d bytes allocated", size, got)
	c.NT(f)
	// counts inside a payload
	p := &wbuf{}
	if cmd == "getheaders" {
		p.u32(70015)
	}
	p.varint([]uint64{50000, 50001, 2000, 2001, 1 << 32, 1<<63 - 1, 1<<64 - 1, 1 << 31}[c.N(8)])
	p.raw(c.Bytes(c.N(200)))
	x := emptyMsg(cmd)
	got = allocated(func() { err = x.Decode(p.b) })
	c.Check(got < 4<<20, "hostile-count", "%s payload of %d bytes: %d bytes allocated", cmd, len(p.b), got)
	if cmd == "inv" || cmd == "getdata" || cmd == "getheaders" || cmd == "headers" {
		c.Check(err != nil, "hostile-count", "%s with a count far above its elements decodes", cmd)
	}
}

// c27big goes to the payload limit.
func c27big(c *Ctx) {
	n := network.TestNet
	const max = 32 * 1024 * 1024
	size := []int{max - 1, max, max + 1, max + 100000}[c.Idx%4]
	d := make([]byte, size)
	for i := 0; i < size; i += 4096 {
		d[i] = byte(i >> 12)
	}
	w := &memConn{room: -1}
	s := xprotocol.NewStream(w, n.Magic)
	err := s.WriteMessage(xprotocol.NewMsgTx(d))
	c.Check((err == nil) == (size <= max), "big-write", "payload of %d bytes: %v", size, err)
	if err != nil {
		c.Check(len(w.out) == 0, "big-write", "a refused message leaves %d bytes on the wire", len(w.out))
		// and the stream still works
		c.Check(s.WriteMessage(xprotocol.NewMsgPing(7)) == nil && bytes.Equal(w.out, refFrame(n.Magic, "ping", []byte{7, 0, 0, 0, 0, 0, 0, 0})), "big-write", "after a refused message a ping is written as %s", hx(w.out))
		return
	}
	c.Check(bytes.Equal(w.out[:24], refFrame(n.Magic, "tx", d)[:24]), "big-frame", "header %x", w.out[:24])
	ping := refFrame(n.Magic, "ping", []byte{9, 0, 0, 0, 0, 0, 0, 0})
	r := xprotocol.NewStream(&memConn{in: append(w.out, ping...), room: -1, frag: func(max int) int { return min(max, 4000) }}, n.Magic)
	m, err := r.ReadMessage()
	c.Check(err == nil, "big-read", "payload of %d bytes: %v", size, err)
	c.Check(bytes.Equal(m.(*xprotocol.MsgTx).Data, d), "big-read", "payload of %d bytes arrives changed", size)
	m, err = r.ReadMessage()
	c.Check(err == nil && m.(*xprotocol.MsgPing).Nonce == 9, "big-read", "after it: %v", err)
	c.NT(size)
	c.Count("payloads at the limit")
}

// c27socket reads a slow, fragmented real socket.
func c27socket(c *Ctx) {
	n := c.wireNet()
	gs, frames := c.sequence(n.Magic, c.Range(2, 10))
	a, b, err := socketPair(c.Idx%2 == 0)
	if err != nil {
		return
	}
	defer a.Close()
	defer b.Close()
	all := cat(frames)
	cuts := c.Range(1, 30)
	at := make([]int, cuts)
	for i := range at {
		at[i] = c.N(len(all))
	}
	go func() {
		prev := 0
		sortInts(at)
		for _, p := range append(at, len(all)) {
			if p > prev {
				a.Write(all[prev:p])
				prev = p
				time.Sleep(time.Millisecond)
			}
		}
	}()
	r := xprotocol.NewStream(b, n.Magic)
	for i, g := range gs {
		readCheck(c, r, i, g)
	}
	// Only now: what a closed in-memory pipe still holds in the reader's buffer is not promised (DESIGN section 3).
	a.Close()
	m, err := r.ReadMessage()
	c.Check(err != nil && m == nil, "end", "after the last message: %v", m)
	c.NT(all)
}

func sortInts(a []int) {
	for i := range a {
		for j := i; j > 0 && a[j] < a[j-1]; j-- {
			a[j], a[j-1] = a[j-1], a[j]
		}
	}
}

func socketPair(pipe bool) (net.Conn, net.Conn, error) {
	if pipe {
		a, b := net.Pipe()
		return a, b, nil
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, nil, err
	}
	defer l.Close()
	ch := make(chan net.Conn, 1)
	go func() {
		x, err := l.Accept()
		if err != nil {
			x = nil
		}
		ch <- x
	}()
	a, err := net.DialTimeout("tcp", l.Addr().String(), 5*time.Second)
	if err != nil {
		return nil, nil, err
	}
	b := <-ch
	if b == nil {
		a.Close()
		return nil, nil, errors.New("no peer")
	}
	return a, b, nil
}

// ---- connections ----

// slowConn splits and delays writes, fragments reads, and records the bytes written.
type slowConn struct {
	net.Conn
	seed  uint64
	delay int // 0: none, 1: yields, 2: sleeps
	ops   atomic.Uint64
	moves atomic.Int64 // reads and writes that returned
	mu    sync.Mutex
	out   []byte
	wbusy atomic.Int32
	mixed atomic.Bool // two writes overlapped
}

func (s *slowConn) roll(n int) int {
	x := seedFor(s.seed, "slow", "", int(s.ops.Add(1)))
	return int(x % uint64(n))
}

func (s *slowConn) pause() {
	switch s.delay {
	case 1:
		runtime.Gosched()
	case 2:
		if s.roll(4) == 0 {
			time.Sleep(time.Duration(s.roll(100)) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	}
}

func (s *slowConn) Write(p []byte) (int, error) {
	if s.wbusy.Add(1) > 1 {
		s.mixed.Store(true)
	}
	defer s.wbusy.Add(-1)
	n := 0
	for n < len(p) {
		k := len(p) - n
		if s.delay > 0 && s.roll(2) == 0 {
			k = 1 + s.roll(k)
		}
		m, err := s.Conn.Write(p[n : n+k])
		s.moves.Add(1)
		s.mu.Lock()
		s.out = append(s.out, p[n:n+m]...)
		s.mu.Unlock()
		n += m
		if err != nil {
			return n, err
		}
		s.pause()
	}
	return n, nil
}

func (s *slowConn) Read(p []byte) (int, error) {
	s.pause()
	if s.delay > 0 && len(p) > 1 && s.roll(2) == 0 {
		p = p[:1+s.roll(min(len(p), 200))]
	}
	n, err := s.Conn.Read(p)
	s.moves.Add(1)
	return n, err
}

func (s *slowConn) written() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return dup(s.out)
}

// peer is one end with its event log.
type peer struct {
	name    string
	conn    *slowConn
	c       *xprotocol.Connection
	mu      sync.Mutex
	got     []xprotocol.Message
	disc    int
	late    int // deliveries after the disconnect
	inside  atomic.Int32
	overlap atomic.Bool
	wrong   atomic.Bool // a callback got another connection
	done    chan struct{}
	loop    chan struct{}
	onMsg   func(p *peer, m xprotocol.Message)
	handled atomic.Int32 // callbacks that returned
}

func newPeer(name string, n *network.Network, conn *slowConn, onMsg func(*peer, xprotocol.Message)) *peer {
	p := &peer{name: name, conn: conn, done: make(chan struct{}), loop: make(chan struct{}), onMsg: onMsg}
	p.c = xprotocol.NewConnection(n, conn, func(c *xprotocol.Connection, m xprotocol.Message) {
		if p.inside.Add(1) > 1 {
			p.overlap.Store(true)
		}
		if c != p.c {
			p.wrong.Store(true)
		}
		p.mu.Lock()
		p.got = append(p.got, m)
		if p.disc > 0 {
			p.late++
		}
		p.mu.Unlock()
		if p.onMsg != nil {
			p.onMsg(p, m)
		}
		p.inside.Add(-1)
		p.handled.Add(1)
	}, func(c *xprotocol.Connection) {
		if c != p.c {
			p.wrong.Store(true)
		}
		p.mu.Lock()
		p.disc++
		d := p.disc
		p.mu.Unlock()
		if d == 1 {
			close(p.done)
		}
	})
	return p
}

func (p *peer) start() {
	go func() {
		p.c.ReadLoop()
		close(p.loop)
	}()
}

// heartbeat counts how often a goroutine of this process that only sleeps 10 ms was run.
var heartbeat atomic.Int64

var heartbeatOnce sync.Once

// settle waits until done. It gives up when nothing has moved on the transports for 15 s in which this
// process was run all the time, so that the goroutines waited for are stuck and not merely slow; only
// when the process itself was not run is the case decided again.
func settle(c *Ctx, done func() bool, sig string, what func() string, conns ...*slowConn) {
	heartbeatOnce.Do(func() {
		go func() {
			for {
				time.Sleep(10 * time.Millisecond)
				heartbeat.Add(1)
			}
		}()
	})
	moves := func() int64 {
		var n int64
		for _, s := range conns {
			n += s.moves.Load()
		}
		return n
	}
	start := time.Now()
	since, last, beats := start, moves(), heartbeat.Load()
	for i := 0; !done(); i++ {
		if m := moves(); m != last {
			since, last, beats = time.Now(), m, heartbeat.Load()
		}
		if time.Since(since) > 15*time.Second {
			if b := heartbeat.Load() - beats; b > 750 && !done() {
				c.Fail(sig, "%s: nothing moves for 15 s, while a goroutine that sleeps 10 ms at a time was run %d times", what(), b)
			}
		}
		if time.Since(start) > 45*time.Second {
			c.TimedFail(sig, "%s within 45 s", what())
		}
		if i < 100 {
			time.Sleep(200 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}

// waitCh waits for a channel.
func waitCh(c *Ctx, ch chan struct{}, sig, what string, conns ...*slowConn) {
	select {
	case <-ch:
		return
	case <-time.After(time.Millisecond):
	}
	settle(c, func() bool {
		select {
		case <-ch:
			return true
		default:
			return false
		}
	}, sig, func() string { return what }, conns...)
}

// checkPeer is the offline checker of one direction: frames on the wire, deliveries, order.
func checkPeer(c *Ctx, from, to *peer, magic []byte, complete bool) {
	raw := from.conn.written()
	c.Check(!from.conn.mixed.Load(), "overlapping-writes", "two writes of %s overlap on the transport", from.name)
	// whole frames, in order
	var frames [][]byte
	rest := raw
	for len(rest) >= 24 {
		c.Check(bytes.Equal(rest[:4], magic), "frame-mixed", "%s wrote no frame at byte %d: %s", from.name, len(raw)-len(rest), hx(rest[:24]))
		n := int(binary.LittleEndian.Uint32(rest[16:]))
		c.Check(n <= 32<<20, "frame-mixed", "%s wrote a length of %d", from.name, n)
		if len(rest) < 24+n {
			break
		}
		c.Check(bytes.Equal(sha256d(rest[24 : 24+n])[:4], rest[20:24]), "frame-mixed", "%s wrote a frame with a wrong checksum at byte %d", from.name, len(raw)-len(rest))
		frames = append(frames, rest[:24+n])
		rest = rest[24+n:]
	}
	if complete {
		c.Check(len(rest) == 0, "frame-partial", "%s left %d bytes of an incomplete frame", from.name, len(rest))
	}
	to.mu.Lock()
	got := append([]xprotocol.Message{}, to.got...)
	disc, late := to.disc, to.late
	to.mu.Unlock()
	if complete {
		c.Check(len(got) == len(frames), "deliveries", "%s wrote %d frames, %s got %d messages", from.name, len(frames), to.name, len(got))
	} else {
		c.Check(len(got) <= len(frames), "deliveries", "%s wrote %d frames, %s got %d messages", from.name, len(frames), to.name, len(got))
	}
	for i, m := range got {
		c.Check(bytes.Equal(refFrame(magic, m.Command(), m.Encode()), frames[i]), "delivery-order", "message %d delivered to %s (%s) is not frame %d on the wire", i, to.name, m.Command(), i)
	}
	c.Check(!to.overlap.Load(), "callback-overlap", "receive callbacks of %s overlap", to.name)
	c.Check(!to.wrong.Load() && !from.wrong.Load(), "callback-connection", "a callback was given another connection")
	c.Check(disc <= 1, "disconnects", "%s got %d disconnects", to.name, disc)
	c.Check(late == 0, "late", "%s got %d messages after the disconnect", to.name, late)
	c.CountN("frames", len(frames))
	c.CountN("deliveries", len(got))
	if len(frames) > 1 {
		c.Sample("%s wrote %d frames (%d bytes), %s was given %d messages, the first %s", from.name, len(frames), len(raw), to.name, len(got), short(hx(frames[0])))
	}
	h := ""
	for i := range frames {
		if len(frames[i]) >= 26 {
			h += string(frames[i][24:26])
		}
	}
	c.NT(from.name, h)
}

// sent message of a sender: identity in the payload
func (r *Rand) idMessage(sender, seq int) xprotocol.Message {
	id := uint64(sender)<<32 | uint64(seq)
	switch r.N(6) {
	case 0:
		return xprotocol.NewMsgPing(id)
	case 1:
		return xprotocol.NewMsgPong(id)
	case 2:
		m := xprotocol.NewMsgInv()
		h := make([]byte, 32)
		binary.LittleEndian.PutUint64(h, id)
		for i, n := 0, r.Range(1, 40); i < n; i++ {
			m.AddInvVect(xprotocol.NewInvVect(1, h))
		}
		return m
	case 3:
		m := xprotocol.NewMsgReject("x", 1, "")
		b := make([]byte, 8)
		binary.LittleEndian.PutUint64(b, id)
		m.Reason = string(b) + string(r.Bytes(r.N(300)))
		return m
	}
	n := r.N(300)
	if r.P(8) {
		n = r.N(90000) // larger than the buffers
	}
	d := make([]byte, 8+n)
	binary.LittleEndian.PutUint64(d, id)
	for i := 8; i < len(d); i++ {
		d[i] = byte(id>>3) ^ byte(i)
	}
	return xprotocol.NewMsgTx(d)
}

func idOf(m xprotocol.Message) uint64 {
	switch v := m.(type) {
	case *xprotocol.MsgPing:
		return v.Nonce
	case *xprotocol.MsgPong:
		return v.Nonce
	case *xprotocol.MsgInv:
		return binary.LittleEndian.Uint64(v.Invs[0].Hash)
	case *xprotocol.MsgReject:
		return binary.LittleEndian.Uint64([]byte(v.Reason))
	case *xprotocol.MsgTx:
		return binary.LittleEndian.Uint64(v.Data)
	}
	return 1<<64 - 1
}

type sentMsg struct {
	id  uint64
	cmd string
	enc []byte
}

// checkSent: every message that was sent without an error arrived once, unchanged, in its sender's order.
func checkSent(c *Ctx, to *peer, sent map[uint64]sentMsg, strict bool) {
	to.mu.Lock()
	defer to.mu.Unlock()
	seen := map[uint64]bool{}
	last := map[uint32]int64{}
	for _, m := range to.got {
		id := idOf(m)
		s, ok := sent[id]
		c.Check(ok, "delivery-unknown", "%s got a %s message that was not sent (id %x)", to.name, m.Command(), id)
		c.Check(!seen[id], "delivery-twice", "message %x arrives twice at %s", id, to.name)
		seen[id] = true
		c.Check(s.cmd == m.Command() && bytes.Equal(s.enc, m.Encode()), "delivery-changed", "message %x arrives changed at %s", id, to.name)
		snd, seq := uint32(id>>32), int64(uint32(id))
		if l, ok := last[snd]; ok {
			c.Check(seq > l, "sender-order", "message %d of sender %d arrives after %d", seq, snd, l)
		}
		last[snd] = seq
	}
	if strict {
		c.Check(len(seen) == len(sent), "delivery-lost", "%d of %d messages arrive at %s", len(seen), len(sent), to.name)
	}
}

func c28traffic(c *Ctx) {
	n := c.wireNet()
	ca, cb, err := socketPair(c.Bool())
	if err != nil {
		return
	}
	da, db := c.N(3), c.N(3)
	sa := &slowConn{Conn: ca, seed: c.U64(), delay: da}
	sb := &slowConn{Conn: cb, seed: c.U64(), delay: db}
	echo := c.P(3)
	var mu sync.Mutex
	sentA, sentB := map[uint64]sentMsg{}, map[uint64]sentMsg{}
	record := func(to map[uint64]sentMsg, m xprotocol.Message) {
		mu.Lock()
		to[idOf(m)] = sentMsg{idOf(m), m.Command(), m.Encode()}
		mu.Unlock()
	}
	var echoErr atomic.Value
	var seqB atomic.Int64
	a := newPeer("A", n, sa, nil)
	b := newPeer("B", n, sb, func(p *peer, m xprotocol.Message) {
		if p.name == "B" && echo && m.Command() == "ping" {
			// an answer from inside the callback, as a sender of its own
			r := xprotocol.NewMsgPong(uint64(1000)<<32 | uint64(seqB.Add(1)))
			record(sentB, r)
			if err := p.c.Send(r); err != nil {
				echoErr.Store(err)
			}
		}
	})
	a.start()
	b.start()
	ga, gb := c.Range(1, 12), c.Range(0, 12)
	per := c.Range(1, 15)
	if c.P(15) { // few senders, but for long
		ga, gb, per = c.Range(1, 2), c.Range(0, 2), c.Range(100, 400)
	}
	var wg sync.WaitGroup
	fails := make(chan string, 100)
	run := func(p *peer, sender int, seed uint64, sent map[uint64]sentMsg) {
		defer wg.Done()
		r := newRand(seed)
		for i := 0; i < per; i++ {
			m := r.idMessage(sender, i)
			record(sent, m)
			if err := p.c.Send(m); err != nil {
				select {
				case fails <- fmt.Sprintf("%s: %v", p.name, err):
				default:
				}
				return
			}
			if p.c.LocalAddress() == "" || p.c.RemoteAddress() == "" {
				select {
				case fails <- "no address":
				default:
				}
			}
		}
	}
	for i := 0; i < ga; i++ {
		wg.Add(1)
		go run(a, i, c.U64(), sentA)
	}
	for i := 0; i < gb; i++ {
		wg.Add(1)
		go run(b, i, c.U64(), sentB)
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	waitCh(c, all, "send-hang", "the senders do not finish", sa, sb)
	select {
	case f := <-fails:
		c.Fail("send-error", "%s", f)
	default:
	}
	// everything arrives
	var na, nb, wa, wb int
	settle(c, func() bool {
		nb = int(b.handled.Load()) // before the count of answers, which callbacks increase
		mu.Lock()
		wa, wb = len(sentA), len(sentB)
		mu.Unlock()
		na = int(a.handled.Load())
		b.mu.Lock()
		ended := b.disc
		b.mu.Unlock()
		if na >= wb && nb >= wa {
			return true
		}
		if ended > 0 {
			checkPeer(c, a, b, n.Magic, false)
			checkPeer(c, b, a, n.Magic, false)
			mu.Lock()
			checkSent(c, b, sentA, false)
			checkSent(c, a, sentB, false)
			mu.Unlock()
			c.Fail("early-disconnect", "the connection ended with %d of %d messages delivered", nb, wa)
		}
		return false
	}, "delivery-lost", func() string {
		checkPeer(c, a, b, n.Magic, false)
		checkPeer(c, b, a, n.Magic, false)
		mu.Lock()
		defer mu.Unlock()
		checkSent(c, b, sentA, false)
		checkSent(c, a, sentB, false)
		return fmt.Sprintf("only %d of %d and %d of %d messages arrive", nb, wa, na, wb)
	}, sa, sb)
	// one end closes: both report it once
	if c.Bool() {
		a.c.Close()
	} else {
		b.c.Close()
	}
	waitCh(c, a.done, "no-disconnect", "A does not report the end", sa, sb)
	b.c.Close()
	waitCh(c, b.done, "no-disconnect", "B does not report the end", sa, sb)
	a.c.Close()
	waitCh(c, a.loop, "loop-hang", "the read loop of A does not end", sa, sb)
	waitCh(c, b.loop, "loop-hang", "the read loop of B does not end", sa, sb)
	if e := echoErr.Load(); e != nil {
		c.Fail("send-error", "answering from the callback: %v", e)
	}
	checkPeer(c, a, b, n.Magic, true)
	checkPeer(c, b, a, n.Magic, true)
	mu.Lock()
	defer mu.Unlock()
	checkSent(c, b, sentA, true)
	checkSent(c, a, sentB, true)
	c.Count("connections")
}

// c28duplex: receiving does not wait for sending, nor sending for receiving.
func c28duplex(c *Ctx) {
	n := c.wireNet()
	x, y := net.Pipe()
	defer x.Close()
	defer y.Close()
	gotMsg := make(chan struct{}, 16)
	p := newPeer("A", n, &slowConn{Conn: x}, func(*peer, xprotocol.Message) { gotMsg <- struct{}{} })
	p.start()
	frame := refFrame(n.Magic, "ping", make([]byte, 8))
	if c.Idx%4 >= 2 { // one that fills every buffer
		k := c.Range(700, 4000)
		frame = refFrame(n.Magic, "inv", append([]byte{0xfd, byte(k), byte(k >> 8)}, make([]byte, 36*k)...))
	}
	if c.Idx%2 == 0 {
		// the read loop waits for data; sends must go through
		time.Sleep(time.Duration(c.N(3)) * time.Millisecond)
		if c.Bool() {
			y.Write(frame[:c.N(len(frame))]) // in the middle of a frame, even
		}
		for i := 0; i < 3; i++ {
			done := make(chan struct{})
			var err error
			go func() { err = p.c.Send(xprotocol.NewMsgPing(uint64(i))); close(done) }()
			buf := make([]byte, 32)
			y.SetReadDeadline(time.Now().Add(20 * time.Second))
			if _, e := io.ReadFull(y, buf); e != nil {
				c.TimedFail("send-waits", "a send waits for the reader: %v", e)
			}
			waitCh(c, done, "send-waits", "a send does not return", p.conn)
			c.Check(err == nil, "send-error", "%v", err)
			want := make([]byte, 8)
			want[0] = byte(i)
			c.Check(bytes.Equal(buf, refFrame(n.Magic, "ping", want)), "frame", "ping is written as %x", buf)
		}
		c.Count("sends while receiving")
	} else {
		// a send waits for the peer to read; deliveries must go on
		sends := c.Range(1, 3)
		done := make(chan struct{}, sends)
		for i := 0; i < sends; i++ {
			go func() { p.c.Send(xprotocol.NewMsgTx(make([]byte, 100+c.Idx))); done <- struct{}{} }()
		}
		time.Sleep(time.Millisecond)
		for i := 0; i < 3; i++ {
			y.SetWriteDeadline(time.Now().Add(20 * time.Second))
			if _, err := y.Write(frame); err != nil {
				c.TimedFail("receive-waits", "nothing is read while a send waits: %v", err)
			}
			select {
			case <-gotMsg:
			case <-time.After(20 * time.Second):
				c.TimedFail("receive-waits", "nothing is delivered while a send waits")
			}
		}
		for i := 0; i < sends; i++ {
			buf := make([]byte, 24+100+c.Idx)
			y.SetReadDeadline(time.Now().Add(20 * time.Second))
			if _, err := io.ReadFull(y, buf); err != nil {
				c.TimedFail("send-waits", "the waiting send: %v", err)
			}
		}
		c.Count("deliveries while sending")
	}
	c.Eval(3)
	y.Close()
	waitCh(c, p.done, "no-disconnect", "the end is not reported", p.conn)
	waitCh(c, p.loop, "loop-hang", "the read loop does not end", p.conn)
	c.Check(p.disc == 1, "disconnects", "%d disconnects", p.disc)
	c.NT("duplex", c.Idx)
}

// c28close closes at random points of running traffic.
func c28close(c *Ctx) {
	n := c.wireNet()
	pipe := c.Bool()
	ca, cb, err := socketPair(pipe)
	if err != nil {
		return
	}
	sa := &slowConn{Conn: ca, seed: c.U64(), delay: c.N(3)}
	sb := &slowConn{Conn: cb, seed: c.U64(), delay: c.N(3)}
	a, b := newPeer("A", n, sa, nil), newPeer("B", n, sb, nil)
	a.start()
	how := c.N(5)
	if how < 4 {
		b.start()
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	sentA, sentB := map[uint64]sentMsg{}, map[uint64]sentMsg{}
	if how < 4 {
		for i := 0; i < c.Range(1, 4); i++ {
			for _, p := range []*peer{a, b} {
				sent := sentA
				if p == b {
					sent = sentB
				}
				wg.Add(1)
				go func(p *peer, i int, seed uint64) {
					defer wg.Done()
					r := newRand(seed)
					for k := 0; k < 200; k++ {
						m := r.idMessage(i, k)
						mu.Lock()
						sent[idOf(m)] = sentMsg{idOf(m), m.Command(), m.Encode()}
						mu.Unlock()
						if p.c.Send(m) != nil {
							return
						}
					}
				}(p, i, c.U64())
			}
		}
		time.Sleep(time.Duration(c.N(4000)) * time.Microsecond)
		switch how {
		case 0:
			a.c.Close()
		case 1:
			b.c.Close()
		case 2: // both at once
			go a.c.Close()
			b.c.Close()
		case 3: // twice
			a.c.Close()
			a.c.Close()
		}
		a2, b2 := a.c, b.c
		defer a2.Close()
		defer b2.Close()
	} else {
		// the peer sends some frames and then garbage or half a frame, and goes away
		var frames [][]byte
		k := c.N(6)
		for i := 0; i < k; i++ {
			m := c.idMessage(0, i)
			sentB[idOf(m)] = sentMsg{idOf(m), m.Command(), m.Encode()}
			frames = append(frames, refFrame(n.Magic, m.Command(), m.Encode()))
		}
		tail := [][]byte{nil, frames1(n.Magic)[:c.N(31)+1], c.Bytes(c.Range(1, 100)), refFrame(c.Bytes(4), "ping", make([]byte, 8))}[c.N(4)]
		cb.SetWriteDeadline(time.Now().Add(20 * time.Second))
		closes := c.Bool() || len(tail) < 40
		go func() {
			cb.Write(append(cat(frames), tail...))
			if closes {
				cb.Close()
			}
		}()
		waitCh(c, a.done, "no-disconnect", "the end is not reported", sa, sb)
		waitCh(c, a.loop, "loop-hang", "the read loop does not end", sa, sb)
		// an in-memory pipe whose other end is closed refuses deadlines, an error the stream
		// may report although it holds received messages
		checkSent(c, a, sentB, !pipe)
		a.mu.Lock()
		c.Check(a.disc == 1 && a.late == 0, "disconnects", "%d disconnects, %d late messages", a.disc, a.late)
		a.mu.Unlock()
		a.c.Close()
		cb.Close()
		c.NT("close", how, len(tail), k)
		c.Count("broken peers")
		return
	}
	waitCh(c, a.done, "no-disconnect", "A does not report the end", sa, sb)
	waitCh(c, b.done, "no-disconnect", "B does not report the end", sa, sb)
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	a.c.Close()
	b.c.Close()
	waitCh(c, all, "send-hang", "senders hang after the close", sa, sb)
	waitCh(c, a.loop, "loop-hang", "the read loop of A does not end", sa, sb)
	waitCh(c, b.loop, "loop-hang", "the read loop of B does not end", sa, sb)
	checkPeer(c, a, b, n.Magic, false)
	checkPeer(c, b, a, n.Magic, false)
	mu.Lock()
	defer mu.Unlock()
	checkSent(c, a, sentB, false)
	checkSent(c, b, sentA, false)
	c.Check(a.disc == 1 && b.disc == 1, "disconnects", "%d and %d disconnects", a.disc, b.disc)
	c.Check(a.c.Send(xprotocol.NewMsgPing(1)) != nil, "send-closed", "sending on a closed connection works")
	c.Count("closes")
}

func frames1(magic []byte) []byte { return refFrame(magic, "pong", make([]byte, 8)) }

// c28shared sends one message object from many goroutines.
func c28shared(c *Ctx) {
	n := c.wireNet()
	ca, cb, err := socketPair(c.Bool())
	if err != nil {
		return
	}
	sa := &slowConn{Conn: ca, seed: c.U64(), delay: c.N(3)}
	sb := &slowConn{Conn: cb, seed: c.U64(), delay: c.N(3)}
	a, b := newPeer("A", n, sa, nil), newPeer("B", n, sb, nil)
	a.start()
	b.start()
	var gs []genMsg
	for _, k := range msgKinds {
		gs = append(gs, c.genMessage(k, true))
	}
	gs = append(gs, genMsg{xprotocol.NewMsgGetHeaders(n), "getheaders", nil})
	const G = 6
	var wg sync.WaitGroup
	var bad atomic.Value
	for i := 0; i < G; i++ {
		wg.Add(1)
		go func(i int, p *peer) {
			defer wg.Done()
			for j := range gs {
				g := gs[(i+j)%len(gs)]
				if err := p.c.Send(g.msg); err != nil {
					bad.Store(err.Error())
				}
				g.msg.Size()
			}
		}(i, []*peer{a, b}[i%2])
	}
	all := make(chan struct{})
	go func() { wg.Wait(); close(all) }()
	waitCh(c, all, "send-hang", "the senders do not finish", sa, sb)
	if e := bad.Load(); e != nil {
		c.Fail("send-error", "%v", e)
	}
	want := G / 2 * len(gs)
	var na, nb int
	settle(c, func() bool {
		a.mu.Lock()
		na = len(a.got)
		a.mu.Unlock()
		b.mu.Lock()
		nb = len(b.got)
		b.mu.Unlock()
		return na == want && nb == want
	}, "delivery-lost", func() string {
		checkPeer(c, a, b, n.Magic, false)
		checkPeer(c, b, a, n.Magic, false)
		return fmt.Sprintf("%d and %d of %d messages arrive", na, nb, want)
	}, sa, sb)
	a.c.Close()
	b.c.Close()
	waitCh(c, a.done, "no-disconnect", "A does not report the end", sa, sb)
	waitCh(c, b.done, "no-disconnect", "B does not report the end", sa, sb)
	waitCh(c, a.loop, "loop-hang", "the read loop of A does not end", sa, sb)
	waitCh(c, b.loop, "loop-hang", "the read loop of B does not end", sa, sb)
	checkPeer(c, a, b, n.Magic, true)
	checkPeer(c, b, a, n.Magic, true)
	c.Count("shared messages")
}
