//go:build go1.24

// Package ref is an independent description of the wire protocol and of the
// block rules, used by simulated remote peers and by the oracles. It shares no
// code with the node.
package ref

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"net"
	"sort"

	"golang.org/x/crypto/blake2b"
)

// Message types.
const (
	Error byte = iota
	HandT
	ShakeT
	Ping
	Pong
	GetPeers
	Peers
	GetHeaders
	HeaderT
	Headers
	GetBlock
	BlockT
	GetCompact
	Compact
	StemTx
	TxT
)

// Limits.
const (
	MaxMsg     = 20000000
	MaxPeers   = 256
	MaxHeaders = 512
	MaxLocator = 14
)

// Genesis4 is the Testnet4 genesis hash.
var Genesis4, _ = hex.DecodeString("0644cedb1acfdde4ee9e135ae61de3cbeb301b5f27a40a2c366da8e724292f20")

// Frame puts a header in front of body.
func Frame(typ byte, body []byte) []byte {
	b := make([]byte, 11, 11+len(body))
	b[0], b[1], b[2] = 0x54, 0x34, typ
	binary.BigEndian.PutUint64(b[3:], uint64(len(body)))
	return append(b, body...)
}

// RawFrame makes a frame with an arbitrary header.
func RawFrame(m0, m1, typ byte, l uint64, body []byte) []byte {
	b := make([]byte, 11, 11+len(body))
	b[0], b[1], b[2] = m0, m1, typ
	binary.BigEndian.PutUint64(b[3:], l)
	return append(b, body...)
}

func u16(b *bytes.Buffer, v uint16) {
	var x [2]byte
	binary.BigEndian.PutUint16(x[:], v)
	b.Write(x[:])
}
func u32(b *bytes.Buffer, v uint32) {
	var x [4]byte
	binary.BigEndian.PutUint32(x[:], v)
	b.Write(x[:])
}
func u64(b *bytes.Buffer, v uint64) {
	var x [8]byte
	binary.BigEndian.PutUint64(x[:], v)
	b.Write(x[:])
}

// Addr is a network address on the wire.
type Addr struct {
	IP   net.IP
	Port int
}

// AddrOf converts.
func AddrOf(a *net.TCPAddr) Addr { return Addr{a.IP, a.Port} }

// String is host:port.
func (a Addr) String() string { return (&net.TCPAddr{IP: a.IP, Port: a.Port}).String() }

func putAddr(b *bytes.Buffer, a Addr) {
	if v4 := a.IP.To4(); v4 != nil {
		b.WriteByte(0)
		b.Write(v4)
	} else {
		b.WriteByte(1)
		ip := a.IP.To16()
		if ip == nil {
			ip = make(net.IP, 16)
		}
		b.Write(ip)
	}
	u16(b, uint16(a.Port))
}

type rd struct {
	b   []byte
	err error
}

var errShort = errors.New("ref: short body")

func (r *rd) n(n int) []byte {
	if r.err != nil || len(r.b) < n || n < 0 {
		r.err = errShort
		if n < 0 || n > 1<<16 {
			n = 0
		}
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}
func (r *rd) u8() byte    { return r.n(1)[0] }
func (r *rd) u16() uint16 { return binary.BigEndian.Uint16(r.n(2)) }
func (r *rd) u32() uint32 { return binary.BigEndian.Uint32(r.n(4)) }
func (r *rd) u64() uint64 { return binary.BigEndian.Uint64(r.n(8)) }
func (r *rd) addr() Addr {
	switch r.u8() {
	case 0:
		ip := append(net.IP(nil), r.n(4)...)
		return Addr{ip, int(r.u16())}
	case 1:
		ip := append(net.IP(nil), r.n(16)...)
		return Addr{ip, int(r.u16())}
	}
	if r.err == nil {
		r.err = errors.New("ref: bad address flag")
	}
	return Addr{}
}
func (r *rd) done() error {
	if r.err == nil && len(r.b) != 0 {
		return errors.New("ref: trailing bytes")
	}
	return r.err
}

// Hand is the hello.
type Hand struct {
	Version, Caps    uint32
	Nonce, TD        uint64
	Sender, Receiver Addr
	Agent            string
	Genesis          []byte
}

// Bytes encodes the body.
func (h *Hand) Bytes() []byte {
	b := new(bytes.Buffer)
	u32(b, h.Version)
	u32(b, h.Caps)
	u64(b, h.Nonce)
	u64(b, h.TD)
	putAddr(b, h.Sender)
	putAddr(b, h.Receiver)
	u64(b, uint64(len(h.Agent)))
	b.WriteString(h.Agent)
	b.Write(h.Genesis)
	return b.Bytes()
}

// DecodeHand decodes a body strictly.
func DecodeHand(body []byte) (*Hand, error) {
	r := &rd{b: body}
	h := &Hand{Version: r.u32(), Caps: r.u32(), Nonce: r.u64(), TD: r.u64()}
	h.Sender, h.Receiver = r.addr(), r.addr()
	l := r.u64()
	if l > uint64(len(r.b)) {
		return nil, errShort
	}
	h.Agent = string(r.n(int(l)))
	h.Genesis = append([]byte(nil), r.n(32)...)
	return h, r.done()
}

// Shake is the answer to a hello.
type Shake struct {
	Version, Caps uint32
	TD            uint64
	Agent         string
	Genesis       []byte
}

// Bytes encodes the body.
func (h *Shake) Bytes() []byte {
	b := new(bytes.Buffer)
	u32(b, h.Version)
	u32(b, h.Caps)
	u64(b, h.TD)
	u64(b, uint64(len(h.Agent)))
	b.WriteString(h.Agent)
	b.Write(h.Genesis)
	return b.Bytes()
}

// DecodeShake decodes a body strictly.
func DecodeShake(body []byte) (*Shake, error) {
	r := &rd{b: body}
	h := &Shake{Version: r.u32(), Caps: r.u32(), TD: r.u64()}
	l := r.u64()
	if l > uint64(len(r.b)) {
		return nil, errShort
	}
	h.Agent = string(r.n(int(l)))
	h.Genesis = append([]byte(nil), r.n(32)...)
	return h, r.done()
}

// PingBody encodes ping and pong.
func PingBody(td, height uint64) []byte {
	b := new(bytes.Buffer)
	u64(b, td)
	u64(b, height)
	return b.Bytes()
}

// DecodePing decodes ping and pong.
func DecodePing(body []byte) (td, height uint64, err error) {
	r := &rd{b: body}
	td, height = r.u64(), r.u64()
	return td, height, r.done()
}

// GetPeersBody encodes an address request.
func GetPeersBody(caps uint32) []byte {
	b := new(bytes.Buffer)
	u32(b, caps)
	return b.Bytes()
}

// DecodeGetPeers decodes it.
func DecodeGetPeers(body []byte) (uint32, error) {
	r := &rd{b: body}
	v := r.u32()
	return v, r.done()
}

// PeersBody encodes an address list.
func PeersBody(as []Addr) []byte {
	b := new(bytes.Buffer)
	u32(b, uint32(len(as)))
	for _, a := range as {
		putAddr(b, a)
	}
	return b.Bytes()
}

// DecodePeers decodes it.
func DecodePeers(body []byte) ([]Addr, error) {
	r := &rd{b: body}
	n := r.u32()
	if n > MaxPeers {
		return nil, errors.New("ref: too many addresses")
	}
	var as []Addr
	for i := uint32(0); i < n && r.err == nil; i++ {
		as = append(as, r.addr())
	}
	return as, r.done()
}

// LocatorBody encodes a header request.
func LocatorBody(hs [][]byte) []byte {
	b := []byte{byte(len(hs))}
	for _, h := range hs {
		b = append(b, h...)
	}
	return b
}

// ErrorBody encodes a PeerError.
func ErrorBody(code uint32, msg string) []byte {
	b := new(bytes.Buffer)
	u32(b, code)
	u64(b, uint64(len(msg)))
	b.WriteString(msg)
	return b.Bytes()
}

// Header is a block header.
type Header struct {
	Version                                  uint16
	Height                                   uint64
	TS                                       int64
	Prev, PrevRoot, UTXO, RProof, Kern, Offs [32]byte
	OutMMR, KernMMR                          uint64
	TD                                       uint64
	Scaling                                  uint32
	Nonce                                    uint64
	EdgeBits                                 uint8
	Nonces                                   [42]uint32

	Diff  uint64 // not on the wire
	PowOK bool   // whether the proof counts as valid
}

// PrePow is the part covered by the proof of work.
func (h *Header) PrePow() []byte {
	b := new(bytes.Buffer)
	u16(b, h.Version)
	u64(b, h.Height)
	u64(b, uint64(h.TS))
	for _, x := range [][32]byte{h.Prev, h.PrevRoot, h.UTXO, h.RProof, h.Kern, h.Offs} {
		b.Write(x[:])
	}
	u64(b, h.OutMMR)
	u64(b, h.KernMMR)
	u64(b, h.TD)
	u32(b, h.Scaling)
	u64(b, h.Nonce)
	return b.Bytes()
}

// PackNonces packs the proof, EdgeBits bits per nonce, least significant first.
func (h *Header) PackNonces() []byte {
	eb := uint(h.EdgeBits)
	out := make([]byte, (eb*42+7)/8)
	for i, n := range h.Nonces {
		for k := uint(0); k < eb; k++ {
			if k < 32 && n>>k&1 == 1 {
				o := uint(i)*eb + k
				out[o/8] |= 1 << (o % 8)
			}
		}
	}
	return out
}

// PowBytes is the encoded proof.
func (h *Header) PowBytes() []byte { return append([]byte{h.EdgeBits}, h.PackNonces()...) }

// Bytes is the encoded header.
func (h *Header) Bytes() []byte { return append(h.PrePow(), h.PowBytes()...) }

// Hash is the block hash.
func (h *Header) Hash() [32]byte { return blake2b.Sum256(h.PackNonces()) }

// Keys are the siphash keys the proof must verify under.
func (h *Header) Keys() (k [4]uint64) {
	s := blake2b.Sum256(h.PrePow())
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(s[8*i:])
	}
	return
}

// PowDifficulty is the difficulty of the proof.
func (h *Header) PowDifficulty() uint64 {
	s := blake2b.Sum256(h.PowBytes())
	d := binary.BigEndian.Uint64(s[:8])
	if d == 0 {
		return 0
	}
	return 0x0fffffffffffffff / d
}

// Input, Output and Kernel are the elements of a block.
type Input struct {
	Feat   byte
	Commit [33]byte
}
type Output struct {
	Feat          byte
	Commit, Proof []byte
	OK            bool
}
type Kernel struct {
	Feat        byte
	Fee, Lock   uint64
	Excess, Sig []byte
	OK          bool
}

// Bytes encode the elements.
func (i *Input) Bytes() []byte { return append([]byte{i.Feat}, i.Commit[:]...) }
func (o *Output) short() []byte {
	return append([]byte{o.Feat}, o.Commit...)
}
func (o *Output) Bytes() []byte {
	b := new(bytes.Buffer)
	b.Write(o.short())
	u64(b, uint64(len(o.Proof)))
	b.Write(o.Proof)
	return b.Bytes()
}
func (k *Kernel) Bytes() []byte {
	b := new(bytes.Buffer)
	b.WriteByte(k.Feat)
	u64(b, k.Fee)
	u64(b, k.Lock)
	b.Write(k.Excess)
	b.Write(k.Sig)
	return b.Bytes()
}

// Body is what blocks and transactions share.
type Body struct {
	Ins   []Input
	Outs  []Output
	Kerns []Kernel
}

// Hash is the hash that orders elements.
func Hash(b []byte) []byte { return hash(b) }

func hash(b []byte) []byte { h := blake2b.Sum256(b); return h[:] }

// Sort orders the elements as the wire format wants.
func (b *Body) Sort() {
	sort.SliceStable(b.Ins, func(i, j int) bool { return bytes.Compare(hash(b.Ins[i].Bytes()), hash(b.Ins[j].Bytes())) < 0 })
	sort.SliceStable(b.Outs, func(i, j int) bool { return bytes.Compare(hash(b.Outs[i].short()), hash(b.Outs[j].short())) < 0 })
	sort.SliceStable(b.Kerns, func(i, j int) bool {
		return bytes.Compare(hash(b.Kerns[i].Bytes()), hash(b.Kerns[j].Bytes())) < 0
	})
}

// Sorted says whether they are in order.
func (b *Body) Sorted() (ins, outs, kerns bool) {
	ins = sort.SliceIsSorted(b.Ins, func(i, j int) bool { return bytes.Compare(hash(b.Ins[i].Bytes()), hash(b.Ins[j].Bytes())) < 0 })
	outs = sort.SliceIsSorted(b.Outs, func(i, j int) bool { return bytes.Compare(hash(b.Outs[i].short()), hash(b.Outs[j].short())) < 0 })
	kerns = sort.SliceIsSorted(b.Kerns, func(i, j int) bool {
		return bytes.Compare(hash(b.Kerns[i].Bytes()), hash(b.Kerns[j].Bytes())) < 0
	})
	return
}

func (b *Body) put(w *bytes.Buffer) {
	u64(w, uint64(len(b.Ins)))
	u64(w, uint64(len(b.Outs)))
	u64(w, uint64(len(b.Kerns)))
	for i := range b.Ins {
		w.Write(b.Ins[i].Bytes())
	}
	for i := range b.Outs {
		w.Write(b.Outs[i].Bytes())
	}
	for i := range b.Kerns {
		w.Write(b.Kerns[i].Bytes())
	}
}

// Block is a block.
type Block struct {
	Header
	Body
}

// Bytes encodes the block, elements in their present order.
func (b *Block) Bytes() []byte {
	w := new(bytes.Buffer)
	w.Write(b.Header.Bytes())
	b.Body.put(w)
	return w.Bytes()
}

// CompactBytes encodes a compact block with the given short ids.
func (b *Block) CompactBytes(ids [][6]byte) []byte {
	w := new(bytes.Buffer)
	w.Write(b.Header.Bytes())
	w.WriteByte(byte(len(b.Outs)))
	w.WriteByte(byte(len(b.Kerns)))
	u64(w, uint64(len(ids)))
	for i := range b.Outs {
		w.Write(b.Outs[i].Bytes())
	}
	for i := range b.Kerns {
		w.Write(b.Kerns[i].Bytes())
	}
	for _, i := range ids {
		w.Write(i[:])
	}
	return w.Bytes()
}

// Tx is a transaction.
type Tx struct {
	Offset [32]byte
	Body
}

// Bytes encodes it.
func (t *Tx) Bytes() []byte {
	w := new(bytes.Buffer)
	w.Write(t.Offset[:])
	t.Body.put(w)
	return w.Bytes()
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

// Outputs and Kernels are ready-made elements; OK tells their verdict.
var (
	Outputs []Output
	Kernels []Kernel
)

func init() {
	for _, f := range fixOutputs {
		Outputs = append(Outputs, Output{Commit: unhex(f.commit), Proof: unhex(f.proof), OK: f.ok})
	}
	for _, f := range fixKernels {
		Kernels = append(Kernels, Kernel{Fee: f.fee, Lock: f.lock, Excess: unhex(f.excess), Sig: unhex(f.sig), OK: f.ok})
	}
}

// GoodOutputs is the number of leading valid fixtures.
const GoodOutputs = 10

// HeaderRules judges a header at wall time nowNS.
func HeaderRules(h *Header, nowNS int64) string {
	want := uint16(0)
	switch {
	case h.Height < 95000:
		want = 1
	case h.Height < 250000:
		want = 2
	case h.Height < 500000:
		want = 3
	}
	if want == 0 || h.Version != want {
		return "version"
	}
	limit := nowNS + 720e9
	if h.TS > 0 && (h.TS > 9000000000 || h.TS*1e9 > limit) {
		return "future"
	}
	if h.EdgeBits < 29 {
		return "size"
	}
	if h.EdgeBits != 29 && h.Scaling != 1 {
		return "scaling"
	}
	if !h.PowOK {
		return "pow"
	}
	return ""
}

// BlockRules judges a block on its own.
func BlockRules(b *Block, nowNS int64) string {
	if s := HeaderRules(&b.Header, nowNS); s != "" {
		return s
	}
	if len(b.Outs) == 0 || len(b.Kerns) == 0 {
		return "empty"
	}
	i, o, k := b.Sorted()
	if !i || !o || !k {
		return "order"
	}
	n := 0
	for _, x := range b.Outs {
		if x.Feat&1 == 1 {
			n++
		}
	}
	if n > 1 {
		return "coinbase outputs"
	}
	n = 0
	for _, x := range b.Kerns {
		if x.Feat&1 == 1 {
			n++
		}
	}
	if n > 1 {
		return "coinbase kernels"
	}
	for _, x := range b.Outs {
		if !x.OK {
			return "range proof"
		}
	}
	for _, x := range b.Kerns {
		if x.Feat&1 == 1 && !x.OK {
			return "signature"
		}
	}
	return ""
}

// HashSlice is the hash as a slice.
func (b *Block) HashSlice() []byte { h := b.Hash(); return h[:] }
