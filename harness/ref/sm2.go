package ref

import (
	"encoding/binary"
	"math/big"
)

// SM2ZA is Z_A of GB/T 32918.2.
func SM2ZA(id []byte, pub Pt) []byte {
	c := SM2
	b := binary.BigEndian.AppendUint16(nil, uint16(len(id)*8))
	b = append(b, id...)
	for _, v := range []*big.Int{c.A, c.B, c.Gx, c.Gy, pub.X, pub.Y} {
		b = append(b, B32(v)...)
	}
	return SM3(b)
}

// SM2E is the value e for a message: with a nil identity the 32-byte message
// itself is e.
func SM2E(id []byte, pub Pt, msg []byte) *big.Int {
	if id == nil {
		return I(msg)
	}
	return I(SM3(append(SM2ZA(id, pub), msg...)))
}

// SM2Verify verifies (r, s) for e.
func SM2Verify(pub Pt, e, r, s *big.Int) bool {
	c := SM2
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(c.N) >= 0 || s.Cmp(c.N) >= 0 || pub.Inf || !c.On(pub.X, pub.Y) {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, c.N)
	if t.Sign() == 0 {
		return false
	}
	R := c.Comb(s, pub, t)
	if R.Inf {
		return false
	}
	v := new(big.Int).Add(e, R.X)
	return v.Mod(v, c.N).Cmp(r) == 0
}

// SM2Sign signs with nonce k.
func SM2Sign(d, k, e *big.Int) (r, s *big.Int, R Pt, ok bool) {
	c := SM2
	R = c.MulBase(k)
	if R.Inf {
		return nil, nil, R, false
	}
	r = new(big.Int).Add(e, R.X)
	r.Mod(r, c.N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(c.N) == 0 {
		return r, nil, R, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, new(big.Int).ModInverse(new(big.Int).Add(d, big.NewInt(1)), c.N))
	s.Mod(s, c.N)
	return r, s, R, s.Sign() != 0
}

// SM2KDF is the key derivation function.
func SM2KDF(z []byte, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		out = append(out, SM3(binary.BigEndian.AppendUint32(append([]byte{}, z...), ct))...)
	}
	return out[:n]
}

func zero(b []byte) bool {
	for _, v := range b {
		if v != 0 {
			return false
		}
	}
	return true
}

// SM2Encrypt encrypts with ephemeral k; ok is false when k must be redrawn.
func SM2Encrypt(pub Pt, k *big.Int, m []byte) (ct []byte, ok bool) {
	c := SM2
	c1, s := c.MulBase(k), c.Mul(pub, k)
	if c1.Inf || s.Inf {
		return nil, false
	}
	t := SM2KDF(c.Enc(s), len(m))
	if zero(t) {
		return nil, false
	}
	ct = append([]byte{4}, c.Enc(c1)...)
	h := append(append(B32(s.X), m...), B32(s.Y)...)
	ct = append(ct, SM3(h)...)
	for i := range m {
		ct = append(ct, m[i]^t[i])
	}
	return ct, true
}

// SM2Decrypt decrypts; ok is false for everything GB/T 32918.4 rejects.
func SM2Decrypt(d *big.Int, ct []byte) ([]byte, bool) {
	c := SM2
	if len(ct) < 98 || ct[0] != 4 {
		return nil, false
	}
	p, on := c.Dec(ct[1:65])
	if !on {
		return nil, false
	}
	s := c.Mul(p, d)
	if s.Inf {
		return nil, false
	}
	c2 := ct[97:]
	t := SM2KDF(c.Enc(s), len(c2))
	if zero(t) {
		return nil, false
	}
	m := make([]byte, len(c2))
	for i := range m {
		m[i] = c2[i] ^ t[i]
	}
	if string(SM3(append(append(B32(s.X), m...), B32(s.Y)...))) != string(ct[65:97]) {
		return nil, false
	}
	return m, true
}

// KA is one side's view of a key agreement: A is the initiator.
type KA struct {
	IDA, IDB  []byte
	PA, PB    Pt // static public keys
	RA, RB    Pt // ephemeral public keys
	D, R      *big.Int
	Initiator bool
	KeyLen    int
}

// Run computes the shared key and the confirmations S_B (0x02) and S_A (0x03).
func (k KA) Run() (key, sb, sa []byte, ok bool) {
	c := SM2
	bar := func(p Pt) *big.Int {
		b := append([]byte{}, B32(p.X)[16:]...)
		b[0] |= 0x80
		return I(b)
	}
	own, peer, peerP := k.RA, k.RB, k.PB
	if !k.Initiator {
		own, peer, peerP = k.RB, k.RA, k.PA
	}
	if !c.On(peer.X, peer.Y) || !c.On(peerP.X, peerP.Y) {
		return nil, nil, nil, false
	}
	t := new(big.Int).Mul(bar(own), k.R)
	t.Add(t, k.D)
	t.Mod(t, c.N)
	u := c.Mul(c.Add(peerP, c.Mul(peer, bar(peer))), t)
	if u.Inf {
		return nil, nil, nil, false
	}
	za, zb := SM2ZA(k.IDA, k.PA), SM2ZA(k.IDB, k.PB)
	z := append(append(c.Enc(u), za...), zb...)
	key = SM2KDF(z, k.KeyLen)
	in := append(append([]byte{}, B32(u.X)...), za...)
	in = append(in, zb...)
	in = append(in, c.Enc(k.RA)...)
	in = append(in, c.Enc(k.RB)...)
	h := SM3(in)
	conf := func(tag byte) []byte {
		return SM3(append(append([]byte{tag}, B32(u.Y)...), h...))
	}
	return key, conf(2), conf(3), true
}
