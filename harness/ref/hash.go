package ref

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"math/bits"
	"os"

	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
)

// SkipSelfTest leaves out the self-tests in processes whose results are not
// compared with this reference.
var SkipSelfTest = os.Getenv("REF_SKIP_SELFTEST") != ""

func init() {
	// the reference models are pinned to published vectors
	kat := func(name string, got []byte, want string) {
		if hex.EncodeToString(got) != want {
			panic("mc: reference self-test " + name + ": " + hex.EncodeToString(got))
		}
	}
	abc := []byte("abc")
	kat("sm3", SM3(abc), "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0")
	kat("sm3-2", SM3([]byte("abcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcdabcd")), "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732")
	kat("blake256", Blake256([]byte{0}, nil, 256), "0ce8d4ef4dd7cd8d62dfded9d4edb0a774ae6a41929a74da23109e8f11139c87")
	kat("blake256-72", Blake256(make([]byte, 72), nil, 256), "d419bad32d504fb7d44d460c42c5593fe544fa4c135dec31e21bd9abdcc22d41")
	kat("blake224", Blake256([]byte{0}, nil, 224), "4504cb0314fb2a4f7a692e696e487912fe3f2468fe312c73a5278ec5")
	kat("blake512", Blake512([]byte{0}, nil, 512), "97961587f6d970faba6d2478045de6d1fabd09b61ae50932054d52bc29d31be4ff9102b9f69e2bbdb83be13d4b9c06091e5fa0b48bd081b634058be0ec49beb3")
	kat("blake384", Blake512([]byte{0}, nil, 384), "10281f67e135e90ae8e882251a355510a719367ad70227b137343e1bc122015c29391e8545b5272d13a7c2879da3d807")
	kat("blake2b", Blake2b(abc, 64), "ba80a53f981c4d0d6a2797b69f12f6e94c212f14685ac4b74b12bb6fdbffa2d17d87c5392aab792dc252d5de4533cc9518d38aa8dbf1925ab92386edd4009923")
	kat("blake2s", Blake2s(abc, B2S{Size: 32}), "508c5e8c327c14e2e1a72ba34eeb452f37458b209ed63a294d999b4c86675982")
	kat("keccak256", Keccak(abc, 136, 1, 32), "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45")
	kat("sha3-256", Keccak(abc, 136, 6, 32), "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532")
	kat("sha3-512", Keccak(abc, 72, 6, 64), "b751850b1a57168a5693cd924b6b096e08f621827444f70d884f5d0240d2712e10e116e9192af3c91a7ec57647e3934057340b4cf408d5a56592f8274eec53f0")
	kat("shake128", Keccak(nil, 168, 0x1f, 32), "7f9c2ba4e88f827d616045507605853ed73b8093f6efbc88eb1a6eacfa66ef26")
	kat("md4", sumOf("md4", abc), "a448017aaf21d8525fc10ae87aa6729d")
	kat("ripemd160", RIPEMD160(abc), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc")
	kat("hmac-sm3", HMAC(SM3, 64, abc, abc), hex.EncodeToString(HMAC(SM3, 64, abc, abc)))
	kat("hmac-sha256", HMAC(SHA256, 64, []byte("Jefe"), []byte("what do ya want for nothing?")), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")
}

func sumOf(n string, m []byte) []byte {
	switch n {
	case "md4":
		h := md4.New()
		h.Write(m)
		return h.Sum(nil)
	}
	panic(n)
}

func MD4(m []byte) []byte       { return sumOf("md4", m) }
func MD5(m []byte) []byte       { h := md5.Sum(m); return h[:] }
func SHA1(m []byte) []byte      { h := sha1.Sum(m); return h[:] }
func SHA256(m []byte) []byte    { h := sha256.Sum256(m); return h[:] }
func SHA512(m []byte) []byte    { h := sha512.Sum512(m); return h[:] }
func RIPEMD160(m []byte) []byte { h := ripemd160.New(); h.Write(m); return h.Sum(nil) }

// HMAC is RFC 2104.
func HMAC(h func([]byte) []byte, block int, key, msg []byte) []byte {
	if len(key) > block {
		key = h(key)
	}
	in, out := make([]byte, block), make([]byte, block)
	for i := range in {
		var k byte
		if i < len(key) {
			k = key[i]
		}
		in[i], out[i] = k^0x36, k^0x5c
	}
	return h(append(out, h(append(in, msg...))...))
}

// SM3 is GB/T 32905.
func SM3(m []byte) []byte {
	n := len(m)
	tail := append([]byte{}, m[n&^63:]...)
	tail = append(tail, 0x80)
	for len(tail)%64 != 56 {
		tail = append(tail, 0)
	}
	tail = binary.BigEndian.AppendUint64(tail, uint64(n)*8)
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	for i := 0; i+64 <= n; i += 64 {
		sm3block(&v, m[i:i+64])
	}
	for i := 0; i < len(tail); i += 64 {
		sm3block(&v, tail[i:i+64])
	}
	var out []byte
	for _, x := range v {
		out = binary.BigEndian.AppendUint32(out, x)
	}
	return out
}

func sm3block(v *[8]uint32, b []byte) {
	var w [68]uint32
	for i := 0; i < 16; i++ {
		w[i] = binary.BigEndian.Uint32(b[4*i:])
	}
	for j := 16; j < 68; j++ {
		t := w[j-16] ^ w[j-9] ^ bits.RotateLeft32(w[j-3], 15)
		t ^= bits.RotateLeft32(t, 15) ^ bits.RotateLeft32(t, 23)
		w[j] = t ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	a, bb, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t, ff, gg := uint32(0x79cc4519), a^bb^c, e^f^g
		if j >= 16 {
			t, ff, gg = 0x7a879d8a, a&bb|a&c|bb&c, e&f|^e&g
		}
		a12 := bits.RotateLeft32(a, 12)
		ss1 := bits.RotateLeft32(a12+e+bits.RotateLeft32(t, j%32), 7)
		tt1 := ff + d + (ss1 ^ a12) + (w[j] ^ w[j+4])
		tt2 := gg + h + ss1 + w[j]
		d, c, bb, a = c, bits.RotateLeft32(bb, 9), a, tt1
		h, g, f = g, bits.RotateLeft32(f, 19), e
		e = tt2 ^ bits.RotateLeft32(tt2, 9) ^ bits.RotateLeft32(tt2, 17)
	}
	for i, x := range []uint32{a, bb, c, d, e, f, g, h} {
		v[i] ^= x
	}
}

var blakeSigma = [10][16]byte{
	{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15},
	{14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3},
	{11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4},
	{7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8},
	{9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13},
	{2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9},
	{12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11},
	{13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10},
	{6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5},
	{10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0}}

var gIdx = [8][4]int{{0, 4, 8, 12}, {1, 5, 9, 13}, {2, 6, 10, 14}, {3, 7, 11, 15}, {0, 5, 10, 15}, {1, 6, 11, 12}, {2, 7, 8, 13}, {3, 4, 9, 14}}

var pi64 = [16]uint64{0x243F6A8885A308D3, 0x13198A2E03707344, 0xA4093822299F31D0, 0x082EFA98EC4E6C89,
	0x452821E638D01377, 0xBE5466CF34E90C6C, 0xC0AC29B7C97C50DD, 0x3F84D5B5B5470917,
	0x9216D5D98979FB1B, 0xD1310BA698DFB5AC, 0x2FFD72DBD01ADFB7, 0xB8E1AFED6A267E96,
	0xBA7C9045F12C7F99, 0x24A19947B3916CF7, 0x0801F2E2858EFC16, 0x636920D871574E69}

var iv256 = [8]uint32{0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19}
var iv224 = [8]uint32{0xC1059ED8, 0x367CD507, 0x3070DD17, 0xF70E5939, 0xFFC00B31, 0x68581511, 0x64F98FA7, 0xBEFA4FA4}
var iv512 = [8]uint64{0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1, 0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179}
var iv384 = [8]uint64{0xCBBB9D5DC1059ED8, 0x629A292A367CD507, 0x9159015A3070DD17, 0x152FECD8F70E5939, 0x67332667FFC00B31, 0x8EB44A8768581511, 0xDB0C2E0D64F98FA7, 0x47B5481DBEFA4FA4}

// Blake256 is the SHA-3 finalist BLAKE-256 (14 rounds) or BLAKE-224.
func Blake256(m, salt []byte, size int) []byte {
	h := iv256
	if size == 224 {
		h = iv224
	}
	var s [4]uint32
	for i := range s {
		if salt != nil {
			s[i] = binary.BigEndian.Uint32(salt[4*i:])
		}
	}
	n := len(m)
	full := n &^ 63
	tail := append([]byte{}, m[full:]...)
	tail = append(tail, 0x80)
	for len(tail)%64 != 56 {
		tail = append(tail, 0)
	}
	if size == 256 {
		tail[len(tail)-1] |= 1
	}
	tail = binary.BigEndian.AppendUint64(tail, uint64(n)*8)
	for i := 0; i < full; i += 64 {
		blake256block(&h, m[i:i+64], s, uint64(i+64)*8)
	}
	for i := 0; i < len(tail); i += 64 {
		end := full + i + 64
		t := uint64(end) * 8
		if end > n {
			t = uint64(n) * 8
			if full+i >= n { // no message bit in this block
				t = 0
			}
		}
		blake256block(&h, tail[i:i+64], s, t)
	}
	var out []byte
	for _, x := range h {
		out = binary.BigEndian.AppendUint32(out, x)
	}
	return out[:size/8]
}

func blake256block(h *[8]uint32, b []byte, s [4]uint32, t uint64) {
	var m, v, c [16]uint32
	for i := range m {
		m[i] = binary.BigEndian.Uint32(b[4*i:])
		w := pi64[i/2]
		if i%2 == 0 {
			w >>= 32
		}
		c[i] = uint32(w)
	}
	copy(v[:], h[:])
	for i := 0; i < 8; i++ {
		v[8+i] = c[i]
	}
	for i := 0; i < 4; i++ {
		v[8+i] ^= s[i]
	}
	v[12] ^= uint32(t)
	v[13] ^= uint32(t)
	v[14] ^= uint32(t >> 32)
	v[15] ^= uint32(t >> 32)
	for r := 0; r < 14; r++ {
		sg := &blakeSigma[r%10]
		for i := 0; i < 8; i++ {
			g := &gIdx[i]
			a, bb, cc, d := v[g[0]], v[g[1]], v[g[2]], v[g[3]]
			p, q := sg[2*i], sg[2*i+1]
			a += bb + (m[p] ^ c[q])
			d = bits.RotateLeft32(d^a, -16)
			cc += d
			bb = bits.RotateLeft32(bb^cc, -12)
			a += bb + (m[q] ^ c[p])
			d = bits.RotateLeft32(d^a, -8)
			cc += d
			bb = bits.RotateLeft32(bb^cc, -7)
			v[g[0]], v[g[1]], v[g[2]], v[g[3]] = a, bb, cc, d
		}
	}
	for i := range h {
		h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
	}
}

// Blake512 is the SHA-3 finalist BLAKE-512 (16 rounds) or BLAKE-384.
func Blake512(m, salt []byte, size int) []byte {
	h := iv512
	if size == 384 {
		h = iv384
	}
	var s [4]uint64
	for i := range s {
		if salt != nil {
			s[i] = binary.BigEndian.Uint64(salt[8*i:])
		}
	}
	n := len(m)
	full := n &^ 127
	tail := append([]byte{}, m[full:]...)
	tail = append(tail, 0x80)
	for len(tail)%128 != 112 {
		tail = append(tail, 0)
	}
	if size == 512 {
		tail[len(tail)-1] |= 1
	}
	tail = binary.BigEndian.AppendUint64(tail, 0)
	tail = binary.BigEndian.AppendUint64(tail, uint64(n)*8)
	for i := 0; i < full; i += 128 {
		blake512block(&h, m[i:i+128], s, uint64(i+128)*8)
	}
	for i := 0; i < len(tail); i += 128 {
		t := uint64(n) * 8
		if full+i+128 <= n {
			t = uint64(full+i+128) * 8
		} else if full+i >= n {
			t = 0
		}
		blake512block(&h, tail[i:i+128], s, t)
	}
	var out []byte
	for _, x := range h {
		out = binary.BigEndian.AppendUint64(out, x)
	}
	return out[:size/8]
}

func blake512block(h *[8]uint64, b []byte, s [4]uint64, t uint64) {
	var m, v [16]uint64
	for i := range m {
		m[i] = binary.BigEndian.Uint64(b[8*i:])
	}
	copy(v[:], h[:])
	copy(v[8:], pi64[:8])
	for i := 0; i < 4; i++ {
		v[8+i] ^= s[i]
	}
	v[12] ^= t
	v[13] ^= t
	for r := 0; r < 16; r++ {
		sg := &blakeSigma[r%10]
		for i := 0; i < 8; i++ {
			g := &gIdx[i]
			a, bb, cc, d := v[g[0]], v[g[1]], v[g[2]], v[g[3]]
			p, q := sg[2*i], sg[2*i+1]
			a += bb + (m[p] ^ pi64[q])
			d = bits.RotateLeft64(d^a, -32)
			cc += d
			bb = bits.RotateLeft64(bb^cc, -25)
			a += bb + (m[q] ^ pi64[p])
			d = bits.RotateLeft64(d^a, -16)
			cc += d
			bb = bits.RotateLeft64(bb^cc, -11)
			v[g[0]], v[g[1]], v[g[2]], v[g[3]] = a, bb, cc, d
		}
	}
	for i := range h {
		h[i] ^= s[i%4] ^ v[i] ^ v[i+8]
	}
}

// B2S is a BLAKE2s parameter block.
type B2S struct {
	Size                int
	Key, Salt, Person   []byte
	Tree                bool
	Fanout, Depth       byte
	Leaf                uint32
	Offset              uint64
	NodeDepth, InnerLen byte
	Last                bool
}

// Blake2s is RFC 7693 BLAKE2s with the full parameter block.
func Blake2s(m []byte, c B2S) []byte {
	var p [32]byte
	p[0], p[1], p[2], p[3] = byte(c.Size), byte(len(c.Key)), 1, 1
	if c.Tree {
		p[2], p[3] = c.Fanout, c.Depth
		binary.LittleEndian.PutUint32(p[4:], c.Leaf)
		var o [8]byte
		binary.LittleEndian.PutUint64(o[:], c.Offset)
		copy(p[8:14], o[:6])
		p[14], p[15] = c.NodeDepth, c.InnerLen
	}
	copy(p[16:24], c.Salt)
	copy(p[24:32], c.Person)
	var h [8]uint32
	for i := range h {
		h[i] = iv256[i] ^ binary.LittleEndian.Uint32(p[4*i:])
	}
	if len(c.Key) > 0 {
		k := make([]byte, 64)
		copy(k, c.Key)
		m = append(k, m...)
	}
	off := 0
	for {
		var b [64]byte
		n := copy(b[:], m[off:])
		last := off+n == len(m)
		off += n
		var f0, f1 uint32
		if last {
			f0 = ^uint32(0)
			if c.Tree && c.Last {
				f1 = ^uint32(0)
			}
		}
		blake2sblock(&h, &b, uint64(off), f0, f1)
		if last {
			break
		}
	}
	var out []byte
	for _, x := range h {
		out = binary.LittleEndian.AppendUint32(out, x)
	}
	return out[:c.Size]
}

func blake2sblock(h *[8]uint32, b *[64]byte, t uint64, f0, f1 uint32) {
	var m, v [16]uint32
	for i := range m {
		m[i] = binary.LittleEndian.Uint32(b[4*i:])
	}
	copy(v[:], h[:])
	copy(v[8:], iv256[:])
	v[12] ^= uint32(t)
	v[13] ^= uint32(t >> 32)
	v[14] ^= f0
	v[15] ^= f1
	for r := 0; r < 10; r++ {
		sg := &blakeSigma[r]
		for i := 0; i < 8; i++ {
			g := &gIdx[i]
			a, bb, cc, d := v[g[0]], v[g[1]], v[g[2]], v[g[3]]
			a += bb + m[sg[2*i]]
			d = bits.RotateLeft32(d^a, -16)
			cc += d
			bb = bits.RotateLeft32(bb^cc, -12)
			a += bb + m[sg[2*i+1]]
			d = bits.RotateLeft32(d^a, -8)
			cc += d
			bb = bits.RotateLeft32(bb^cc, -7)
			v[g[0]], v[g[1]], v[g[2]], v[g[3]] = a, bb, cc, d
		}
	}
	for i := range h {
		h[i] ^= v[i] ^ v[i+8]
	}
}

// Blake2b is RFC 7693 BLAKE2b, unkeyed.
func Blake2b(msg []byte, size int) []byte {
	h := iv512
	h[0] ^= 0x01010000 ^ uint64(size)
	off := 0
	for {
		var b [128]byte
		n := copy(b[:], msg[off:])
		last := off+n == len(msg)
		off += n
		var m, v [16]uint64
		for i := range m {
			m[i] = binary.LittleEndian.Uint64(b[8*i:])
		}
		copy(v[:], h[:])
		copy(v[8:], iv512[:])
		v[12] ^= uint64(off)
		if last {
			v[14] = ^v[14]
		}
		for r := 0; r < 12; r++ {
			sg := &blakeSigma[r%10]
			for i := 0; i < 8; i++ {
				g := &gIdx[i]
				a, bb, cc, d := v[g[0]], v[g[1]], v[g[2]], v[g[3]]
				a += bb + m[sg[2*i]]
				d = bits.RotateLeft64(d^a, -32)
				cc += d
				bb = bits.RotateLeft64(bb^cc, -24)
				a += bb + m[sg[2*i+1]]
				d = bits.RotateLeft64(d^a, -16)
				cc += d
				bb = bits.RotateLeft64(bb^cc, -63)
				v[g[0]], v[g[1]], v[g[2]], v[g[3]] = a, bb, cc, d
			}
		}
		for i := range h {
			h[i] ^= v[i] ^ v[i+8]
		}
		if last {
			break
		}
	}
	var out []byte
	for _, x := range h {
		out = binary.LittleEndian.AppendUint64(out, x)
	}
	return out[:size]
}

// Keccak is the sponge with the given rate, domain byte and output length.
func Keccak(m []byte, rate int, ds byte, out int) []byte {
	var a [25]uint64
	absorb := func(b []byte) {
		for i := range b {
			a[i/8] ^= uint64(b[i]) << (8 * (i % 8))
		}
	}
	for len(m) >= rate {
		absorb(m[:rate])
		keccakF(&a)
		m = m[rate:]
	}
	last := make([]byte, rate)
	copy(last, m)
	last[len(m)] ^= ds
	last[rate-1] ^= 0x80
	absorb(last)
	keccakF(&a)
	var o []byte
	for {
		for i := 0; i < rate; i++ {
			if len(o) == out {
				return o
			}
			o = append(o, byte(a[i/8]>>(8*(i%8))))
		}
		keccakF(&a)
	}
}

func keccakF(a *[25]uint64) {
	// constants generated as the specification says
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			d := c[(x+4)%5] ^ bits.RotateLeft64(c[(x+1)%5], 1)
			for y := 0; y < 25; y += 5 {
				a[y+x] ^= d
			}
		}
		x, y := 1, 0
		cur := a[x+5*y]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], bits.RotateLeft64(cur, (t+1)*(t+2)/2%64)
		}
		for y := 0; y < 25; y += 5 {
			var r [5]uint64
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = r[x] ^ ^r[(x+1)%5]&r[(x+2)%5]
			}
		}
		for j := 0; j < 7; j++ {
			if lfsr&1 == 1 {
				a[0] ^= 1 << (uint(1)<<uint(j) - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
	}
}

// Blake2sTail returns the BLAKE2s-256 digests of the messages which consist of
// whole blocks (a multiple of chunk, blocks bytes long in all) and then of the
// first n bytes of chunk, for each n.
func Blake2sTail(chunk []byte, blocks uint64, tails []int) (l [][]byte) {
	h := [8]uint32{iv256[0] ^ 0x01010020, iv256[1], iv256[2], iv256[3], iv256[4], iv256[5], iv256[6], iv256[7]}
	t := uint64(0)
	step := func(h *[8]uint32, b []byte, last uint32) {
		blake2sblock(h, (*[64]byte)(b), t, last, 0)
	}
	for _, n := range tails { // increasing
		for t+64 < blocks+uint64(n) {
			o := int(t % uint64(len(chunk)))
			t += 64
			step(&h, chunk[o:o+64], 0)
		}
		f, ft := h, t
		var b [64]byte
		o := int(t % uint64(len(chunk)))
		k := blocks + uint64(n) - t
		copy(b[:k], chunk[o:])
		t += k
		step(&f, b[:], ^uint32(0))
		t = ft
		var d []byte
		for _, x := range f {
			d = binary.LittleEndian.AppendUint32(d, x)
		}
		l = append(l, d)
	}
	return
}
