// C04: the group law on secp256k1, secp256r1 and SM2.
package main

import (
	"time"
	"verifharness/kit"
	"verifharness/mc"
	"verifharness/ref"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func main() {
	mc.Main("C04", 150*time.Second, 800*time.Second, func(r *mc.Run) {
		for _, c := range []kit.Curve{
			{Curve: ref.K1, Code: owcrypt.ECC_CURVE_SECP256K1, Sname: "secp256k1", Wide: true},
			{Curve: ref.R1, Code: owcrypt.ECC_CURVE_SECP256R1, Sname: "secp256r1", Wide: true},
			{Curve: ref.SM2, Code: owcrypt.ECC_CURVE_SM2_STANDARD, Sname: "sm2_std", Wide: true}} {
			kit.GroupLaw(r, c)
		}
		r.Explore("unknown names", func(x *mc.X) {
			g := ref.K1.Enc(ref.K1.G())
			n := []string{"", "secp256k2", "SECP256K1", "sm2", "ed25519", "secp256r1 "}[x.Choose(6)]
			var got []byte
			var inf bool
			x.Call("Add", func() { got, inf = owcrypt.Add(g, g, n) })
			x.Assert(got == nil && !inf, "unknown-name", "Add with curve %q", n)
			x.Call("Mul", func() { got, inf = owcrypt.Mul(g, ref.B32(ref.K1.Gx), n) })
			x.Assert(got == nil && !inf, "unknown-name", "Mul with curve %q", n)
			x.Call("MulBaseG_Add", func() { got, inf = owcrypt.MulBaseG_Add(g, ref.B32(ref.K1.Gx), n) })
			x.Assert(got == nil && !inf, "unknown-name", "MulBaseG_Add with curve %q", n)
			x.State(n)
		})
		r.Note("the reference is the affine group law on math/big with the published domain parameters")
	})
}
