package synth

import (
	"encoding/binary"
	"fmt"
	"math/rand"
)

// Grow adds glyphs to a TrueType font without changing those it has. Most of them are empty, a few copy simple glyphs.
func Grow(r *rand.Rand, f *Font, n int) *Font {
	t := map[string][]byte{}
	for k, v := range f.Tables {
		t[k] = append([]byte{}, v...)
	}
	u16 := func(b []byte, at int) int { return int(binary.BigEndian.Uint16(b[at:])) }
	set16 := func(b []byte, at, v int) { binary.BigEndian.PutUint16(b[at:], uint16(v)) }
	old := f.N
	if t["glyf"] == nil || n <= old || n > 0xFFFF {
		return f
	}
	long := u16(t["head"], 50) == 1
	offs := make([]int, old+1)
	for i := range offs {
		if long {
			offs[i] = int(binary.BigEndian.Uint32(t["loca"][4*i:]))
		} else {
			offs[i] = 2 * u16(t["loca"], 2*i)
		}
	}
	var simple []int
	for i := 0; i < old; i++ {
		if offs[i] < offs[i+1] && 0 < int16(u16(t["glyf"], offs[i])) {
			simple = append(simple, i)
		}
	}
	glyf := t["glyf"][:offs[old]]
	copies := map[int]bool{n - 1: true, n - 2: true, old: true}
	for i := 0; i < 20; i++ {
		copies[old+r.Intn(n-old)] = true
	}
	src := map[int]int{}
	for i := old; i < n; i++ {
		if copies[i] && len(simple) > 0 {
			src[i] = simple[r.Intn(len(simple))]
			glyf = append(glyf, glyf[offs[src[i]]:offs[src[i]+1]]...)
			for len(glyf)%4 != 0 {
				glyf = append(glyf, 0)
			}
		}
		offs = append(offs, len(glyf))
	}
	w := &W{}
	short := true
	for _, o := range offs {
		if o%2 != 0 || o > 131070 {
			short = false
		}
	}
	if short && r.Intn(2) == 0 {
		for _, o := range offs {
			w.U16(o / 2)
		}
		set16(t["head"], 50, 0)
	} else {
		for _, o := range offs {
			w.U32(o)
		}
		set16(t["head"], 50, 1)
	}
	t["loca"], t["glyf"] = w.B, glyf
	set16(t["maxp"], 4, n)
	for _, k := range [][2]string{{"hhea", "hmtx"}, {"vhea", "vmtx"}} {
		if t[k[1]] == nil {
			continue
		}
		m := u16(t[k[0]], 34)
		full := 0 // metrics to add
		adv := u16(t[k[1]], 4*m-4)
		if m == old {
			full = []int{0, 0, 1 + r.Intn(n-old), n - old}[r.Intn(4)]
		}
		for i := old; i < n; i++ {
			bearing := r.Intn(100) - 50
			if s, ok := src[i]; ok && k[0] == "hhea" {
				bearing = int(int16(u16(glyf, offs[s]+2)))
			}
			if i < old+full {
				adv = r.Intn(2)
				t[k[1]] = append(t[k[1]], byte(0), byte(adv))
			}
			if s, ok := src[i]; ok && k[0] == "hhea" { // the extremes take the copies in
				wd := int(int16(u16(glyf, offs[s]+6))) - bearing
				for at, v := range map[int]int{12: bearing, 14: adv - bearing - wd, 16: bearing + wd} {
					if now := int(int16(u16(t["hhea"], at))); (v < now) == (at < 16) {
						set16(t["hhea"], at, max(-32768, min(32767, v)))
					}
				}
			}
			t[k[1]] = append(t[k[1]], byte(bearing>>8), byte(bearing))
		}
		set16(t[k[0]], 34, m+full)
	}
	if p := t["post"]; len(p) >= 34 && u16(p, 0) == 2 {
		at := 34 + 2*old
		w := &W{}
		w.Bytes(p[:at])
		w.Set16(32, n)
		for i := old; i < n; i++ {
			w.U16(u16(p, 34+2*r.Intn(old)))
		}
		w.Bytes(p[at:])
		t["post"] = w.B
	} else if len(p) >= 32 && u16(p, 0) == 1 {
		set16(p, 0, 3)
	}
	g := *f
	g.Tables, g.N = t, n
	g.Desc = fmt.Sprintf("%s, grown to %d glyphs", f.Desc, n)
	g.Bytes = Assemble(r, f.Version, t)
	return &g
}
