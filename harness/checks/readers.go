package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-text/typesetting/font"
	"github.com/golang/freetype/truetype"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"

	"verif/core"
	"verif/ref"
)

// reader is an independent font reader.
type reader struct {
	name   string
	accept func(b []byte) error
}

func guard(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("panic: %v", e)
		}
	}()
	return f()
}

var readerList = []reader{
	{"x/image", func(b []byte) error {
		f, err := sfnt.Parse(b)
		if err != nil {
			return err
		}
		var buf sfnt.Buffer
		for g := 0; g < f.NumGlyphs(); g++ {
			if _, err := f.LoadGlyph(&buf, sfnt.GlyphIndex(g), fixed.I(int(f.UnitsPerEm())), nil); err != nil {
				return fmt.Errorf("glyph: %v", err)
			}
		}
		return nil
	}},
	{"freetype", func(b []byte) error {
		f, err := truetype.Parse(b)
		if err != nil {
			return err
		}
		rf, err := ref.Parse(b, 0)
		if err != nil {
			return err
		}
		for g := 0; g < rf.NumGlyphs(); g++ {
			var buf truetype.GlyphBuf
			if err := buf.Load(f, fixed.Int26_6(f.FUnitsPerEm()), truetype.Index(g), 0); err != nil {
				return fmt.Errorf("glyph: %v", err)
			}
		}
		return nil
	}},
	{"go-text", func(b []byte) error {
		f, err := font.ParseTTF(bytes.NewReader(b))
		if err != nil {
			return err
		}
		f.HorizontalAdvance(0)
		f.NominalGlyph('A')
		return nil
	}},
}

// readers observes whether the independent readers that accept the sources accept the result as well.
func readers(c *core.Case, what string, result []byte, sources ...[]byte) {
	for _, r := range readerList {
		r := r
		refused := false
		for _, source := range sources {
			if err := guard(func() error { return r.accept(source) }); err != nil {
				c.Count("sources refused by "+r.name, 1)
				refused = true
				break
			}
		}
		if refused {
			continue
		}
		if err := guard(func() error { return r.accept(result) }); err != nil {
			if strings.Contains(err.Error(), "unsupported kern table") || strings.Contains(err.Error(), "kern coverage") {
				continue // knows one kerning subtable only
			}
			for i, source := range sources {
				c.Attach(fmt.Sprintf("source%d.bin", i), source)
			}
			c.Attach("result.bin", result)
			c.Fail("refused by "+r.name+":"+errKey(err), "%s: accepts the source but not the result: %v", what, err)
			continue
		}
		c.Count("accepted by "+r.name, 1)
	}
}
