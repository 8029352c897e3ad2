package ref

import (
	_ "embed"
	"strconv"
	"strings"
	"sync"
)

//go:embed agl.txt
var aglText string

var aglOnce sync.Once
var agl map[string]rune
var aglNames []string

// AGL is the Adobe Glyph List, without the names of sequences, and its names in order.
func AGL() (map[string]rune, []string) {
	aglOnce.Do(func() {
		agl = map[string]rune{}
		for _, l := range strings.Split(aglText, "\n") {
			l = strings.TrimSpace(l)
			n, v, ok := strings.Cut(l, ";")
			if !ok || strings.HasPrefix(l, "#") || len(v) != 4 {
				continue
			}
			x, err := strconv.ParseUint(v, 16, 32)
			if err == nil {
				agl[n] = rune(x)
				aglNames = append(aglNames, n)
			}
		}
	})
	return agl, aglNames
}
