module verif

go 1.25.0

replace github.com/tdewolff/font => /repo

require (
	github.com/andybalholm/brotli v1.2.1
	github.com/golang/freetype v0.0.0-20170609003504-e2365dfdc4a0
	github.com/tdewolff/canvas v0.0.0-20260406091912-5d4f7059846e
	github.com/tdewolff/parse/v2 v2.8.12
	github.com/tdewolff/test v1.0.12
	golang.org/x/image v0.39.0
	golang.org/x/text v0.36.0
)

require (
	codeberg.org/go-latex/latex v0.2.0 // indirect
	codeberg.org/go-pdf/fpdf v0.11.1 // indirect
	github.com/BurntSushi/freetype-go v0.0.0-20160129220410-b763ddbfe298 // indirect
	github.com/BurntSushi/graphics-go v0.0.0-20160129215708-b43f31a4a966 // indirect
	github.com/BurntSushi/xgb v0.0.0-20210121224620-deaf085860bc // indirect
	github.com/BurntSushi/xgbutil v0.0.0-20190907113008-ad855c713046 // indirect
	github.com/ByteArena/poly2tri-go v0.0.0-20170716161910-d102ad91854f // indirect
	github.com/Kagami/go-avif v0.1.0 // indirect
	github.com/benoitkugler/textlayout v0.3.2 // indirect
	github.com/benoitkugler/textprocessing v0.0.6 // indirect
	github.com/go-fonts/latin-modern v0.3.3 // indirect
	github.com/kolesa-team/go-webp v1.0.5 // indirect
	github.com/srwiley/rasterx v0.0.0-20220730225603-2ab79fcdd4ef // indirect
	github.com/srwiley/scanx v0.0.0-20190309010443-e94503791388 // indirect
	github.com/tdewolff/minify/v2 v2.24.12 // indirect
	github.com/wcharczuk/go-chart/v2 v2.1.2 // indirect
	github.com/yuin/goldmark v1.8.2 // indirect
	golang.org/x/net v0.53.0 // indirect
	gonum.org/v1/plot v0.17.0 // indirect
	modernc.org/knuth v0.5.5 // indirect
	modernc.org/token v1.1.0 // indirect
	star-tex.org/x/tex v0.7.1 // indirect
)

require (
	github.com/go-text/typesetting v0.3.4
	github.com/tdewolff/font v0.0.0
)
