module verif/harness

go 1.19

require (
	github.com/jung-kurt/gofpdf/v2 v2.17.2
	github.com/mazzegi/xpdf v0.0.0
)

require (
	github.com/BurntSushi/toml v0.3.1 // indirect
	github.com/mazzegi/log v0.0.0-20200601101706-01eae2241ec0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
)

replace github.com/mazzegi/xpdf => /repo
