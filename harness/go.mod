module verif

go 1.19

require (
	github.com/cybercryptio/d1-lib/v2 v2.0.0
	github.com/gofrs/uuid v4.3.0+incompatible
	github.com/json-iterator/go v1.1.12
	github.com/rs/zerolog v1.28.0
	go.etcd.io/bbolt v1.3.6
	golang.org/x/crypto v0.0.0-20220919173607-35f4265a4bc0
)

require (
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.16 // indirect
	github.com/modern-go/concurrent v0.0.0-20180306012644-bacd9c7ef1dd // indirect
	github.com/modern-go/reflect2 v1.0.2 // indirect
	golang.org/x/sys v0.0.0-20220919091848-fb04ddd9f9c8 // indirect
)

replace github.com/cybercryptio/d1-lib/v2 => /repo
