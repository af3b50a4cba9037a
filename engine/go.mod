module gosym

go 1.26.0

require (
	golang.org/x/crypto v0.0.0-20201221181555-eec23a3978ad
	golang.org/x/tools v0.52.0
	google.golang.org/protobuf v1.26.0
	github.com/btcsuite/btcd v0.21.0-beta
	github.com/btcsuite/btcutil v1.0.2
)

require (
	golang.org/x/mod v0.42.0 // indirect
	golang.org/x/sync v0.24.0 // indirect
)
