module verif/mc

go 1.22

require github.com/rikchilvers/gledger v0.0.0

require (
	github.com/dustin/go-humanize v1.0.0 // indirect
	github.com/spf13/cobra v1.1.1 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
)

replace github.com/rikchilvers/gledger => /repo
