module verif/harness

go 1.23

require (
	github.com/xlab/c-for-go v0.0.0
	gopkg.in/yaml.v2 v2.4.0
	modernc.org/cc/v4 v4.21.4
	pgregory.net/rapid v1.3.0
)

require (
	github.com/dlclark/regexp2 v1.11.0 // indirect
	github.com/remyoudompheng/bigfft v0.0.0-20230129092748-24d4a6f8daec // indirect
	modernc.org/mathutil v1.6.0 // indirect
	modernc.org/opt v0.1.3 // indirect
	modernc.org/sortutil v1.2.0 // indirect
	modernc.org/strutil v1.2.0 // indirect
	modernc.org/token v1.1.0 // indirect
)

replace github.com/xlab/c-for-go => /repo
