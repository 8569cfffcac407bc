module verif/harness

go 1.24.2

require (
	github.com/totegamma/yisp v0.0.0
	gopkg.in/yaml.v3 v3.0.1
)

require (
	github.com/bmatcuk/doublestar/v4 v4.10.0 // indirect
	github.com/elliotchance/orderedmap/v3 v3.1.0 // indirect
	github.com/rs/xid v1.6.0 // indirect
)

replace github.com/totegamma/yisp => /repo
