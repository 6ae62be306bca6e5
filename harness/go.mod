module verifharness

go 1.23.0

require (
	github.com/spdx/gordf v0.0.0-20250128162952-000978ccd6fb
	github.com/spdx/tools-golang v0.0.0
	sigs.k8s.io/yaml v1.6.0
)

require (
	github.com/anchore/go-struct-converter v0.2.1 // indirect
	go.yaml.in/yaml/v2 v2.4.2 // indirect
)

replace github.com/spdx/tools-golang => /repo
