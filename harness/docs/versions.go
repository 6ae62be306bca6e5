package docs

import (
	"github.com/spdx/tools-golang/spdx/v2/v2_1"
	"github.com/spdx/tools-golang/spdx/v2/v2_2"
	"github.com/spdx/tools-golang/spdx/v2/v2_3"
)

// Version is one supported version of the SPDX document model.
type Version struct {
	Name  string // "2.1"
	Const string // what a document of this version states; from the SPDX specification
	Num   int
	New   func() any // *Document of that version
}

var Versions = []*Version{
	{"2.1", "SPDX-2.1", 1, func() any { return &v2_1.Document{} }},
	{"2.2", "SPDX-2.2", 2, func() any { return &v2_2.Document{} }},
	{"2.3", "SPDX-2.3", 3, func() any { return &v2_3.Document{} }},
}
