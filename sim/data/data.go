// Package data holds the committed test points.
package data

import _ "embed"

// Points is points.json.
//
//go:embed points.json
var Points []byte
