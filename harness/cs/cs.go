// Package cs holds the cases the harness runs: plain data, kept in replay
// files as JSON.
package cs

// N describes a node of a tree (a syntax tree or a box tree, by kind).
type N struct {
	K string    `json:"k"`
	S string    `json:"s,omitempty"`
	F []float64 `json:"f,omitempty"`
	I []int     `json:"i,omitempty"`
	B bool      `json:"b,omitempty"`
	C []*N      `json:"c,omitempty"`
}

// Case is one input.
type Case struct {
	P string    `json:"property"`
	K string    `json:"kind"`
	S []string  `json:"s,omitempty"`
	F []float64 `json:"f,omitempty"`
	I []int     `json:"i,omitempty"`
	T []*N      `json:"t,omitempty"`
}

// Obs is a list of observations: strings and float64s.
type Obs []any
