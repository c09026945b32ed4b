package mkp

import (
	"testing"

	"pgregory.net/rapid"

	"verifharness/tf"
	"verifharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }

// both dispatches a generic case on a drawn torus type.
func both(t *rapid.T, f32, f64 func(*rapid.T)) {
	if tf.DrawType(t) == "uint32" {
		vh.Label("uint32")
		f32(t)
	} else {
		vh.Label("uint64")
		f64(t)
	}
}
