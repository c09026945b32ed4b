package mathp

import (
	"testing"

	"verifharness/vh"
)

func TestMain(m *testing.M) { vh.Main(m) }
