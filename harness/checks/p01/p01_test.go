package p01

import (
	"testing"

	"verifharness/engine"
	"verifharness/gen"
)

func TestCheck(t *testing.T) {
	engine.Main(t, "P01", gen.FaithfulSub(gen.V2, 100000, 3000000), gen.LargeSub(gen.V2, 96, 3000))
}
