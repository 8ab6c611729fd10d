package p02

import (
	"testing"

	"verifharness/engine"
	"verifharness/gen"
)

func TestCheck(t *testing.T) {
	engine.Main(t, "P02", gen.FaithfulSub(gen.V1, 100000, 3000000), gen.LargeSub(gen.V1, 96, 3000))
}
