package p03

import (
	"testing"

	"verifharness/engine"
	"verifharness/gen"
)

func TestCheck(t *testing.T) {
	engine.Main(t, "P03", gen.FaithfulSub(gen.Jaeger, 100000, 3000000), gen.LargeSub(gen.Jaeger, 96, 3000))
}
