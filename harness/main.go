// The check binary: see check.sh.
package main

import (
	_ "github.com/chronos-tachyon/morehttp/zverif/argh"
	"github.com/chronos-tachyon/morehttp/zverif/bodyh"
	"github.com/chronos-tachyon/morehttp/zverif/core"
	_ "github.com/chronos-tachyon/morehttp/zverif/desch"
	_ "github.com/chronos-tachyon/morehttp/zverif/handh"
	_ "github.com/chronos-tachyon/morehttp/zverif/httph"
	_ "github.com/chronos-tachyon/morehttp/zverif/mockh"
	"github.com/chronos-tachyon/morehttp/zverif/resph"
)

func main() {
	// Checks whose targets come from several packages.
	core.Register(&core.Check{
		ID:          "C16",
		Rule:        "a case is a body over a source (or a writer) that reports an impossible count, or no possible size, at a drawn call, and a history of operations; non-trivial if the impossible count was reported",
		Assumptions: []string{"the statement about response writers concerns negative counts"},
		Targets:     append(bodyh.BogusTargets(), resph.WriterBogus()),
	})
	core.Main()
}
