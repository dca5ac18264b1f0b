// mc checks the properties of the merger.
package main

import (
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/kit"
	"github.com/tylantz/go-tailwind-merge/internal/zzverif/mcore"
)

func main() { kit.Main("mc", mcore.Checks, mcore.Replay) }
