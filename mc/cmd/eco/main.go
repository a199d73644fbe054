// Command eco model-checks the packages of ndaumath which compute with
// decimals: arithmetic, amounts and times, EAI and prices.
package main

import (
	"os"

	"verif/mc/engine"
)

var props []*engine.Property

func register(p *engine.Property) { props = append(props, p) }

func main() {
	if len(os.Args) == 4 && os.Args[1] == "__pure" {
		pureSuite().Worker()
	}
	engine.Main(props)
}
