// Command core model-checks the packages of ndaumath which need nothing but
// what is installed here.
package main

import (
	"os"

	"verif/mc/engine"
)

var props []*engine.Property

func register(p *engine.Property) { props = append(props, p) }

func main() {
	if len(os.Args) == 3 && os.Args[1] == "__registry" {
		registryChild(os.Args[2])
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "__sized" {
		sizedChild(os.Args[2])
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "__pure" {
		pureSuite().Worker()
	}
	engine.Main(props)
}
