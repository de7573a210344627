// Command mk prints the literals of a directory tree.
package main

import (
	"fmt"
	"log"
	"os"

	"verif/harness/vlib/literals"
)

func main() {
	m, err := literals.Collect(os.Args[1])
	if err != nil {
		log.Fatal(err)
	}
	fmt.Print(literals.Write(m))
}
