// Ref prints the library's results for the text on its standard input.
package main

import (
	"encoding/json"
	"io"
	"os"

	"toaqsim/libx"
)

func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		os.Exit(3)
	}
	if err := json.NewEncoder(os.Stdout).Encode(libx.Compute(string(b))); err != nil {
		os.Exit(3)
	}
}
