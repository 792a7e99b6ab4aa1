// The command-line world: the real program and library, simulated standard
// streams, files and exit.
package w_cli

import (
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	simmain "github.com/eaburns/toaq"

	"toaqsim/simos"
	"toaqsim/simrt"
	"toaqsim/world"
)

func TestWorld(t *testing.T) { world.Main(t, run) }

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func run(w *world.W) {
	p := w.Spec.Cli
	ref := &w.Spec.Texts[p.Text]
	text := ref.Text
	os.Args = []string{"toaq"}
	inputOK := true
	if p.File != "" {
		os.Args = append(os.Args, p.File)
		switch {
		case p.Missing:
			inputOK = false
			w.Fault("open:missing")
		case p.IsDir:
			os.MkdirAll(p.File, 0755)
			inputOK = false
			w.Fault("open:directory")
		default:
			os.WriteFile(p.File, []byte(text), 0644)
		}
		simos.Faults = p.FS
		simos.ReadChunks = p.Chunks
		simos.StdinV.Data = []byte("jai? suq/")
	} else {
		simos.StdinV.Data = []byte(text)
		simos.StdinV.Chunks = p.Chunks
		if p.ReadErr != "" {
			cut := p.Cut
			if cut > len(text) {
				cut = len(text)
			}
			simos.StdinV.Data = []byte(text)[:cut]
			simos.StdinV.Err = simos.Errno(p.ReadErr)
			inputOK = false
		}
	}
	outFails := false
	if p.OutAt >= 0 {
		total := ref.CLIOut.N
		if ref.HasErr {
			total += len(p.File) + len(ref.Err) + 1
		}
		simos.StdoutV.FailAt = int(int64(total) * int64(p.OutAt) / 1000)
		simos.StdoutV.Err = simos.Errno(p.OutErr)
		simos.StdoutV.Once = p.OutOnce
	}
	simrt.Spawn("main", func() { simmain.SimMain(); simos.Exit(0) })
	world.Settle(time.Second)

	out := string(simos.StdoutV.Buf)
	// Which planned file faults really struck a read or an open?
	for k, n := range simos.Injected {
		if n == 0 {
			continue
		}
		if strings.HasPrefix(k, "open:") || strings.HasPrefix(k, "read:") {
			inputOK = false
		}
		if strings.HasPrefix(k, "stdout:") {
			outFails = true
		}
	}
	w.Res.Checked++
	if !inputOK || outFails || len(p.Chunks) > 0 {
		w.Res.Nontrivial++
	}
	if !simrt.Exited {
		w.Violate("hang", "the program did not end", "C16")
		return
	}
	code := simrt.ExitCode
	if simos.Killed {
		return
	}
	// The analysis begins with the parse tree or the failure tree.
	analysis := func() bool {
		if ref.CLIOut.N == 0 {
			return false
		}
		pre := ref.CLIOut.Pre
		if len(pre) > 40 {
			pre = pre[:40]
		}
		return strings.HasPrefix(out, pre) || looksLikeAnalysis(out)
	}
	switch {
	case !inputOK:
		if code == 0 {
			w.Violate("exit-status", fmt.Sprintf("the input could not be read but the program exited with status 0, printing %q", clip(out)), "C16")
		}
		if !outFails && analysis() {
			w.Violate("partial-input", fmt.Sprintf("the input could not be read but the program printed an analysis: %q", clip(out)), "C16")
		}
		if !outFails && len(out)+len(simos.StderrV.Buf) == 0 && simrt.Crash == "" {
			w.Violate("silent", "the input could not be read and the program said nothing", "C16")
		}
	case outFails:
		if code == 0 {
			w.Violate("exit-status", fmt.Sprintf("writing the output failed (%s, %d bytes lost) but the program exited with status 0", p.OutErr, simos.StdoutV.Lost), "C16")
		}
	case ref.HasErr:
		if code == 0 {
			w.Violate("exit-status", fmt.Sprintf("syntax error in %q but the program exited with status 0", clip(text)), "C16")
		}
		if !strings.Contains(out+string(simos.StderrV.Buf), ref.Err) {
			w.Violate("no-error", fmt.Sprintf("syntax error in %q: the program printed %q, without the error %q", clip(text), clip(out), ref.Err), "C16")
		} else if want := ref.CLIOut.N + len(p.File) + len(ref.Err) + 1; len(out) != want || !ref.CLIOut.Is(out[:ref.CLIOut.N]) || out[ref.CLIOut.N:] != p.File+ref.Err+"\n" {
			w.Violate("wrong-output", fmt.Sprintf("syntax error in %q: output %q (%d bytes), want %q… followed by %q", clip(text), clip(out), len(out), ref.CLIOut.Pre, p.File+ref.Err), "C16")
		}
	case ref.Kind == "panic":
		w.Probe("natural-panic")
		if code == 0 {
			w.Violate("exit-status", fmt.Sprintf("the interpreter fails on %q but the program exited with status 0, printing %q", clip(text), clip(out)), "C16")
		}
	default:
		if code != 0 {
			w.Violate("exit-status", fmt.Sprintf("text %q: exit status %d, want 0; output %q %s", clip(text), code, clip(out), clip(simrt.Crash)), "C16")
		} else if !ref.CLIOut.Is(out) {
			w.Violate("wrong-output", fmt.Sprintf("text %q: output %q (%d bytes), want %q (%d bytes)", clip(text), clip(out), len(out), ref.CLIOut.Pre, ref.CLIOut.N), "C16")
		}
	}
}

// looksLikeAnalysis recognises the output of the pretty printers.
func looksLikeAnalysis(out string) bool {
	return strings.Contains(out, "Text{") || strings.Contains(out, "full_text") || strings.HasPrefix(out, "Node{")
}
