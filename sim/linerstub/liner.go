// Package liner replaces the terminal: lines come from the simulated world.
package liner

import (
	"errors"
	"io"

	"simrt"
)

var (
	ErrNotTerminalOutput = errors.New("standard output is not a terminal")
	ErrPromptAborted     = errors.New("prompt aborted")
	ErrInvalidPrompt     = errors.New("invalid prompt")
	ErrInternal          = errors.New("liner: internal error")
	// ErrTerminal is what a failing terminal returns.
	ErrTerminal = errors.New("input/output error")
)

// HistoryLimit is a dummy.
const HistoryLimit = 1000

type Completer func(line string) []string
type WordCompleter func(line string, pos int) (head string, completions []string, tail string)
type TabStyle int
type ShouldRestart func(err error) bool

const (
	TabCircular TabStyle = iota
	TabPrints
)

// State is the terminal.
type State struct{ closed bool }

// NewLiner opens the terminal.
func NewLiner() *State { simrt.Probe("terminal-opened"); return &State{} }

func mk(kind string) error {
	switch kind {
	case "eof":
		return io.EOF
	case "abort":
		return ErrPromptAborted
	case "ueof":
		return io.ErrUnexpectedEOF
	}
	return ErrTerminal
}

func (s *State) Prompt(p string) (string, error) {
	if simrt.W == nil || simrt.W.Term == nil {
		return "", io.EOF
	}
	return simrt.W.Term.ReadLine(mk)
}

func (s *State) Close() error {
	s.closed = true
	simrt.Probe("terminal-closed")
	return nil
}

func (s *State) PromptWithSuggestion(p, t string, pos int) (string, error) { return s.Prompt(p) }
func (s *State) PasswordPrompt(p string) (string, error)                   { return s.Prompt(p) }
func (s *State) SetCtrlCAborts(b bool)                                     {}
func (s *State) SetBeep(b bool)                                            {}
func (s *State) SetMultiLineMode(b bool)                                   {}
func (s *State) SetCompleter(f Completer)                                  {}
func (s *State) SetWordCompleter(f WordCompleter)                          {}
func (s *State) SetTabCompletionStyle(t TabStyle)                          {}
func (s *State) SetShouldRestart(f ShouldRestart)                          {}
func (s *State) SetColumns(n int)                                          {}
func (s *State) AppendHistory(l string)                                    {}
func (s *State) ClearHistory()                                             {}
func (s *State) ReadHistory(r io.Reader) (int, error)                      { return 0, nil }
func (s *State) WriteHistory(w io.Writer) (int, error)                     { return 0, nil }

// ModeApplier is a terminal mode.
type ModeApplier interface{ ApplyMode() error }
type nomode struct{}

func (nomode) ApplyMode() error { return nil }

// TerminalMode is a dummy.
func TerminalMode() (ModeApplier, error) { return nomode{}, nil }

// TerminalSupported is true.
func TerminalSupported() bool { return true }
