package core

// modes are extra entry points of the harness binary (child processes).
var modes = map[string]func(args []string){}

// Mode registers an entry point selected by the first command-line argument.
func Mode(name string, f func(args []string)) { modes[name] = f }
