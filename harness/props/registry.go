// Package props holds the harnesses.
package props

// Registry maps harness names to their functions; the engine fills it through a
// generated file when it builds the replay command.
var Registry = map[string]func(){}
