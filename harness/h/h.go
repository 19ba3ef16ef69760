// Package h holds the harnesses: H_<property>_<name> functions over the public API.
package h

// Registry maps harness names to functions; the replay build fills it.
var Registry = map[string]func(){}
