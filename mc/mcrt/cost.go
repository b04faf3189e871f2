package mcrt

// Cost counts the statements executed in the program under test, Moves the
// elements copied by copy and append, and Makes those allocated by make.
var Cost, Moves, Makes int

// Copied takes the result of copy.
func Copied(n int) int {
	Moves += n
	return n
}

// Append stands for append.
func Append[S ~[]E, E any](s S, x ...E) S {
	Moves += len(x)
	if len(s)+len(x) > cap(s) {
		Moves += len(s)
	}
	return append(s, x...)
}

// Made takes the result of make.
func Made[S ~[]E, E any](s S) S {
	Makes += cap(s)
	return s
}
