// Package near declares types that have the names of those of another package of the same name.
package near

type T struct{ A, B int }
type I interface{ Error() string }
type U struct{ u int }
