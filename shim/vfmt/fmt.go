// Package vfmt replaces fmt's standard-output functions.
package vfmt

import (
	"fmt"
	"vshim/vos"
)

func Print(a ...interface{}) (int, error) { return vos.Stdout.WriteString(fmt.Sprint(a...)) }
func Printf(f string, a ...interface{}) (int, error) {
	return vos.Stdout.WriteString(fmt.Sprintf(f, a...))
}
func Println(a ...interface{}) (int, error) { return vos.Stdout.WriteString(fmt.Sprintln(a...)) }
