// Package simfmt is fmt with the standard streams of the simulated system.
package simfmt

import (
	std "fmt"

	"verif/simos"
)

func Print(a ...any) (int, error)            { return std.Fprint(simos.Stdout, a...) }
func Printf(f string, a ...any) (int, error) { return std.Fprintf(simos.Stdout, f, a...) }
func Println(a ...any) (int, error)          { return std.Fprintln(simos.Stdout, a...) }
func Scan(a ...any) (int, error)             { return std.Fscan(simos.Stdin, a...) }
func Scanln(a ...any) (int, error)           { return std.Fscanln(simos.Stdin, a...) }
func Scanf(f string, a ...any) (int, error)  { return std.Fscanf(simos.Stdin, f, a...) }
