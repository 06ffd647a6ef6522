// Package simlog is log with its default logger on the simulated system.
package simlog

import (
	"fmt"
	"io"
	std "log"

	"verif/simos"
)

type errw struct{}

func (errw) Write(b []byte) (int, error) { return simos.Stderr.Write(b) }

// The time stamp would be a clock; the default flags are zero here.
var std_ = std.New(errw{}, "", 0)

func Default() *Logger             { return std_ }
func SetFlags(f int)               { std_.SetFlags(f &^ (LstdFlags | Lmicroseconds)) }
func Flags() int                   { return std_.Flags() }
func SetPrefix(p string)           { std_.SetPrefix(p) }
func Prefix() string               { return std_.Prefix() }
func SetOutput(w io.Writer)        { std_.SetOutput(w) }
func Writer() io.Writer            { return std_.Writer() }
func Output(d int, s string) error { return std_.Output(d+1, s) }
func Print(v ...any)               { std_.Print(v...) }
func Printf(f string, v ...any)    { std_.Printf(f, v...) }
func Println(v ...any)             { std_.Println(v...) }
func Fatal(v ...any)               { std_.Print(v...); simos.Exit(1) }
func Fatalf(f string, v ...any)    { std_.Printf(f, v...); simos.Exit(1) }
func Fatalln(v ...any)             { std_.Println(v...); simos.Exit(1) }
func Panic(v ...any)               { s := fmt.Sprint(v...); std_.Print(s); panic(s) }
func Panicf(f string, v ...any)    { s := fmt.Sprintf(f, v...); std_.Print(s); panic(s) }
func Panicln(v ...any)             { s := fmt.Sprintln(v...); std_.Print(s); panic(s) }
