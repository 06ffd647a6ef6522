// Code generated by tools/reexport from package math/rand. DO NOT EDIT.

package simrand

import std "math/rand"

var New = std.New
var NewSource = std.NewSource
var NewZipf = std.NewZipf

type Rand = std.Rand
type Source = std.Source
type Source64 = std.Source64
type Zipf = std.Zipf
