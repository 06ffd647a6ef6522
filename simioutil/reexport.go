// Code generated by tools/reexport from package io/ioutil. DO NOT EDIT.

package simioutil

import std "io/ioutil"

var Discard = std.Discard
var NopCloser = std.NopCloser
var ReadAll = std.ReadAll
