// Code generated by tools/reexport from package log. DO NOT EDIT.

package simlog

import std "log"

const LUTC = std.LUTC
const Ldate = std.Ldate
const Llongfile = std.Llongfile
const Lmicroseconds = std.Lmicroseconds
const Lmsgprefix = std.Lmsgprefix

type Logger = std.Logger

const Lshortfile = std.Lshortfile
const LstdFlags = std.LstdFlags
const Ltime = std.Ltime

var New = std.New
