// Code generated by tools/reexport from package context. DO NOT EDIT.

package simcontext

import std "context"

type CancelCauseFunc = std.CancelCauseFunc
type CancelFunc = std.CancelFunc

var Canceled = std.Canceled

type Context = std.Context

var DeadlineExceeded = std.DeadlineExceeded
