// Code generated by tools/reexport from package os. DO NOT EDIT.

package simos

import std "os"

const DevNull = std.DevNull

type DirEntry = std.DirEntry

var ErrClosed = std.ErrClosed
var ErrDeadlineExceeded = std.ErrDeadlineExceeded
var ErrExist = std.ErrExist
var ErrInvalid = std.ErrInvalid
var ErrNoDeadline = std.ErrNoDeadline
var ErrNoHandle = std.ErrNoHandle
var ErrNotExist = std.ErrNotExist
var ErrPermission = std.ErrPermission

type FileInfo = std.FileInfo
type FileMode = std.FileMode

var Getegid = std.Getegid
var Geteuid = std.Geteuid
var Getgid = std.Getgid
var Getgroups = std.Getgroups
var Getpagesize = std.Getpagesize
var Getuid = std.Getuid
var Interrupt = std.Interrupt
var IsExist = std.IsExist
var IsNotExist = std.IsNotExist
var IsPathSeparator = std.IsPathSeparator
var IsPermission = std.IsPermission
var IsTimeout = std.IsTimeout

type LinkError = std.LinkError

const ModeAppend = std.ModeAppend
const ModeCharDevice = std.ModeCharDevice
const ModeDevice = std.ModeDevice
const ModeDir = std.ModeDir
const ModeExclusive = std.ModeExclusive
const ModeIrregular = std.ModeIrregular
const ModeNamedPipe = std.ModeNamedPipe
const ModePerm = std.ModePerm
const ModeSetgid = std.ModeSetgid
const ModeSetuid = std.ModeSetuid
const ModeSocket = std.ModeSocket
const ModeSticky = std.ModeSticky
const ModeSymlink = std.ModeSymlink
const ModeTemporary = std.ModeTemporary
const ModeType = std.ModeType

var NewSyscallError = std.NewSyscallError

const O_APPEND = std.O_APPEND
const O_CREATE = std.O_CREATE
const O_EXCL = std.O_EXCL
const O_RDONLY = std.O_RDONLY
const O_RDWR = std.O_RDWR
const O_SYNC = std.O_SYNC
const O_TRUNC = std.O_TRUNC
const O_WRONLY = std.O_WRONLY

type PathError = std.PathError

const PathListSeparator = std.PathListSeparator
const PathSeparator = std.PathSeparator
const SEEK_CUR = std.SEEK_CUR
const SEEK_END = std.SEEK_END
const SEEK_SET = std.SEEK_SET

type Signal = std.Signal
type SyscallError = std.SyscallError
