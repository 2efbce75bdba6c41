// Generated by gosym -mirror: the rest of the API of os.

package zz_vos

import real "os"

var Chdir = real.Chdir
var CopyFS = real.CopyFS

const DevNull = real.DevNull

var DirFS = real.DirFS
var ErrClosed = real.ErrClosed
var ErrDeadlineExceeded = real.ErrDeadlineExceeded
var ErrExist = real.ErrExist
var ErrInvalid = real.ErrInvalid
var ErrNoDeadline = real.ErrNoDeadline
var ErrNoHandle = real.ErrNoHandle
var ErrNotExist = real.ErrNotExist
var ErrPermission = real.ErrPermission
var ErrProcessDone = real.ErrProcessDone
var Expand = real.Expand
var FindProcess = real.FindProcess
var Getgroups = real.Getgroups
var IsPathSeparator = real.IsPathSeparator
var IsTimeout = real.IsTimeout

const ModeAppend = real.ModeAppend
const ModeCharDevice = real.ModeCharDevice
const ModeDevice = real.ModeDevice
const ModeDir = real.ModeDir
const ModeExclusive = real.ModeExclusive
const ModeIrregular = real.ModeIrregular
const ModeNamedPipe = real.ModeNamedPipe
const ModePerm = real.ModePerm
const ModeSetgid = real.ModeSetgid
const ModeSetuid = real.ModeSetuid
const ModeSocket = real.ModeSocket
const ModeSticky = real.ModeSticky
const ModeSymlink = real.ModeSymlink
const ModeTemporary = real.ModeTemporary
const ModeType = real.ModeType

var NewFile = real.NewFile
var NewSyscallError = real.NewSyscallError

const O_APPEND = real.O_APPEND
const O_CREATE = real.O_CREATE
const O_EXCL = real.O_EXCL
const O_RDONLY = real.O_RDONLY
const O_RDWR = real.O_RDWR
const O_SYNC = real.O_SYNC
const O_TRUNC = real.O_TRUNC
const O_WRONLY = real.O_WRONLY

var OpenInRoot = real.OpenInRoot
var OpenRoot = real.OpenRoot

const PathListSeparator = real.PathListSeparator
const PathSeparator = real.PathSeparator

var Pipe = real.Pipe

type ProcAttr = real.ProcAttr
type Process = real.Process
type ProcessState = real.ProcessState

var Readlink = real.Readlink

type Root = real.Root

const SEEK_CUR = real.SEEK_CUR
const SEEK_END = real.SEEK_END
const SEEK_SET = real.SEEK_SET

var StartProcess = real.StartProcess
var Symlink = real.Symlink

type SyscallError = real.SyscallError
