// Generated by gosym -mirror: the rest of the API of archive/tar.

package zz_vtar

import real "archive/tar"

var ErrFieldTooLong = real.ErrFieldTooLong
var ErrHeader = real.ErrHeader
var ErrInsecurePath = real.ErrInsecurePath
var ErrWriteAfterClose = real.ErrWriteAfterClose
var ErrWriteTooLong = real.ErrWriteTooLong
var FileInfoHeader = real.FileInfoHeader

type FileInfoNames = real.FileInfoNames
type Format = real.Format

const FormatGNU = real.FormatGNU
const FormatPAX = real.FormatPAX
const FormatUSTAR = real.FormatUSTAR
const FormatUnknown = real.FormatUnknown
const TypeBlock = real.TypeBlock
const TypeChar = real.TypeChar
const TypeCont = real.TypeCont
const TypeDir = real.TypeDir
const TypeFifo = real.TypeFifo
const TypeGNULongLink = real.TypeGNULongLink
const TypeGNULongName = real.TypeGNULongName
const TypeGNUSparse = real.TypeGNUSparse
const TypeLink = real.TypeLink
const TypeReg = real.TypeReg
const TypeRegA = real.TypeRegA
const TypeSymlink = real.TypeSymlink
const TypeXGlobalHeader = real.TypeXGlobalHeader
const TypeXHeader = real.TypeXHeader
