// Generated by gosym -mirror: the rest of the API of archive/zip.

package zz_vzip

import real "archive/zip"

type Compressor = real.Compressor
type Decompressor = real.Decompressor

const Deflate = real.Deflate

var ErrAlgorithm = real.ErrAlgorithm
var ErrChecksum = real.ErrChecksum
var ErrFormat = real.ErrFormat
var ErrInsecurePath = real.ErrInsecurePath
var FileInfoHeader = real.FileInfoHeader
var OpenReader = real.OpenReader
var RegisterCompressor = real.RegisterCompressor
var RegisterDecompressor = real.RegisterDecompressor

const Store = real.Store
