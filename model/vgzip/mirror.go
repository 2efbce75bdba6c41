// Generated by gosym -mirror: the rest of the API of compress/gzip.

package zz_vgzip

import real "compress/gzip"

const BestCompression = real.BestCompression
const BestSpeed = real.BestSpeed
const DefaultCompression = real.DefaultCompression

var ErrChecksum = real.ErrChecksum
var ErrHeader = real.ErrHeader

const HuffmanOnly = real.HuffmanOnly
const NoCompression = real.NoCompression
