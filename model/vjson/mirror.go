// Generated by gosym -mirror: the rest of the API of encoding/json.

package zz_vjson

import real "encoding/json"

var CallMethodsWithLegacySemantics = real.CallMethodsWithLegacySemantics
var Compact = real.Compact
var DefaultOptionsV1 = real.DefaultOptionsV1

type Delim = real.Delim
type Encoder = real.Encoder

var FormatByteArrayAsArray = real.FormatByteArrayAsArray
var FormatBytesWithLegacySemantics = real.FormatBytesWithLegacySemantics
var FormatDurationAsNano = real.FormatDurationAsNano
var HTMLEscape = real.HTMLEscape
var Indent = real.Indent

type InvalidUTF8Error = real.InvalidUTF8Error
type InvalidUnmarshalError = real.InvalidUnmarshalError

var Marshal = real.Marshal
var MarshalIndent = real.MarshalIndent

type Marshaler = real.Marshaler
type MarshalerError = real.MarshalerError

var MatchCaseSensitiveDelimiter = real.MatchCaseSensitiveDelimiter
var MergeWithLegacySemantics = real.MergeWithLegacySemantics
var NewEncoder = real.NewEncoder

type Number = real.Number

var OmitEmptyWithLegacySemantics = real.OmitEmptyWithLegacySemantics

type Options = real.Options

var ParseBytesWithLooseRFC4648 = real.ParseBytesWithLooseRFC4648
var ParseTimeWithLooseRFC3339 = real.ParseTimeWithLooseRFC3339

type RawMessage = real.RawMessage

var ReportErrorsWithLegacySemantics = real.ReportErrorsWithLegacySemantics
var StringifyWithLegacySemantics = real.StringifyWithLegacySemantics

type SyntaxError = real.SyntaxError
type Token = real.Token

var UnmarshalArrayFromAnyLength = real.UnmarshalArrayFromAnyLength

type UnmarshalFieldError = real.UnmarshalFieldError
type UnmarshalTypeError = real.UnmarshalTypeError
type Unmarshaler = real.Unmarshaler
type UnsupportedTypeError = real.UnsupportedTypeError
type UnsupportedValueError = real.UnsupportedValueError

var Valid = real.Valid
