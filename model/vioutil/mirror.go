// Generated by gosym -mirror: the rest of the API of io/ioutil.

package zz_vioutil

import real "io/ioutil"

var Discard = real.Discard
var NopCloser = real.NopCloser
var ReadAll = real.ReadAll
