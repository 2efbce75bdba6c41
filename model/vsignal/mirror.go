// Generated by gosym -mirror: the rest of the API of os/signal.

package zz_vsignal

import real "os/signal"

var Ignored = real.Ignored
var NotifyContext = real.NotifyContext
