// Generated by gosym -mirror: the rest of the API of log/syslog.

package zz_vsyslog

import real "log/syslog"

const LOG_ALERT = real.LOG_ALERT
const LOG_AUTH = real.LOG_AUTH
const LOG_AUTHPRIV = real.LOG_AUTHPRIV
const LOG_CRIT = real.LOG_CRIT
const LOG_CRON = real.LOG_CRON
const LOG_DAEMON = real.LOG_DAEMON
const LOG_DEBUG = real.LOG_DEBUG
const LOG_EMERG = real.LOG_EMERG
const LOG_ERR = real.LOG_ERR
const LOG_FTP = real.LOG_FTP
const LOG_INFO = real.LOG_INFO
const LOG_KERN = real.LOG_KERN
const LOG_LOCAL0 = real.LOG_LOCAL0
const LOG_LOCAL1 = real.LOG_LOCAL1
const LOG_LOCAL2 = real.LOG_LOCAL2
const LOG_LOCAL3 = real.LOG_LOCAL3
const LOG_LOCAL4 = real.LOG_LOCAL4
const LOG_LOCAL5 = real.LOG_LOCAL5
const LOG_LOCAL6 = real.LOG_LOCAL6
const LOG_LOCAL7 = real.LOG_LOCAL7
const LOG_LPR = real.LOG_LPR
const LOG_MAIL = real.LOG_MAIL
const LOG_NEWS = real.LOG_NEWS
const LOG_NOTICE = real.LOG_NOTICE
const LOG_SYSLOG = real.LOG_SYSLOG
const LOG_USER = real.LOG_USER
const LOG_UUCP = real.LOG_UUCP
const LOG_WARNING = real.LOG_WARNING

var NewLogger = real.NewLogger
