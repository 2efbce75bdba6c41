// Package zz_vsyslog records what is sent to the system log.
package zz_vsyslog

import (
	"errors"
	real "log/syslog"

	v "github.com/xtfly/log4g/internal/zz_vrt"
)

type Priority = real.Priority

// Rec is one message received by the daemon.
type Rec struct {
	Sev Priority
	Msg string
	Tag string
}

var (
	Log []Rec
	// DialFails makes New fail.
	DialFails bool
	// Dialed records the priority and tag of each connection.
	Dialed []Rec
	Closed int
)

type Writer struct {
	priority Priority
	tag      string
	closed   bool
}

func New(p Priority, tag string) (*Writer, error) {
	v.Enter()
	defer v.Leave()
	if DialFails {
		return nil, errors.New("Unix syslog delivery error")
	}
	Dialed = append(Dialed, Rec{p, "", tag})
	return &Writer{p, tag, false}, nil
}

func Dial(network, raddr string, p Priority, tag string) (*Writer, error) { return New(p, tag) }

func (w *Writer) send(sev Priority, m string) error {
	v.Enter()
	defer v.Leave()
	// a closed writer reconnects on the next message, like the real one
	Log = append(Log, Rec{sev, m, w.tag})
	return nil
}

func (w *Writer) Write(b []byte) (int, error) { return len(b), w.send(w.priority&7, string(b)) }
func (w *Writer) Emerg(m string) error        { return w.send(real.LOG_EMERG, m) }
func (w *Writer) Alert(m string) error        { return w.send(real.LOG_ALERT, m) }
func (w *Writer) Crit(m string) error         { return w.send(real.LOG_CRIT, m) }
func (w *Writer) Err(m string) error          { return w.send(real.LOG_ERR, m) }
func (w *Writer) Warning(m string) error      { return w.send(real.LOG_WARNING, m) }
func (w *Writer) Notice(m string) error       { return w.send(real.LOG_NOTICE, m) }
func (w *Writer) Info(m string) error         { return w.send(real.LOG_INFO, m) }
func (w *Writer) Debug(m string) error        { return w.send(real.LOG_DEBUG, m) }

func (w *Writer) Close() error {
	v.Enter()
	defer v.Leave()
	if !w.closed {
		w.closed = true
		Closed++
	}
	return nil
}
