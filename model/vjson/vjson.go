// Package zz_vjson models the decoder: the harness decides what a document contains.
package zz_vjson

import (
	"errors"
	"io"
	"io/ioutil"
)

// Hook decodes a document in place of the real decoder.
var Hook func(bs []byte, out interface{}) error

// Strict is set while a document is decoded whose unknown keys are refused.
var Strict bool

// Stream is set while a Decoder reads its first value, and no further.
var Stream bool

func Unmarshal(bs []byte, out interface{}) error {
	if Hook == nil {
		return errors.New("json: cannot decode")
	}
	return Hook(bs, out)
}

// Decoder decodes what it reads; there is one value.
type Decoder struct {
	r            io.Reader
	strict, read bool
}

// NewDecoder returns a decoder of what r has.
func NewDecoder(r io.Reader) *Decoder { return &Decoder{r: r} }

// Decode decodes the first value, and fails then.
func (d *Decoder) Decode(out interface{}) error {
	if d.read {
		return io.EOF
	}
	d.read = true
	bs, err := ioutil.ReadAll(d.r)
	if err != nil {
		return err
	}
	if len(bs) == 0 {
		return io.EOF
	}
	Strict, Stream = d.strict, true
	defer func() { Strict, Stream = false, false }()
	return Unmarshal(bs, out)
}

// DisallowUnknownFields has unknown keys refused.
func (d *Decoder) DisallowUnknownFields() { d.strict = true }

// UseNumber matters to interface values only.
func (d *Decoder) UseNumber() {}

// More tells whether there is another element.
func (d *Decoder) More() bool { return !d.read }
