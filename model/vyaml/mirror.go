// Generated by gosym -mirror: the rest of the API of gopkg.in/yaml.v2.

package zz_vyaml

import real "gopkg.in/yaml.v2"

type Encoder = real.Encoder
type IsZeroer = real.IsZeroer
type MapItem = real.MapItem
type MapSlice = real.MapSlice

var Marshal = real.Marshal

type Marshaler = real.Marshaler

var NewEncoder = real.NewEncoder

type TypeError = real.TypeError
type Unmarshaler = real.Unmarshaler
