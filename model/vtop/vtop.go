// Package vtop gives the harnesses, which are part of package internal, the functions of the package
// users import: the generated main package sets them, as a harness cannot import that package itself.
package vtop

import "github.com/xtfly/log4g/api"

var GetLogger func(name string) api.Logger
var GetManager func() api.Manager
