//go:build !verifhttp

package storedrv

import (
	"errors"

	vs "github.com/fairDataSociety/FaVe/verifx/stack"
)

func newHTTP(env *vs.Env) (target, error) { return nil, errors.New("driver: built without HTTP") }

type errBroken struct{ msg string }

func (e errBroken) Error() string { return e.msg }
