// Package ve stands in for the process environment: in the executor it
// answers os.Getenv and os.LookupEnv, natively the variables are really set.
package ve

import (
	"os"

	"github.com/fairDataSociety/FaVe/zz_verif/vx"
)

var env = map[string]string{}

// Set gives the environment variable name a value; Unset removes it.
func Set(name, value string) {
	if vx.Symbolic() {
		env[name] = value
		return
	}
	os.Setenv(name, value)
}

func Unset(name string) {
	if vx.Symbolic() {
		delete(env, name)
		return
	}
	os.Unsetenv(name)
}

func Getenv(name string) string { return env[name] }

func LookupEnv(name string) (string, bool) {
	v, ok := env[name]
	return v, ok
}
