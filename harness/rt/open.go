package rt

import (
	"errors"
	"plugin"
)

var hotswapOpen func(path string) (*plugin.Plugin, error)

func init() {
	plugin.VerifOpen = func(path string) (*plugin.Plugin, error) {
		if f := hotswapOpen; f != nil {
			return f(path)
		}
		return nil, errors.New("no loader")
	}
}
