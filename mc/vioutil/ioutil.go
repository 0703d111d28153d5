// Package ioutil replaces ioutil.ReadDir.
package ioutil

import (
	"os"

	vos "vmc/vos"
)

func ReadDir(p string) (out []os.FileInfo, err error) {
	es, err := vos.ReadDir(p)
	if err != nil {
		return nil, err
	}
	for _, e := range es {
		fi, err := e.Info()
		if err != nil {
			return nil, err
		}
		out = append(out, fi)
	}
	return
}
